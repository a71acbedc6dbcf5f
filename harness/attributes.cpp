// C35: what the rest of the compiler asks to the declarations is what is
// written in the source.
#include "ast_walk.h"

using namespace walk;
using syn::Gen;
using syn::Writer;
using tok::Token;

namespace {
T boolean(bool v) { return std::move(T("constant").set("value", V::of(v))); }
T integer(int64_t v) { return std::move(T("constant").set("value", V::ofInt(v))); }

T reference(std::vector<std::string> names, bool global = false) {
  T r("component_reference");
  r.set("dummy", V::of(false)).set("global_lookup", V::of(global));
  std::vector<T> path;
  for (auto &n : names) {
    T e("component_reference_entry");
    e.set("name", V::of(n)).all("subscripts", {});
    path.push_back(std::move(e));
  }
  r.all("path", std::move(path));
  return r;
}

T call(T callee, std::vector<T> args) {
  T t("call");
  t.one("callee", std::move(callee));
  std::vector<T> as;
  for (auto &a : args)
    as.push_back(std::move(T("function_argument_expression").one("expression", std::move(a))));
  t.all("args", std::move(as));
  return t;
}

struct Attributes {
  pbt::G &g;
  Gen &gen;

  T element(const std::string &name, bool modified = true) {
    T t("element_modification");
    t.set("each", V::of(g.chance(35))).set("final", V::of(g.chance(25))).set("name", V::of(name));
    if (modified)
      t.one("modification", T("modification"));
    return t;
  }

  /// The ways of writing a value for 'fixed', some of which have no meaning.
  T arrayOf(int depth, bool v, int noise) {
    T t("array_constant");
    std::vector<T> e;
    for (size_t i = 0, n = g.range(1, 3); i < n; ++i) {
      if (depth > 1)
        e.push_back(arrayOf(depth - 1, v, noise));
      else if (g.chance(noise))
        e.push_back(g.chance(75) ? boolean(!v) : gen.someExpression());
      else
        e.push_back(boolean(v));
    }
    t.all("values", std::move(e));
    return t;
  }

  T fixedValue() {
    bool v = g.chance(60);
    switch (g.weighted({6, 4, 3, 3, 1})) {
    case 0:
      return boolean(v);
    case 1:
      return arrayOf(g.range(1, 3), v, g.chance(60) ? 0 : 30);
    case 2: {
      std::vector<T> args{boolean(v)};
      for (size_t i = 0, n = g.range(1, 2); i < n; ++i)
        args.push_back(integer(g.draw(9)));
      return call(reference({"fill"}), std::move(args));
    }
    case 3:
      return gen.someExpression();
    default: {
      std::vector<T> args;
      for (size_t i = 0, n = g.range(0, 2); i < n; ++i)
        args.push_back(gen.someExpression());
      return call(reference({"fill"}), std::move(args));
    }
    }
  }

  template <class X>
  void shuffle(std::vector<X> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[g.draw(i)]);
  }

  T declaration() {
    T m("modification");
    if (g.chance(85)) {
      T c("class_modification");
      std::vector<std::string> names{"start", "fixed", "min", "max", "unit", "nominal", "Start", "fixed_"};
      shuffle(names);
      names.resize(g.range(0, 5));
      if (g.chance(60) && std::find(names.begin(), names.end(), "start") == names.end())
        names.insert(names.begin() + g.draw(names.size() + 1), "start");
      if (g.chance(40) && std::find(names.begin(), names.end(), "fixed") == names.end())
        names.insert(names.begin() + g.draw(names.size() + 1), "fixed");
      std::vector<T> es;
      for (auto &n : names) {
        T e = element(n, g.chance(92));
        if (e.has("modification")) {
          T &x = e.kid("modification");
          bool nested = g.chance(12);
          if (nested)
            x.one("class_modification", gen.classModification());
          if (!nested || g.chance(60))
            x.one("expression", n == "fixed" ? fixedValue() : gen.someExpression());
        }
        es.push_back(std::move(e));
      }
      c.all("arguments", std::move(es));
      m.one("class_modification", std::move(c));
    }
    if (!m.has("class_modification") || g.chance(40))
      m.one("expression", gen.someExpression());
    return m;
  }

  std::vector<std::string> path() {
    std::vector<std::string> p;
    for (size_t i = 0, n = g.range(1, 3); i < n; ++i)
      p.push_back(gen.name());
    return p;
  }

  T functionAnnotation() {
    T c("class_modification");
    std::vector<T> es;
    if (g.chance(60)) {
      static const std::vector<std::string> n{"inline", "Inline", "INLINE"};
      T e = element(g.pick(n), g.chance(92));
      if (e.has("modification")) {
        if (g.chance(10))
          e.kid("modification").one("class_modification", gen.classModification());
        else
          e.kid("modification").one("expression", g.chance(80) ? boolean(g.chance(60)) : gen.someExpression());
      }
      es.push_back(std::move(e));
    }
    if (g.chance(50)) {
      T e = element("derivative", g.chance(92));
      if (e.has("modification")) {
        T &x = e.kid("modification");
        bool nested = g.chance(60);
        if (nested) {
          T d("class_modification");
          std::vector<std::string> names{"order", "noDerivative", "zeroDerivative", "Order"};
          shuffle(names);
          names.resize(g.range(0, 4));
          std::vector<T> ds;
          for (auto &n : names) {
            T k = element(n);
            k.kid("modification").one("expression", n == "order" ? integer(1 + g.draw(5)) : gen.someExpression());
            ds.push_back(std::move(k));
          }
          d.all("arguments", std::move(ds));
          x.one("class_modification", std::move(d));
        }
        if (g.chance(90))
          x.one("expression", g.chance(90) ? ::reference(path(), g.chance(15)) : gen.someExpression());
        else if (!nested)
          x.one("expression", gen.someExpression());
      }
      es.push_back(std::move(e));
    }
    if (g.chance(50)) {
      T e = element(g.chance(50) ? "inverse" : "Inverse", g.chance(92));
      if (e.has("modification")) {
        T &x = e.kid("modification");
        if (g.chance(92)) {
          T d("class_modification");
          std::vector<T> ds;
          std::set<std::string> used;
          for (size_t i = 0, n = g.range(0, 3); i < n; ++i) {
            std::string arg = gen.name();
            if (!used.insert(arg).second)
              continue;
            T k = element(arg, g.chance(95));
            if (k.has("modification")) {
              std::vector<T> args;
              for (size_t j = 0, m = g.range(0, 3); j < m; ++j)
                args.push_back(::reference(path()));
              k.kid("modification").one("expression", g.chance(92) ? call(::reference(path()), std::move(args)) : gen.someExpression());
            }
            ds.push_back(std::move(k));
          }
          d.all("arguments", std::move(ds));
          x.one("class_modification", std::move(d));
        } else {
          x.one("expression", gen.someExpression());
        }
      }
      es.push_back(std::move(e));
    }
    for (const char *n : {"smoothOrder", "Library", "derivative_"})
      if (g.chance(25)) {
        T e = element(n);
        e.kid("modification").one("expression", gen.someExpression());
        es.push_back(std::move(e));
      }
    shuffle(es);
    c.all("arguments", std::move(es));
    return std::move(T("annotation").one("properties", std::move(c)));
  }

  void fill(T &t) {
    for (auto &gr : t.groups)
      for (auto &k : gr.second.kids)
        fill(k);
    if (t.kind == "member" && g.chance(75)) {
      t.groups.erase("modification");
      t.one("modification", declaration());
    }
    if (t.kind == "standard_function" && g.chance(75)) {
      t.groups.erase("annotation");
      t.one("annotation", functionAnnotation());
    }
  }
};

// --- what the tree says, from the written elements only

const T *argument(const T *cls, const std::string &name, bool anyCase = false) {
  if (cls)
    for (auto &e : cls->groups.at("arguments").kids)
      if (e.kind == "element_modification" &&
          (anyCase ? llvm::StringRef(e.str("name")).equals_insensitive(name) : e.str("name") == name))
        return &e;
  return nullptr;
}
const T *kidOf(const T *t, const char *n) { return t && t->has(n) ? &t->kid(n) : nullptr; }
const T *expressionOf(const T *element) { return kidOf(kidOf(element, "modification"), "expression"); }

enum class Answer { No, Yes, Unknown, Any };

bool isBool(const T &t, bool &v) {
  if (t.kind != "constant" || t.props.at("value").type != 'b')
    return false;
  v = t.flag("value");
  return true;
}

Answer elements(const T &t) {
  Answer r = Answer::Any;
  for (auto &k : t.groups.at("values").kids) {
    bool v;
    Answer a;
    if (k.kind == "array_constant")
      a = elements(k);
    else if (k.kind == "constant")
      a = !isBool(k, v) ? Answer::Any : v ? Answer::Yes : Answer::No;
    else
      a = Answer::Unknown;
    if (a == Answer::Any)
      return a; // meaningless
    if (a == Answer::Unknown || (r != Answer::Any && r != a))
      r = Answer::Unknown;
    else if (r == Answer::Any)
      r = a;
  }
  return r;
}

bool meaningless(const T &t) {
  if (t.kind == "constant")
    return t.props.at("value").type != 'b';
  if (t.kind == "array_constant")
    for (auto &k : t.groups.at("values").kids)
      if (meaningless(k))
        return true;
  return false;
}

Answer fixedOf(const T *cls) {
  const T *x = expressionOf(argument(cls, "fixed"));
  if (!x)
    return Answer::No;
  bool v;
  if (meaningless(*x))
    return Answer::Any;
  if (isBool(*x, v))
    return v ? Answer::Yes : Answer::No;
  if (x->kind == "array_constant")
    return elements(*x);
  if (x->kind == "call") {
    const T &c = x->kid("callee");
    if (c.kind == "component_reference" && !c.flag("global_lookup") && c.groups.at("path").kids.size() == 1 &&
        c.kid("path").str("name") == "fill" && !c.kid("path").has("subscripts") && x->has("args") &&
        x->kid("args").kind == "function_argument_expression") {
      const T &e = x->kid("args").kid("expression");
      if (isBool(e, v))
        return v ? Answer::Yes : Answer::No;
      return e.kind == "constant" ? Answer::Any : Answer::Unknown;
    }
    if (c.kind == "component_reference" && c.groups.at("path").kids.size() == 1 && c.kid("path").str("name") == "fill")
      return Answer::Any;
  }
  return Answer::Unknown;
}

bool pathOf(const T &t, std::string &name) {
  if (t.kind != "component_reference" || t.flag("dummy"))
    return false;
  name = t.flag("global_lookup") ? "." : "";
  bool first = true;
  for (auto &e : t.groups.at("path").kids) {
    name += (first ? "" : ".") + e.str("name");
    first = false;
  }
  return true;
}

bool assignable(const T &t) {
  return t.kind == "component_reference" ||
         (t.kind == "operation" && t.str("operation_kind") == "subscription" && assignable(t.kid("args")));
}

struct Checker {
  pbt::G &g;
  size_t declarations = 0, annotations = 0;

  static std::string sameType(const VariableType *v, const T &t) {
    Walker w;
    T r = w.read(v, nullptr);
    T x = t;
    return syn::difference(x, r, true);
  }

  void member(const T &t, Member *m, bool copied) {
    const T &px = t.kid("type_prefix");
    std::string n = "'" + t.str("name") + (copied ? "' (copied)" : "'");
    PBT_REQUIRE(g, m->getName() == t.str("name"), "name of " << n);
    PBT_REQUIRE(g, m->isPublic() == t.flag("public"), "visibility of " << n);
    PBT_REQUIRE(g, m->isDiscrete() == (px.str("variability") == "discrete") && m->isParameter() == (px.str("variability") == "parameter") &&
                       m->isConstant() == (px.str("variability") == "constant"),
                "variability of " << n);
    PBT_REQUIRE(g, m->isInput() == (px.str("io") == "input") && m->isOutput() == (px.str("io") == "output"), "causality of " << n);
    const T *mod = kidOf(&t, "modification"), *cls = kidOf(mod, "class_modification"), *value = kidOf(mod, "expression");
    const Member *c = m;
    PBT_REQUIRE(g, m->hasExpression() == (value != nullptr), "presence of the value of " << n);
    if (value)
      same(m->getExpression(), c->getExpression(), *value, copied, "value of " + n);
    const T *start = argument(cls, "start"), *startValue = expressionOf(start);
    PBT_REQUIRE(g, m->hasStartExpression() == (startValue != nullptr), "presence of the start value of " << n);
    if (startValue)
      same(m->getStartExpression(), c->getStartExpression(), *startValue, copied, "start value of " + n);
    if (startValue)
      PBT_REQUIRE(g, m->getEachProperty() == start->flag("each"),
                  "the start value of " << n << (start->flag("each") ? " holds for each element" : " is not marked with 'each'"));
    auto fixed = m->getFixedProperty();
    switch (fixedOf(cls)) {
    case Answer::Yes:
      PBT_REQUIRE(g, fixed && *fixed, n << " is fixed");
      break;
    case Answer::No:
      PBT_REQUIRE(g, fixed && !*fixed, n << " is not fixed");
      break;
    case Answer::Unknown:
      PBT_REQUIRE(g, !fixed, "whether " << n << " is fixed is not a single value known before run time");
      break;
    default:
      break;
    }
    if (cls && cls->groups.at("arguments").kids.size() > 1 && (startValue || argument(cls, "fixed")))
      ++declarations;

    // Type.
    const T &ty = t.kid("type");
    const auto &dims = ty.groups.at("dimensions").kids;
    VariableType *v = m->getType();
    PBT_REQUIRE(g, v->getRank() == dims.size() && v->isScalar() == dims.empty(), "rank of " << n);
    bool constant = true;
    for (size_t i = 0; i < dims.size(); ++i) {
      bool known = dims[i].props.count("size") && dims[i].props.at("size").i >= 0;
      constant &= known;
      PBT_REQUIRE(g, (*v)[i]->isDynamic() == !known, "dimension " << i << " of " << n);
      if (known)
        PBT_REQUIRE(g, (*v)[i]->getNumericSize() == dims[i].props.at("size").i, "dimension " << i << " of " << n);
    }
    PBT_REQUIRE(g, v->hasConstantShape() == constant, "whether the shape of " << n << " is constant");
    if (auto *b = v->dyn_cast<BuiltInType>())
      PBT_REQUIRE(g, b->isNumeric() == (ty.str("type") != "String"), "numeric type of " << n);
    size_t times = g.draw(dims.size() + 1);
    auto sub = v->subscript(times);
    T expected = ty;
    auto &left = expected.groups["dimensions"].kids;
    left.erase(left.begin(), left.begin() + times);
    std::string d = sameType(sub->cast<VariableType>(), expected);
    PBT_REQUIRE(g, d.empty(), "type of " << n << " with " << times << " subscripts: " << d);
    d = sameType(v, ty);
    PBT_REQUIRE(g, d.empty(), "type of " << n << " after being subscripted: " << d);
  }

  void same(Expression *x, const Expression *y, const T &t, bool copied, const std::string &what) {
    PBT_REQUIRE(g, x == y, what << ": different expressions");
    if (!copied) {
      PBT_REQUIRE(g, (const void *)x == t.node, what << ": another expression");
      return;
    }
    Walker w;
    T r = w.read(x, nullptr);
    std::string d = syn::difference(t, r, true);
    PBT_REQUIRE(g, d.empty(), what << ": " << d);
  }

  void function(const T &t, StandardFunction *f) {
    std::string n = "'" + t.str("name") + "'";
    PBT_REQUIRE(g, f->isPure() == t.flag("pure"), "purity of " << n);
    std::vector<const T *> in, out;
    for (auto &m : t.groups.at("variables").kids) {
      if (m.kid("type_prefix").str("io") == "input")
        in.push_back(&m.kid("type"));
      if (m.kid("type_prefix").str("io") == "output")
        out.push_back(&m.kid("type"));
    }
    auto type = f->getType();
    PBT_REQUIRE(g, type.getNumOfArgs() == in.size() && type.getNumOfResults() == out.size(), "number of arguments and results of " << n);
    for (size_t i = 0; i < in.size(); ++i) {
      std::string d = sameType(type.getArg(i), *in[i]);
      PBT_REQUIRE(g, d.empty(), "argument " << i << " of " << n << ": " << d);
    }
    for (size_t i = 0; i < out.size(); ++i) {
      std::string d = sameType(type.getResult(i), *out[i]);
      PBT_REQUIRE(g, d.empty(), "result " << i << " of " << n << ": " << d);
    }
    const T *cls = kidOf(kidOf(&t, "annotation"), "properties");
    const T *in1 = argument(cls, "inline", true), *value = expressionOf(in1);
    bool v, inlined = f->shouldBeInlined();
    if (!in1)
      PBT_REQUIRE(g, !inlined, n << " is not to be inlined");
    else if (value && isBool(*value, v))
      PBT_REQUIRE(g, inlined == v, n << (v ? " is to be inlined" : " is not to be inlined"));
    if (!cls)
      return;
    Annotation *a = f->getAnnotation();
    const T *der = argument(cls, "derivative"), *derValue = expressionOf(der);
    std::string name;
    bool known = derValue && pathOf(*derValue, name);
    PBT_REQUIRE(g, a->hasDerivativeAnnotation() == known, "presence of the derivative of " << n);
    if (known) {
      auto x = a->getDerivativeAnnotation();
      int64_t order = 1;
      if (const T *o = expressionOf(argument(kidOf(kidOf(der, "modification"), "class_modification"), "order")))
        order = o->props.at("value").i;
      PBT_REQUIRE(g, x.getName() == name, "derivative of " << n << ": " << x.getName().str() << " instead of " << name);
      PBT_REQUIRE(g, x.getOrder() == order, "order of the derivative of " << n << ": " << x.getOrder() << " instead of " << order);
    }
    // Inverse functions.
    auto inverse = a->getInverseFunctionAnnotation();
    const T *inv = kidOf(kidOf(argument(cls, "inverse", true), "modification"), "class_modification");
    std::set<std::string> others{"x", "y", "z", "absent"};
    for (auto &m : t.groups.at("variables").kids)
      others.insert(m.str("name"));
    if (inv)
      for (auto &e : inv->groups.at("arguments").kids) {
        others.erase(e.str("name"));
        std::string arg = e.str("name"), callee, p;
        const T *x = expressionOf(&e);
        bool good = x && x->kind == "call" && pathOf(x->kid("callee"), callee);
        std::vector<std::string> args;
        if (good)
          for (auto &k : x->groups.at("args").kids) {
            if (k.kind == "function_argument_expression" && pathOf(k.kid("expression"), p))
              args.push_back(p);
            else
              good = false;
          }
        PBT_REQUIRE(g, inverse.isInvertible(arg) == good, "inverse of " << n << " with respect to '" << arg << "'");
        if (!good)
          continue;
        PBT_REQUIRE(g, inverse.getInverseFunction(arg) == callee, "inverse function with respect to '" << arg << "'");
        auto got = inverse.getInverseArgs(arg);
        PBT_REQUIRE(g, std::vector<std::string>(got.begin(), got.end()) == args, "arguments of the inverse function with respect to '" << arg << "'");
      }
    for (auto &o : others)
      PBT_REQUIRE(g, !inverse.isInvertible(o), n << " has no inverse with respect to '" << o << "'");
    if (cls->groups.at("arguments").kids.size() > 1 && (in1 || der || inv))
      ++annotations;
  }

  /// Constants read as other types.
  void constant(const T &t, Constant *c) {
    auto &v = t.props.at("value");
    std::string s = c->as<std::string>();
    switch (v.type) {
    case 'b':
      PBT_REQUIRE(g, c->as<bool>() == v.b && c->as<int64_t>() == v.b && c->as<double>() == v.b && s == (v.b ? "true" : "false"), "conversion of a boolean");
      break;
    case 'i':
      PBT_REQUIRE(g, c->as<bool>() == (v.i != 0) && c->as<int64_t>() == v.i && c->as<double>() == (double)v.i && s == std::to_string(v.i), "conversion of an integer");
      break;
    case 'd':
      PBT_REQUIRE(g, c->as<double>() == v.d && std::abs(strtod(s.c_str(), nullptr) - v.d) <= 1e-6 * (1 + std::abs(v.d)), "conversion of a real");
      if (std::abs(v.d) < 9e18)
        PBT_REQUIRE(g, c->as<int64_t>() == (int64_t)v.d, "conversion of a real to an integer");
      PBT_REQUIRE(g, c->as<bool>() == (v.d != 0), "conversion of a real to a boolean");
      break;
    default:
      PBT_REQUIRE(g, s == v.s, "text of a string");
    }
  }

  void visit(const T &t, const Class *parent) {
    Node *n = const_cast<Node *>((const Node *)t.node);
    if (n) {
      if (t.kind == "member") {
        member(t, n->cast<Member>(), false);
        if (g.chance(30)) {
          auto copy = n->clone();
          member(t, copy->cast<Member>(), true);
        }
      }
      if (t.kind == "standard_function")
        function(t, n->cast<StandardFunction>());
      if (t.kind == "constant")
        constant(t, n->cast<Constant>());
      if (t.kind == "component_reference") {
        std::string name;
        if (pathOf(t, name))
          PBT_REQUIRE(g, n->cast<ComponentReference>()->getName() == name, "name of a reference: " << n->cast<ComponentReference>()->getName() << " instead of " << name);
      }
      if (t.kind != "subscript")
        if (auto *e = n->dyn_cast<Expression>())
          PBT_REQUIRE(g, e->isLValue() == assignable(t), (assignable(t) ? "can be assigned: " : "can not be assigned: ") << t.kind);
      if (auto *c = n->dyn_cast<Class>())
        parent = c;
    }
    for (auto &gr : t.groups)
      for (auto &k : gr.second.kids)
        visit(k, parent);
  }
};
} // namespace

PBT_PROP("C35", queries, 12000, 300000, "some declaration or annotation has two or more attributes, among them one the compiler uses") {
  Gen gen(g, g.range(8, 70));
  T model = gen.root();
  Attributes{g, gen}.fill(model);
  Writer w(g);
  w.root(model);
  std::string text;
  std::vector<tok::Pos> at;
  tok::layout(g, w.out, text, at);
  g.log << text << "\n";
  Parsing p(text);
  std::string errors;
  for (auto &d : p.diags.errors)
    errors += d.message + "; ";
  PBT_REQUIRE(g, p.root && errors.empty(), "rejected: " << errors);
  Walker r;
  T tree = r.read(p.root.get(), nullptr);
  Checker c{g};
  c.visit(tree, nullptr);
  if (c.declarations || c.annotations)
    g.nontrivial();
  if (c.declarations)
    g.label("declaration");
  if (c.annotations)
    g.label("annotation");
}
