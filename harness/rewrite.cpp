// Rewriting of equations: the new equations have the solutions of the old ones.
#include "functions.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationAccessSplit.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.h"
#include "marco/Dialect/BaseModelica/Transforms/ScalarRangesEquationSplit.h"
#include "marco/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.h"
#include "marco/Dialect/BaseModelica/Transforms/ViewAccessFolding.h"

using namespace bm;
using pbt::G;

namespace {
mlir::MLIRContext &context() {
  auto &ctx = ir::context<d::BaseModelicaDialect>();
  static mlir::MLIRContext *last = nullptr;
  if (last != &ctx || !mlir::isa<d::ConstantMaterializableTypeInterface>(mlir::Type(d::RealType::get(&ctx)))) {
    mlir::DialectRegistry r;
    d::registerClassInterfaceExternalModels(r);
    d::registerConstantMaterializableTypeInterfaceExternalModels(r);
    d::registerEquationExpressionOpInterfaceExternalModels(r);
    d::registerInvertibleOpInterfaceExternalModels(r);
    ctx.appendDialectRegistry(r);
  }
  last = &ctx;
  return ctx;
}

using Point = std::vector<int64_t>;
constexpr int64_t kSize = 9; // of all the dimensions of the arrays

/// A subscript: constant, or factor * induction + offset.
struct Sub {
  int ind = -1;
  int64_t factor = 1, offset = 0;
  int64_t at(const Point &p) const { return ind < 0 ? offset : factor * p[ind] + offset; }
};
using Subs = std::vector<Sub>;

Point at(const Subs &s, const Point &p) {
  Point r;
  for (const Sub &x : s)
    r.push_back(x.at(p));
  return r;
}

using Box = std::vector<std::pair<int64_t, int64_t>>;

std::vector<Point> points(const Box &b) {
  std::vector<Point> r{{}};
  for (auto [lo, hi] : b) {
    std::vector<Point> next;
    for (auto &p : r)
      for (int64_t k = lo; k <= hi; ++k) {
        next.push_back(p);
        next.back().push_back(k);
      }
    r = next;
  }
  return r;
}

std::string text(const Point &p) {
  std::string s = "(";
  for (size_t k = 0; k < p.size(); ++k)
    s += (k ? ", " : "") + std::to_string(p[k]);
  return s + ")";
}

std::string text(const Box &b) {
  std::string s;
  for (auto [lo, hi] : b)
    s += "[" + std::to_string(lo) + "," + std::to_string(hi) + "]";
  return s;
}

/// The set of points, as boxes of one point.
std::string setOf(const std::set<Point> &s) {
  std::string r = "{";
  for (auto &p : s) {
    Box b;
    for (int64_t k : p)
      b.emplace_back(k, k);
    r += (r.size() > 1 ? ", " : "") + text(b);
  }
  return r + "}";
}

using Vars = std::map<std::string, Val>;

/// Writes one equation.
struct Eq {
  struct Value {
    std::string name;
    char type; // r, i, x (index)
  };

  G &g;
  std::ostringstream os;
  int next = 0;
  int inds;
  bool ints; // a has integer elements
  bool nonlinear = false; // x is not under invertible operations only
  bool zeros = true;      // zero constants and factors which may be null
  bool deep = false;      // x is multiplied by expressions
  std::string varX = "x"; // the matched variable
  int rankX = 0;
  std::function<Subs(bool own)> subsX;  // subscripts of x: its own or others
  std::vector<std::pair<Subs, std::string>> shared;
  std::vector<Subs> written; // the accesses to x
  std::string indent = "        ";

  Eq(G &g, int inds, bool ints) : g(g), inds(inds), ints(ints) {}

  static const char *typeName(char t) { return t == 'r' ? "!bmodelica.real" : t == 'i' ? "!bmodelica.int" : "index"; }

  Value op(const char *name, std::vector<Value> args, char type) {
    Value v{"%" + std::to_string(next++), type};
    os << indent << v.name << " = bmodelica." << name << " ";
    for (size_t k = 0; k < args.size(); ++k)
      os << (k ? ", " : "") << args[k].name;
    os << " : ";
    if (args.size() == 1) {
      os << typeName(args[0].type);
    } else {
      os << "(";
      for (size_t k = 0; k < args.size(); ++k)
        os << (k ? ", " : "") << typeName(args[k].type);
      os << ")";
    }
    os << " -> " << typeName(type) << "\n";
    g.label(name);
    return v;
  }

  Value real(double v) {
    Value r{"%" + std::to_string(next++), 'r'};
    std::ostringstream t;
    if (v == 0 && !zeros)
      v = 1.25;
    t << std::showpoint << v;
    os << indent << r.name << " = bmodelica.constant #bmodelica<real " << t.str() << ">\n";
    return r;
  }
  Value integer(int64_t v) {
    Value r{"%" + std::to_string(next++), 'i'};
    if (v == 0 && !zeros)
      v = 2;
    os << indent << r.name << " = bmodelica.constant #bmodelica<int " << v << ">\n";
    return r;
  }
  Value index(int64_t v) {
    Value r{"%" + std::to_string(next++), 'x'};
    os << indent << r.name << " = bmodelica.constant " << v << " : index\n";
    return r;
  }

  Value sub(const Sub &s) {
    if (s.ind < 0)
      return index(s.offset);
    Value v{"%i" + std::to_string(s.ind), 'x'};
    if (s.factor == -1)
      return op("sub", {index(s.offset), v}, 'x');
    if (s.factor != 1)
      v = g.chance(50) ? op("mul", {index(s.factor), v}, 'x') : op("mul", {v, index(s.factor)}, 'x');
    if (s.offset == 0 && !g.chance(20))
      return v;
    if (s.offset < 0 && g.chance(50))
      return op("sub", {v, index(-s.offset)}, 'x');
    return g.chance(50) ? op("add", {v, index(s.offset)}, 'x') : op("add", {index(s.offset), v}, 'x');
  }

  Value access(const std::string &var, char element, const Subs &subs) {
    if (subs.empty()) {
      Value r{"%" + std::to_string(next++), element};
      os << indent << r.name << " = bmodelica.variable_get @" << var << " : " << typeName(element) << "\n";
      return r;
    }
    std::vector<std::string> names;
    for (auto &s : subs)
      names.push_back(sub(s).name);
    std::string all = "%" + std::to_string(next++);
    auto type = [&](size_t rank) {
      std::string t = "tensor<";
      for (size_t k = 0; k < rank; ++k)
        t += std::to_string(kSize) + "x";
      return t + typeName(element) + ">";
    };
    os << indent << all << " = bmodelica.variable_get @" << var << " : " << type(subs.size()) << "\n";
    // The subscripts are given at once or in two steps.
    size_t rank = subs.size();
    if (rank == 2 && g.chance(20)) {
      std::string part = "%" + std::to_string(next++);
      os << indent << part << " = bmodelica.tensor_view " << all << "[" << names[0] << "] : " << type(2) << ", index -> "
         << type(1) << "\n";
      all = part;
      names.erase(names.begin());
      rank = 1;
      g.label("partial view");
    }
    Value r{"%" + std::to_string(next++), element};
    os << indent << r.name << " = bmodelica.tensor_extract " << all << "[";
    for (size_t k = 0; k < names.size(); ++k)
      os << (k ? ", " : "") << names[k];
    os << "] : " << type(rank) << "\n";
    return r;
  }

  /// Any subscript within the arrays; the inductions are in [0, 3].
  Sub anySub() {
    Sub s;
    if (inds > 0 && g.chance(70)) {
      s.ind = g.draw(inds);
      if (g.chance(10)) {
        s.factor = -1;
        s.offset = g.range(3, 8);
      } else if (g.chance(10)) {
        s.factor = 2;
        s.offset = g.range(0, 2);
      } else {
        s.offset = g.range(0, 5);
      }
    } else {
      s.offset = g.range(0, 8);
    }
    return s;
  }

  Value other(int depth) {
    if (depth <= 0 || g.chance(35)) {
      switch (g.weighted({3, 3, 2, 2, 1, 1, 1, 1})) {
      case 0: return access("a", ints ? 'i' : 'r', {anySub()});
      case 1: return access("s", 'r', {});
      case 2: return real(double(g.around(-8, 8)) / 2 + (g.chance(10) ? 0 : 0.25));
      case 3: return access("b", 'r', {anySub(), anySub()});
      case 4: return access("p", 'r', {});
      case 5: return integer(g.around(-3, 3));
      case 6:
        if (subsX) {
          Subs s = subsX(false);
          if (s.size() || rankX == 0)
            if (!s.empty()) {
              written.push_back(s);
              return access(varX, 'r', s);
            }
        }
        return access("s", 'r', {});
      default:
        if (!zeros)
          return access("p", 'r', {});
        if (inds > 0 && g.chance(50))
          return {"%i" + std::to_string(g.draw(inds)), 'x'};
        if (inds > 0)
          return op("cast", {{"%i" + std::to_string(g.draw(inds)), 'x'}}, g.chance(50) ? 'i' : 'r');
        return access("s", 'r', {});
      }
    }
    switch (g.weighted({3, 3, 3, 2, 2, 1, 1})) {
    case 0: return binary("add", other(depth - 1), other(depth - 1));
    case 1: return binary("sub", other(depth - 1), other(depth - 1));
    case 2: return binary("mul", other(depth - 1), other(depth - 1));
    case 3: return binary("div", other(depth - 1), other(depth - 1));
    case 4: return neg(other(depth - 1));
    case 5: return op("sin", {other(depth - 1)}, 'r');
    default: return binary("pow", binary("mul", real(0.5), other(0)), integer(2));
    }
  }

  Value neg(Value v) { return op("neg", {v}, v.type); }
  Value binary(const char *name, Value a, Value b) {
    std::string n = name;
    bool real = a.type == 'r' || b.type == 'r' || n == "div" || n == "pow";
    std::string full = n;
    if (n != "pow" && g.chance(7)) {
      full += "_ew";
      deep = true;
    }
    return op(full.c_str(), {a, b}, real ? 'r' : a.type == 'x' && b.type == 'x' ? 'x' : 'i');
  }

  /// An expression with `count` accesses to x.
  Value with(int count, int depth) {
    if (count == 0)
      return other(depth);
    if (count == 1 && (depth <= 0 || g.chance(30))) {
      Subs s = subsX(true);
      written.push_back(s);
      if (g.chance(30))
        for (auto &[subs, name] : shared)
          if (at(subs, {100, 1000}) == at(s, {100, 1000}) && subs.size() == s.size()) {
            g.label("shared access");
            return {name, 'r'};
          }
      Value v = access(varX, 'r', s);
      shared.emplace_back(s, v.name);
      return v;
    }
    if (count > 1 && depth < -2)
      return binary("add", with(1, 0), with(count - 1, 0));
    int left = g.range(0, count);
    switch (g.weighted({4, 4, 3, 2, 2, 1})) {
    case 0: return binary("add", with(left, depth - 1), with(count - left, depth - 1));
    case 1: return binary("sub", with(left, depth - 1), with(count - left, depth - 1));
    case 2: {
      bool deeper = zeros && depth > 1 && g.chance(40);
      deep |= deeper;
      int d = deeper ? depth - 1 : 0;
      if (g.chance(50))
        return binary("mul", with(count, depth - 1), other(d));
      return binary("mul", other(d), with(count, depth - 1));
    }
    case 3: {
      if (g.chance(25)) {
        if (count > 1)
          nonlinear = true;
        deep = true;
        return binary("div", other(depth - 1), with(count, depth - 1));
      }
      bool deeper = zeros && depth > 1 && g.chance(40);
      deep |= deeper;
      return binary("div", with(count, depth - 1), other(deeper ? depth - 1 : 0));
    }
    case 4: return neg(with(count, depth - 1));
    default:
      if (g.chance(70))
        return with(count, depth - 1);
      nonlinear = true;
      if (g.chance(50))
        return op("sin", {with(count, depth - 1)}, 'r');
      if (count == 1)
        return binary("pow", with(1, depth - 1), integer(2));
      return binary("mul", with(1, depth - 1), with(count - 1, depth - 1));
    }
  }

  std::string finish(const std::string &name, Value l, Value r) {
    std::string ls = "%" + std::to_string(next++), rs = "%" + std::to_string(next++);
    std::string lt = std::string("tuple<") + typeName(l.type) + ">", rt = std::string("tuple<") + typeName(r.type) + ">";
    std::ostringstream t;
    t << "    %" << name << " = bmodelica.equation_template inductions = [";
    for (int k = 0; k < inds; ++k)
      t << (k ? ", %i" : "%i") << k;
    t << "] {\n" << os.str();
    bool swapped = g.chance(20);
    auto left = [&] { t << indent << ls << " = bmodelica.equation_side " << l.name << " : " << lt << "\n"; };
    auto right = [&] { t << indent << rs << " = bmodelica.equation_side " << r.name << " : " << rt << "\n"; };
    if (swapped)
      right();
    left();
    if (!swapped)
      right();
    t << indent << "bmodelica.equation_sides " << ls << ", " << rs << " : " << lt << ", " << rt << "\n    }\n";
    return t.str();
  }
};

std::string declarations(int rankX, bool ints) {
  std::string t = "    bmodelica.variable @x : !bmodelica.variable<";
  for (int k = 0; k < rankX; ++k)
    t += "9x";
  t += "!bmodelica.real>\n";
  t += std::string("    bmodelica.variable @a : !bmodelica.variable<9x") + (ints ? "!bmodelica.int" : "!bmodelica.real") + ">\n";
  t += "    bmodelica.variable @b : !bmodelica.variable<9x9x!bmodelica.real>\n"
       "    bmodelica.variable @s : !bmodelica.variable<!bmodelica.real>\n"
       "    bmodelica.variable @p : !bmodelica.variable<!bmodelica.real, parameter>\n";
  return t;
}

std::string instance(const std::string &tmpl, const std::set<Point> &indices, const std::set<Point> &match,
                     const std::string &var = "x") {
  std::string t = "        bmodelica.equation_instance %" + tmpl;
  if (!indices.empty() && !indices.begin()->empty())
    t += ", indices = " + setOf(indices);
  if (!match.empty() && !match.begin()->empty())
    t += ", match = <@" + var + ", " + setOf(match) + ">";
  else
    t += ", match = @" + var;
  return t + "\n";
}

Vars values(G &g, int rankX, bool ints) {
  auto real = [&] {
    double v = double(g.range(30, 300)) / 100 + 0.00317;
    return Val::ofReal(g.chance(40) ? -v : v);
  };
  auto fill = [&](int rank, bool integers) {
    if (rank == 0)
      return real();
    std::vector<int64_t> shape(rank, kSize);
    std::vector<Val> el;
    for (int64_t k = 0, n = rank == 1 ? kSize : kSize * kSize; k < n; ++k)
      el.push_back(integers ? Val::ofInt(g.range(1, 3)) : k < 20 ? real() : Val::ofReal(el[k - 20].r + 0.125 * double(k)));
    return tensor(shape, el);
  };
  return {{"x", fill(rankX, false)}, {"a", fill(1, ints)}, {"b", fill(2, false)}, {"s", real()}, {"p", real()}};
}

Val &element(Val &v, const Point &p) {
  if (p.empty())
    return v;
  size_t pos = 0;
  for (int64_t k : p)
    pos = pos * kSize + k;
  return v.el[pos];
}

struct Sides {
  Val left, right;
  double biggest = 0; // of the absolute values met
};

/// Values of the sides of an equation; nothing if they are not defined.
std::optional<Sides> evaluate(G &g, mlir::ModuleOp m, d::EquationTemplateOp t, const Point &p, const Vars &vars) {
  Machine machine(m);
  Machine::Frame f(machine);
  f.vars = vars;
  auto inds = t.getInductionVariables();
  if (inds.size() != p.size())
    g.fail("number of inductions\n" + ir::print(m));
  for (size_t k = 0; k < p.size(); ++k)
    f.in.env[inds[k]] = Val::ofInt(p[k]);
  Sides r;
  for (mlir::Operation &op : *t.getBody()) {
    if (mlir::isa<d::EquationSideOp>(op))
      continue;
    if (auto sides = mlir::dyn_cast<d::EquationSidesOp>(op)) {
      r.left = f.in.get(sides.getLhsValues()[0]);
      r.right = f.in.get(sides.getRhsValues()[0]);
      break;
    }
    f.exec(&op);
    for (mlir::Value v : op.getResults()) {
      Val x = f.in.get(v);
      if (x.scalar())
        r.biggest = std::max(r.biggest, std::fabs(x.num()));
    }
  }
  if (!f.in.unknown.empty() || !machine.unknown.empty())
    g.fail("unknown operation " + f.in.unknown + machine.unknown + "\n" + ir::print(m, true));
  if (!r.left.scalar() || !r.right.scalar())
    return std::nullopt;
  // Integer and real sides are compared by their values.
  r.left = Val::ofReal(r.left.num());
  r.right = Val::ofReal(r.right.num());
  return r;
}

ir::ModuleRef load(G &g, const std::string &text) {
  auto &ctx = context();
  ir::Diagnostics diags(&ctx);
  ir::ModuleRef m = ir::parse(ctx, text);
  if (!m || mlir::failed(mlir::verify(*m)))
    g.fail("the model is not accepted" + diags.text() + "\n" + text);
  return m;
}

std::vector<d::EquationInstanceOp> instances(mlir::ModuleOp m) {
  std::vector<d::EquationInstanceOp> r;
  m->walk([&](d::EquationInstanceOp op) { r.push_back(op); });
  return r;
}

/// Injective subscripts of x over the inductions.
Subs injective(G &g, int inds, int rank, int maxOffset) {
  std::vector<int> order;
  for (int k = 0; k < inds; ++k)
    order.push_back(k);
  if (inds == 2 && g.chance(40))
    std::swap(order[0], order[1]);
  Subs s(rank);
  // Positions of the inductions.
  std::vector<int> places;
  for (int k = 0; k < rank; ++k)
    places.push_back(k);
  if (rank == 2 && inds == 1 && g.chance(50))
    std::swap(places[0], places[1]);
  for (int k = 0; k < inds; ++k)
    s[places[k]].ind = order[k];
  for (Sub &x : s)
    x.offset = g.range(0, maxOffset);
  return s;
}

std::set<Point> drawIndices(G &g, int inds, int64_t maxLo, int64_t maxSize) {
  std::set<Point> r;
  for (int n = g.chance(20) ? 2 : 1; n > 0; --n) {
    Box b;
    for (int k = 0; k < inds; ++k) {
      int64_t lo = g.range(0, maxLo);
      b.emplace_back(lo, lo + g.range(0, maxSize - 1));
    }
    for (auto &p : points(b))
      r.insert(p);
  }
  return r;
}

/// Notes an operation, to recognize its changes.
struct Kept {
  mlir::Operation *op, *copy;
  explicit Kept(mlir::Operation *op) : op(op), copy(op->clone()) {}
  ~Kept() { copy->destroy(); }
  bool same() const {
    return mlir::OperationEquivalence::isEquivalentTo(op, copy, mlir::OperationEquivalence::Flags::IgnoreLocations);
  }
};

std::set<Point> image(const Subs &s, const std::set<Point> &ps) {
  std::set<Point> r;
  for (auto &p : ps)
    r.insert(at(s, p));
  return r;
}
} // namespace

PBT_PROP("C33", explicitEquations, 1500, 30000,
         "the equation has been made explicit and compared with the original one at some point") {
  int inds = g.weighted({2, 4, 2});
  int rank = inds == 2 ? 2 : inds == 1 ? g.range(1, 2) : g.range(0, 2);
  bool ints = g.chance(15);
  Subs own = injective(g, inds, rank, 1);
  std::set<Point> indices = drawIndices(g, inds, 1, 3); // in [0, 3]
  std::set<Point> match = image(own, indices);          // in [0, 4]
  Eq eq(g, inds, ints);
  bool overlapping = g.chance(30);
  eq.rankX = rank;
  eq.subsX = [&](bool mine) {
    if (mine || rank == 0)
      return mine ? own : Subs();
    Subs s(rank);
    for (Sub &x : s)
      x = eq.anySub();
    if (overlapping) {
      // Other elements of the matched ones, for instance.
      if (g.chance(60)) {
        s = own;
        if (g.chance(20))
          s = injective(g, inds, rank, 1);
        s[g.draw(rank)].offset += g.range(0, 2);
      }
      eq.nonlinear = true;
      return s;
    }
    // Some subscript is out of the matched ones.
    Sub &away = s[g.draw(rank)];
    away = Sub();
    if (inds > 0 && g.chance(60)) {
      away.ind = g.draw(inds);
      away.offset = 5;
    } else {
      away.offset = g.range(5, 8);
    }
    return s;
  };
  int count = 1 + g.weighted({5, 3, 1});
  int left = g.range(0, count);
  int depth = g.range(0, 3);
  auto l = eq.with(left, depth), r = eq.with(count - left, g.range(0, 3));
  std::string text = "module {\n  bmodelica.model @M {\n" + declarations(rank, ints) + eq.finish("t0", l, r) +
                     "    bmodelica.dynamic {\n      bmodelica.scc {\n" + instance("t0", indices, match) +
                     "      }\n    }\n  }\n}\n";
  g.log << text;
  ir::ModuleRef m = load(g, text);
  auto before = instances(*m);
  d::EquationInstanceOp old = before[0];
  Kept kept1(old.getTemplate()), kept2(old);
  mlir::SymbolTableCollection tables;
  mlir::IRRewriter rewriter(m->getContext());
  d::EquationInstanceOp made;
  {
    ir::Diagnostics diags(m->getContext());
    made = old.cloneAndExplicitate(rewriter, tables);
    if (mlir::failed(mlir::verify(*m)))
      g.fail("the explicit equation is not valid" + diags.text() + "\n" + ir::print(*m, true));
  }
  if (!kept1.same() || !kept2.same())
    g.fail("the original equation has changed\n" + ir::print(*m));
  if (!made) {
    if (count == 1 && !eq.nonlinear)
      g.fail("the equation has not been made explicit");
    if (!eq.nonlinear && !eq.deep) {
      // Refused only if the factor of the matched variable is null.
      Vars vars = values(g, rank, ints);
      Point p = *indices.begin();
      Val &x = element(vars["x"], at(own, p));
      auto residual = [&](double at) {
        x = Val::ofReal(at);
        auto s = evaluate(g, *m, old.getTemplate(), p, vars);
        return s && s->biggest < 1e5 ? s->left.num() - s->right.num() : NAN;
      };
      double slope = residual(2) - residual(1);
      if (std::isfinite(slope) && std::fabs(slope) > 1e-2)
        g.fail("the equation has not been made explicit, with the slope " + std::to_string(slope));
    }
    g.label(count == 1 ? "refused (one access)" : eq.nonlinear ? "refused (nonlinear)" : "refused (linear)");
    return;
  }
  g.label(count == 1 ? "explicit (one access)" : "explicit (grouped)");
  // The same indices and match.
  if (made.getProperties().indices != old.getProperties().indices ||
      made.getProperties().match.indices != old.getProperties().match.indices ||
      made.getProperties().match.name != old.getProperties().match.name)
    g.fail("the indices or the match have changed\n" + ir::print(*m));
  unsigned compared = 0;
  for (int round = 0; round < 2; ++round) {
    Vars vars = values(g, rank, ints);
    for (auto &p : indices) {
      // Where the other accesses meet the matched element there is no explicit value.
      bool meets = false;
      for (auto &s : eq.written)
        meets |= at(s, {100, 1000}) != at(own, {100, 1000}) && at(s, p) == at(own, p);
      if (meets)
        continue;
      Val &x = element(vars["x"], at(own, p));
      auto fail = [&](const std::string &what) {
        std::ostringstream s;
        s << what << " at " << ::text(p) << " with x = " << bm::text(x) << "\n" << ir::print(*m);
        g.fail(s.str());
      };
      // The explicit equation gives a value to the matched variable.
      Val start = x;
      auto e1 = evaluate(g, *m, made.getTemplate(), p, vars);
      x = Val::ofReal(7.25);
      auto e2 = evaluate(g, *m, made.getTemplate(), p, vars);
      if (!e1 || !e2 || e1->biggest > 1e5 || e2->biggest > 1e5)
        continue;
      if (!agree(e1->left, start) || !agree(e2->left, x))
        fail("the left-hand side is not the matched variable");
      double scale = std::max(1.0, e1->biggest) * 1e-9;
      if (std::fabs(e1->right.num() - e2->right.num()) > scale * std::max(1.0, std::fabs(e1->right.num())))
        fail("the right-hand side depends on the matched variable");
      // The residual of the original equation, and its slope.
      double solution = e1->right.num();
      auto residual = [&](double at) -> std::optional<double> {
        x = Val::ofReal(at);
        auto s = evaluate(g, *m, old.getTemplate(), p, vars);
        if (!s || s->biggest > 1e5)
          return std::nullopt;
        return s->left.num() - s->right.num();
      };
      double h = 1e-4 * std::max(1.0, std::fabs(solution));
      auto zero = residual(solution), up = residual(solution + h), down = residual(solution - h);
      x = start;
      if (!zero || !up || !down)
        continue;
      double slope = (*up - *down) / (2 * h);
      if (std::fabs(slope) < 1e-3 || std::fabs(slope) > 1e4)
        continue;
      // The distance of the value from the solution.
      if (std::fabs(*zero / slope) > 1e-5 * std::max(1.0, std::fabs(solution))) {
        std::ostringstream s;
        s << "the value " << solution << " does not satisfy the original equation (residual " << *zero << ")";
        fail(s.str());
      }
      ++compared;
    }
  }
  if (compared)
    g.nontrivial();
}

PBT_PROP("C33", replacedAccesses, 1500, 30000, "an access has been replaced and the equations compared at some point") {
  int inds = g.weighted({1, 4, 3});
  int rank = inds == 2 ? 2 : inds == 1 ? g.range(1, 2) : g.range(0, 2);
  bool ints = g.chance(15);
  // The source: x[own] = expression, over a box.
  Subs own = injective(g, inds, rank, 1);
  std::set<Point> indices;
  Box box;
  for (int k = 0; k < inds; ++k)
    box.emplace_back(0, g.range(0, 3));
  for (auto &p : points(box))
    indices.insert(p);
  std::set<Point> covered = image(own, indices);
  Eq source(g, inds, ints);
  auto sl = source.access("x", 'r', own);
  auto sr = source.other(g.range(0, 3));
  std::string text = "module {\n  bmodelica.model @M {\n" + declarations(rank, ints) + source.finish("t0", sl, sr);
  // The destination; its accesses to x are within the elements given by the source.
  int dinds = g.weighted({1, 4, 3});
  std::set<Point> dindices = drawIndices(g, dinds, 1, 3);
  Eq dest(g, dinds, ints);
  dest.rankX = rank;
  auto draw = [&] {
    Subs s(rank);
    for (int k = 0; k < rank; ++k) {
      Point lo = *covered.begin(), hi = *covered.rbegin();
      int64_t from = lo[k], to = hi[k];
      Sub &x = s[k];
      x.offset = g.range(from, to);
      if (dinds > 0 && g.chance(75)) {
        // An induction, with a factor and an offset.
        Sub y;
        y.ind = g.draw(dinds);
        y.factor = g.weighted({8, 1, 1}) == 0 ? 1 : g.chance(50) ? -1 : 2;
        int64_t least = INT64_MAX, most = INT64_MIN;
        for (auto &p : dindices) {
          least = std::min(least, y.factor * p[y.ind]);
          most = std::max(most, y.factor * p[y.ind]);
        }
        if (most - least <= to - from) {
          y.offset = g.range(from - least, to - most);
          x = y;
        }
      }
    }
    return s;
  };
  dest.subsX = [&](bool) { return draw(); };
  // It is matched with an element of y, accessed by the inductions.
  Subs mine;
  for (int k = 0; k < dinds; ++k)
    mine.push_back({k});
  auto dl = dest.binary("add", dest.access("y", 'r', mine), dest.with(g.range(0, 1), g.range(0, 3)));
  auto dr = dest.with(1, g.range(0, 3));
  text += dest.finish("t1", dl, dr);
  text += std::string("    bmodelica.variable @y : !bmodelica.variable<") + (dinds > 0 ? "9x" : "") + (dinds > 1 ? "9x" : "") +
          "!bmodelica.real>\n";
  text += "    bmodelica.dynamic {\n      bmodelica.scc {\n" + instance("t0", indices, covered) +
          "      }\n      bmodelica.scc {\n" + instance("t1", dindices, dindices, "y");
  text += "      }\n    }\n  }\n}\n";
  g.log << text;
  ir::ModuleRef m = load(g, text);
  auto before = instances(*m);
  d::EquationInstanceOp from = before[0], old = before[1];
  auto tmplFrom = from.getTemplate(), tmplOld = old.getTemplate();
  Kept kept1(tmplOld), kept2(old), kept3(tmplFrom), kept4(from);
  mlir::SymbolTableCollection tables;
  mlir::IRRewriter rewriter(m->getContext());
  llvm::SmallVector<d::VariableAccess> accesses;
  REQUIRE(mlir::succeeded(old.getAccesses(accesses, tables)));
  std::vector<d::VariableAccess> candidates;
  for (auto &a : accesses)
    if (a.getVariable().getRootReference().getValue() == "x")
      candidates.push_back(a);
  REQUIRE(!candidates.empty());
  d::VariableAccess access = g.pick(candidates);
  auto sourceAccess = from.getAccessAtPath(tables, d::EquationPath(d::EquationPath::LEFT, 0));
  REQUIRE(sourceAccess.has_value());
  // The whole equation or a part of it.
  std::set<Point> part = dindices;
  if (dinds > 0 && dindices.size() > 1 && g.chance(30))
    for (auto &p : dindices)
      if (part.size() > 1 && g.chance(40))
        part.erase(p);
  using marco::modeling::IndexSet;
  IndexSet partSet;
  for (auto &p : part)
    if (!p.empty())
      partSet += marco::modeling::MultidimensionalRange(marco::modeling::Point(p));
  std::optional<std::reference_wrapper<const IndexSet>> given;
  if (dinds > 0)
    given = std::cref(partSet);
  llvm::SmallVector<d::EquationInstanceOp> results;
  bool done;
  {
    ir::Diagnostics diags(m->getContext());
    done = mlir::succeeded(
        old.cloneWithReplacedAccess(rewriter, tables, given, access, tmplFrom, *sourceAccess, results));
    if (mlir::failed(mlir::verify(*m)))
      g.fail("the equation is not valid" + diags.text() + "\n" + ir::print(*m, true));
  }
  if (!done) {
    bool simple = true;
    for (auto &s : own)
      simple &= s.ind >= 0;
    if (simple)
      g.fail("the access has not been replaced");
    g.label("refused");
    return;
  }
  if (!kept1.same() || !kept2.same() || !kept3.same() || !kept4.same())
    g.fail("the original equations have changed\n" + ir::print(*m));
  // The indices of the results are the requested ones.
  std::set<Point> seen;
  std::vector<std::pair<Point, d::EquationInstanceOp>> where;
  for (auto r : results) {
    if (dinds == 0) {
      where.emplace_back(Point(), r);
      seen.insert(Point());
      continue;
    }
    if (r.getProperties().match.indices != r.getProperties().indices)
      g.fail("the match does not follow the indices\n" + ir::print(*m));
    for (auto p : r.getProperties().indices) {
      Point q;
      for (size_t k = 0; k < p.rank(); ++k)
        q.push_back(p[k]);
      if (!seen.insert(q).second)
        g.fail("the index " + ::text(q) + " is in more equations\n" + ir::print(*m));
      where.emplace_back(q, r);
    }
  }
  if (seen != part)
    g.fail("the indices of the equation have changed\n" + ir::print(*m));
  unsigned compared = 0;
  Vars vars = values(g, rank, ints);
  Vars more = values(g, dinds, ints);
  vars["y"] = more["x"];
  // The solution of the source.
  for (auto &p : indices) {
    auto s = evaluate(g, *m, tmplFrom, p, vars);
    if (!s || s->biggest > 1e6)
      g.discard();
    element(vars["x"], at(own, p)) = Val::ofReal(s->right.num());
  }
  for (auto &[p, eq] : where) {
    auto a = evaluate(g, *m, tmplOld, p, vars), b = evaluate(g, *m, eq.getTemplate(), p, vars);
    if (!a || a->biggest > 1e6)
      continue;
    if (!b || !agree(a->left, b->left, 1e-7 * std::max(1.0, a->biggest)) ||
        !agree(a->right, b->right, 1e-7 * std::max(1.0, a->biggest)))
      g.fail("the equation has changed at " + ::text(p) + ": " + bm::text(a->left) + " = " + bm::text(a->right) + " into " +
             (b ? bm::text(b->left) + " = " + bm::text(b->right) : "undefined") + "\n" + ir::print(*m));
    ++compared;
  }
  // The replaced access is gone.
  if (candidates.size() == 1)
    for (auto r : results) {
      llvm::SmallVector<d::VariableAccess> now;
      REQUIRE(mlir::succeeded(r.getAccesses(now, tables)));
      for (auto &a : now)
        if (a.getVariable().getRootReference().getValue() == "x")
          g.fail("the access has not been replaced\n" + ir::print(*m));
    }
  if (compared)
    g.nontrivial();
}

namespace {
void runPass(G &g, mlir::ModuleOp m, std::unique_ptr<mlir::Pass> pass) {
  ir::Diagnostics diags(m.getContext());
  std::string before = ir::print(m);
  mlir::PassManager pm(m.getContext());
  pm.addPass(std::move(pass));
  if (mlir::failed(pm.run(m)))
    g.fail("the pass fails" + diags.text() + "\n" + before);
  if (mlir::failed(mlir::verify(m)))
    g.fail("the result is not valid" + diags.text() + "\n" + ir::print(m, true));
}

/// The points of the indices of an equation.
std::vector<Point> pointsOf(const marco::modeling::IndexSet &s) {
  std::vector<Point> r;
  if (s.empty())
    return {Point()};
  for (auto p : s) {
    Point q;
    for (size_t k = 0; k < p.rank(); ++k)
      q.push_back(p[k]);
    r.push_back(q);
  }
  return r;
}

/// The elements matched by the equations, and the number of scalar equations.
/// The equations must have as many points as matched elements.
std::map<std::string, std::multiset<Point>> matched(G &g, mlir::ModuleOp m) {
  std::map<std::string, std::multiset<Point>> r;
  for (auto e : instances(m)) {
    auto &match = e.getProperties().match;
    std::string name = match.name.getRootReference().str();
    auto elements = pointsOf(match.indices);
    if (elements.size() != pointsOf(e.getProperties().indices).size())
      g.fail("the match and the indices have different sizes\n" + ir::print(m));
    for (auto &p : elements)
      r[name].insert(p);
  }
  return r;
}

std::string text(const std::map<std::string, std::multiset<Point>> &all) {
  std::string s;
  for (auto &[name, elements] : all) {
    s += " " + name;
    for (auto &p : elements)
      s += " " + text(p);
  }
  return s;
}
} // namespace

PBT_PROP("C33", splitEquations, 900, 20000, "the equations have been changed and compared at some point") {
  int inds = g.weighted({1, 4, 4});
  int rank = inds == 2 ? 2 : inds == 1 ? g.range(1, 2) : g.range(0, 2);
  bool ints = g.chance(15);
  Subs own = injective(g, inds, rank, 1);
  std::set<Point> indices = drawIndices(g, inds, 1, 3);
  std::vector<int> passes{int(g.draw(4))};
  if (g.chance(25))
    passes.push_back(g.draw(4));
  // The passes changing the match need to know the matched access.
  int parts = indices.size() > 1 && g.chance(40) ? 2 : 1;
  bool unique = passes[0] == 1 || passes[0] == 2 || passes.size() > 1;
  std::set<Point> match = image(own, indices);
  Eq eq(g, inds, ints);
  eq.zeros = false; // the matched accesses must not be simplified
  eq.rankX = rank;
  eq.subsX = [&](bool mine) {
    if (mine || rank == 0)
      return mine ? own : Subs();
    Subs s = own;
    switch (g.weighted({2, 2, 1, 1})) {
    case 0: s[g.draw(rank)].offset += g.range(0, 2); break;
    case 1: { // an element of the matched ones
      Sub &x = s[g.draw(rank)];
      x = Sub();
      x.offset = g.range(0, 4);
      break;
    }
    case 2: s = injective(g, inds, rank, 1); break;
    default:
      for (Sub &x : s)
        x = eq.anySub();
    }
    if (unique && at(s, {100, 1000}) != at(own, {100, 1000})) {
      // It would be one of the matched accesses if all its elements were in the match.
      bool other = false;
      for (auto &p : indices)
        other |= !match.count(at(s, p));
      if (!other || parts > 1)
        return own;
    }
    return s;
  };
  auto l = eq.with(1, g.range(0, 2)), r = eq.other(g.range(0, 3));
  // The equation is given at once or by two instances.
  std::vector<std::set<Point>> given{indices};
  if (parts > 1) {
    std::set<Point> a, b;
    for (auto &p : indices)
      (g.chance(50) ? b : a).insert(p);
    if (!a.empty() && !b.empty())
      given = {a, b};
  }
  std::string text = "module {\n  bmodelica.model @M {\n" + declarations(rank, ints) + eq.finish("t0", l, r) +
                     "    bmodelica.dynamic {\n      bmodelica.scc {\n";
  for (auto &part : given)
    text += instance("t0", part, image(own, part));
  text += "      }\n    }\n  }\n}\n";
  g.log << text;
  ir::ModuleRef m = load(g, text), old = load(g, text);
  auto expected = matched(g, *old);
  for (int which : passes) {
    static const char *names[] = {"access split", "single-valued inductions", "scalar ranges", "views"};
    g.log << names[which] << "\n";
    g.label(names[which]);
    runPass(g, *m, which == 0   ? d::createEquationAccessSplitPass()
                   : which == 1 ? d::createSingleValuedInductionEliminationPass()
                   : which == 2 ? d::createScalarRangesEquationSplitPass()
                                : d::createViewAccessFoldingPass());
  }
  if (instances(*m).size() != instances(*old).size())
    g.label("split");
  auto now = matched(g, *m);
  if (now != expected)
    g.fail("the matched elements are" + ::text(now) + " instead of" + ::text(expected) + "\n" + ir::print(*m));
  // The sides are the same, for all the scalar equations.
  Vars vars = values(g, rank, ints);
  auto all = [&](mlir::ModuleOp m) -> std::optional<std::vector<Sides>> {
    std::vector<Sides> r;
    for (auto e : instances(m))
      for (auto &p : pointsOf(e.getProperties().indices)) {
        auto s = evaluate(g, m, e.getTemplate(), p, vars);
        if (!s || s->biggest > 1e6)
          return std::nullopt;
        r.push_back(*s);
      }
    std::sort(r.begin(), r.end(), [](const Sides &a, const Sides &b) {
      return std::make_pair(a.left.num(), a.right.num()) < std::make_pair(b.left.num(), b.right.num());
    });
    return r;
  };
  auto a = all(*old);
  if (!a)
    g.discard();
  auto b = all(*m);
  if (!b || a->size() != b->size())
    g.fail("the equations have changed\n" + ir::print(*m));
  for (size_t k = 0; k < a->size(); ++k)
    if (!agree((*a)[k].left, (*b)[k].left, 1e-7) || !agree((*a)[k].right, (*b)[k].right, 1e-7))
      g.fail("the equations have changed: " + bm::text((*a)[k].left) + " = " + bm::text((*a)[k].right) + " and " +
             bm::text((*b)[k].left) + " = " + bm::text((*b)[k].right) + "\n" + ir::print(*m));
  // Each equation of the result accesses its matched elements.
  for (auto e : instances(*m)) {
    mlir::SymbolTableCollection tables;
    llvm::SmallVector<d::VariableAccess> accesses, writes;
    REQUIRE(mlir::succeeded(e.getAccesses(accesses, tables)));
    REQUIRE(mlir::succeeded(e.getWriteAccesses(writes, tables, accesses)));
    if (writes.empty())
      g.fail("no access to the matched elements\n" + ir::print(*m));
  }
  if (ir::print(*m) != ir::print(*old))
    g.nontrivial();
}

PBT_PROP("C33", solvedCycles, 500, 10000, "the cycles have been solved and the equations compared at all the points") {
  int n = g.range(2, 3);
  bool scalar = g.chance(15);
  int inds = scalar ? 0 : 1;
  int64_t size = scalar ? 1 : g.range(1, 4);
  bool ints = false;
  std::string text = "module {\n  bmodelica.model @M {\n" + declarations(0, ints);
  std::string equations, body;
  for (int k = 0; k < n; ++k) {
    std::string dim = scalar ? "" : "9x";
    text += "    bmodelica.variable @u" + std::to_string(k) + " : !bmodelica.variable<" + dim + "!bmodelica.real>\n";
    text += "    bmodelica.variable @k" + std::to_string(k) + " : !bmodelica.variable<" + dim + "!bmodelica.real, parameter>\n";
  }
  struct Info {
    Subs own;
    std::set<Point> indices;
  };
  std::vector<Info> infos;
  int nextEq = 0;
  // The cycles go through the elements i + shift of the variables. An equation
  // that reads other elements of its own variable would be ambiguous: the
  // match is a set of elements, and the access it refers to is looked for.
  int64_t shift[3] = {g.around(0, 2), g.around(0, 2), g.around(0, 2)};
  for (int k = 0; k < n; ++k) {
    // The elements 0 .. size - 1, by one or two equations.
    int64_t cut = !scalar && size > 1 && g.chance(30) ? g.range(1, size - 1) : size;
    for (int64_t from = 0; from < size; from = cut == from ? size : cut) {
      int64_t to = from < cut ? cut : size;
      Eq eq(g, inds, ints);
      eq.zeros = false;
      Info info;
      eq.varX = "u" + std::to_string(k);
      if (!scalar) {
        Sub s;
        s.ind = 0;
        s.offset = g.range(0, std::min<int64_t>(from + shift[k], 2));
        info.own = {s};
        for (int64_t i = from; i < to; ++i)
          info.indices.insert({i + shift[k] - s.offset});
      } else {
        info.indices.insert(Point());
      }
      eq.rankX = info.own.size();
      auto &own = info.own;
      eq.subsX = [&](bool mine) { return mine ? own : Subs(); };
      // own + other + slack; the next variable of the cycle is always read.
      auto l = eq.with(1 + g.weighted({4, 1}), g.range(0, 2));
      auto read = [&](int j) {
        Subs s = own;
        if (!scalar)
          s[0].offset += shift[j] - shift[k];
        auto v = eq.access("u" + std::to_string(j), 'r', s);
        switch (g.weighted({3, 3, 1, 1, 1})) {
        case 0: return v;
        case 1: return eq.binary("mul", eq.real(double(g.range(1, 9)) / 4 + 0.125), v);
        case 2: return eq.neg(v);
        case 3: return eq.op("sin", {v}, 'r');
        default: return eq.binary("mul", v, eq.access("p", 'r', {}));
        }
      };
      auto r = read((k + 1) % n);
      if (g.chance(20))
        r = eq.binary(g.chance(50) ? "add" : "sub", r, read(g.draw(n)));
      Subs slack;
      if (!scalar)
        slack = own;
      auto free = eq.access("k" + std::to_string(k), 'r', slack);
      if (g.chance(50))
        free = eq.binary("add", free, eq.other(g.range(0, 1)));
      r = eq.binary("add", r, free);
      std::string name = "t" + std::to_string(nextEq++);
      if (g.chance(30))
        std::swap(l, r);
      equations += eq.finish(name, l, r);
      body += instance(name, info.indices, image(own, info.indices), "u" + std::to_string(k));
      infos.push_back(info);
      if (to == size)
        break;
    }
  }
  text += equations + "    bmodelica.dynamic {\n      bmodelica.scc {\n" + body + "      }\n    }\n  }\n}\n";
  g.log << text;
  ir::ModuleRef m = load(g, text), old = load(g, text);
  auto expected = matched(g, *old);
  // A solution: the free terms are given by the values of the variables.
  Vars vars = values(g, 0, ints), array = values(g, 1, ints);
  for (int k = 0; k < n; ++k) {
    Vars v = values(g, scalar ? 0 : 1, ints);
    vars["u" + std::to_string(k)] = v["x"];
    Val zero = v["x"];
    if (zero.kind == Val::Tensor)
      for (Val &e : zero.el)
        e = Val::ofReal(0);
    else
      zero = Val::ofReal(0);
    vars["k" + std::to_string(k)] = zero;
  }
  auto olds = instances(*old);
  for (size_t e = 0; e < olds.size(); ++e)
    for (auto &p : infos[e].indices) {
      std::string name = olds[e].getProperties().match.name.getRootReference().str();
      Val &slack = element(vars["k" + name.substr(1)], at(infos[e].own, p));
      // The free term is added to one of the sides.
      auto residual = [&](double v) {
        slack = Val::ofReal(v);
        auto s = evaluate(g, *old, olds[e].getTemplate(), p, vars);
        return s && s->biggest < 1e4 ? s->left.num() - s->right.num() : NAN;
      };
      double r0 = residual(0), r1 = residual(1);
      if (!std::isfinite(r0) || !std::isfinite(r1) || std::fabs(r1 - r0) < 0.5)
        g.discard();
      double solved = residual(-r0 / (r1 - r0));
      if (!(std::fabs(solved) < 1e-9))
        g.discard();
      // A degenerate equation, such as (s - s) / u = k, does not determine its
      // matched element.
      Val &own = element(vars[name], at(infos[e].own, p)), value = own;
      own = Val::ofReal(value.num() + 0.125);
      double moved = residual(slack.num());
      own = value;
      if (!(std::fabs(moved - solved) > 1e-6))
        g.discard();
    }
  // The equations grow at each step.
  d::SCCSolvingBySubstitutionPassOptions options;
  options.maxIterations = 6;
  runPass(g, *m, d::createSCCSolvingBySubstitutionPass(options));
  if (ir::print(*m) == ir::print(*old)) {
    g.label("not solved");
    return;
  }
  auto now = matched(g, *m);
  if (now != expected)
    g.fail("the matched elements are" + ::text(now) + " instead of" + ::text(expected) + "\n" + ir::print(*m));
  bool all = true;
  for (auto e : instances(*m))
    for (auto &p : pointsOf(e.getProperties().indices)) {
      auto s = evaluate(g, *m, e.getTemplate(), p, vars);
      if (!s || s->biggest > 1e5) {
        all = false;
        continue;
      }
      double residual = s->left.num() - s->right.num();
      if (std::fabs(residual) > 1e-7 * std::max(1.0, s->biggest))
        g.fail("the solution does not satisfy an equation at " + ::text(p) + " matched with " +
               e.getProperties().match.name.getRootReference().str() + ": " + bm::text(s->left) + " = " +
               bm::text(s->right) + "\n" + ir::print(*m));
    }
  g.label(all ? "solved" : "solved, not compared");
  if (all)
    g.nontrivial();
}
