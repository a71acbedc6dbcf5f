// Model of the syntax trees: random trees and their writing as tokens.
//
// The node kinds, properties and groups of children follow the names used by
// the exported documents. Nothing here depends on the parser.
#pragma once
#include "tokens.h"
#include <cmath>

namespace syn {
using tok::TK;
using tok::Token;

/// Value of a property.
struct V {
  char type = 'b'; // b, i, d, s, l (list of strings)
  bool b = false;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<std::string> l;

  static V of(bool x) { V v; v.type = 'b'; v.b = x; return v; }
  static V ofInt(int64_t x) { V v; v.type = 'i'; v.i = x; return v; }
  static V ofReal(double x) { V v; v.type = 'd'; v.d = x; return v; }
  static V of(std::string x) { V v; v.type = 's'; v.s = std::move(x); return v; }
  static V ofList(std::vector<std::string> x) { V v; v.type = 'l'; v.l = std::move(x); return v; }

  std::string show() const {
    char buf[64];
    switch (type) {
    case 'b': return b ? "true" : "false";
    case 'i': return std::to_string(i);
    case 'd': snprintf(buf, sizeof buf, "%.17g.", d); return buf;
    case 's': return "\"" + s + "\"";
    default: {
      std::string r = "[";
      for (auto &x : l)
        r += "\"" + x + "\" ";
      return r + "]";
    }
    }
  }

  /// Reals may be read a few units in the last place away.
  bool same(const V &o, bool exact) const {
    if (type != o.type)
      return false;
    if (type == 'd' && !exact) {
      if (d == o.d)
        return true;
      double m = std::max(std::fabs(d), std::fabs(o.d));
      return std::fabs(d - o.d) <= m * 1e-15;
    }
    return type == 'd' ? (d == o.d) : show() == o.show();
  }
};

struct T;
struct Group {
  bool list = true;
  std::vector<T> kids;
};

/// A node. The kind "#list" stands for a plain list.
struct T {
  std::string kind;
  std::map<std::string, V> props;
  std::map<std::string, Group> groups;

  // First and last written token, or first and last position in the text; the
  // node they come from.
  int64_t b = -1, e = -1;
  const void *node = nullptr;

  T() = default;
  T(std::string kind) : kind(std::move(kind)) {}

  T &set(const std::string &n, V v) {
    props[n] = std::move(v);
    return *this;
  }
  T &one(const std::string &n, T kid) {
    auto &g = groups[n];
    g.list = false;
    g.kids.push_back(std::move(kid));
    return *this;
  }
  T &all(const std::string &n, std::vector<T> kids) {
    auto &g = groups[n];
    g.list = true;
    for (auto &k : kids)
      g.kids.push_back(std::move(k));
    return *this;
  }
  bool has(const std::string &n) const { return groups.count(n) && !groups.at(n).kids.empty(); }
  T &kid(const std::string &n, size_t i = 0) { return groups.at(n).kids.at(i); }
  const T &kid(const std::string &n, size_t i = 0) const { return groups.at(n).kids.at(i); }
  std::vector<T> &kids(const std::string &n) {
    groups[n].list = true;
    return groups[n].kids;
  }
  const std::string &str(const std::string &n) const { return props.at(n).s; }
  bool flag(const std::string &n) const { return props.at(n).b; }

  size_t size() const {
    size_t n = 1;
    for (auto &g : groups)
      for (auto &k : g.second.kids)
        n += k.size();
    return n;
  }

  void show(std::string &out) const {
    out += kind + "{";
    for (auto &p : props)
      out += p.first + "=" + p.second.show() + " ";
    for (auto &g : groups) {
      if (g.second.kids.empty())
        continue;
      out += g.first + (g.second.list ? "=[" : "=(");
      for (auto &k : g.second.kids)
        k.show(out), out += " ";
      out += g.second.list ? "] " : ") ";
    }
    out += "}";
  }
};

/// Description of the first difference, empty if there are none.
inline std::string difference(const T &x, const T &y, bool exact, const std::string &path = "") {
  std::string at = path + "/" + x.kind;
  if (x.kind != y.kind)
    return at + ": kind " + x.kind + " against " + y.kind;
  for (auto &p : x.props) {
    if (!y.props.count(p.first))
      return at + ": property " + p.first + " missing";
    if (!p.second.same(y.props.at(p.first), exact))
      return at + ": property " + p.first + " " + p.second.show() + " against " + y.props.at(p.first).show();
  }
  for (auto &p : y.props)
    if (!x.props.count(p.first))
      return at + ": unexpected property " + p.first;
  for (auto &g : y.groups)
    if (!g.second.kids.empty() && !x.groups.count(g.first))
      return at + ": unexpected children " + g.first;
  for (auto &g : x.groups) {
    static const Group none;
    const Group &h = y.groups.count(g.first) ? y.groups.at(g.first) : none;
    if (g.second.kids.size() != h.kids.size())
      return at + ": " + std::to_string(g.second.kids.size()) + " against " + std::to_string(h.kids.size()) + " children " + g.first;
    for (size_t i = 0; i < h.kids.size(); ++i) {
      std::string d = difference(g.second.kids[i], h.kids[i], exact, at + "." + g.first + "[" + std::to_string(i) + "]");
      if (!d.empty())
        return d;
    }
  }
  return "";
}

// ---------------------------------------------------------------------------
// Generation.

struct Gen {
  pbt::G &g;
  int budget;
  explicit Gen(pbt::G &g, int budget) : g(g), budget(budget) {}

  bool room(int n = 1) { return budget > n; }
  void spend(int n = 1) { budget -= n; }

  /// Size of a list within the budget.
  size_t count(size_t lo, size_t hi) {
    size_t n = g.range(lo, hi);
    while (n > lo && !room(n))
      --n;
    return n;
  }

  std::string name() {
    if (g.chance(4)) {
      std::string v;
      tok::quoted(g, '\'', v);
      if (!v.empty())
        return v;
    }
    static const std::vector<std::string> common{"x", "y", "z", "a", "b", "i", "n", "start", "each_"};
    if (g.chance(60))
      return g.pick(common);
    std::string w = tok::word(g);
    for (const char *t : {"Real", "Integer", "Boolean", "String"})
      if (w == t)
        w += "_";
    return w;
  }

  // --- expressions
  T operation(const std::string &kind, std::vector<T> args) {
    T t("operation");
    t.set("operation_kind", V::of(kind));
    t.all("args", std::move(args));
    return t;
  }

  T constant() {
    T t("constant");
    switch (g.weighted({4, 3, 2, 2})) {
    case 0:
      return t.set("value", V::ofInt(g.chance(90) ? g.draw(1000) : (int64_t)g.draw(1ull << 62)));
    case 1: {
      std::string s = std::to_string(g.draw(1000)) + "." + std::to_string(g.draw(100000));
      if (g.chance(30))
        s += "e" + std::to_string(g.around(-30, 30));
      return t.set("value", V::ofReal(strtod(s.c_str(), nullptr)));
    }
    case 2:
      return t.set("value", V::of(g.chance(50)));
    default: {
      std::string v;
      tok::quoted(g, '"', v);
      return t.set("value", V::of(v));
    }
    }
  }

  T subscript() {
    T t("subscript");
    spend();
    bool unbounded = g.chance(20);
    t.set("unbounded", V::of(unbounded));
    if (!unbounded)
      t.one("expression", expression());
    return t;
  }

  T entry() {
    T t("component_reference_entry");
    spend();
    t.set("name", V::of(name()));
    std::vector<T> subs;
    if (room() && g.chance(25))
      for (size_t i = 0, n = count(1, 3); i < n; ++i)
        subs.push_back(subscript());
    t.all("subscripts", std::move(subs));
    return t;
  }

  T reference(bool dummy = false) {
    T t("component_reference");
    spend();
    t.set("dummy", V::of(dummy));
    t.set("global_lookup", V::of(!dummy && g.chance(8)));
    std::vector<T> path;
    if (!dummy)
      for (size_t i = 0, n = g.chance(75) ? 1 : count(1, 3); i < n; ++i)
        path.push_back(entry());
    t.all("path", std::move(path));
    return t;
  }

  T forIndex() {
    T t("for_index");
    spend();
    t.set("name", V::of(name()));
    if (g.chance(85))
      t.one("expression", expression());
    return t;
  }

  std::vector<T> forIndices() {
    std::vector<T> r;
    for (size_t i = 0, n = g.chance(60) ? 1 : g.range(1, 3); i < n; ++i)
      r.push_back(forIndex());
    return r;
  }

  T expressionArgument() { return std::move(T("function_argument_expression").one("expression", expression())); }

  T call(bool onlyReference = false) {
    T t("call");
    spend();
    if (!onlyReference && g.chance(20)) {
      T callee("component_reference");
      callee.set("dummy", V::of(false)).set("global_lookup", V::of(false));
      T e("component_reference_entry");
      e.set("name", V::of(std::string("der")));
      e.all("subscripts", {});
      callee.all("path", {e});
      t.one("callee", callee);
    } else {
      t.one("callee", reference());
    }
    std::vector<T> args;
    if (g.chance(12)) {
      T r("function_argument_reduction");
      r.one("expression", expression());
      r.all("iterators", forIndices());
      args.push_back(std::move(r));
    } else {
      for (size_t i = 0, n = count(0, 3); i < n; ++i)
        args.push_back(expressionArgument());
      if (g.chance(20))
        for (size_t i = 0, n = count(1, 2); i < n; ++i) {
          T a("function_argument_named");
          a.set("name", V::of(name()));
          a.one("value", expressionArgument());
          args.push_back(std::move(a));
        }
    }
    t.all("args", std::move(args));
    return t;
  }

  T tuple(bool references = false) {
    T t("tuple");
    spend();
    std::vector<T> es;
    size_t n = references ? g.range(0, 4) : (g.chance(10) ? 0 : g.range(2, 4));
    for (size_t i = 0; i < n; ++i) {
      if (i + 1 < n && g.chance(20))
        es.push_back(reference(true));
      else
        es.push_back(references ? reference() : expression());
    }
    t.all("expressions", std::move(es));
    return t;
  }

  T expression() {
    spend();
    if (!room())
      return g.chance(40) ? constant() : reference();
    switch (g.weighted({6, 4, 8, 6, 3, 3, 2, 3, 3, 2, 3, 3, 2, 2, 2})) {
    case 0:
      return reference();
    case 1:
      return constant();
    case 2: {
      static const std::vector<std::string> k{"add", "subtract", "add_ew", "subtract_ew"};
      T l = expression(), r = expression();
      return operation(g.pick(k), {l, r});
    }
    case 3: {
      static const std::vector<std::string> k{"multiply", "divide", "multiply_ew", "divide_ew"};
      T l = expression(), r = expression();
      return operation(g.pick(k), {l, r});
    }
    case 4: {
      T x = expression();
      return operation("negate", {x});
    }
    case 5: {
      static const std::vector<std::string> k{"power_of", "power_of_ew"};
      T l = expression(), r = expression();
      return operation(g.pick(k), {l, r});
    }
    case 6: {
      T x = expression();
      return operation("lnot", {x});
    }
    case 7: {
      static const std::vector<std::string> k{"greater", "greater_equal", "less", "less_equal", "equal", "different"};
      T l = expression(), r = expression();
      return operation(g.pick(k), {l, r});
    }
    case 8: {
      std::vector<T> a;
      for (size_t i = 0, n = count(2, 4); i < n; ++i)
        a.push_back(expression());
      return operation(g.chance(50) ? "lor" : "land", a);
    }
    case 9: {
      std::vector<T> a;
      for (size_t i = 0, n = g.range(2, 3); i < n; ++i)
        a.push_back(expression());
      return operation("range", a);
    }
    case 10: {
      T c = expression(), t = expression(), f = expression();
      return operation("if_else", {c, t, f});
    }
    case 11:
      return call();
    case 12:
      return tuple();
    case 13: {
      if (g.chance(30)) {
        T t("array_for_generator");
        t.one("values", expression());
        t.all("indices", forIndices());
        return t;
      }
      T t("array_constant");
      std::vector<T> v;
      for (size_t i = 0, n = count(1, 4); i < n; ++i)
        v.push_back(expression());
      t.all("values", std::move(v));
      return t;
    }
    default: {
      std::vector<T> a;
      a.push_back(expression());
      for (size_t i = 0, n = count(1, 3); i < n; ++i)
        a.push_back(subscript());
      return operation("subscription", a);
    }
    }
  }

  /// Expressions with no budget are small: give some.
  T someExpression() {
    int saved = budget;
    budget = std::min(budget, (int)g.range(1, 12));
    int given = budget;
    T t = expression();
    budget = saved - (given - budget);
    return t;
  }

  // --- modifications
  T elementModification() {
    T t("element_modification");
    spend();
    t.set("each", V::of(g.chance(25)));
    t.set("final", V::of(g.chance(25)));
    static const std::vector<std::string> n{"start", "fixed", "min", "max", "unit", "inline", "derivative", "order", "inverse"};
    t.set("name", V::of(g.chance(60) ? g.pick(n) : name()));
    if (g.chance(85))
      t.one("modification", modification());
    return t;
  }

  T classModification() {
    T t("class_modification");
    spend();
    std::vector<T> a;
    for (size_t i = 0, n = count(0, 4); i < n; ++i)
      a.push_back(elementModification());
    t.all("arguments", std::move(a));
    return t;
  }

  T modification() {
    T t("modification");
    spend();
    bool cls = g.chance(room() ? 40 : 5);
    if (cls)
      t.one("class_modification", classModification());
    if (!cls || g.chance(40))
      t.one("expression", someExpression());
    return t;
  }

  T annotation() { return std::move(T("annotation").one("properties", classModification())); }

  // --- equations
  T equation(int depth) {
    spend();
    int deep = depth > 0 && room() ? 2 : 0;
    switch (g.weighted({6, deep, deep, deep})) {
    case 0:
      return std::move(T("equation_equality").one("lhs", someExpression()).one("rhs", someExpression()));
    case 1: {
      T t("equation_for");
      t.all("for_indices", forIndices());
      t.all("equations", equations(depth - 1));
      return t;
    }
    default: {
      bool when = g.chance(45);
      T t(when ? "equation_when" : "equation_if");
      std::string x = when ? "when" : "if";
      t.one(x + "_condition", someExpression());
      t.all(x + "_equations", equations(depth - 1));
      std::vector<T> conditions, lists;
      for (size_t i = 0, n = count(0, 3); i < n; ++i) {
        conditions.push_back(someExpression());
        lists.push_back(std::move(T("#list").all("", equations(depth - 1))));
      }
      t.all("else_" + x + "_conditions", std::move(conditions));
      t.all("else_" + x + "_equations", std::move(lists));
      t.all("else_equations", !when && g.chance(50) ? equations(depth - 1) : std::vector<T>());
      return t;
    }
    }
  }

  std::vector<T> equations(int depth) {
    std::vector<T> r;
    for (size_t i = 0, n = count(0, 3); i < n; ++i)
      r.push_back(equation(depth));
    return r;
  }

  // --- statements
  T statement(int depth) {
    spend();
    int deep = depth > 0 && room() ? 2 : 0;
    switch (g.weighted({6, 2, 1, 1, deep, deep, deep, deep})) {
    case 0: {
      T t("assignment_statement");
      if (g.chance(35)) {
        t.one("destinations", tuple(true));
        t.one("expression", call(true));
      } else {
        T d("tuple");
        d.all("expressions", {reference()});
        t.one("destinations", std::move(d));
        t.one("expression", someExpression());
      }
      return t;
    }
    case 1:
      return std::move(T("call_statement").one("call", call(true)));
    case 2:
      return T("break_statement");
    case 3:
      return T("return_statement");
    case 4: {
      T t("for_statement");
      t.all("for_indices", forIndices());
      t.all("statements", statements(depth - 1));
      return t;
    }
    case 5:
    case 6: {
      T t(g.chance(50) ? "while_statement" : "when_statement");
      t.one("condition", someExpression());
      t.all("statements", statements(depth - 1));
      return t;
    }
    default: {
      T t("if_statement");
      t.one("if_condition", someExpression());
      t.one("if_block", block(depth - 1));
      std::vector<T> conditions, blocks;
      for (size_t i = 0, n = count(0, 3); i < n; ++i) {
        conditions.push_back(someExpression());
        blocks.push_back(block(depth - 1));
      }
      t.all("else_if_conditions", std::move(conditions));
      t.all("else_if_blocks", std::move(blocks));
      if (g.chance(50))
        t.one("else_block", block(depth - 1));
      return t;
    }
    }
  }

  T block(int depth) { return std::move(T("statements_block").all("statements", statements(depth))); }

  std::vector<T> statements(int depth) {
    std::vector<T> r;
    for (size_t i = 0, n = count(0, 3); i < n; ++i)
      r.push_back(statement(depth));
    return r;
  }

  // --- declarations
  T dimension() {
    T t("array_dimension");
    spend();
    switch (g.weighted({4, 2, 3})) {
    case 0:
      return t.set("size", V::ofInt(g.draw(50)));
    case 1:
      return t.set("size", V::ofInt(-1));
    default:
      return t.one("size", someExpression());
    }
  }

  T type() {
    T t;
    if (g.chance(70)) {
      static const std::vector<std::string> k{"Real", "Integer", "Boolean", "String"};
      t = T("builtin_type");
      t.set("type", V::of(g.pick(k)));
    } else {
      t = T("user_defined_type");
      t.set("global_lookup", V::of(g.chance(25)));
      std::vector<std::string> path;
      for (size_t i = 0, n = g.range(1, 3); i < n; ++i)
        path.push_back(name());
      t.set("path", V::ofList(path));
    }
    std::vector<T> dims;
    if (g.chance(35))
      for (size_t i = 0, n = g.range(1, 3); i < n; ++i)
        dims.push_back(dimension());
    t.all("dimensions", std::move(dims));
    return t;
  }

  T member() {
    T t("member");
    spend();
    t.set("name", V::of(name()));
    t.set("public", V::of(!g.chance(30)));
    t.one("type", type());
    static const std::vector<std::string> v{"none", "discrete", "parameter", "constant"}, io{"none", "input", "output"};
    t.one("type_prefix", T("type_prefix").set("variability", V::of(v[g.weighted({5, 1, 2, 1})])).set("io", V::of(io[g.weighted({5, 2, 2})])));
    if (g.chance(50))
      t.one("modification", modification());
    return t;
  }

  T externalCall() {
    T t("external_function_call");
    if (g.chance(60))
      t.one("destination", reference());
    t.set("callee", V::of(name()));
    std::vector<T> a;
    for (size_t i = 0, n = count(0, 3); i < n; ++i)
      a.push_back(someExpression());
    t.all("args", std::move(a));
    return t;
  }

  T cls(int depth, bool inner = false) {
    spend();
    T t;
    switch (g.weighted({5, 2, 2, 4, 1})) {
    case 0:
      t = T("model");
      break;
    case 1:
      t = T("record");
      break;
    case 2:
      t = T("package");
      break;
    case 3:
      t = T("standard_function");
      t.set("pure", V::of(!g.chance(25)));
      break;
    default:
      t = T("partial_der_function");
    }
    t.set("name", V::of(name()));
    if (t.kind == "partial_der_function") {
      t.one("derived_function", someExpression());
      std::vector<T> v;
      for (size_t i = 0, n = count(0, 3); i < n; ++i)
        v.push_back(someExpression());
      t.all("independent_variables", std::move(v));
      t.all("variables", {}).all("equation_sections", {}).all("algorithms", {}).all("inner_classes", {});
      t.set("external", V::of(false));
      return t;
    }
    std::vector<T> vars, eqs, algs, inners;
    for (size_t i = 0, n = count(0, 4); i < n; ++i)
      vars.push_back(member());
    if (depth > 0 && g.chance(45))
      for (size_t i = 0, n = count(1, 2); i < n; ++i)
        inners.push_back(cls(depth - 1, true));
    for (size_t i = 0, n = count(0, 2); i < n; ++i) {
      T s("equation_section");
      s.set("initial", V::of(g.chance(30)));
      s.all("equations", equations(2));
      eqs.push_back(std::move(s));
    }
    for (size_t i = 0, n = count(0, 2); i < n; ++i) {
      T s("algorithm");
      s.set("initial", V::of(g.chance(30)));
      s.all("statements", statements(2));
      algs.push_back(std::move(s));
    }
    t.all("variables", std::move(vars)).all("equation_sections", std::move(eqs)).all("algorithms", std::move(algs)).all("inner_classes", std::move(inners));
    bool ext = g.chance(20);
    t.set("external", V::of(ext));
    if (ext) {
      std::string language = "C";
      if (g.chance(50))
        tok::quoted(g, '"', language = "");
      t.set("external_language", V::of(language));
      if (g.chance(60))
        t.one("external_function_call", externalCall());
      if (g.chance(40))
        t.one("external_annotation", annotation());
    }
    if (g.chance(20))
      t.one("annotation", annotation());
    return t;
  }

  T root() {
    T t("root");
    std::vector<T> c;
    for (size_t i = 0, n = g.chance(75) ? 1 : g.range(0, 3); i < n; ++i)
      c.push_back(cls(2));
    t.all("inner_classes", std::move(c));
    return t;
  }
};

// ---------------------------------------------------------------------------
// Writing.

inline const std::map<std::string, std::pair<int, TK>> &operators() {
  static const std::map<std::string, std::pair<int, TK>> m{
      {"if_else", {0, TK::If}},          {"range", {1, TK::Colon}},           {"lor", {2, TK::Or}},
      {"land", {3, TK::And}},            {"lnot", {4, TK::Not}},              {"greater", {5, TK::Greater}},
      {"greater_equal", {5, TK::GreaterEqual}}, {"less", {5, TK::Less}},      {"less_equal", {5, TK::LessEqual}},
      {"equal", {5, TK::Equal}},         {"different", {5, TK::NotEqual}},    {"add", {6, TK::Plus}},
      {"add_ew", {6, TK::PlusEW}},       {"subtract", {6, TK::Minus}},        {"subtract_ew", {6, TK::MinusEW}},
      {"negate", {6, TK::Minus}},        {"multiply", {7, TK::Product}},      {"multiply_ew", {7, TK::ProductEW}},
      {"divide", {7, TK::Division}},     {"divide_ew", {7, TK::DivisionEW}},  {"power_of", {8, TK::Pow}},
      {"power_of_ew", {8, TK::PowEW}},   {"subscription", {9, TK::LSquare}}};
  return m;
}

struct Writer {
  pbt::G &g;
  std::vector<Token> out;
  int redundant = 8;     // percentage of redundant parentheses
  bool unaryPlus = false; // redundant signs, which belong to no node

  explicit Writer(pbt::G &g) : g(g) {}

  void fixed(TK k) { out.push_back(Token{k, tok::spellingOf(k), ""}); }

  void identifier(const std::string &n) {
    Token t{TK::Identifier, n, n};
    bool plain = !n.empty() && !isdigit((unsigned char)n[0]) && !tok::isKeyword(n);
    for (size_t i = 0; i < n.size(); ++i)
      plain = plain && (isalnum((unsigned char)n[i]) || n[i] == '_' || (n[i] == '$' && i == 0));
    plain = plain && n != "$";
    if (!plain || g.chance(4))
      t.text = quote(n, '\'');
    out.push_back(t);
  }

  static std::string quote(const std::string &v, char q) {
    std::string r(1, q);
    for (char c : v) {
      if (c == q || c == '\\')
        r += '\\';
      r += c;
    }
    return r + q;
  }

  void string(const std::string &v) { out.push_back(Token{TK::String, quote(v, '"'), v}); }

  void comment(int percent) {
    if (g.chance(percent)) {
      std::string v;
      tok::quoted(g, '"', v);
      string(v);
    }
  }

  static int level(const T &t) { return t.kind == "operation" ? operators().at(t.str("operation_kind")).first : 9; }

  struct Range {
    Writer &w;
    T &t;
    Range(Writer &w, T &t) : w(w), t(t) { t.b = w.out.size(); }
    ~Range() {
      t.e = (int64_t)w.out.size() - 1;
      if (t.e < t.b)
        t.b = t.e = -1;
    }
  };

  void expression(T &t, int least) {
    int parens = level(t) < least ? 1 : 0;
    if (g.chance(redundant))
      parens += g.range(1, 2);
    if (!parens && least <= 6 && level(t) >= 7 && unaryPlus && g.chance(5))
      fixed(TK::Plus);
    int64_t b = out.size();
    for (int i = 0; i < parens; ++i)
      fixed(TK::LPar);
    if (parens && level(t) >= 7 && unaryPlus && g.chance(5))
      fixed(TK::Plus);
    bare(t);
    for (int i = 0; i < parens; ++i)
      fixed(TK::RPar);
    t.b = b;
    t.e = (int64_t)out.size() - 1;
  }

  void list(std::vector<T> &ts, TK sep, int least) {
    for (size_t i = 0; i < ts.size(); ++i) {
      if (i)
        fixed(sep);
      expression(ts[i], least);
    }
  }

  void bare(T &t) {
    if (t.kind == "constant") {
      const V &v = t.props.at("value");
      char buf[64];
      switch (v.type) {
      case 'b':
        fixed(v.b ? TK::True : TK::False);
        break;
      case 'i':
        out.push_back(Token{TK::Integer, std::string(g.chance(3) ? 2 : 0, '0') + std::to_string(v.i), "", v.i});
        break;
      case 'd': {
        snprintf(buf, sizeof buf, g.chance(20) ? "%.16e" : "%.17g", v.d);
        std::string s = buf;
        if (s.find('.') == std::string::npos && s.find('e') == std::string::npos)
          s += g.chance(50) ? "." : ".0";
        out.push_back(Token{TK::FloatingPoint, s, "", 0, v.d});
        break;
      }
      default:
        string(v.s);
      }
      return;
    }
    if (t.kind == "component_reference")
      return reference(t);
    if (t.kind == "call") {
      T &c = t.kid("callee");
      if (c.kids("path").size() == 1 && c.kid("path").str("name") == "der" && !c.flag("global_lookup")) {
        Range r(*this, c), q(*this, c.kid("path"));
        fixed(TK::Der);
      } else {
        reference(c);
      }
      fixed(TK::LPar);
      bool first = true;
      for (T &a : t.kids("args")) {
        if (!first)
          fixed(TK::Comma);
        first = false;
        argument(a);
      }
      fixed(TK::RPar);
      return;
    }
    if (t.kind == "tuple") {
      fixed(TK::LPar);
      tupleElements(t);
      fixed(TK::RPar);
      return;
    }
    if (t.kind == "array_constant") {
      fixed(TK::LCurly);
      list(t.kids("values"), TK::Comma, 0);
      fixed(TK::RCurly);
      return;
    }
    if (t.kind == "array_for_generator") {
      fixed(TK::LCurly);
      expression(t.kid("values"), 0);
      fixed(TK::For);
      indices(t.kids("indices"));
      fixed(TK::RCurly);
      return;
    }
    auto &a = t.kids("args");
    const std::string &k = t.str("operation_kind");
    auto &op = operators().at(k);
    if (k == "if_else") {
      fixed(TK::If);
      expression(a[0], 0);
      fixed(TK::Then);
      expression(a[1], 0);
      fixed(TK::Else);
      expression(a[2], 0);
    } else if (k == "range") {
      list(a, TK::Colon, 2);
    } else if (k == "lor" || k == "land") {
      list(a, op.second, op.first + 1);
    } else if (k == "lnot" || k == "negate") {
      fixed(op.second);
      expression(a[0], op.first + 1);
    } else if (k == "subscription") {
      bool free = a[0].kind == "call" || a[0].kind == "tuple" || a[0].kind == "array_constant" || a[0].kind == "array_for_generator";
      expression(a[0], free ? 9 : 10);
      subscripts(a, 1);
    } else {
      bool left = op.first == 6 || op.first == 7;
      expression(a[0], left ? op.first : op.first + 1);
      fixed(op.second);
      expression(a[1], op.first + 1);
    }
  }

  void tupleElements(T &t) {
    auto &es = t.kids("expressions");
    for (size_t i = 0; i < es.size(); ++i) {
      if (es[i].kind == "component_reference" && es[i].flag("dummy")) {
        Range r(*this, es[i]);
        fixed(TK::Comma);
        continue;
      }
      expression(es[i], 0);
      if (i + 1 < es.size())
        fixed(TK::Comma);
    }
  }

  void argument(T &a) {
    Range r(*this, a);
    if (a.kind == "function_argument_expression") {
      expression(a.kid("expression"), 0);
    } else if (a.kind == "function_argument_named") {
      identifier(a.str("name"));
      fixed(TK::EqualityOperator);
      argument(a.kid("value"));
    } else {
      expression(a.kid("expression"), 0);
      fixed(TK::For);
      indices(a.kids("iterators"));
    }
  }

  void indices(std::vector<T> &ts) {
    for (size_t i = 0; i < ts.size(); ++i) {
      if (i)
        fixed(TK::Comma);
      Range r(*this, ts[i]);
      identifier(ts[i].str("name"));
      if (ts[i].has("expression")) {
        fixed(TK::In);
        expression(ts[i].kid("expression"), 0);
      }
    }
  }

  void subscripts(std::vector<T> &ts, size_t from) {
    fixed(TK::LSquare);
    for (size_t i = from; i < ts.size(); ++i) {
      if (i > from)
        fixed(TK::Comma);
      Range r(*this, ts[i]);
      if (ts[i].flag("unbounded"))
        fixed(TK::Colon);
      else
        expression(ts[i].kid("expression"), 0);
    }
    fixed(TK::RSquare);
  }

  void reference(T &t) {
    Range r(*this, t);
    if (t.flag("global_lookup"))
      fixed(TK::Dot);
    auto &path = t.kids("path");
    for (size_t i = 0; i < path.size(); ++i) {
      if (i)
        fixed(TK::Dot);
      Range q(*this, path[i]);
      identifier(path[i].str("name"));
      if (path[i].has("subscripts"))
        subscripts(path[i].kids("subscripts"), 0);
    }
  }

  // --- modifications
  void modification(T &t, bool assignment) {
    Range r(*this, t);
    if (t.has("class_modification")) {
      classModification(t.kid("class_modification"));
      if (t.has("expression")) {
        fixed(TK::EqualityOperator);
        expression(t.kid("expression"), 0);
      }
    } else {
      fixed(assignment && g.chance(20) ? TK::AssignmentOperator : TK::EqualityOperator);
      expression(t.kid("expression"), 0);
    }
  }

  void classModification(T &t) {
    Range r(*this, t);
    fixed(TK::LPar);
    bool first = true;
    for (T &m : t.kids("arguments")) {
      if (!first)
        fixed(TK::Comma);
      first = false;
      if (m.flag("each"))
        fixed(TK::Each);
      if (m.flag("final"))
        fixed(TK::Final);
      Range q(*this, m);
      identifier(m.str("name"));
      if (m.has("modification"))
        modification(m.kid("modification"), true);
    }
    fixed(TK::RPar);
  }

  void annotation(T &t) {
    Range r(*this, t);
    fixed(TK::Annotation);
    classModification(t.kid("properties"));
  }

  // --- equations
  void equations(std::vector<T> &ts) {
    for (T &t : ts) {
      equation(t);
      fixed(TK::Semicolon);
    }
  }

  void equation(T &t) {
    Range r(*this, t);
    if (t.kind == "equation_equality") {
      expression(t.kid("lhs"), 1);
      fixed(TK::EqualityOperator);
      expression(t.kid("rhs"), 0);
      comment(10);
      return;
    }
    if (t.kind == "equation_for") {
      fixed(TK::For);
      indices(t.kids("for_indices"));
      fixed(TK::Loop);
      equations(t.kids("equations"));
      fixed(TK::End);
      fixed(TK::For);
      return;
    }
    bool when = t.kind == "equation_when";
    std::string x = when ? "when" : "if";
    fixed(when ? TK::When : TK::If);
    expression(t.kid(x + "_condition"), 0);
    fixed(TK::Then);
    equations(t.kids(x + "_equations"));
    auto &cs = t.kids("else_" + x + "_conditions");
    for (size_t i = 0; i < cs.size(); ++i) {
      fixed(when ? TK::ElseWhen : TK::ElseIf);
      expression(cs[i], 0);
      fixed(TK::Then);
      equations(t.kid("else_" + x + "_equations", i).kids(""));
    }
    if (t.has("else_equations") || (!when && g.chance(15))) {
      fixed(TK::Else);
      equations(t.kids("else_equations"));
    }
    fixed(TK::End);
    fixed(when ? TK::When : TK::If);
  }

  // --- statements
  void statements(std::vector<T> &ts) {
    for (T &t : ts) {
      statement(t);
      fixed(TK::Semicolon);
    }
  }

  void block(T &t) {
    statements(t.kids("statements"));
    if (t.has("statements")) {
      t.b = t.kids("statements").front().b;
      t.e = t.kids("statements").back().e;
    }
  }

  void statement(T &t) {
    Range r(*this, t);
    const std::string &k = t.kind;
    if (k == "assignment_statement") {
      T &d = t.kid("destinations");
      auto &es = d.kids("expressions");
      T &v = t.kid("expression");
      bool called = v.kind == "call" && !(v.kid("callee").kids("path").size() == 1 && v.kid("callee").kid("path").str("name") == "der");
      {
        Range q(*this, d);
        if (es.size() == 1 && !(called && g.chance(30))) {
          reference(es[0]);
          called = false;
        } else {
          fixed(TK::LPar);
          tupleElements(d);
          fixed(TK::RPar);
        }
      }
      fixed(TK::AssignmentOperator);
      if (called) {
        Range q(*this, v);
        bare(v);
      } else {
        expression(v, 0);
      }
    } else if (k == "call_statement") {
      Range q(*this, t.kid("call"));
      bare(t.kid("call"));
    } else if (k == "break_statement") {
      fixed(TK::Break);
    } else if (k == "return_statement") {
      fixed(TK::Return);
    } else if (k == "for_statement") {
      fixed(TK::For);
      indices(t.kids("for_indices"));
      fixed(TK::Loop);
      statements(t.kids("statements"));
      fixed(TK::End);
      fixed(TK::For);
    } else if (k == "while_statement" || k == "when_statement") {
      bool when = k == "when_statement";
      fixed(when ? TK::When : TK::While);
      expression(t.kid("condition"), 0);
      fixed(when ? TK::Then : TK::Loop);
      statements(t.kids("statements"));
      fixed(TK::End);
      fixed(when ? TK::When : TK::While);
    } else {
      fixed(TK::If);
      expression(t.kid("if_condition"), 0);
      fixed(TK::Then);
      block(t.kid("if_block"));
      for (size_t i = 0; i < t.kids("else_if_conditions").size(); ++i) {
        fixed(TK::ElseIf);
        expression(t.kid("else_if_conditions", i), 0);
        fixed(TK::Then);
        block(t.kid("else_if_blocks", i));
      }
      if (t.has("else_block")) {
        fixed(TK::Else);
        block(t.kid("else_block"));
      }
      fixed(TK::End);
      fixed(TK::If);
    }
  }

  // --- declarations
  void member(T &t) {
    if (g.chance(8))
      fixed(TK::Final);
    T &p = t.kid("type_prefix");
    {
      Range r(*this, p);
      const std::string &v = p.str("variability"), &io = p.str("io");
      if (v != "none")
        fixed(v == "discrete" ? TK::Discrete : v == "parameter" ? TK::Parameter : TK::Constant);
      if (io != "none")
        fixed(io == "input" ? TK::Input : TK::Output);
    }
    T &y = t.kid("type");
    if (y.kind == "builtin_type") {
      Range r(*this, y);
      out.push_back(Token{TK::Identifier, y.str("type"), y.str("type")});
    } else {
      if (y.flag("global_lookup"))
        fixed(TK::Dot);
      Range r(*this, y);
      bool first = true;
      for (auto &n : y.props.at("path").l) {
        if (!first)
          fixed(TK::Dot);
        first = false;
        identifier(n);
      }
    }
    if (y.has("dimensions")) {
      fixed(TK::LSquare);
      auto &ds = y.kids("dimensions");
      for (size_t i = 0; i < ds.size(); ++i) {
        if (i)
          fixed(TK::Comma);
        Range r(*this, ds[i]);
        if (ds[i].has("size")) {
          T &e = ds[i].kid("size");
          expression(e, 0);
          if (e.e == e.b && out.back().kind == TK::Integer) {
            // A plain number is a size.
            Token n = out.back();
            out.pop_back();
            fixed(TK::LPar);
            out.push_back(n);
            fixed(TK::RPar);
            e.e += 2;
          }
        } else if (ds[i].props.at("size").i == -1) {
          fixed(TK::Colon);
        } else {
          int64_t n = ds[i].props.at("size").i;
          out.push_back(Token{TK::Integer, std::to_string(n), "", n});
        }
      }
      fixed(TK::RSquare);
    }
    {
      Range r(*this, t);
      identifier(t.str("name"));
    }
    if (t.has("modification"))
      modification(t.kid("modification"), false);
    comment(15);
    if (g.chance(8)) {
      T a = Gen(g, 4).annotation();
      annotation(a);
    }
    fixed(TK::Semicolon);
  }

  void cls(T &t) {
    bool end = true;
    {
      Range r(*this, t);
      if (t.kind == "model") {
        fixed(g.chance(80) ? TK::Model : TK::Class);
      } else if (t.kind == "record") {
        if (g.chance(20))
          fixed(TK::Operator);
        fixed(TK::Record);
      } else if (t.kind == "package") {
        fixed(TK::Package);
      } else if (t.kind == "standard_function") {
        bool pure = t.flag("pure");
        if (!pure || g.chance(15))
          fixed(pure ? TK::Pure : TK::Impure);
        if (g.chance(15))
          fixed(TK::Operator);
        fixed(TK::Function);
      } else {
        fixed(TK::Function);
        end = false;
      }
      identifier(t.str("name"));
    }
    if (!end) {
      fixed(TK::EqualityOperator);
      fixed(TK::Der);
      fixed(TK::LPar);
      expression(t.kid("derived_function"), 0);
      for (T &v : t.kids("independent_variables")) {
        fixed(TK::Comma);
        expression(v, 0);
      }
      fixed(TK::RPar);
      comment(20);
      fixed(TK::Semicolon);
      return;
    }
    comment(15);
    auto &vars = t.kids("variables"), &eqs = t.kids("equation_sections"), &algs = t.kids("algorithms"), &inners = t.kids("inner_classes");
    size_t v = 0, q = 0, a = 0, c = 0;
    bool elements = true, isPublic = true;
    auto visibility = [&](bool p) {
      fixed(p ? TK::Public : TK::Protected);
      isPublic = p;
      elements = true;
    };
    while (v < vars.size() || q < eqs.size() || a < algs.size() || c < inners.size()) {
      if (g.chance(5))
        visibility(g.chance(50));
      switch (g.weighted({v < vars.size() ? 6 : 0, c < inners.size() ? 3 : 0, q < eqs.size() ? 2 : 0, a < algs.size() ? 2 : 0})) {
      case 0:
        if (!elements || isPublic != vars[v].flag("public"))
          visibility(vars[v].flag("public"));
        member(vars[v++]);
        break;
      case 1:
        if (!elements)
          visibility(g.chance(50));
        cls(inners[c++]);
        break;
      case 2: {
        Range r(*this, eqs[q]);
        if (eqs[q].flag("initial"))
          fixed(TK::Initial);
        fixed(TK::Equation);
        equations(eqs[q++].kids("equations"));
        elements = false;
        break;
      }
      default: {
        Range r(*this, algs[a]);
        if (algs[a].flag("initial"))
          fixed(TK::Initial);
        fixed(TK::Algorithm);
        statements(algs[a++].kids("statements"));
        elements = false;
      }
      }
    }
    if (t.flag("external")) {
      fixed(TK::External);
      if (t.str("external_language") != "C" || g.chance(30))
        string(t.str("external_language"));
      if (t.has("external_function_call")) {
        T &x = t.kid("external_function_call");
        Range r(*this, x);
        if (x.has("destination")) {
          reference(x.kid("destination"));
          fixed(TK::EqualityOperator);
        }
        identifier(x.str("callee"));
        fixed(TK::LPar);
        list(x.kids("args"), TK::Comma, 0);
        fixed(TK::RPar);
      }
      if (t.has("external_annotation"))
        annotation(t.kid("external_annotation"));
      fixed(TK::Semicolon);
    }
    if (t.has("annotation")) {
      annotation(t.kid("annotation"));
      fixed(TK::Semicolon);
    }
    fixed(TK::End);
    identifier(t.str("name"));
    fixed(TK::Semicolon);
  }

  void root(T &t) {
    for (T &c : t.kids("inner_classes"))
      cls(c);
  }
};
} // namespace syn
