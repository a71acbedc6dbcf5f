// Derivatives generated for functions and expressions, against the numerical
// derivatives of the original functions.
#include "functions.h"
#include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivativeChainRule.h"

using namespace bm;
using pbt::G;

namespace {
mlir::MLIRContext &context() {
  auto &ctx = ir::context<d::BaseModelicaDialect>();
  mlir::DialectRegistry r;
  d::registerClassInterfaceExternalModels(r);
  d::registerConstantMaterializableTypeInterfaceExternalModels(r);
  d::registerDerivableOpInterfaceExternalModels(r);
  d::registerDerivableTypeInterfaceExternalModels(r);
  static mlir::MLIRContext *last = nullptr;
  if (last != &ctx || !mlir::isa<d::DerivableTypeInterface>(mlir::Type(d::RealType::get(&ctx))))
    ctx.appendDialectRegistry(r);
  last = &ctx;
  return ctx;
}

ir::ModuleRef load(G &g, const std::string &text) {
  auto &ctx = context();
  ir::Diagnostics diags(&ctx);
  ir::ModuleRef m = ir::parse(ctx, text);
  if (!m || mlir::failed(mlir::verify(*m)))
    g.fail("the function is not accepted" + diags.text() + "\n" + text);
  return m;
}

void apply(G &g, mlir::ModuleOp m, std::unique_ptr<mlir::Pass> pass, const std::string &text) {
  ir::Diagnostics diags(m.getContext());
  mlir::PassManager pm(m.getContext());
  pm.addPass(std::move(pass));
  if (mlir::failed(pm.run(m)))
    g.fail("no derivative" + diags.text() + "\n" + text);
}

Val value(G &g, const Writer::Shape &s) {
  if (s.empty())
    return Val::ofReal(double(g.around(-200, 200)) / 100 + 0.00317);
  int64_t n = 1;
  for (int64_t k : s)
    n *= k;
  std::vector<Val> el;
  for (int64_t k = 0; k < n; ++k)
    el.push_back(value(g, {}));
  return tensor(s, el);
}

/// a + t * b
Val along(const Val &a, double t, const Val &b) {
  if (a.kind != Val::Tensor)
    return Val::ofReal(a.num() + t * b.num());
  Val x = a;
  for (size_t k = 0; k < x.el.size(); ++k)
    x.el[k] = Val::ofReal(a.el[k].num() + t * b.el[k].num());
  return x;
}

/// Whether the two are close; `scale` is the size of what was computed.
std::string differs(const Val &got, const Val &low, const Val &high, double tol) {
  if (got.kind != Val::Tensor && got.kind != Val::None) {
    double m = std::max({1.0, std::fabs(low.num()), std::fabs(high.num())});
    if (std::fabs(low.num() - high.num()) > tol * m || m > 1e6)
      return "?";
    return std::fabs(got.num() - high.num()) > 20 * tol * m ? "different" : "";
  }
  if (got.kind != high.kind)
    return "different";
  if (got.shape != high.shape)
    return "different";
  std::string r;
  for (size_t k = 0; k < got.count(); ++k) {
    std::string s = differs(got.at(k), low.at(k), high.at(k), tol);
    if (s == "?")
      return s;
    if (!s.empty())
      r = s;
  }
  return r;
}

bool allDefined(const std::vector<Val> &v) {
  for (auto &x : v)
    if (!defined(x))
      return false;
  return true;
}

std::string show(const std::vector<Val> &v) {
  std::string s;
  for (auto &x : v)
    s += (s.empty() ? "" : ", ") + text(x);
  return s;
}

/// Numerical derivative of order 1 or 2 in zero of a function of one real.
/// Nothing where it can not be trusted.
struct Numerical {
  std::vector<Val> low, high;
};
using Traced = std::function<std::optional<std::vector<Val>>(double, std::string &)>;
std::optional<Numerical> derive(Traced traced, int order, double h) {
  // The function is smooth where it takes the same branches.
  std::optional<std::string> branches;
  auto f = [&](double t) -> std::optional<std::vector<Val>> {
    std::string trace;
    auto v = traced(t, trace);
    if (branches && *branches != trace)
      return std::nullopt;
    branches = trace;
    return v;
  };
  auto at = [&](double step) -> std::optional<std::vector<Val>> {
    auto m2 = f(-2 * step), m1 = f(-step), z = f(0), p1 = f(step), p2 = f(2 * step);
    for (auto *v : {&m2, &m1, &z, &p1, &p2})
      if (!*v || !allDefined(**v))
        return std::nullopt;
    std::vector<Val> r;
    for (size_t k = 0; k < z->size(); ++k) {
      std::function<Val(const Val &, const Val &, const Val &, const Val &, const Val &)> one = [&](auto &a, auto &b, auto &c, auto &d,
                                                                                                     auto &e) -> Val {
        if (c.kind == Val::Tensor) {
          Val x = tensor(c.shape, {});
          for (size_t j = 0; j < c.count(); ++j)
            x.el.push_back(one(a.at(j), b.at(j), c.at(j), d.at(j), e.at(j)));
          return x;
        }
        double v = order == 1 ? (a.num() - 8 * b.num() + 8 * d.num() - e.num()) / (12 * step)
                              : (-a.num() + 16 * b.num() - 30 * c.num() + 16 * d.num() - e.num()) / (12 * step * step);
        return Val::ofReal(v);
      };
      r.push_back(one((*m2)[k], (*m1)[k], (*z)[k], (*p1)[k], (*p2)[k]));
    }
    return r;
  };
  auto a = at(h), b = at(h / 2);
  if (!a || !b || !allDefined(*a) || !allDefined(*b))
    return std::nullopt;
  return Numerical{*a, *b};
}

void compare(G &g, const std::vector<Val> &got, const Numerical &n, double tol, const std::string &what) {
  if (!allDefined(got)) {
    // The formulas may be undefined or overflow where the function is not.
    g.label("undefined derivative");
    g.discard();
  }
  PBT_REQUIRE(g, got.size() == n.high.size(), what);
  bool bad = false;
  for (size_t k = 0; k < got.size(); ++k) {
    std::string s = differs(got[k], n.low[k], n.high[k], tol);
    if (s == "?")
      g.discard();
    bad |= !s.empty();
  }
  if (bad)
    g.fail("the derivative is (" + show(got) + "), but the function varies by (" + show(n.high) + ")\n" + what);
}

std::vector<Writer::Shape> inputsOf(const Writer &w) {
  std::vector<Writer::Shape> r;
  for (auto &v : w.vars)
    if (v.io == 'i')
      r.push_back(v.shape);
  return r;
}

void declare(G &g, Writer &w, bool scalars, bool integers) {
  unsigned in = unsigned(g.range(1, 3)), prot = unsigned(g.range(0, 2)), out = unsigned(g.range(1, 2));
  static const std::vector<std::string> names{"x", "y", "z", "u", "v", "w", "a", "b"};
  unsigned n = 0;
  for (unsigned k = 0; k < in; ++k)
    w.vars.push_back({names[n++], scalars ? Writer::Shape{} : w.shape(), 'i'});
  for (unsigned k = 0; k < prot; ++k)
    w.vars.push_back({names[n++], w.shape(), 'p'});
  for (unsigned k = 0; k < out; ++k)
    w.vars.push_back({names[n++], w.shape(), 'o'});
  for (auto &v : w.vars)
    if (v.io == 'i' && !v.shape.empty() && g.chance(25)) {
      v.dynamic = true;
      g.label("dynamic sizes");
    }
  if (integers && g.chance(25)) {
    w.vars.push_back({"n", {}, 'i', false});
    g.label("integer input");
  }
  // The variables come in any order.
  for (size_t k = w.vars.size(); k > 1; --k)
    std::swap(w.vars[k - 1], w.vars[k - 1 - g.draw(k)]);
}
} // namespace

PBT_PROP("C32", time_derivatives, 3000, 60000,
         "the derivative is computed and compared with the variation of the function in all its outputs") {
  Writer w(g);
  w.time = g.chance(20);
  declare(g, w, false, false);
  int order = g.chance(25) ? 2 : 1;
  std::string text = w.function("f", "derivative = #bmodelica<func_der \"f1\", 1>", 2, int(g.range(1, 3)));
  g.log << text;
  ir::ModuleRef m = load(g, text);
  std::vector<Val> x, dx, ddx;
  for (auto &s : inputsOf(w)) {
    x.push_back(value(g, s));
    dx.push_back(value(g, s));
    ddx.push_back(value(g, s));
  }
  double t0 = g.range(0, 10) / 4.0;
  auto along1 = [&](double t, std::string &trace) {
    std::vector<Val> a;
    for (size_t k = 0; k < x.size(); ++k)
      a.push_back(order == 1 ? along(x[k], t, dx[k]) : along(along(x[k], t, dx[k]), t * t / 2, ddx[k]));
    return callFunction(*m, "f", a, t0 + t, &trace);
  };
  auto n = derive(along1, order, order == 1 ? 1e-3 : 4e-3);
  if (!n)
    g.discard();
  apply(g, *m, d::createAutomaticDifferentiationPass(), text);
  if (order == 2) {
    auto f = mlir::cast<d::FunctionOp>(mlir::SymbolTable::lookupSymbolIn(*m, "f"));
    auto f1 = mlir::cast<d::FunctionOp>(mlir::SymbolTable::lookupSymbolIn(*m, "f1"));
    f->removeAttr("derivative");
    f.setDerivativeAttr(nullptr);
    f1.setDerivativeAttr(d::FunctionDerivativeAttr::get(m->getContext(), "f2", 2));
    apply(g, *m, d::createAutomaticDifferentiationPass(), text);
  }
  {
    ir::Diagnostics diags(m->getContext());
    if (mlir::failed(mlir::verify(*m)))
      g.fail("the derivative is not valid" + diags.text() + "\n" + ir::print(*m, true));
  }
  std::vector<Val> args = x;
  args.insert(args.end(), dx.begin(), dx.end());
  if (order == 2)
    args.insert(args.end(), ddx.begin(), ddx.end());
  auto got = callFunction(*m, order == 1 ? "f1" : "f2", args, t0, nullptr, 500000);
  if (!got)
    g.fail("the derivative can not be executed\n" + ir::print(*m));
  compare(g, *got, *n, order == 1 ? 1e-6 : 1e-4, "inputs " + show(args) + "\n" + ir::print(*m));
  g.nontrivial();
}

PBT_PROP("C32", partial_derivatives, 3000, 60000,
         "the derivative is computed and compared with the variation of the function in all its outputs") {
  std::string text;
  std::vector<Writer::Callee> callees;
  if (g.chance(40)) {
    Writer h(g);
    h.vars = {{"p", h.shape(), 'i'}, {"q", h.shape(), 'i'}, {"r", h.shape(), 'o'}};
    text += h.function("h", "", 1, 2);
    callees.push_back({"h", {h.vars[0].shape, h.vars[1].shape}, {h.vars[2].shape}});
  }
  Writer w(g);
  w.callees = callees;
  declare(g, w, g.chance(70), true);
  text += w.function("f", "", 2, int(g.range(1, 3)));
  std::vector<size_t> scalars; // inputs
  std::vector<std::string> names;
  std::vector<Val> x;
  for (auto &v : w.vars)
    if (v.io == 'i') {
      if (v.shape.empty() && v.real)
        scalars.push_back(names.size());
      names.push_back(v.name);
      x.push_back(v.real ? value(g, v.shape) : Val::ofInt(g.around(-3, 3)));
    }
  if (scalars.empty())
    g.discard();
  size_t order = g.chance(35) ? 2 : 1;
  std::vector<size_t> by;
  for (size_t k = 0; k < order; ++k)
    by.push_back(g.pick(scalars));
  text += "\"bmodelica.der_function\"() <{sym_name = \"fp\", derivedFunction = @f, independentVars = [";
  for (size_t k = 0; k < order; ++k)
    text += (k ? ", \"" : "\"") + names[by[k]] + "\"";
  text += "]}> : () -> ()\n";
  g.log << text;
  ir::ModuleRef m = load(g, text);
  auto at = [&](double s, double t, std::string &trace) {
    std::vector<Val> a = x;
    a[by[0]] = Val::ofReal(a[by[0]].num() + s);
    if (order == 2)
      a[by[1]] = Val::ofReal(a[by[1]].num() + t);
    return callFunction(*m, "f", a, 0, &trace);
  };
  std::optional<Numerical> n;
  if (order == 1) {
    n = derive([&](double s, std::string &trace) { return at(s, 0, trace); }, 1, 1e-3);
  } else if (by[0] == by[1]) {
    n = derive([&](double s, std::string &trace) { return at(s, 0, trace); }, 2, 4e-3);
  } else {
    n = derive([&](double s, std::string &outer) -> std::optional<std::vector<Val>> {
          auto r = derive([&](double t, std::string &trace) {
            auto v = at(s, t, trace);
            outer = trace;
            return v;
          }, 1, 4e-3);
          if (!r)
            return std::nullopt;
          for (size_t k = 0; k < r->high.size(); ++k)
            if (!differs(r->high[k], r->low[k], r->high[k], 1e-6).empty())
              return std::nullopt;
          return r->high;
        }, 1, 4e-3);
  }
  if (!n)
    g.discard();
  apply(g, *m, d::createAutomaticDifferentiationPass(), text);
  {
    ir::Diagnostics diags(m->getContext());
    if (mlir::failed(mlir::verify(*m)))
      g.fail("the derivative is not valid" + diags.text() + "\n" + ir::print(*m, true));
  }
  auto got = callFunction(*m, "fp", x, 0, nullptr, 500000);
  if (!got)
    g.fail("the derivative can not be executed\n" + ir::print(*m));
  compare(g, *got, *n, order == 1 ? 1e-6 : 1e-4, "inputs " + show(x) + "\n" + ir::print(*m));
  g.nontrivial();
}

PBT_PROP("C32", chain_rule, 2000, 40000,
         "the expression is derived and compared with its variation") {
  Writer w(g);
  unsigned in = unsigned(g.range(1, 3));
  static const std::vector<std::string> names{"x", "y", "z"};
  for (unsigned k = 0; k < in; ++k)
    w.vars.push_back({names[k], {}, 'i'});
  w.vars.push_back({"e", {}, 'o'});
  w.vars.push_back({"d", {}, 'o'});
  for (unsigned k = 0; k < in; ++k)
    w.assigned.push_back(names[k]);
  w.indent = 4;
  w.time = true;
  int size = int(g.range(1, 4));
  Writer::Value e = w.expr({}, size);
  Writer::Value der = w.op("der", {e}, "!bmodelica.real", {});
  std::string body = w.os.str() + "    bmodelica.variable_set @d, " + der.name + " : !bmodelica.real\n    bmodelica.variable_set @e, " +
                     e.name + " : !bmodelica.real\n";
  std::string text = "bmodelica.function @f {\n";
  for (auto &v : w.vars)
    text += "  bmodelica.variable @" + v.name + " : " + Writer::variableType(v) + "\n";
  for (unsigned k = 0; k < in; ++k)
    text += "  bmodelica.variable @der_" + names[k] + " : !bmodelica.variable<!bmodelica.real, input>\n";
  text += "  bmodelica.algorithm {\n" + body + "  }\n}\n";
  g.log << text;
  ir::ModuleRef m = load(g, text);
  std::vector<Val> x, dx;
  for (unsigned k = 0; k < in; ++k) {
    x.push_back(value(g, {}));
    dx.push_back(value(g, {}));
  }
  double t0 = g.range(0, 10) / 4.0;
  apply(g, *m, d::createDerivativeChainRulePass(), text);
  bool left = false;
  m->walk([&](d::DerOp) { left = true; });
  if (left)
    g.fail("the derivative is not expanded\n" + ir::print(*m));
  {
    ir::Diagnostics diags(m->getContext());
    if (mlir::failed(mlir::verify(*m)))
      g.fail("the derivative is not valid" + diags.text() + "\n" + ir::print(*m, true));
  }
  // The pass must keep the expression itself, so its variation can be taken
  // afterwards only if that is checked too.
  ir::ModuleRef original = ir::parse(*m->getContext(), text);
  original->walk([&](d::DerOp op) {
    op.getResult().replaceAllUsesWith(op.getOperand());
    op.erase();
  });
  auto at = [&](double t, std::string &trace) -> std::optional<std::vector<Val>> {
    std::vector<Val> a;
    for (unsigned k = 0; k < in; ++k)
      a.push_back(along(x[k], t, dx[k]));
    auto r = callFunction(*original, "f", a, t0 + t, &trace);
    if (!r)
      return r;
    return std::vector<Val>{(*r)[0]};
  };
  auto n = derive(at, 1, 1e-3);
  if (!n)
    g.discard();
  std::vector<Val> args = x;
  args.insert(args.end(), dx.begin(), dx.end());
  auto got = callFunction(*m, "f", args, t0, nullptr, 500000);
  if (!got)
    g.fail("the derivative can not be executed\n" + ir::print(*m));
  std::string trace;
  auto before = at(0, trace);
  if (!agree((*got)[0], (*before)[0]))
    g.fail("the expression has changed\n" + ir::print(*m));
  compare(g, {(*got)[1]}, *n, 1e-6, "inputs " + show(args) + "\n" + ir::print(*m));
  g.nontrivial();
}

