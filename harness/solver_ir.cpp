// C29: operations of the solvers and of the run time.
#include "marco/Dialect/IDA/IR/Dialect.h"
#include "marco/Dialect/IDA/IR/Ops.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Ops.h"
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "marco/Dialect/SUNDIALS/IR/Dialect.h"
#include "marco/Dialect/SUNDIALS/IR/Ops.h"
#include "ir_util.h"
#include "modeling_util.h"

namespace ida = mlir::ida;
namespace kinsol = mlir::kinsol;
namespace sundials = mlir::sundials;
namespace runtime = mlir::runtime;
using mlir::modeling::MultidimensionalRangeAttr;

namespace {
mlir::MLIRContext &context() {
  return ir::context<mlir::modeling::ModelingDialect, runtime::RuntimeDialect, ida::IDADialect,
                     kinsol::KINSOLDialect, sundials::SUNDIALSDialect>();
}

std::string text(pbt::G &g) {
  static const std::vector<std::string> pool = {"x", "y", "x.y", "a b", "\"", "\\", "\n", "\t", "\xc3\xa9", "0",
                                                "true", "der(x)", "@", "a\"b", "\\n", "{", "}", "-", "_", "$"};
  std::string s;
  for (size_t n = g.range(1, 3); n; --n)
    s += g.pick(pool);
  return s;
}

/// A module made of random operations.
struct Builder {
  pbt::G &g;
  mlir::MLIRContext &ctx = context();
  mlir::OpBuilder b{&ctx};
  mlir::Location loc = b.getUnknownLoc();
  ir::ModuleRef module{mlir::ModuleOp::create(loc)};
  std::set<std::string> symbols;
  std::vector<mlir::Value> idaEquations, idaVariables, kinsolEquations, kinsolVariables;
  size_t interesting = 0;

  explicit Builder(pbt::G &g) : g(g) { b.setInsertionPointToEnd(module->getBody()); }

  std::string symbol() {
    std::string s = g.chance(70) ? g.pick(std::vector<std::string>{"f", "g", "h", "x_getter"}) : text(g);
    while (!symbols.insert(s).second)
      s += std::to_string(symbols.size());
    return s;
  }

  std::string reference() { return g.chance(80) ? "inst" : text(g); }

  mlir::SymbolRefAttr nested() {
    auto r = mlir::FlatSymbolRefAttr::get(&ctx, reference());
    if (g.chance(80))
      return r;
    return mlir::SymbolRefAttr::get(b.getStringAttr(reference()), {r});
  }

  mlir::ArrayAttr integers() {
    mlir::SmallVector<int64_t> v;
    for (size_t n = g.range(0, 4); n; --n)
      v.push_back(g.chance(90) ? g.around(-3, 20) : g.pick(std::vector<int64_t>{INT64_MAX, INT64_MIN, -1, 1LL << 40}));
    return b.getI64ArrayAttr(v);
  }

  mlir::FloatAttr real() {
    static const std::vector<double> pool = {0.0, 1.0, -0.0, 0.1, 1e300, 4.9e-324, -2.5, 1e16, 3.0000000000000004,
                                             1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0, 123456789.123456789};
    return b.getF64FloatAttr(g.chance(70) ? g.pick(pool) : (double)g.around(-1000, 1000) / 7);
  }

  MultidimensionalRangeAttr box() {
    return MultidimensionalRangeAttr::get(&ctx, mu::box(mu::genBox(g, g.range(1, 3), -5, 20, 6)));
  }

  mlir::StringAttr optionalText() { return g.chance(50) ? b.getStringAttr(text(g)) : nullptr; }

  /// Some attributes unknown to the operation.
  void decorate(mlir::Operation *op) {
    if (!g.chance(20))
      return;
    ++interesting;
    switch (g.range(0, 3)) {
    case 0: op->setAttr("verif.flag", b.getUnitAttr()); break;
    case 1: op->setAttr("verif.text", b.getStringAttr(text(g))); break;
    case 2: op->setAttr("verif.box", box()); break;
    default: op->setAttr("verif.values", integers()); break;
    }
  }

  /// Values available in the current block, of the given type.
  std::vector<mlir::Value> values(mlir::Type type = nullptr) {
    std::vector<mlir::Value> v;
    for (auto a : b.getInsertionBlock()->getArguments())
      if (!type || a.getType() == type)
        v.push_back(a);
    for (auto &op : *b.getInsertionBlock())
      for (auto r : op.getResults())
        if (!type || r.getType() == type)
          v.push_back(r);
    return v;
  }

  mlir::SmallVector<mlir::Value> someValues() {
    auto all = values();
    mlir::SmallVector<mlir::Value> v;
    if (!all.empty())
      for (size_t n = g.range(0, 3); n; --n)
        v.push_back(g.pick(all));
    return v;
  }

  template <typename Return, typename F>
  void body(F op) {
    ++interesting;
    if (g.chance(50)) {
      size_t n = op.getNumArguments();
      if (n && g.chance(50))
        op.setArgAttr(g.draw(n), "verif.arg", b.getStringAttr(text(g)));
      if (op.getNumResults() && g.chance(50))
        op.setResultAttr(g.draw(op.getNumResults()), "verif.res", b.getI64IntegerAttr(3));
    }
    if (g.chance(20))
      mlir::SymbolTable::setSymbolVisibility(op, g.chance(50) ? mlir::SymbolTable::Visibility::Nested
                                                             : mlir::SymbolTable::Visibility::Private);
    decorate(op);
    if (g.chance(15)) { // a declaration
      if (mlir::SymbolTable::getSymbolVisibility(op) != mlir::SymbolTable::Visibility::Public)
        return;
      mlir::SymbolTable::setSymbolVisibility(op, mlir::SymbolTable::Visibility::Private);
      return;
    }
    mlir::OpBuilder::InsertionGuard guard(b);
    b.setInsertionPointToStart(op.addEntryBlock());
    for (size_t n = g.range(0, 2); n; --n)
      if (g.chance(50))
        b.create<ida::GetCurrentTimeOp>(loc, reference());
      else
        b.create<runtime::StringOp>(loc, runtime::StringType::get(&ctx), text(g));
    auto values = someValues();
    auto ret = b.create<Return>(loc, values);
    decorate(ret);
  }

  void any() {
    mlir::Operation *op = nullptr;
    auto instance = reference();
    switch (g.range(0, 44)) {
    case 0: {
      auto o = b.create<ida::InternalEquationsOp>(loc);
      mlir::OpBuilder::InsertionGuard guard(b);
      b.createBlock(&o.getBodyRegion());
      for (size_t n = g.range(0, 2); n; --n)
        b.create<ida::StepOp>(loc, reference());
      op = o;
      break;
    }
    case 1: op = b.create<ida::InstanceOp>(loc, symbol()); break;
    case 2: op = b.create<ida::InitOp>(loc, instance); break;
    case 3: op = b.create<ida::SetStartTimeOp>(loc, b.getStringAttr(instance), real()); break;
    case 4: op = b.create<ida::SetEndTimeOp>(loc, b.getStringAttr(instance), real()); break;
    case 5: op = b.create<ida::GetCurrentTimeOp>(loc, instance); break;
    case 6: {
      auto o = b.create<ida::AddEquationOp>(loc, instance, box());
      if (auto t = optionalText())
        o.setStringRepresentationAttr(t);
      idaEquations.push_back(o);
      op = o;
      break;
    }
    case 7: {
      auto dims = integers();
      auto getter = nested(), setter = nested();
      auto o = g.chance(50) ? b.create<ida::AddAlgebraicVariableOp>(loc, instance, dims, getter, setter)
                            : b.create<ida::AddAlgebraicVariableOp>(loc, instance, dims, "get", "set");
      if (auto t = optionalText())
        o.setNameAttr(t);
      idaVariables.push_back(o);
      op = o;
      break;
    }
    case 8: {
      auto dims = integers();
      auto a = nested(), c = nested(), d = nested(), e = nested();
      bool attrs = g.chance(50);
      auto o = attrs ? b.create<ida::AddStateVariableOp>(loc, instance, dims, a, c, d, e)
                     : b.create<ida::AddStateVariableOp>(loc, instance, dims, "a", "b", "c", "d");
      auto name = [](llvm::StringRef s, mlir::MLIRContext *ctx) { return mlir::SymbolRefAttr::get(ctx, s); };
      REQUIRE(o.getStateGetterAttr() == (attrs ? a : name("a", &ctx)));
      REQUIRE(o.getStateSetterAttr() == (attrs ? c : name("b", &ctx)));
      REQUIRE(o.getDerivativeGetterAttr() == (attrs ? d : name("c", &ctx)));
      REQUIRE(o.getDerivativeSetterAttr() == (attrs ? e : name("d", &ctx)));
      REQUIRE(o.getDimensions() == dims);
      if (auto t = optionalText())
        o.setNameAttr(t);
      idaVariables.push_back(o);
      op = o;
      break;
    }
    case 9:
      if (!idaEquations.empty() && !idaVariables.empty())
        op = b.create<ida::AddVariableAccessOp>(loc, instance, g.pick(idaEquations), g.pick(idaVariables), text(g));
      break;
    case 10:
      if (!idaEquations.empty())
        op = b.create<ida::SetResidualOp>(loc, instance, g.pick(idaEquations), text(g));
      break;
    case 11:
      if (!idaEquations.empty() && !idaVariables.empty())
        op = b.create<ida::AddJacobianOp>(loc, instance, g.pick(idaEquations), g.pick(idaVariables), text(g), integers());
      break;
    case 12: op = b.create<ida::CalcICOp>(loc, instance); break;
    case 13: op = b.create<ida::StepOp>(loc, instance); break;
    case 14: op = b.create<ida::FreeOp>(loc, instance); break;
    case 15: op = b.create<ida::PrintStatisticsOp>(loc, instance); break;
    case 16: op = b.create<kinsol::InstanceOp>(loc, symbol()); break;
    case 17: op = b.create<kinsol::InitOp>(loc, instance); break;
    case 18: {
      auto o = b.create<kinsol::AddEquationOp>(loc, instance, box());
      if (auto t = optionalText())
        o.setStringRepresentationAttr(t);
      kinsolEquations.push_back(o);
      op = o;
      break;
    }
    case 19: {
      auto dims = integers();
      auto getter = nested(), setter = nested();
      bool attrs = g.chance(50);
      auto o = attrs ? b.create<kinsol::AddVariableOp>(loc, instance, dims, getter, setter)
                     : b.create<kinsol::AddVariableOp>(loc, instance, dims, "get", "set");
      REQUIRE(o.getGetterAttr() == (attrs ? getter : mlir::SymbolRefAttr::get(&ctx, "get")));
      REQUIRE(o.getSetterAttr() == (attrs ? setter : mlir::SymbolRefAttr::get(&ctx, "set")));
      if (auto t = optionalText())
        o.setNameAttr(t);
      kinsolVariables.push_back(o);
      op = o;
      break;
    }
    case 20:
      if (!kinsolEquations.empty() && !kinsolVariables.empty())
        op = b.create<kinsol::AddVariableAccessOp>(loc, instance, g.pick(kinsolEquations), g.pick(kinsolVariables), text(g));
      break;
    case 21:
      if (!kinsolEquations.empty())
        op = b.create<kinsol::SetResidualOp>(loc, instance, g.pick(kinsolEquations), text(g));
      break;
    case 22:
      if (!kinsolEquations.empty() && !kinsolVariables.empty())
        op = b.create<kinsol::AddJacobianOp>(loc, instance, g.pick(kinsolEquations), g.pick(kinsolVariables), text(g), integers());
      break;
    case 23: op = b.create<kinsol::SolveOp>(loc, instance); break;
    case 24: op = b.create<kinsol::FreeOp>(loc, instance); break;
    case 25: op = b.create<runtime::SchedulerOp>(loc, symbol()); break;
    case 26: op = b.create<runtime::SchedulerCreateOp>(loc, instance); break;
    case 27: op = b.create<runtime::SchedulerDestroyOp>(loc, instance); break;
    case 28: op = b.create<runtime::SchedulerRunOp>(loc, instance); break;
    case 29: op = b.create<runtime::SchedulerAddEquationOp>(loc, instance, text(g), mu::IndexSet(box().getValue()), g.chance(50)); break;
    case 30: {
      mlir::Type types[] = {b.getF64Type(), b.getI64Type(), b.getI1Type(), runtime::StringType::get(&ctx)};
      mlir::ArrayAttr printable;
      if (g.chance(50)) {
        mlir::SmallVector<mlir::Attribute> v;
        for (size_t n = g.range(0, 3); n; --n)
          v.push_back(box());
        printable = b.getArrayAttr(v);
      }
      op = b.create<runtime::VariableOp>(loc, b.getStringAttr(symbol()), mlir::TypeAttr::get(types[g.draw(4)]), integers(),
                                         b.getBoolAttr(g.chance(50)), printable);
      break;
    }
    case 31: op = b.create<runtime::ModelNameOp>(loc, text(g)); break;
    case 32: op = b.create<runtime::NumberOfVariablesOp>(loc, g.around(-5, 100)); break;
    case 33: {
      mlir::SmallVector<std::string> v;
      for (size_t n = g.range(0, 3); n; --n)
        v.push_back(text(g));
      mlir::SmallVector<llvm::StringRef> r(v.begin(), v.end());
      op = b.create<runtime::VariableNamesOp>(loc, b.getStrArrayAttr(r));
      break;
    }
    case 34: op = b.create<runtime::VariableRanksOp>(loc, integers()); break;
    case 35: op = b.create<runtime::DerivativesMapOp>(loc, integers()); break;
    case 36: {
      auto o = b.create<runtime::PrintableIndicesOp>(loc, runtime::PrintableIndicesList());
      for (size_t n = g.range(0, 3); n; --n)
        if (g.chance(50))
          o.getProperties().indices.emplace_back(g.chance(50));
        else
          o.getProperties().indices.emplace_back(mu::IndexSet(box().getValue()));
      op = o;
      break;
    }
    case 37: {
      mlir::SmallVector<mlir::Attribute> v;
      for (size_t n = g.range(0, 3); n; --n)
        v.push_back(nested());
      op = b.create<runtime::VariableGettersOp>(loc, b.getArrayAttr(v));
      break;
    }
    case 38: op = b.create<runtime::StartTimeOp>(loc, g.chance(70) ? real() : nullptr); break;
    case 39: op = b.create<runtime::EndTimeOp>(loc, g.chance(70) ? real() : nullptr); break;
    case 40: {
      auto fill = [&](auto o) {
        mlir::OpBuilder::InsertionGuard guard(b);
        b.createBlock(&o.getBodyRegion());
        for (size_t n = g.range(0, 2); n; --n)
          b.create<kinsol::SolveOp>(loc, reference());
        op = o;
      };
      switch (g.range(0, 3)) {
      case 0: fill(b.create<runtime::ICModelBeginOp>(loc)); break;
      case 1: fill(b.create<runtime::ICModelEndOp>(loc)); break;
      case 2: fill(b.create<runtime::DynamicModelBeginOp>(loc)); break;
      default: fill(b.create<runtime::DynamicModelEndOp>(loc)); break;
      }
      break;
    }
    case 41: {
      auto fill = [&](auto o) {
        mlir::OpBuilder::InsertionGuard guard(b);
        b.createBlock(&o.getBodyRegion());
        for (size_t n = g.range(0, 2); n; --n)
          b.create<runtime::StringOp>(loc, runtime::StringType::get(&ctx), text(g));
        b.create<runtime::YieldOp>(loc, someValues());
        op = o;
      };
      if (g.chance(50))
        fill(b.create<runtime::InitFunctionOp>(loc));
      else
        fill(b.create<runtime::DeinitFunctionOp>(loc));
      break;
    }
    case 42: {
      mlir::SmallVector<mlir::Attribute> v;
      mlir::SmallVector<int64_t> dims;
      for (size_t n = g.range(0, 2); n; --n)
        dims.push_back(g.range(0, 5));
      mlir::SmallVector<MultidimensionalRangeAttr> ranges;
      for (size_t n = g.range(0, 2); n; --n)
        ranges.push_back(box());
      mlir::Type types[] = {b.getF64Type(), b.getI64Type(), b.getI1Type()};
      auto var = runtime::VariableAttr::get(&ctx, types[g.draw(3)], text(g), dims, g.chance(50), ranges);
      REQUIRE(var.getRank() == (int64_t)dims.size());
      auto der = runtime::VariableAttr::get(&ctx, b.getF64Type(), text(g), dims, false, {});
      v.push_back(var);
      if (g.chance(50))
        v.push_back(runtime::DerivativeAttr::get(&ctx, var, der));
      op = b.create<ida::StepOp>(loc, instance);
      op->setAttr("verif.variables", b.getArrayAttr(v));
      ++interesting;
      break;
    }
    default: function(); break;
    }
    if (op)
      decorate(op);
  }

  template <typename T>
  void group(const char *name, T actual, size_t first, size_t count, mlir::Block &block, mlir::Type type) {
    if (actual.size() != count)
      g.fail(std::string(name) + ": " + std::to_string(actual.size()) + " arguments instead of " + std::to_string(count));
    for (size_t i = 0; i < count; ++i) {
      if (actual[i] != block.getArgument(first + i))
        g.fail(std::string(name) + ": element " + std::to_string(i) + " is argument " +
               std::to_string(actual[i].getArgNumber()) + " instead of " + std::to_string(first + i));
      if (actual[i].getType() != type)
        g.fail(std::string(name) + ": element " + std::to_string(i) + " of type " + ir::str(actual[i].getType()));
    }
  }

  void single(const char *name, mlir::BlockArgument actual, size_t first, mlir::Block &block, mlir::Type type) {
    group(name, llvm::ArrayRef<mlir::BlockArgument>(actual), first, 1, block, type);
  }

  /// Checks of the functions, to be repeated on those read back.
  std::vector<std::function<void(mlir::ModuleOp)>> checks;

  template <typename F, typename C>
  void later(F op, C check) {
    std::string name = op.getSymName().str();
    check(op);
    checks.push_back([this, name, check](mlir::ModuleOp m) {
      auto f = m.lookupSymbol<F>(name);
      REQUIRE(f);
      check(f);
    });
  }

  void function() {
    std::string name = symbol();
    size_t e = g.range(0, 4), v = g.range(0, 4), seeds = g.range(0, 4);
    mlir::Type f64 = b.getF64Type(), index = b.getIndexType();
    mlir::Builder &bb = b;
    auto signature = [this, index, f64](mlir::FunctionOpInterface op, std::vector<mlir::Type> in, std::vector<mlir::Type> out) {
      REQUIRE(op.getArgumentTypes() == llvm::ArrayRef<mlir::Type>(in));
      REQUIRE(op.getResultTypes() == llvm::ArrayRef<mlir::Type>(out));
      REQUIRE(op.getNumArguments() == in.size() && op.getNumResults() == out.size());
      auto c = mlir::cast<mlir::CallableOpInterface>(op.getOperation());
      REQUIRE(c.getArgumentTypes() == llvm::ArrayRef<mlir::Type>(in));
      REQUIRE(c.getResultTypes() == llvm::ArrayRef<mlir::Type>(out));
      bool external = op.isExternal();
      REQUIRE(external == (c.getCallableRegion() == nullptr));
      REQUIRE(external == mlir::cast<mlir::SymbolOpInterface>(op.getOperation()).isDeclaration());
      if (!external) {
        REQUIRE(c.getCallableRegion() == &op.getFunctionBody());
        REQUIRE(op.getFunctionBody().getNumArguments() == in.size());
      }
    };
    auto rep = [](std::initializer_list<std::pair<size_t, mlir::Type>> l) {
      std::vector<mlir::Type> r;
      for (auto &p : l)
        r.insert(r.end(), p.first, p.second);
      return r;
    };
    int kind = g.range(0, 9);
    g.log << "function " << kind << " ranks " << e << " " << v << " seeds " << seeds << "\n";
    switch (kind) {
    case 0: {
      auto op = b.create<ida::ResidualFunctionOp>(loc, name, e);
      body<ida::ReturnOp>(op);
      later(op, [=](ida::ResidualFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{1, f64}, {e, index}}), {f64});
        if (op.isExternal())
          return;
        mlir::Block &block = op.getBody().front();
        single("time", op.getTime(), 0, block, f64);
        group("equation indices", op.getEquationIndices(), 1, e, block, index);
      });
      break;
    }
    case 1: {
      auto op = b.create<ida::JacobianFunctionOp>(loc, name, e, v, seeds);
      body<ida::ReturnOp>(op);
      later(op, [=](ida::JacobianFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()),
                  rep({{1, f64}, {e + v, index}, {1, f64}, {1 + seeds, index}}), {f64});
        REQUIRE(op.getEquationRank() == e && op.getVariableRank() == v);
        if (op.isExternal())
          return;
        mlir::Block &block = op.getBody().front();
        single("time", op.getTime(), 0, block, f64);
        group("equation indices", op.getEquationIndices(), 1, e, block, index);
        group("variable indices", op.getVariableIndices(), 1 + e, v, block, index);
        single("alpha", op.getAlpha(), 1 + e + v, block, f64);
        single("memory pool", op.getMemoryPool(), 2 + e + v, block, index);
        group("seeds", op.getADSeeds(), 3 + e + v, seeds, block, index);
      });
      break;
    }
    case 2: {
      auto op = b.create<kinsol::ResidualFunctionOp>(loc, name, e);
      body<kinsol::ReturnOp>(op);
      later(op, [=](kinsol::ResidualFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{e, index}}), {f64});
        if (!op.isExternal())
          group("equation indices", op.getEquationIndices(), 0, e, op.getBody().front(), index);
      });
      break;
    }
    case 3: {
      auto op = b.create<kinsol::JacobianFunctionOp>(loc, name, e, v, seeds);
      body<kinsol::ReturnOp>(op);
      later(op, [=](kinsol::JacobianFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{e + v + 1 + seeds, index}}), {f64});
        REQUIRE(op.getEquationRank() == e && op.getVariableRank() == v);
        if (op.isExternal())
          return;
        mlir::Block &block = op.getBody().front();
        group("equation indices", op.getEquationIndices(), 0, e, block, index);
        group("variable indices", op.getVariableIndices(), e, v, block, index);
        single("memory pool", op.getMemoryPool(), e + v, block, index);
        group("seeds", op.getADSeeds(), e + v + 1, seeds, block, index);
      });
      break;
    }
    case 4: {
      auto op = b.create<sundials::VariableGetterOp>(loc, name, (unsigned)v);
      body<sundials::ReturnOp>(op);
      later(op, [=](sundials::VariableGetterOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{v, index}}), {f64});
        if (!op.isExternal())
          group("variable indices", op.getVariableIndices(), 0, v, op.getBody().front(), index);
      });
      break;
    }
    case 5: {
      auto op = b.create<sundials::VariableSetterOp>(loc, name, (unsigned)v);
      body<sundials::ReturnOp>(op);
      later(op, [=](sundials::VariableSetterOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{1, f64}, {v, index}}), {});
        if (op.isExternal())
          return;
        single("value", op.getValue(), 0, op.getBody().front(), f64);
        group("variable indices", op.getVariableIndices(), 1, v, op.getBody().front(), index);
      });
      break;
    }
    case 6: {
      auto op = b.create<sundials::AccessFunctionOp>(loc, name, e, v);
      body<sundials::ReturnOp>(op);
      later(op, [=](sundials::AccessFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{e, index}}), rep({{v, index}}));
        if (!op.isExternal())
          group("equation indices", op.getEquationIndices(), 0, e, op.getBody().front(), index);
      });
      break;
    }
    case 7: {
      auto op = b.create<runtime::VariableGetterOp>(loc, name, v);
      body<runtime::ReturnOp>(op);
      later(op, [=](runtime::VariableGetterOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{v, index}}), {f64});
        if (op.isExternal())
          return;
        mlir::Block &block = op.getBodyRegion().front();
        group("indices", op.getIndices(), 0, v, block, index);
        REQUIRE(op.getVariableRank() == v);
        for (size_t i = 0; i < v; ++i)
          single("index", op.getIndex(i), i, block, index);
      });
      break;
    }
    case 8: {
      auto op = b.create<runtime::EquationFunctionOp>(loc, name, e);
      body<runtime::ReturnOp>(op);
      later(op, [=](runtime::EquationFunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), rep({{2 * e, index}}), {});
      });
      break;
    }
    default: { // a function calling itself
      std::vector<mlir::Type> in, out;
      mlir::Type pool[] = {f64, index, b.getI64Type(), b.getI1Type(), runtime::StringType::get(&ctx)};
      for (size_t n = g.range(0, 4); n; --n)
        in.push_back(pool[g.draw(5)]);
      for (size_t n = g.range(0, 1); n; --n)
        out.push_back(pool[g.draw(5)]);
      auto op = b.create<runtime::FunctionOp>(loc, name, b.getFunctionType(in, out));
      if (g.chance(80)) {
        mlir::OpBuilder::InsertionGuard guard(b);
        mlir::Block *block = op.addEntryBlock();
        b.setInsertionPointToStart(block);
        auto call = b.create<runtime::CallOp>(loc, op, block->getArguments());
        REQUIRE(call.getCallee() == name);
        REQUIRE(call.getArgOperands().size() == in.size() && call.getResultTypes() == mlir::TypeRange(out));
        for (size_t i = 0; i < in.size(); ++i)
          REQUIRE(call.getArgOperands()[i] == block->getArgument(i));
        REQUIRE(mlir::cast<mlir::SymbolRefAttr>(call.getCallableForCallee()).getRootReference() == name);
        decorate(call);
        b.create<runtime::ReturnOp>(loc, call.getResults());
      } else {
        body<runtime::ReturnOp>(op);
      }
      later(op, [=](runtime::FunctionOp op) {
        signature(mlir::cast<mlir::FunctionOpInterface>(op.getOperation()), in, out);
      });
      break;
    }
    }
  }
};

void check(pbt::G &g, Builder &m) {
  ir::roundTrips(g, *m.module);
  for (int form = 0; form < 3; ++form) {
    std::string text = form == 2 ? ir::bytecode(*m.module) : ir::print(*m.module, form == 1);
    ir::ModuleRef again = ir::parse(m.ctx, text);
    REQUIRE(again);
    for (auto &c : m.checks)
      c(*again);
  }
}

/// Splits a printed module in tokens.
std::vector<std::string> tokens(const std::string &s) {
  std::vector<std::string> t;
  for (size_t i = 0; i < s.size();) {
    size_t j = i + 1;
    if (s[i] == '"') {
      while (j < s.size() && s[j] != '"')
        j += s[j] == '\\' ? 2 : 1;
      ++j;
    } else if (isalnum(s[i]) || s[i] == '_') {
      while (j < s.size() && (isalnum(s[j]) || s[j] == '_' || s[j] == '.'))
        ++j;
    } else if (s[i] == '-' && j < s.size() && s[j] == '>') {
      ++j;
    }
    t.push_back(s.substr(i, std::min(j, s.size()) - i));
    i = j;
  }
  return t;
}
} // namespace

PBT_PROP("C29", roundtrip, 12000, 300000, "a function, an attribute of any kind or several operations") {
  Builder m(g);
  for (size_t n = g.range(1, 6); n; --n)
    m.any();
  if (m.interesting || std::distance(m.module->getBody()->begin(), m.module->getBody()->end()) > 2)
    g.nontrivial();
  g.log << ir::print(*m.module);
  check(g, m);
}

PBT_PROP("C29", functions, 12000, 300000, "a function with a group of at least two arguments") {
  Builder m(g);
  m.function();
  if (mlir::cast<mlir::FunctionOpInterface>(&m.module->getBody()->front()).getNumArguments() > 1)
    g.nontrivial();
  g.log << ir::print(*m.module);
  check(g, m);
}

PBT_PROP("C29", calls, 20000, 300000, "the call differs from the function") {
  Builder m(g);
  std::vector<mlir::Type> pool = {m.b.getF64Type(), m.b.getIndexType(), m.b.getI64Type(),
                                  mlir::MemRefType::get({2}, m.b.getF64Type())};
  auto types = [&] {
    std::vector<mlir::Type> v;
    for (size_t n = g.range(0, 2); n; --n)
      v.push_back(g.pick(pool));
    return v;
  };
  auto in = types(), out = types(), callIn = g.chance(60) ? in : types(), callOut = g.chance(60) ? out : types();
  bool missing = g.chance(10), other = !missing && g.chance(10);
  auto text = [](const std::vector<mlir::Type> &v) {
    std::string s = "(";
    for (auto t : v)
      s += " " + ir::str(t);
    return s + " )";
  };
  g.log << "function " << text(in) << text(out) << " call " << text(callIn) << text(callOut)
        << (missing ? " of a missing function" : "") << (other ? " of something else" : "") << "\n";
  auto function = m.b.create<runtime::FunctionOp>(m.loc, "f", m.b.getFunctionType(in, out));
  function.setPrivate();
  m.b.create<runtime::SchedulerOp>(m.loc, "s");
  auto caller = m.b.create<runtime::FunctionOp>(m.loc, "g", m.b.getFunctionType(callIn, {}));
  mlir::Block *block = caller.addEntryBlock();
  m.b.setInsertionPointToStart(block);
  auto call = m.b.create<runtime::CallOp>(m.loc, callOut, missing ? "h" : other ? "s" : "f", block->getArguments(), nullptr, nullptr);
  m.b.create<runtime::ReturnOp>(m.loc);
  bool shaped = false;
  for (auto t : callOut)
    shaped |= mlir::isa<mlir::ShapedType>(t);
  bool valid = !missing && !other && in == callIn && out == callOut && !shaped;
  if (!valid)
    g.nontrivial();
  ir::Diagnostics d(&m.ctx);
  bool ok = mlir::succeeded(mlir::verify(*m.module));
  if (ok != valid)
    g.fail((ok ? "accepted" : "refused") + d.text());
  REQUIRE(ok == d.errors.empty());
  ir::ModuleRef again = ir::parse(m.ctx, ir::print(*m.module, true));
  REQUIRE(bool(again) == valid);
}

PBT_PROP("C29", mutated, 20000, 400000, "the text is not the printed one") {
  Builder m(g);
  for (size_t n = g.range(1, 3); n; --n)
    m.any();
  std::string s = ir::print(*m.module, g.chance(20));
  auto t = tokens(s);
  for (size_t n = g.range(1, 3); n; --n) {
    size_t i = g.draw(t.size());
    switch (g.weighted({3, 2, 2, 2, 1})) {
    case 0: t.erase(t.begin() + i); break;
    case 1: t.insert(t.begin() + i, t[g.draw(t.size())]); break;
    case 2: t[i] = t[g.draw(t.size())]; break;
    case 3: std::swap(t[i], t[g.draw(t.size())]); break;
    default: t[i] = g.pick(std::vector<std::string>{"0", "-1", "{", "}", "(", ")", "@x", "\"x\"", "index", "f64", "[", "]", "<", ">", "9223372036854775807", "!ida.variable"}); break;
    }
    if (t.empty())
      t.push_back(" ");
  }
  std::string changed;
  for (auto &x : t)
    changed += x;
  if (changed != s)
    g.nontrivial();
  g.log << changed;
  ir::ModuleRef read;
  {
    ir::Diagnostics d(&m.ctx);
    read = ir::parse(m.ctx, changed);
    // MLIR's lexer reports a malformed token even where its parser goes on
    // without it.
    if (read)
      for (auto &e : d.errors)
        for (const char *lexical : {"identifier expected to start with", "invalid attribute name", "invalid type identifier", "invalid SSA name", "unexpected character", "expected \\n or"})
          if (e.find(lexical) != std::string::npos)
            g.discard();
    if (bool(read) == !d.errors.empty())
      g.fail(read ? "read with an error" + d.text() : "refused without a diagnostic");
  }
  g.label(read ? "read" : "refused");
  if (read)
    ir::roundTrips(g, *read);
}
