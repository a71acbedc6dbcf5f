// Folding and simplification of the operations of the language, against an
// interpreter of the operations.
#include "bm_ir.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"

using namespace bm;
using pbt::G;

namespace {
struct Program {
  G &g;
  mlir::MLIRContext &ctx;
  mlir::OpBuilder b;
  ir::ModuleRef module;
  mlir::func::FuncOp func;
  std::vector<mlir::Value> scalars, tensors, ranges, arrays;
  std::vector<mlir::Type> argTypes;
  mlir::Type B, I, R, X, L, F;

  Program(G &g)
      : g(g), ctx(ir::context<d::BaseModelicaDialect, mlir::func::FuncDialect>()), b(&ctx) {
    B = d::BooleanType::get(&ctx);
    I = d::IntegerType::get(&ctx);
    R = d::RealType::get(&ctx);
    X = b.getIndexType();
    L = b.getI64Type();
    F = b.getF64Type();
    module = mlir::ModuleOp::create(b.getUnknownLoc());
    // An operation of unknown dialect holds the results, as it accepts the
    // refinement of their types.
    ctx.allowUnregisteredDialects(true);
  }

  void open(unsigned unknowns) {
    for (unsigned k = 0; k < unknowns; ++k)
      argTypes.push_back(type());
    b.setInsertionPointToEnd(module->getBody());
    func = b.create<mlir::func::FuncOp>(b.getUnknownLoc(), "f", b.getFunctionType(argTypes, {}));
    mlir::Block *body = func.addEntryBlock();
    b.setInsertionPointToEnd(body);
    for (mlir::Value v : body->getArguments()) {
      scalars.push_back(v);
      shapes.env[v] = isRealType(v.getType()) ? Val::ofReal(1) : Val::ofInt(1);
    }
  }

  mlir::Type type() {
    switch (g.weighted({4, 4, 2, 1, 1, 1})) {
    case 0: return I;
    case 1: return R;
    case 2: return B;
    case 3: return X;
    case 4: return L;
    }
    return F;
  }

  int64_t integer() {
    switch (g.weighted({12, 2, 1})) {
    case 0: return g.around(-9, 9);
    case 1: return g.around(-1000, 1000);
    }
    static const std::vector<int64_t> big{1ll << 20, (1ll << 31) + 1, -(1ll << 40), (1ll << 53) + 1, -(1ll << 53) - 3,
                                          (1ll << 62) + 5, 1ll << 61};
    return g.pick(big);
  }
  double real() {
    switch (g.weighted({10, 3, 1})) {
    case 0: return double(g.around(-12, 12)) / 4;
    case 1: return double(g.around(-100, 100)) / 10;
    }
    static const std::vector<double> odd{1e10, -1e-7, 3.141592653589793, 123456.75, 1e300};
    return g.pick(odd);
  }

  mlir::Value constant(mlir::Type t) {
    mlir::TypedAttr a;
    if (t == B)
      a = d::BooleanAttr::get(&ctx, g.draw(2) == 1);
    else if (t == I)
      a = d::IntegerAttr::get(&ctx, integer());
    else if (t == R)
      a = d::RealAttr::get(&ctx, real());
    else if (t == F)
      a = b.getF64FloatAttr(real());
    else
      a = mlir::IntegerAttr::get(t, integer());
    return b.create<d::ConstantOp>(b.getUnknownLoc(), a);
  }
  mlir::Value index(int64_t n) {
    mlir::TypedAttr a = g.chance(20) ? mlir::TypedAttr(d::IntegerAttr::get(&ctx, n)) : mlir::TypedAttr(b.getIndexAttr(n));
    return b.create<d::ConstantOp>(b.getUnknownLoc(), a);
  }

  mlir::Value scalar() { return scalars.empty() || g.chance(35) ? constant(type()) : g.pick(scalars); }
  mlir::Value ofType(mlir::Type t) {
    std::vector<mlir::Value> r;
    for (mlir::Value v : scalars)
      if (v.getType() == t)
        r.push_back(v);
    return r.empty() || g.chance(40) ? constant(t) : g.pick(r);
  }
  mlir::Type sameOr(mlir::Type t) { return !t || g.chance(25) ? (g.draw(2) ? R : I) : t; }

  /// Appends an operation if it is valid.
  bool add(llvm::StringRef name, mlir::Type result, llvm::ArrayRef<mlir::Value> operands) {
    if (!result)
      return false;
    mlir::Operation *op = make(b, name, result, operands);
    if (mlir::failed(mlir::verify(op))) {
      op->erase();
      return false;
    }
    g.label(name.str());
    mlir::Value v = op->getResult(0);
    if (isScalarType(v.getType()))
      scalars.push_back(v);
    else if (mlir::isa<d::RangeType>(v.getType()))
      ranges.push_back(v);
    else if (mlir::isa<d::ArrayType>(v.getType()))
      arrays.push_back(v);
    else
      tensors.push_back(v);
    return true;
  }

  void scalarOp() {
    static const std::vector<std::string> un{"neg", "abs", "sign", "ceil", "floor", "integer", "acos", "asin", "atan",
                                             "cos", "cosh", "exp", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"};
    static const std::vector<std::string> bin{"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew"};
    static const std::vector<std::string> two{"max", "min", "mod", "rem", "div_trunc", "atan2"};
    static const std::vector<std::string> cmp{"eq", "neq", "gt", "gte", "lt", "lte", "and", "or"};
    mlir::Value x = scalar();
    switch (g.weighted({6, 10, 5, 5, 1, 2, 1})) {
    case 0: {
      auto &n = g.pick(un);
      mlir::Type t = inferred(ctx, n, {x});
      add(n, sameOr(t ? t : x.getType()), {x});
      break;
    }
    case 1: {
      auto &n = g.pick(bin);
      mlir::Value y = scalar();
      add(n, sameOr(inferred(ctx, n, {x, y})), {x, y});
      break;
    }
    case 2: {
      auto &n = g.pick(two);
      mlir::Value y = scalar();
      mlir::Type t = inferred(ctx, n, {x, y});
      add(n, sameOr(t ? t : (isRealType(x.getType()) ? x : y).getType()), {x, y});
      break;
    }
    case 3: add(g.pick(cmp), B, {x, scalar()}); break;
    case 4: add("not", B, {x}); break;
    case 5: add("cast", type(), {x}); break;
    default: {
      mlir::Value y = scalar(), c = g.chance(50) ? constant(B) : scalar();
      add("select", g.draw(2) ? x.getType() : R, {c, x, y});
    }
    }
  }

  mlir::Value smallIndexRange(int64_t dim) {
    int64_t first = g.range(0, dim - 1), last = g.range(first, dim - 1), step = g.range(1, 2);
    auto c = [&](int64_t n) { return b.create<d::ConstantOp>(b.getUnknownLoc(), b.getIndexAttr(n)).getResult(); };
    return make(b, "range", d::RangeType::get(&ctx, X), {c(first), c(last), c(step)})->getResult(0);
  }

  void rangeOp() {
    if (ranges.empty() || g.chance(30)) {
      static const std::vector<int> kinds{0, 1, 2};
      int k = g.pick(kinds);
      auto c = [&](int64_t n) -> mlir::Value {
        mlir::TypedAttr a;
        if (k == 0) a = b.getIndexAttr(n);
        else if (k == 1) a = d::IntegerAttr::get(&ctx, n);
        else a = d::RealAttr::get(&ctx, double(n) / 4);
        return b.create<d::ConstantOp>(b.getUnknownLoc(), a);
      };
      int64_t first = g.around(-6, 6), step = g.range(1, 3), n = g.range(0, 5);
      if (k && g.chance(30))
        step = -step;
      int64_t last = first + step * n + (g.chance(40) && step > 1 ? 1 : 0);
      std::vector<mlir::Value> ops{c(first), c(last), c(step)};
      if (g.chance(15) && !scalars.empty())
        ops[g.draw(3)] = g.pick(scalars);
      add("range", inferred(ctx, "range", ops), ops);
      return;
    }
    mlir::Value r = g.pick(ranges);
    mlir::Type t = mlir::cast<d::RangeType>(r.getType()).getInductionType();
    switch (g.weighted({2, 2, 2, 2, 4})) {
    case 0: add("range_begin", t, {r}); break;
    case 1: add("range_end", t, {r}); break;
    case 2: add("range_step", t, {r}); break;
    case 3: add("range_size", X, {r}); break;
    default: {
      static const std::vector<std::string> n{"add", "sub", "mul", "add_ew", "sub_ew"};
      auto &name = g.pick(n);
      mlir::Value s = g.chance(70) ? constant(type()) : scalar();
      std::vector<mlir::Value> ops{r, s};
      if (name.substr(0, 3) != "sub" && g.chance(40))
        std::swap(ops[0], ops[1]);
      add(name, inferred(ctx, name, ops), ops);
    }
    }
  }

  mlir::Type element() { return g.pick(std::vector<mlir::Type>{R, I, B}); }
  std::vector<int64_t> shape() {
    std::vector<int64_t> s;
    for (int64_t k = 0, n = g.range(1, 3); k < n; ++k)
      s.push_back(g.range(1, 3));
    return s;
  }
  std::vector<mlir::Value> subscripts(llvm::ArrayRef<int64_t> shape, size_t n, bool withRanges) {
    std::vector<mlir::Value> r;
    for (size_t k = 0; k < n; ++k) {
      int64_t dim = shape[k] < 1 ? 1 : shape[k];
      if (withRanges && g.chance(35))
        r.push_back(smallIndexRange(dim));
      else
        r.push_back(index(g.range(0, dim - 1)));
    }
    return r;
  }

  void tensorOp() {
    if (tensors.empty() || g.chance(25)) {
      auto s = shape();
      int64_t n = 1;
      for (int64_t k : s)
        n *= k;
      mlir::Type e = element();
      auto t = mlir::RankedTensorType::get(s, e);
      if (g.chance(15)) {
        add(g.chance(50) ? "tensor_broadcast" : "fill", t, {scalar()});
        return;
      }
      std::vector<mlir::Value> el;
      bool known = g.chance(50);
      for (int64_t k = 0; k < n; ++k)
        el.push_back(known ? constant(e) : scalar());
      add("tensor_from_elements", t, el);
      return;
    }
    mlir::Value x = g.pick(tensors);
    auto t = mlir::cast<mlir::RankedTensorType>(x.getType());
    std::vector<int64_t> dims = shapeOf(x).vec();
    if (int64_t(dims.size()) != t.getRank())
      return;
    switch (g.weighted({3, 3, 5, 5, 2, 1, 1, 1})) {
    case 0: {
      mlir::Value y = g.pick(tensors);
      static const std::vector<std::string> n{"add", "sub", "mul", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew"};
      auto &name = g.pick(n);
      if (!compatible(name, shapeOf(x), shapeOf(y))) {
        for (mlir::Value z : tensors)
          if (compatible(name, shapeOf(x), shapeOf(z)) && (!compatible(name, shapeOf(x), shapeOf(y)) || g.chance(40)))
            y = z;
        if (!compatible(name, shapeOf(x), shapeOf(y)))
          y = x;
        if (!compatible(name, shapeOf(x), shapeOf(y)))
          break;
      }
      add(name, inferred(ctx, name, {x, y}), {x, y});
      break;
    }
    case 1: {
      static const std::vector<std::string> n{"mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew"};
      auto &name = g.pick(n);
      mlir::Value s = g.chance(60) ? constant(g.draw(2) ? I : R) : scalar();
      std::vector<mlir::Value> ops{x, s};
      if (name != "div" && name != "pow" && g.chance(50))
        std::swap(ops[0], ops[1]);
      if (name == "pow" && (dims.size() != 2 || dims[0] != dims[1]))
        break;
      add(name, inferred(ctx, name, ops), ops);
      break;
    }
    case 2: {
      auto subs = subscripts(dims, g.draw(t.getRank() + 1), true);
      mlir::Type r = d::TensorViewOp::inferResultType(t, subs);
      subs.insert(subs.begin(), x);
      add("tensor_view", r, subs);
      break;
    }
    case 3: {
      std::vector<mlir::Value> ops{x};
      for (int64_t k = 0; k < t.getRank(); ++k)
        ops.push_back(b.create<d::ConstantOp>(b.getUnknownLoc(), b.getIndexAttr(g.range(0, dims[k] - 1))));
      bool valid = add("tensor_extract", t.getElementType(), ops);
      PBT_REQUIRE(g, valid, "an extraction with subscripts inside the bounds is refused");
      break;
    }
    case 4: {
      // The refinement of the types of the views is not expected to concern
      // the modified tensors, which are the values of variables.
      if (!t.hasStaticShape())
        break;
      auto ops = subscripts(dims, t.getRank(), false);
      ops.insert(ops.begin(), {scalar(), x});
      add("tensor_insert", t, ops);
      break;
    }
    case 5: add(g.pick(std::vector<std::string>{"sum", "product", "max", "min"}), t.getElementType(), {x}); break;
    case 6: add("neg", inferred(ctx, "neg", {x}), {x}); break;
    default: add("size", I, {x, index(g.range(0, t.getRank() - 1))});
    }
  }

  void arrayOp() {
    if (arrays.empty() || g.chance(20)) {
      auto s = shape();
      int64_t n = 1;
      for (int64_t k : s)
        n *= k;
      mlir::Type e = element();
      auto t = d::ArrayType::get(s, e);
      switch (g.weighted({3, 1, 2})) {
      case 0: {
        std::vector<mlir::Value> el;
        for (int64_t k = 0; k < n; ++k)
          el.push_back(g.chance(60) ? constant(e) : scalar());
        add("array_from_elements", t, el);
        break;
      }
      case 1: add("array_broadcast", t, {scalar()}); break;
      default:
        if (add("alloca", t, {})) {
          mlir::Value x = arrays.back();
          stores.insert(x.getAsOpaquePointer());
          for (int64_t k = 0; k < n; ++k) {
            std::vector<mlir::Value> ops{ofType(e), x};
            int64_t rest = k;
            std::vector<mlir::Value> idx(s.size());
            for (size_t l = s.size(); l-- > 0; rest /= s[l])
              idx[l] = b.create<d::ConstantOp>(b.getUnknownLoc(), b.getIndexAttr(rest % s[l]));
            ops.insert(ops.end(), idx.begin(), idx.end());
            make(b, "store", {}, ops);
          }
        }
      }
      return;
    }
    mlir::Value x = g.pick(arrays);
    auto t = mlir::cast<d::ArrayType>(x.getType());
    std::vector<int64_t> dims = shapeOf(x).vec();
    if (int64_t(dims.size()) != t.getRank())
      return;
    auto exact = [&] {
      std::vector<mlir::Value> r;
      for (int64_t k = 0; k < t.getRank(); ++k)
        r.push_back(b.create<d::ConstantOp>(b.getUnknownLoc(), b.getIndexAttr(g.range(0, dims[k] - 1))));
      return r;
    };
    switch (g.weighted({5, 5, 3, 1})) {
    case 0: {
      auto subs = subscripts(dims, g.draw(t.getRank() + 1), true);
      mlir::Type r = d::SubscriptionOp::inferResultType(t, subs);
      bool writable = stores.count(x.getAsOpaquePointer());
      subs.insert(subs.begin(), x);
      if (add("subscription", r, subs) && writable)
        stores.insert(arrays.back().getAsOpaquePointer());
      break;
    }
    case 1: {
      auto ops = exact();
      ops.insert(ops.begin(), x);
      bool valid = add("load", t.getElementType(), ops);
      PBT_REQUIRE(g, valid, "a load with subscripts inside the bounds is refused");
      break;
    }
    case 2:
      if (stores.count(x.getAsOpaquePointer())) {
        auto ops = exact();
        ops.insert(ops.begin(), {ofType(t.getElementType()), x});
        mlir::Operation *op = make(b, "store", {}, ops);
        if (mlir::failed(mlir::verify(op)))
          op->erase();
        else
          g.label("store");
      }
      break;
    default:
      if (t.getRank())
        add("dim", X, {x, b.create<d::ConstantOp>(b.getUnknownLoc(), b.getIndexAttr(g.range(0, t.getRank() - 1)))});
    }
  }
  std::set<void *> stores;

  /// The shape of the value, for all the values of the arguments.
  Interpreter shapes;
  llvm::ArrayRef<int64_t> shapeOf(mlir::Value v) {
    static const std::vector<int64_t> none;
    shapes.demand(v);
    const Val &x = shapes.env[v];
    return x.kind == Val::Tensor ? llvm::ArrayRef<int64_t>(x.shape) : llvm::ArrayRef<int64_t>(none);
  }
  bool compatible(llvm::StringRef name, llvm::ArrayRef<int64_t> x, llvm::ArrayRef<int64_t> y) {
    if (name != "mul")
      return x == y;
    if (x.empty() || y.empty() || x.size() > 2 || y.size() > 2)
      return false;
    return x.back() == y.front();
  }

  void close() {
    std::vector<mlir::Value> all(scalars.begin(), scalars.end());
    all.insert(all.end(), tensors.begin(), tensors.end());
    all.insert(all.end(), ranges.begin(), ranges.end());
    mlir::OperationState results(b.getUnknownLoc(), "test.results");
    results.addOperands(all);
    b.create(results);
    b.create<mlir::func::ReturnOp>(b.getUnknownLoc());
  }

  std::vector<Val> environment() {
    std::vector<Val> r;
    for (mlir::Type t : argTypes) {
      if (t == B) r.push_back(Val::ofInt(g.draw(2)));
      else if (isRealType(t)) r.push_back(Val::ofReal(real()));
      else r.push_back(Val::ofInt(t == X ? g.range(0, 2) : g.around(-9, 9)));
    }
    return r;
  }

  std::vector<Val> run(const std::vector<Val> &args) {
    Interpreter in;
    mlir::Block &body = func.getBody().front();
    for (size_t k = 0; k < args.size(); ++k)
      in.env[body.getArgument(k)] = args[k];
    in.run(body);
    if (!in.unknown.empty())
      g.fail("unexpected operation " + in.unknown);
    std::vector<Val> r;
    for (mlir::Value v : body.getTerminator()->getPrevNode()->getOperands())
      r.push_back(in.get(v));
    return r;
  }

  void check() {
    g.log << ir::print(*module) << "\n";
    {
      ir::Diagnostics diags(&ctx);
      if (mlir::failed(mlir::verify(*module)))
        g.discard();
    }
    std::vector<std::vector<Val>> envs, before;
    for (int k = 0; k < (argTypes.empty() ? 1 : 3); ++k) {
      envs.push_back(environment());
      before.push_back(run(envs.back()));
    }
    size_t opsBefore = func.getBody().front().getOperations().size();
    ir::Diagnostics diags(&ctx);
    mlir::PassManager pm(&ctx);
    pm.addPass(mlir::createCanonicalizerPass());
    mlir::LogicalResult r = pm.run(*module);
    PBT_REQUIRE(g, mlir::succeeded(r), "the simplification failed" << diags.text());
    g.log << "simplified to\n" << ir::print(*module) << "\n";
    size_t known = 0;
    for (size_t k = 0; k < envs.size(); ++k) {
      std::vector<Val> after = run(envs[k]);
      PBT_REQUIRE(g, after.size() == before[k].size(), "the number of results changed");
      for (size_t n = 0; n < after.size(); ++n) {
        if (!defined(before[k][n]))
          continue;
        ++known;
        if (!agree(before[k][n], after[n])) {
          std::string a;
          for (auto &v : envs[k])
            a += " " + text(v);
          g.fail("result " + std::to_string(n) + " is " + text(after[n]) + " rather than " + text(before[k][n]) +
                 ", arguments:" + a);
        }
      }
    }
    if (known && func.getBody().front().getOperations().size() != opsBefore)
      g.nontrivial();
  }
};
} // namespace

PBT_PROP("C30", scalars, 36000, 800000, "some result has a value and the operations are simplified") {
  Program p(g);
  ir::Diagnostics diags(&p.ctx);
  p.open(0);
  for (int64_t k = 0, n = g.range(1, 4); k < n; ++k)
    p.scalarOp();
  p.close();
  p.check();
}

PBT_PROP("C30", expressions, 30000, 600000, "some result has a value and the operations are simplified") {
  Program p(g);
  ir::Diagnostics diags(&p.ctx);
  p.open(g.range(1, 4));
  for (int64_t k = 0, n = g.range(1, 10); k < n; ++k)
    p.scalarOp();
  p.close();
  p.check();
}

PBT_PROP("C30", ranges, 20000, 400000, "some result has a value and the operations are simplified") {
  Program p(g);
  ir::Diagnostics diags(&p.ctx);
  p.open(g.range(0, 2));
  for (int64_t k = 0, n = g.range(1, 6); k < n; ++k)
    if (g.chance(80))
      p.rangeOp();
    else
      p.scalarOp();
  p.close();
  p.check();
}

PBT_PROP("C30", arrays, 36000, 600000, "some result has a value and the operations are simplified") {
  Program p(g);
  ir::Diagnostics diags(&p.ctx);
  p.open(g.range(0, 2));
  bool memory = g.chance(50);
  for (int64_t k = 0, n = g.range(1, 9); k < n; ++k)
    if (g.chance(75))
      memory ? p.arrayOp() : p.tensorOp();
    else
      p.scalarOp();
  p.close();
  p.check();
}
