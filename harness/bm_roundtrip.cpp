// C31: the modelling representation survives printing, parsing and bytecode.
#include "functions.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "mlir/IR/SymbolTable.h"
#include <limits>

namespace {
using bm::d::BooleanType;
namespace d = mlir::bmodelica;
using marco::modeling::IndexSet;
using marco::modeling::MultidimensionalRange;
using marco::modeling::Range;

mlir::MLIRContext &context() {
  static std::unique_ptr<mlir::MLIRContext> ctx;
  static unsigned uses = 0;
  if (!ctx || ++uses > 500) {
    ctx = std::make_unique<mlir::MLIRContext>(mlir::MLIRContext::Threading::DISABLED);
    mlir::DialectRegistry r;
    d::registerClassInterfaceExternalModels(r);
    d::registerEquationExpressionOpInterfaceExternalModels(r);
    ctx->appendDialectRegistry(r);
    ctx->loadDialect<d::BaseModelicaDialect, mlir::func::FuncDialect>();
    uses = 0;
  }
  return *ctx;
}

struct Gen {
  pbt::G &g;
  mlir::MLIRContext &ctx;
  mlir::OpBuilder b;
  int names = 0;
  size_t ops = 0;
  bool sets = false;

  explicit Gen(pbt::G &g) : g(g), ctx(context()), b(&ctx) {}

  mlir::Location loc() { return b.getUnknownLoc(); }

  // --- types ---------------------------------------------------------------

  mlir::SymbolRefAttr ref() {
    static const std::vector<std::string> n = {"x", "M", "a.b", "der x", "$v", "F1", "0z", "tab\t\"q\""};
    llvm::SmallVector<mlir::FlatSymbolRefAttr> nested;
    for (int k = g.weighted({6, 3, 1}); k > 0; --k)
      nested.push_back(mlir::FlatSymbolRefAttr::get(&ctx, g.pick(n)));
    return mlir::SymbolRefAttr::get(b.getStringAttr(g.pick(n)), nested);
  }
  mlir::Type scalar() {
    switch (g.draw(8)) {
    case 0: return d::RealType::get(&ctx);
    case 1: return d::IntegerType::get(&ctx);
    case 2: return d::BooleanType::get(&ctx);
    case 3: return b.getIndexType();
    case 4: return b.getF64Type();
    case 5: return b.getI64Type();
    case 6: return b.getI1Type();
    default: return b.getF32Type();
    }
  }
  std::vector<int64_t> shape(int min = 0, bool dynamic = true) {
    std::vector<int64_t> s;
    for (int r = min + g.weighted({3, 4, 2, 1}); r > 0; --r)
      s.push_back(dynamic && g.chance(20) ? mlir::ShapedType::kDynamic : g.chance(8) ? 0 : g.range(1, 5));
    return s;
  }
  mlir::Type element() { return g.chance(8) ? mlir::Type(d::RecordType::get(&ctx, ref())) : scalar(); }
  mlir::Attribute memorySpace() {
    if (g.chance(80))
      return {};
    return g.chance(70) ? mlir::Attribute(b.getI64IntegerAttr(g.range(0, 4))) : mlir::Attribute(b.getStringAttr("gpu"));
  }
  mlir::Type arrayType() { return d::ArrayType::get(shape(), element(), memorySpace()); }
  mlir::Type tensorType() { return mlir::RankedTensorType::get(shape(), element()); }
  mlir::Type variableType() {
    static const d::VariabilityProperty vs[] = {d::VariabilityProperty::none, d::VariabilityProperty::discrete,
                                                d::VariabilityProperty::parameter, d::VariabilityProperty::constant};
    static const d::IOProperty is[] = {d::IOProperty::none, d::IOProperty::input, d::IOProperty::output};
    return d::VariableType::get(shape(), element(), vs[g.draw(4)], is[g.draw(3)], memorySpace());
  }
  mlir::Type rangeType() {
    mlir::Type t = scalar();
    return d::RangeType::get(&ctx, t);
  }
  mlir::Type type() {
    switch (g.weighted({6, 4, 2, 1, 2, 1, 1})) {
    case 0: return scalar();
    case 1: return tensorType();
    case 2: return arrayType();
    case 3: return d::UnrankedArrayType::get(element(), memorySpace());
    case 4: return rangeType();
    case 5: return d::RecordType::get(&ctx, ref());
    default: return variableType();
    }
  }

  // --- attributes ----------------------------------------------------------

  int64_t integer() {
    switch (g.weighted({5, 2, 1, 1})) {
    case 0: return g.around(-5, 5);
    case 1: return g.around(-1000000, 1000000);
    case 2: return std::numeric_limits<int64_t>::max() - int64_t(g.draw(2));
    default: return std::numeric_limits<int64_t>::min() + int64_t(g.draw(2));
    }
  }
  double real() {
    switch (g.weighted({4, 4, 2, 2, 1, 1})) {
    case 0: return double(g.around(-5, 5));
    case 1: return double(g.around(-1000, 1000)) / double(g.range(1, 1000));
    case 2: {
      uint64_t u = g.draw(UINT64_MAX);
      double x;
      memcpy(&x, &u, 8);
      return std::isfinite(x) ? x : 0.1;
    }
    case 3: return std::ldexp(1.0 + double(g.draw(1000)) / 7, int(g.around(-1060, 1000)));
    case 4: return -0.0;
    default: return g.chance(50) ? std::numeric_limits<double>::max() : std::numeric_limits<double>::denorm_min();
    }
  }
  mlir::Attribute typedAttr() {
    switch (g.draw(8)) {
    case 0: return d::BooleanAttr::get(&ctx, g.chance(50));
    case 1: return d::IntegerAttr::get(&ctx, integer());
    case 2: return d::RealAttr::get(&ctx, real());
    case 3: {
      auto s = shape(0, false);
      llvm::SmallVector<bool> v;
      for (int64_t n = count(s); n > 0; --n)
        v.push_back(g.chance(50));
      return d::DenseBooleanElementsAttr::get(mlir::RankedTensorType::get(s, d::BooleanType::get(&ctx)), v);
    }
    case 4: {
      auto s = shape(0, false);
      llvm::SmallVector<int64_t> v;
      for (int64_t n = count(s); n > 0; --n)
        v.push_back(integer());
      return d::DenseIntegerElementsAttr::get(mlir::RankedTensorType::get(s, d::IntegerType::get(&ctx)), v);
    }
    case 5: {
      auto s = shape(0, false);
      llvm::SmallVector<double> v;
      for (int64_t n = count(s); n > 0; --n)
        v.push_back(real());
      return d::DenseRealElementsAttr::get(mlir::RankedTensorType::get(s, d::RealType::get(&ctx)), v);
    }
    case 6: {
      if (g.chance(50))
        return d::IntegerRangeAttr::get(&ctx, d::RangeType::get(&ctx, g.chance(50) ? mlir::Type(b.getIndexType()) : d::IntegerType::get(&ctx)),
                                        integer(), integer(), integer());
      return d::IntegerRangeAttr::get(&ctx, integer(), integer(), integer());
    }
    default: return d::RealRangeAttr::get(&ctx, real(), real(), real());
    }
  }
  static int64_t count(const std::vector<int64_t> &s) {
    int64_t n = 1;
    for (int64_t x : s)
      n *= x;
    return n;
  }
  mlir::Attribute otherAttr() {
    switch (g.draw(3)) {
    case 0: {
      static const std::vector<std::string> n = {"f", "f_der", "a.b", "der f", "\"", "1"};
      return d::FunctionDerivativeAttr::get(&ctx, g.pick(n), g.chance(80) ? g.draw(4) : g.draw(UINT64_MAX));
    }
    case 1: {
      llvm::SmallVector<uint64_t> p;
      for (int k = g.range(0, 4); k > 0; --k)
        p.push_back(g.draw(12));
      return d::EquationPathAttr::get(&ctx, d::EquationPath(g.chance(50) ? d::EquationPath::LEFT : d::EquationPath::RIGHT, p));
    }
    default: return mlir::TypeAttr::get(type());
    }
  }
  IndexSet indexSet(size_t rank) {
    IndexSet s;
    for (int k = g.range(1, 3); k > 0 && rank; --k) {
      llvm::SmallVector<Range> r;
      for (size_t i = 0; i < rank; ++i) {
        int64_t lo = g.range(0, 6);
        r.emplace_back(lo, lo + g.range(1, 4));
      }
      s += MultidimensionalRange(r);
    }
    sets = true;
    return s;
  }
  d::Variable variable() { return d::Variable(ref(), g.chance(40) ? IndexSet() : indexSet(g.range(1, 3))); }

  // --- operations ----------------------------------------------------------

  mlir::Operation *create(llvm::StringRef name, mlir::TypeRange results, mlir::ValueRange operands,
                          llvm::ArrayRef<mlir::NamedAttribute> attrs = {}, unsigned regions = 0) {
    mlir::OperationState state(loc(), ("bmodelica." + name).str());
    state.addTypes(results);
    state.addOperands(operands);
    state.addAttributes(attrs);
    for (unsigned r = 0; r < regions; ++r)
      state.addRegion();
    ++ops;
    g.label(name.str());
    return b.create(state);
  }
  mlir::NamedAttribute attr(llvm::StringRef name, mlir::Attribute a) { return b.getNamedAttr(name, a); }
  mlir::NamedAttribute sym(llvm::StringRef name) { return attr("sym_name", b.getStringAttr(name)); }
  std::string fresh(const char *p) { return p + std::to_string(names++); }

  mlir::Value value(mlir::Type t) {
    return b.create<mlir::UnrealizedConversionCastOp>(loc(), mlir::TypeRange(t), mlir::ValueRange()).getResult(0);
  }
  std::vector<mlir::Value> values(int n, mlir::Type t = {}) {
    std::vector<mlir::Value> v;
    for (; n > 0; --n)
      v.push_back(value(t ? t : type()));
    return v;
  }
  /// The discardable attributes, which are not of the operation.
  void decorate(mlir::Operation *op) {
    if (g.chance(25))
      op->setAttr("note", g.chance(50) ? typedAttr() : otherAttr());
  }
  mlir::Block *block(mlir::Region &r) { return b.createBlock(&r); }
  struct Guard : mlir::OpBuilder::InsertionGuard {
    using InsertionGuard::InsertionGuard;
  };

  std::vector<std::pair<std::string, d::VariableType>> vars;

  /// The operations whose syntax is made of operands and types.
  void plain() {
    static std::vector<std::string> unary = {"neg", "not", "abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "diagonal", "exp", "floor",
                                             "integer", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "product", "sum",
                                             "symmetric", "transpose", "der", "ndims", "identity", "cast", "print"};
    static std::vector<std::string> binary = {"add", "add_ew", "sub", "sub_ew", "mul", "mul_ew", "div", "div_ew", "pow", "pow_ew", "eq", "neq",
                                              "gt", "gte", "lt", "lte", "and", "or", "atan2", "div_trunc", "mod", "rem"};
    mlir::Type index = b.getIndexType();
    auto scalars = [&](int n) {
      std::vector<mlir::Value> v;
      for (; n > 0; --n)
        v.push_back(value(scalar()));
      return v;
    };
    mlir::Operation *op = nullptr;
    switch (g.draw(25)) {
    case 0:
    case 1: {
      std::string n = g.pick(unary);
      mlir::Type t = n == "symmetric" || n == "transpose" || n == "diagonal" || n == "ndims" || n == "identity"
                         ? mlir::Type(mlir::RankedTensorType::get({3, 3}, scalar()))
                         : g.chance(60) ? scalar() : mlir::Type(mlir::RankedTensorType::get(shape(), scalar()));
      mlir::Type r = n == "transpose" || n == "not" ? t : n == "sum" || n == "product" || n == "ndims" ? scalar() : g.chance(50) ? t : n == "symmetric" || n == "diagonal" || n == "identity" ? t : scalar();
      if (n == "identity" || n == "diagonal")
        r = mlir::RankedTensorType::get({3, 3}, scalar());
      if (n == "identity")
        t = scalar();
      if (n == "not") {
        t = d::BooleanType::get(&ctx);
        r = t;
      }
      op = create(n, n == "print" ? mlir::TypeRange() : mlir::TypeRange(r), value(t));
      break;
    }
    case 2:
    case 3: {
      std::string n = g.pick(binary);
      mlir::Type t = scalar();
      bool boolean = n == "eq" || n == "neq" || n == "gt" || n == "gte" || n == "lt" || n == "lte" || n == "and" || n == "or";
      mlir::Type r = boolean ? mlir::Type(d::BooleanType::get(&ctx)) : t;
      if (n == "and" || n == "or")
        t = d::BooleanType::get(&ctx);
      op = create(n, r, {value(t), value(t)});
      break;
    }
    case 4: {
      mlir::Attribute a = typedAttr();
      if (g.chance(25))
        a = g.chance(50) ? mlir::Attribute(b.getF64FloatAttr(real())) : mlir::Attribute(b.getIndexAttr(integer()));
      op = create("constant", mlir::cast<mlir::TypedAttr>(a).getType(), {}, attr("value", a));
      break;
    }
    case 5: {
      auto v = scalars(3);
      mlir::Type t = v[0].getType();
      v = {value(t), value(t), value(t)};
      op = create("range", d::RangeType::get(&ctx, t), v);
      break;
    }
    case 6: op = create("unbounded_range", rangeType(), {}); break;
    case 7: {
      static const std::vector<std::string> n = {"range_begin", "range_end", "range_step", "range_size"};
      auto name = g.pick(n);
      auto t = mlir::cast<d::RangeType>(rangeType());
      op = create(name, name == "range_size" ? index : t.getInductionType(), value(t));
      break;
    }
    case 8: {
      auto s = shape(0, false);
      if (count(s) > 12)
        return;
      mlir::Type t = scalar();
      bool array = g.chance(40);
      op = create(array ? "array_from_elements" : "tensor_from_elements",
                  array ? mlir::Type(d::ArrayType::get(s, t)) : mlir::Type(mlir::RankedTensorType::get(s, t)), values(count(s), t));
      break;
    }
    case 9: {
      auto s = shape();
      mlir::Type t = scalar();
      std::vector<mlir::Value> v{value(t)};
      for (int64_t n : s)
        if (n == mlir::ShapedType::kDynamic)
          v.push_back(value(index));
      bool array = g.chance(40);
      op = create(array ? "array_broadcast" : "tensor_broadcast",
                  array ? mlir::Type(d::ArrayType::get(s, t)) : mlir::Type(mlir::RankedTensorType::get(s, t)), v);
      break;
    }
    case 10: {
      auto s = shape();
      mlir::Type t = scalar();
      bool array = g.chance(50);
      mlir::Type source = array ? mlir::Type(d::ArrayType::get(s, t)) : mlir::Type(mlir::RankedTensorType::get(s, t));
      std::vector<mlir::Value> v{value(source)};
      std::vector<int64_t> r;
      size_t k = g.range(0, s.size());
      for (size_t i = 0; i < s.size(); ++i)
        if (i >= k)
          r.push_back(s[i]);
        else if (g.chance(50))
          v.push_back(value(index));
        else {
          v.push_back(value(d::RangeType::get(&ctx, index)));
          r.push_back(mlir::ShapedType::kDynamic);
        }
      op = create(array ? "subscription" : "tensor_view",
                  array ? mlir::Type(d::ArrayType::get(r, t)) : mlir::Type(mlir::RankedTensorType::get(r, t)), v);
      break;
    }
    case 11: {
      auto s = shape();
      mlir::Type t = scalar();
      bool array = g.chance(50);
      std::vector<mlir::Value> v{value(array ? mlir::Type(d::ArrayType::get(s, t, memorySpace())) : mlir::Type(mlir::RankedTensorType::get(s, t)))};
      for (size_t i = 0; i < s.size(); ++i)
        v.push_back(value(index));
      op = create(array ? "load" : "tensor_extract", t, v);
      break;
    }
    case 12: {
      auto s = shape();
      mlir::Type t = scalar();
      std::vector<mlir::Value> v{value(t), value(d::ArrayType::get(s, t, memorySpace()))};
      for (size_t i = 0; i < s.size(); ++i)
        v.push_back(value(index));
      op = create("store", {}, v);
      break;
    }
    case 13: {
      auto s = shape();
      mlir::Type t = scalar(), dest = mlir::RankedTensorType::get(s, t);
      bool slice = g.chance(50);
      std::vector<mlir::Value> v{value(slice ? mlir::Type(mlir::RankedTensorType::get(shape(), t)) : t), value(dest)};
      for (size_t i = 0; i < s.size(); ++i)
        v.push_back(value(slice && g.chance(50) ? rangeType() : index));
      op = create(slice ? "tensor_insert_slice" : "tensor_insert", dest, v);
      break;
    }
    case 14: {
      auto s = shape();
      std::vector<mlir::Value> v;
      for (int64_t n : s)
        if (n == mlir::ShapedType::kDynamic)
          v.push_back(value(index));
      op = create(g.chance(50) ? "alloc" : "alloca", d::ArrayType::get(s, element(), memorySpace()), v);
      break;
    }
    case 15: {
      switch (g.draw(6)) {
      case 0: op = create("free", {}, value(arrayType())); break;
      case 1: op = create("dim", index, {value(arrayType()), value(index)}); break;
      case 2: op = create("array_fill", {}, {value(arrayType()), value(scalar())}); break;
      case 3: {
        mlir::Type t = arrayType();
        op = create("array_copy", {}, {value(t), value(t)});
        break;
      }
      case 4: {
        auto s = shape();
        mlir::Type t = scalar();
        mlir::Type a = d::ArrayType::get(s, t), m = mlir::RankedTensorType::get(s, t);
        bool back = g.chance(50);
        op = create(back ? "array_to_tensor" : "tensor_to_array", back ? m : a, value(back ? a : m));
        break;
      }
      default: op = create("array_cast", arrayType(), value(arrayType()));
      }
      break;
    }
    case 16: {
      static const std::vector<std::string> n = {"min", "max"};
      mlir::Type t = scalar();
      if (g.chance(50))
        op = create(g.pick(n), t, {value(t), value(t)});
      else
        op = create(g.pick(n), t, value(mlir::RankedTensorType::get(shape(1), t)));
      break;
    }
    case 17: {
      std::vector<mlir::Value> v{value(mlir::RankedTensorType::get(shape(1), scalar()))};
      if (g.chance(50))
        v.push_back(value(scalar()));
      op = create("size", v.size() == 1 ? mlir::Type(mlir::RankedTensorType::get({2}, scalar())) : scalar(), v);
      break;
    }
    case 18: {
      static const std::vector<std::string> n = {"zeros", "ones"};
      op = create(g.pick(n), mlir::RankedTensorType::get({-1 == 0 ? 1 : mlir::ShapedType::kDynamic, 2}, scalar()), scalars(2));
      break;
    }
    case 19: {
      int n = g.range(1, 3);
      std::vector<mlir::Value> v{value(scalar())};
      std::vector<mlir::Type> r;
      for (int k = 0; k < 2; ++k)
        for (int i = 0; i < n; ++i) {
          mlir::Type t = k == 0 ? type() : v[1 + i].getType();
          v.push_back(value(t));
          if (k == 0)
            r.push_back(t);
        }
      op = create("select", r, v);
      break;
    }
    case 20: op = create("time", mlir::Type(d::RealType::get(&ctx)), {}); break;
    case 21: op = create("record_create", d::RecordType::get(&ctx, ref()), values(g.range(1, 3))); break;
    case 22: op = create("external_call", g.chance(50) ? std::vector<mlir::Type>{scalar()} : std::vector<mlir::Type>{}, values(g.range(0, 3)),
                         {attr("callee", mlir::FlatSymbolRefAttr::get(&ctx, "ext")),
                          attr("language", b.getStringAttr(g.chance(50) ? "C" : "FORTRAN 77"))});
      break;
    case 23: op = create("pool_variable_get", type(), {value(index), value(index)}); break;
    default: {
      mlir::Type t = scalar();
      op = create("linspace", mlir::RankedTensorType::get({mlir::ShapedType::kDynamic}, t), {value(t), value(t), value(index)});
    }
    }
    {
      ir::Diagnostics ignored(&ctx);
      if (mlir::failed(mlir::verify(op))) {
        // Not an operation of the dialect.
        g.label("refused " + op->getName().stripDialect().str());
        op->erase();
        --ops;
        return;
      }
    }
    decorate(op);
  }
  void withRegion(int depth) {
    Guard guard(b);
    switch (g.draw(2)) {
    case 0: {
      std::vector<mlir::Value> it;
      for (int k = g.range(1, 3); k > 0; --k)
        it.push_back(value(rangeType()));
      mlir::Type t = scalar();
      static const std::vector<std::string> actions = {"add", "mul", "min", "max"};
      auto *op = create("reduction", t, it, attr("action", b.getStringAttr(g.pick(actions))), 1);
      decorate(op);
      mlir::Block *body = b.createBlock(&op->getRegion(0));
      for (mlir::Value v : it)
        body->addArgument(mlir::cast<d::RangeType>(v.getType()).getInductionType(), loc());
      expressions(depth - 1);
      create("yield", {}, value(t));
      break;
    }
    default: {
      static const d::AssertionLevel levels[] = {d::AssertionLevel::Error, d::AssertionLevel::Warning};
      static const std::vector<std::string> texts = {"", "x > 0", "with \"quotes\"", "line\nbreak", "\\"};
      auto *op = create("assert", {}, {},
                        {attr("message", b.getStringAttr(g.pick(texts))), attr("level", d::AssertionLevelAttr::get(&ctx, levels[g.draw(2)]))}, 1);
      block(op->getRegion(0));
      create("yield", {}, value(d::BooleanType::get(&ctx)));
    }
    }
  }
  void variableAccess() {
    if (vars.empty())
      return;
    auto &v = g.pick(vars);
    mlir::Type t = v.second.unwrap();
    switch (g.draw(4)) {
    case 0:
    case 1: create("variable_get", t, {}, attr("variable", b.getStringAttr(v.first))); break;
    case 2: create("qualified_variable_get", type(), {}, attr("variable", ref())); break;
    default:
    {
      mlir::Type r = d::RecordType::get(&ctx, mlir::SymbolRefAttr::get(&ctx, "the record"));
      mlir::Type c = d::RealType::get(&ctx);
      if (g.chance(50)) {
        auto s = shape(1);
        r = mlir::RankedTensorType::get(s, r);
        c = mlir::RankedTensorType::get(s, c);
      }
      create("component_get", c, value(r), attr("componentName", b.getStringAttr("the component")));
    }
    }
  }
  void expressions(int depth) {
    for (int k = g.range(0, 3); k > 0; --k)
      switch (g.weighted({8, 2, 2})) {
      case 0: plain(); break;
      case 1: variableAccess(); break;
      default:
        if (depth > 0)
          withRegion(depth);
      }
  }
  std::vector<mlir::Value> subscripts(int max = 3) {
    std::vector<mlir::Value> v;
    for (int k = g.range(0, max); k > 0; --k)
      v.push_back(value(g.chance(70) ? mlir::Type(b.getIndexType()) : d::RangeType::get(&ctx, b.getIndexType())));
    return v;
  }
  void statement(int depth) {
    Guard guard(b);
    switch (g.weighted({3, 3, 2, 2, depth > 0 ? 3 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0})) {
    case 0: expressions(depth); break;
    case 1: {
      std::vector<size_t> ok;
      for (size_t i = 0; i < vars.size(); ++i)
        if (!vars[i].second.isInput())
          ok.push_back(i);
      if (ok.empty())
        return;
      auto v = subscripts();
      v.push_back(value(type()));
      create("variable_set", {}, v, attr("variable", b.getStringAttr(vars[g.pick(ok)].first)));
      break;
    }
    case 2: {
      auto v = subscripts();
      v.push_back(value(type()));
      create("qualified_variable_set", {}, v, attr("variable", ref()));
      break;
    }
    case 3: {
      std::vector<mlir::Attribute> path;
      std::vector<int64_t> amounts;
      std::vector<mlir::Value> v;
      static const std::vector<std::string> n = {"r", "x", "a.b", "c d"};
      for (int k = g.range(1, 3); k > 0; --k) {
        path.push_back(mlir::FlatSymbolRefAttr::get(&ctx, g.pick(n)));
        auto s = subscripts(2);
        amounts.push_back(s.size());
        v.insert(v.end(), s.begin(), s.end());
      }
      v.push_back(value(type()));
      create("variable_component_set", {}, v, {attr("path", b.getArrayAttr(path)), attr("subscriptionsAmounts", b.getI64ArrayAttr(amounts))});
      break;
    }
    case 4: {
      auto *op = create("if", {}, value(scalar()), {}, 2);
      block(op->getRegion(0));
      statements(depth - 1);
      if (g.chance(50)) {
        block(op->getRegion(1));
        statements(depth - 1);
      }
      break;
    }
    case 5: {
      auto *op = create("while", {}, {}, {}, 2);
      decorate(op);
      block(op->getRegion(0));
      expressions(0);
      create("condition", {}, value(scalar()));
      block(op->getRegion(1));
      statements(depth - 1);
      if (g.chance(30))
        create(g.chance(50) ? "break" : "return", {}, {});
      break;
    }
    default: {
      auto args = values(g.range(0, 2), b.getIndexType());
      auto *op = create("for", {}, args, {}, 3);
      decorate(op);
      for (int r = 0; r < 3; ++r) {
        mlir::Block *body = block(op->getRegion(r));
        std::vector<mlir::Value> passed;
        for (size_t k = 0; k < args.size(); ++k)
          passed.push_back(body->addArgument(b.getIndexType(), loc()));
        statements(r == 1 ? depth - 1 : 0);
        if (r == 0) {
          std::vector<mlir::Value> v{value(d::BooleanType::get(&ctx))};
          v.insert(v.end(), passed.begin(), passed.end());
          create("condition", {}, v);
        } else
          create("yield", {}, passed);
      }
    }
    }
  }
  void statements(int depth) {
    for (int k = g.range(0, 3); k > 0; --k)
      statement(depth);
  }

  // --- declarations --------------------------------------------------------

  void variableOp(bool function) {
    Guard guard(b);
    auto t = mlir::cast<d::VariableType>(variableType());
    std::string n = fresh(g.chance(15) ? "q." : g.chance(15) ? "der " : "v");
    std::vector<mlir::Attribute> constraints;
    size_t fixed = 0;
    for (int64_t s : t.getShape())
      if (s == mlir::ShapedType::kDynamic) {
        bool f = g.chance(50);
        fixed += f;
        constraints.push_back(b.getStringAttr(f ? d::VariableOp::kDimensionConstraintFixed : d::VariableOp::kDimensionConstraintUnbounded));
      }
    auto *op = create("variable", {}, {},
                      {sym(n), attr("type", mlir::TypeAttr::get(t)), attr("dimensionsConstraints", b.getArrayAttr(constraints))}, 1);
    decorate(op);
    if (fixed) {
      block(op->getRegion(0));
      create("yield", {}, values(fixed, b.getIndexType()));
    }
    vars.emplace_back(n, t);
  }
  void variables() {
    vars.clear();
    for (int k = g.range(0, 4); k > 0; --k)
      variableOp(false);
  }
  void yields(mlir::Region &r, size_t n = 1) {
    Guard guard(b);
    block(r);
    expressions(1);
    create("yield", {}, values(n));
  }
  void sides() {
    std::vector<mlir::Value> s;
    std::vector<mlir::Type> shaped;
    for (int k = g.range(1, 2); k > 0; --k)
      shaped.push_back(g.chance(40) ? tensorType() : g.chance(30) ? arrayType() : mlir::Type());
    for (int k = 0; k < 2; ++k) {
      std::vector<mlir::Value> v;
      for (auto t : shaped)
        v.push_back(value(t ? t : scalar()));
      std::vector<mlir::Type> t;
      for (auto x : v)
        t.push_back(x.getType());
      s.push_back(create("equation_side", mlir::TupleType::get(&ctx, t), v)->getResult(0));
    }
    create("equation_sides", {}, s);
  }
  void equation() {
    Guard guard(b);
    auto *op = create("equation", {}, {}, {}, 1);
    decorate(op);
    block(op->getRegion(0));
    expressions(1);
    sides();
  }
  void forEquation(int depth) {
    Guard guard(b);
    auto *op = create("for_equation", {}, {},
                      {attr("from", b.getIndexAttr(g.around(-3, 9))), attr("to", b.getIndexAttr(g.around(-3, 9))),
                       attr("step", b.getIndexAttr(g.chance(50) ? 1 : g.around(-3, 3)))}, 1);
    decorate(op);
    mlir::Block *body = block(op->getRegion(0));
    body->addArgument(b.getIndexType(), loc());
    for (int k = g.range(0, 2); k > 0; --k)
      if (depth > 0 && g.chance(40))
        forEquation(depth - 1);
      else
        equation();
  }
  void algorithm() {
    Guard guard(b);
    auto *op = create("algorithm", {}, {}, {}, 1);
    decorate(op);
    block(op->getRegion(0));
    statements(2);
  }
  struct Template {
    mlir::Value v;
    size_t rank;
    std::string matched; // The variable which can be matched, as the models check that it is accessed.
  };
  std::vector<Template> templates;
  void matchedTemplate() {
    std::vector<size_t> ok;
    for (size_t i = 0; i < vars.size(); ++i)
      if (mlir::isa<d::RealType>(vars[i].second.getElementType()) && vars[i].second.hasStaticShape())
        ok.push_back(i);
    if (ok.empty())
      return;
    auto &v = vars[g.pick(ok)];
    Guard guard(b);
    auto *op = create("equation_template", mlir::Type(d::EquationType::get(&ctx)), {}, {}, 1);
    decorate(op);
    mlir::Block *body = block(op->getRegion(0));
    const size_t rank = v.second.getShape().size();
    mlir::Type rt = d::RealType::get(&ctx);
    mlir::Value x = create("variable_get", v.second.unwrap(), {}, attr("variable", b.getStringAttr(v.first)))->getResult(0);
    if (rank) {
      std::vector<mlir::Value> o{x};
      for (size_t k = 0; k < rank; ++k)
        o.push_back(body->addArgument(b.getIndexType(), loc()));
      x = create("tensor_extract", rt, o)->getResult(0);
    }
    mlir::Value c = create("constant", rt, {}, attr("value", d::RealAttr::get(&ctx, this->real())))->getResult(0);
    mlir::Type t = mlir::TupleType::get(&ctx, rt);
    auto l = create("equation_side", t, x)->getResult(0);
    auto r = create("equation_side", t, c)->getResult(0);
    create("equation_sides", {}, {l, r});
    templates.push_back({op->getResult(0), rank, v.first});
  }
  void equationTemplate() {
    Guard guard(b);
    auto *op = create("equation_template", mlir::Type(d::EquationType::get(&ctx)), {}, {}, 1);
    decorate(op);
    mlir::Block *body = block(op->getRegion(0));
    size_t rank = g.range(0, 3);
    for (size_t k = 0; k < rank; ++k)
      body->addArgument(b.getIndexType(), loc());
    expressions(1);
    sides();
    templates.push_back({op->getResult(0), rank, {}});
  }
  void instance(bool start) {
    if (templates.empty())
      return;
    auto &t = g.pick(templates);
    auto *op = create(start ? "start_equation_instance" : "equation_instance", {}, t.v);
    if (t.rank) {
      if (auto s = mlir::dyn_cast<d::StartEquationInstanceOp>(op))
        s.getProperties().indices = indexSet(t.rank);
      else
        mlir::cast<d::EquationInstanceOp>(op).getProperties().indices = indexSet(t.rank);
    }
    if (auto s = mlir::dyn_cast<d::EquationInstanceOp>(op)) {
      if (!t.matched.empty() && g.chance(80))
        s.getProperties().match = d::Variable(mlir::SymbolRefAttr::get(&ctx, t.matched), s.getProperties().indices);
      if (g.chance(50))
        for (size_t k = 0; k < t.rank; ++k) {
          static const d::Schedule all[] = {d::Schedule::Any, d::Schedule::Forward, d::Schedule::Backward, d::Schedule::Unknown};
          s.getProperties().schedule.push_back(all[g.draw(4)]);
        }
    }
    decorate(op);
  }
  std::vector<mlir::NamedAttribute> flag(llvm::StringRef name) {
    if (g.chance(50))
      return {};
    return {attr(name, b.getBoolAttr(g.chance(70)))};
  }
  d::VariablesList variablesList() {
    d::VariablesList l;
    for (int k = g.range(0, 3); k > 0; --k)
      l.push_back(variable());
    return l;
  }
  void scc() {
    Guard guard(b);
    auto *op = create("scc", {}, {}, flag("cycle"), 1);
    decorate(op);
    block(op->getRegion(0));
    for (int k = g.range(0, 2); k > 0; --k)
      if (g.chance(70))
        instance(false);
      else {
        Guard inner(b);
        auto *a = create("abstract_equation", {}, {}, {}, 1);
        auto e = mlir::cast<d::AbstractEquationOp>(a);
        e.getProperties().writtenVariables = variablesList();
        e.getProperties().readVariables = variablesList();
        decorate(a);
        block(a->getRegion(0));
      }
  }
  void equationCall() {
    auto *op = create("equation_call", {}, {},
                      attr("callee", b.getStringAttr(g.chance(50) ? "eq" : "eq 1")));
    if (g.chance(50))
      op->setAttr("parallelizable", b.getBoolAttr(g.chance(50)));
    if (g.chance(60))
      mlir::cast<d::EquationCallOp>(op).getProperties().indices = indexSet(g.range(1, 3));
    decorate(op);
  }
  void scheduleBlock() {
    Guard guard(b);
    auto *op = create("schedule_block", {}, {}, flag("parallelizable"), 1);
    auto s = mlir::cast<d::ScheduleBlockOp>(op);
    s.getProperties().writtenVariables = variablesList();
    s.getProperties().readVariables = variablesList();
    decorate(op);
    block(op->getRegion(0));
    for (int k = g.range(0, 2); k > 0; --k)
      equationCall();
  }
  void section(bool schedule) {
    Guard guard(b);
    bool initial = g.chance(40);
    auto *op = create(initial ? "initial" : "dynamic", {}, {}, {}, 1);
    decorate(op);
    block(op->getRegion(0));
    for (int k = g.range(0, 3); k > 0; --k)
      switch (schedule ? 5 + g.draw(2) : g.draw(6)) {
      case 0: equation(); break;
      case 1: forEquation(2); break;
      case 2: algorithm(); break;
      case 3: instance(initial && g.chance(50)); break;
      case 4: {
        Guard inner(b);
        auto *s = create("scc_group", {}, {}, {}, 1);
        decorate(s);
        block(s->getRegion(0));
        for (int j = g.range(0, 2); j > 0; --j)
          scc();
        break;
      }
      case 5:
        if (!schedule)
          scc();
        else
          scheduleBlock();
        break;
      default: {
        Guard inner(b);
        auto *s = create("parallel_schedule_blocks", {}, {}, {}, 1);
        decorate(s);
        block(s->getRegion(0));
        for (int j = g.range(0, 2); j > 0; --j)
          scheduleBlock();
      }
      }
  }
  void model() {
    Guard guard(b);
    auto *op = create("model", {}, {}, sym(fresh("M")), 1);
    decorate(op);
    if (g.chance(50)) {
      auto &m = mlir::cast<d::ModelOp>(op).getProperties().derivativesMap;
      sets = true; // The custom form sorts them.
      for (int k = g.range(1, 3); k > 0; --k) {
        mlir::SymbolRefAttr x = mlir::SymbolRefAttr::get(&ctx, fresh("x"));
        if (g.chance(30))
          x = mlir::SymbolRefAttr::get(b.getStringAttr("r"), {mlir::FlatSymbolRefAttr::get(&ctx, fresh("x"))});
        m.setDerivative(x, mlir::SymbolRefAttr::get(&ctx, fresh("der x")));
        m.setDerivedIndices(x, g.chance(50) ? IndexSet() : indexSet(g.range(1, 3)));
      }
    }
    block(op->getRegion(0));
    variables();
    templates.clear();
    for (int k = g.range(0, 4); k > 0; --k) {
      Guard inner(b);
      switch (g.draw(6)) {
      case 0: {
        auto *s = create("start", {}, {},
                         {attr("variable", ref()), attr("fixed", b.getBoolAttr(g.chance(50))), attr("each", b.getBoolAttr(g.chance(50)))}, 1);
        if (g.chance(40))
          s->setAttr("implicit", b.getBoolAttr(g.chance(50)));
        decorate(s);
        yields(s->getRegion(0));
        break;
      }
      case 1: {
        auto *s = create("binding_equation", {}, {}, attr("variable", b.getStringAttr(g.chance(50) ? "x" : "der x")), 1);
        decorate(s);
        yields(s->getRegion(0));
        break;
      }
      case 2: g.chance(50) ? equationTemplate() : matchedTemplate(); break;
      case 3: section(false); break;
      case 4: {
        auto *s = create("schedule", {}, {}, sym(fresh("sched")), 1);
        decorate(s);
        block(s->getRegion(0));
        section(true);
        break;
      }
      default: matchedTemplate(); section(false);
      }
    }
    vars.clear();
  }
  void function() {
    Guard guard(b);
    auto *op = create("function", {}, {}, sym(fresh("f")), 1);
    if (g.chance(30))
      op->setAttr("derivative", d::FunctionDerivativeAttr::get(&ctx, g.chance(50) ? "g" : "der g", g.draw(4)));
    if (g.chance(30))
      op->setAttr("timeDerivativeOrder", b.getI64IntegerAttr(g.range(0, 3)));
    decorate(op);
    block(op->getRegion(0));
    variables();
    if (!vars.empty() && g.chance(40)) {
      Guard inner(b);
      auto *s = create("default", {}, {}, attr("variable", b.getStringAttr(g.pick(vars).first)), 1);
      decorate(s);
      yields(s->getRegion(0));
    }
    for (int k = g.range(0, 2); k > 0; --k)
      algorithm();
    vars.clear();
  }
  void rawFunction() {
    Guard guard(b);
    std::vector<mlir::Type> in, out;
    for (int k = g.range(0, 3); k > 0; --k)
      in.push_back(type());
    for (int k = g.range(0, 2); k > 0; --k)
      out.push_back(type());
    auto *op = create("raw_function", {}, {}, {sym(fresh("raw")), attr("function_type", mlir::TypeAttr::get(b.getFunctionType(in, out)))}, 1);
    mlir::Block *body = block(op->getRegion(0));
    for (auto t : in)
      body->addArgument(t, loc());
    expressions(1);
    for (int k = g.range(0, 2); k > 0; --k) {
      auto s = shape();
      std::vector<mlir::Value> sizes;
      std::vector<mlir::Attribute> constraints;
      for (int64_t n : s)
        if (n == mlir::ShapedType::kDynamic) {
          bool f = g.chance(50);
          constraints.push_back(b.getStringAttr(f ? d::VariableOp::kDimensionConstraintFixed : d::VariableOp::kDimensionConstraintUnbounded));
          if (f)
            sizes.push_back(value(b.getIndexType()));
        }
      mlir::Type t = mlir::RankedTensorType::get(s, scalar());
      std::vector<mlir::NamedAttribute> a{attr("name", b.getStringAttr(g.chance(50) ? "x" : "x y")), attr("dimensionsConstraints", b.getArrayAttr(constraints))};
      if (g.chance(40))
        a.push_back(attr("output", b.getUnitAttr()));
      if (g.chance(40))
        a.push_back(attr("heap", b.getBoolAttr(g.chance(50))));
      auto v = create("raw_variable", t, sizes, a)->getResult(0);
      if (g.chance(60))
        create("raw_variable_get", t, v);
      if (g.chance(60))
        create("raw_variable_set", {}, {v, value(t)});
      if (g.chance(60))
        create("raw_variable_dealloc", {}, v);
    }
    std::vector<mlir::Value> v;
    for (auto t : out)
      v.push_back(value(t));
    create("raw_return", {}, v);
  }
  void call() {
    std::vector<mlir::Type> in, out;
    for (int k = g.range(0, 3); k > 0; --k)
      in.push_back(type());
    for (int k = g.range(0, 2); k > 0; --k)
      out.push_back(type());
    std::string name = fresh("ext");
    {
      // The definition which is called.
      Guard guard(b);
      auto *op = create("raw_function", {}, {}, {sym(name), attr("function_type", mlir::TypeAttr::get(b.getFunctionType(in, out)))}, 1);
      mlir::Block *body = block(op->getRegion(0));
      for (auto t : in)
        body->addArgument(t, loc());
      std::vector<mlir::Value> v;
      for (auto t : out)
        v.push_back(value(t));
      create("raw_return", {}, v);
    }
    Guard guard(b);
    auto *op = create("raw_function", {}, {}, {sym(fresh("caller")), attr("function_type", mlir::TypeAttr::get(b.getFunctionType({}, {})))}, 1);
    block(op->getRegion(0));
    std::vector<mlir::Value> args;
    for (auto t : in)
      args.push_back(value(t));
    auto *c = create("call", out, args, attr("callee", mlir::SymbolRefAttr::get(&ctx, name)));
    decorate(c);
    create("raw_return", {}, {});
  }
  /// The record of which component_get takes a component.
  void theRecord() {
    Guard guard(b);
    auto *op = create("record", {}, {}, sym("the record"), 1);
    block(op->getRegion(0));
    auto t = d::VariableType::get({}, d::RealType::get(&ctx), d::VariabilityProperty::none, d::IOProperty::none, {});
    create("variable", {}, {}, {sym("the component"), attr("type", mlir::TypeAttr::get(t)), attr("dimensionsConstraints", b.getArrayAttr({}))}, 1);
  }
  void declaration(int depth) {
    Guard guard(b);
    switch (g.draw(depth > 0 ? 12 : 8)) {
    case 0:
    case 1: model(); break;
    case 2:
    case 3: function(); break;
    case 4: {
      auto *op = create("record", {}, {}, sym(fresh("R")), 1);
      decorate(op);
      block(op->getRegion(0));
      variables();
      vars.clear();
      break;
    }
    case 5:
    case 6: {
      bool package = g.chance(50);
      auto *op = create(package ? "package" : "operator_record", {}, {}, sym(fresh("P")), 1);
      decorate(op);
      block(op->getRegion(0));
      for (int k = g.range(0, 2); k > 0; --k)
        function();
      break;
    }
    case 7: {
      std::vector<mlir::Attribute> n;
      for (int k = g.range(1, 3); k > 0; --k)
        n.push_back(b.getStringAttr(fresh("x")));
      decorate(create("der_function", {}, {}, {sym(fresh("D")), attr("derivedFunction", ref()), attr("independentVars", b.getArrayAttr(n))}));
      break;
    }
    case 8: {
      std::string n = fresh("glob");
      mlir::Type t = d::ArrayType::get(shape(), scalar());
      std::vector<mlir::NamedAttribute> a{sym(n), attr("type", mlir::TypeAttr::get(t))};
      if (g.chance(50))
        a.push_back(attr("initial_value", typedAttr()));
      decorate(create("global_variable", {}, {}, a));
      decorate(create("global_variable_get", t, {}, attr("variable", b.getStringAttr(n))));
      break;
    }
    case 9: {
      size_t n = g.range(0, 3);
      std::vector<mlir::Type> in(2 * n, b.getIndexType());
      auto *op = create("equation_function", {}, {}, {sym(fresh("eq")), attr("function_type", mlir::TypeAttr::get(b.getFunctionType(in, {})))}, 1);
      mlir::Block *body = block(op->getRegion(0));
      for (auto t : in)
        body->addArgument(t, loc());
      expressions(1);
      create("yield", {}, {});
      break;
    }
    case 10: rawFunction(); break;
    default: call();
    }
  }
  ir::ModuleRef module() {
    ir::ModuleRef m = mlir::ModuleOp::create(loc());
    b.setInsertionPointToStart(m->getBody());
    return m;
  }
};

void check(Gen &gen, ir::ModuleRef &m) {
  pbt::G &g = gen.g;
  g.log << ir::print(*m, true);
  if (mlir::failed(mlir::verify(*m))) {
    ir::Diagnostics diags(&gen.ctx);
    (void)mlir::verify(*m);
    g.fail("the generated module does not verify" + diags.text());
  }
  ir::roundTrips(g, *m, !gen.sets);
}
} // namespace

PBT_PROP("C31", attributes_and_types, 20000, 400000, "always") {
  Gen gen(g);
  ir::ModuleRef m = gen.module();
  for (int k = g.range(1, 3); k > 0; --k) {
    mlir::Attribute a;
    switch (g.draw(3)) {
    case 0: a = gen.typedAttr(); break;
    case 1: a = gen.otherAttr(); break;
    default: a = mlir::TypeAttr::get(gen.type());
    }
    g.label(a.getAbstractAttribute().getName().str());
    (*m)->setAttr("verif.note" + std::to_string(k), a);
  }
  g.nontrivial();
  check(gen, m);
}

PBT_PROP("C31", operations, 6000, 120000, "at least 3 operations") {
  Gen gen(g);
  ir::ModuleRef m = gen.module();
  for (int k = g.range(1, 8); k > 0; --k)
    gen.plain();
  if (g.chance(50))
    gen.withRegion(2);
  if (gen.ops >= 3)
    g.nontrivial();
  check(gen, m);
}

PBT_PROP("C31", modules, 6000, 120000, "at least 8 operations") {
  Gen gen(g);
  ir::ModuleRef m = gen.module();
  gen.theRecord();
  for (int k = g.range(1, 3); k > 0; --k)
    gen.declaration(1);
  if (gen.ops >= 8)
    g.nontrivial();
  check(gen, m);
}
