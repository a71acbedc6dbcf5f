// Shared helpers of the harnesses of the BaseModelica dialect: an interpreter
// of its operations, independent of the folders and of the lowering.
#pragma once

#include "ir_util.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include <cmath>
#include <memory>
#include <optional>

namespace bm {
namespace d = mlir::bmodelica;

/// A value of the language. Booleans are integers; ranges keep begin, end and
/// step; tensors own their elements and arrays share them.
struct Val {
  enum Kind { None, Int, Real, Tensor, Range } kind = None;
  int64_t i = 0;
  double r = 0;
  std::vector<int64_t> shape;
  std::vector<Val> el;
  // Arrays: the memory and the positions of the elements.
  std::shared_ptr<std::vector<Val>> mem;
  std::vector<size_t> pos;

  static Val ofInt(int64_t v) {
    Val x;
    x.kind = Int;
    x.i = v;
    return x;
  }
  static Val ofReal(double v) {
    Val x;
    if (!std::isfinite(v))
      return x;
    x.kind = Real;
    x.r = v == 0 ? 0 : v;
    return x;
  }
  bool scalar() const { return kind == Int || kind == Real; }
  double num() const { return kind == Int ? double(i) : r; }
  bool truth() const { return kind == Int ? i != 0 : r != 0; }
  size_t count() const { return mem ? pos.size() : el.size(); }
  const Val &at(size_t k) const { return mem ? (*mem)[pos[k]] : el[k]; }
};

inline std::string text(const Val &v) {
  std::ostringstream s;
  s.precision(17);
  switch (v.kind) {
  case Val::None: return "undefined";
  case Val::Int: s << v.i; break;
  case Val::Real: s << v.r << "r"; break;
  case Val::Range: s << text(v.el[0]) << ":" << text(v.el[2]) << ":" << text(v.el[1]); break;
  case Val::Tensor:
    s << "<";
    for (int64_t n : v.shape)
      s << n << "x";
    s << ">[";
    for (size_t k = 0; k < v.count(); ++k)
      s << (k ? ", " : "") << text(v.at(k));
    s << "]";
  }
  return s.str();
}

inline bool defined(const Val &v) {
  if (v.kind == Val::None)
    return false;
  for (size_t k = 0; k < v.count(); ++k)
    if (!defined(v.at(k)))
      return false;
  return true;
}

/// Whether two defined values agree: exactly on integers, up to rounding on
/// reals.
inline bool agree(const Val &a, const Val &b, double tol = 1e-9) {
  if (a.kind != b.kind)
    return false;
  if (a.kind == Val::Int)
    return a.i == b.i;
  if (a.kind == Val::Real)
    return a.r == b.r || std::fabs(a.r - b.r) <= tol * std::max({1.0, std::fabs(a.r), std::fabs(b.r)});
  if (a.shape != b.shape || a.count() != b.count())
    return false;
  for (size_t k = 0; k < a.count(); ++k)
    if (!agree(a.at(k), b.at(k), tol))
      return false;
  return true;
}

inline bool isRealType(mlir::Type t) { return mlir::isa<d::RealType, mlir::FloatType>(t); }
inline bool isBoolType(mlir::Type t) { return mlir::isa<d::BooleanType>(t); }
inline bool isIntType(mlir::Type t) {
  return mlir::isa<d::IntegerType, mlir::IndexType, mlir::IntegerType>(t);
}
inline bool isScalarType(mlir::Type t) { return isRealType(t) || isBoolType(t) || isIntType(t); }

inline Val conv(const Val &v, mlir::Type t) {
  if (v.kind == Val::None)
    return v;
  if (auto range = mlir::dyn_cast<d::RangeType>(t)) {
    if (v.kind != Val::Range)
      return Val();
    Val x = v;
    for (Val &e : x.el)
      e = conv(e, range.getInductionType());
    return x;
  }
  if (auto shaped = mlir::dyn_cast<mlir::ShapedType>(t)) {
    if (v.kind != Val::Tensor)
      return Val();
    if (v.mem)
      return v;
    Val x = v;
    for (Val &e : x.el)
      e = conv(e, shaped.getElementType());
    return x;
  }
  if (!v.scalar())
    return Val();
  if (isBoolType(t))
    return Val::ofInt(v.truth());
  if (isRealType(t))
    return Val::ofReal(v.num());
  if (v.kind == Val::Int)
    return v;
  if (std::fabs(v.r) >= 9007199254740992.0)
    return Val();
  return Val::ofInt(int64_t(v.r));
}

inline Val checked(__int128 v) {
  return v >= INT64_MIN && v <= INT64_MAX ? Val::ofInt(int64_t(v)) : Val();
}

inline Val arith(llvm::StringRef op, const Val &a, const Val &b) {
  if (!a.scalar() || !b.scalar())
    return Val();
  bool ints = a.kind == Val::Int && b.kind == Val::Int;
  double x = a.num(), y = b.num();
  if (op == "add") return ints ? checked(__int128(a.i) + b.i) : Val::ofReal(x + y);
  if (op == "sub") return ints ? checked(__int128(a.i) - b.i) : Val::ofReal(x - y);
  if (op == "mul") return ints ? checked(__int128(a.i) * b.i) : Val::ofReal(x * y);
  if (op == "div") return Val::ofReal(x / y);
  if (op == "pow") return Val::ofReal(std::pow(x, y));
  if (op == "eq") return Val::ofInt(ints ? a.i == b.i : x == y);
  if (op == "neq") return Val::ofInt(ints ? a.i != b.i : x != y);
  if (op == "gt") return Val::ofInt(ints ? a.i > b.i : x > y);
  if (op == "gte") return Val::ofInt(ints ? a.i >= b.i : x >= y);
  if (op == "lt") return Val::ofInt(ints ? a.i < b.i : x < y);
  if (op == "lte") return Val::ofInt(ints ? a.i <= b.i : x <= y);
  if (op == "and") return Val::ofInt(a.truth() && b.truth());
  if (op == "or") return Val::ofInt(a.truth() || b.truth());
  if (op == "max") return ints ? Val::ofInt(std::max(a.i, b.i)) : Val::ofReal(std::max(x, y));
  if (op == "min") return ints ? Val::ofInt(std::min(a.i, b.i)) : Val::ofReal(std::min(x, y));
  // The zeros have no sign.
  if (op == "atan2") return x == 0 && y <= 0 ? Val() : Val::ofReal(std::atan2(x, y));
  if (op == "mod" || op == "rem" || op == "div_trunc") {
    if (b.num() == 0)
      return Val();
    if (ints) {
      __int128 q = __int128(a.i) / b.i, r = __int128(a.i) % b.i;
      if (op == "div_trunc") return checked(q);
      if (op == "mod" && r != 0 && (r < 0) != (b.i < 0)) r += b.i;
      return checked(r);
    }
    if (op == "div_trunc") return Val::ofReal(std::trunc(x / y));
    if (op == "rem") return Val::ofReal(std::fmod(x, y));
    return Val::ofReal(x - std::floor(x / y) * y);
  }
  return Val();
}

inline Val unary(llvm::StringRef op, const Val &a) {
  if (!a.scalar())
    return Val();
  bool isInt = a.kind == Val::Int;
  double x = a.num();
  if (op == "neg") return isInt ? checked(-__int128(a.i)) : Val::ofReal(-x);
  if (op == "not") return Val::ofInt(!a.truth());
  if (op == "abs") return isInt ? checked(a.i < 0 ? -__int128(a.i) : a.i) : Val::ofReal(std::fabs(x));
  if (op == "sign") return Val::ofInt((x > 0) - (x < 0));
  if (op == "ceil") return isInt ? a : Val::ofReal(std::ceil(x));
  if (op == "floor" || op == "integer") return isInt ? a : Val::ofReal(std::floor(x));
  if (op == "acos") return Val::ofReal(std::acos(x));
  if (op == "asin") return Val::ofReal(std::asin(x));
  if (op == "atan") return Val::ofReal(std::atan(x));
  if (op == "cos") return Val::ofReal(std::cos(x));
  if (op == "cosh") return Val::ofReal(std::cosh(x));
  if (op == "exp") return Val::ofReal(std::exp(x));
  if (op == "log") return Val::ofReal(std::log(x));
  if (op == "log10") return Val::ofReal(std::log10(x));
  if (op == "sin") return Val::ofReal(std::sin(x));
  if (op == "sinh") return Val::ofReal(std::sinh(x));
  if (op == "sqrt") return Val::ofReal(std::sqrt(x));
  if (op == "tan") return Val::ofReal(std::tan(x));
  if (op == "tanh") return Val::ofReal(std::tanh(x));
  return Val();
}

inline bool isUnary(llvm::StringRef op) {
  static const std::set<std::string> s{"neg", "not", "abs", "sign", "ceil", "floor", "integer", "acos", "asin", "atan",
                                       "cos", "cosh", "exp", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"};
  return s.count(op.str());
}

inline Val tensor(std::vector<int64_t> shape, std::vector<Val> el) {
  Val x;
  x.kind = Val::Tensor;
  x.shape = std::move(shape);
  x.el = std::move(el);
  return x;
}

template <typename F>
Val map(const Val &a, F f) {
  Val x = tensor(a.shape, {});
  for (size_t k = 0; k < a.count(); ++k)
    x.el.push_back(f(a.at(k)));
  return x;
}

/// Number of elements of a range; nothing when it is empty or not defined.
inline std::optional<int64_t> rangeSize(const Val &v) {
  if (v.kind != Val::Range || !defined(v) || v.el[2].num() == 0)
    return std::nullopt;
  double n;
  if (v.el[0].kind == Val::Int && v.el[1].kind == Val::Int && v.el[2].kind == Val::Int) {
    __int128 span = __int128(v.el[1].i) - v.el[0].i;
    if (span != 0 && (span < 0) != (v.el[2].i < 0))
      return std::nullopt;
    return int64_t(span / v.el[2].i) + 1;
  }
  n = (v.el[1].num() - v.el[0].num()) / v.el[2].num();
  if (n < 0 || n > 1e15)
    return std::nullopt;
  // The size depends on the rounding.
  if (n != std::round(n) && std::fabs(n - std::round(n)) < 1e-9 * std::max(1.0, std::fabs(n)))
    return std::nullopt;
  return int64_t(std::floor(n)) + 1;
}

/// The part of a tensor or array selected by scalars and ranges.
inline Val slice(const Val &a, const std::vector<Val> &subs) {
  if (a.kind != Val::Tensor || subs.size() > a.shape.size())
    return Val();
  std::vector<std::vector<int64_t>> choices;
  std::vector<int64_t> shape;
  for (size_t k = 0; k < a.shape.size(); ++k) {
    std::vector<int64_t> c;
    if (k >= subs.size()) {
      for (int64_t n = 0; n < a.shape[k]; ++n)
        c.push_back(n);
      shape.push_back(a.shape[k]);
    } else if (subs[k].kind == Val::Int) {
      c.push_back(subs[k].i);
    } else {
      auto n = rangeSize(subs[k]);
      if (!n || *n > 1000 || subs[k].el[0].kind != Val::Int || subs[k].el[2].kind != Val::Int)
        return Val();
      for (int64_t j = 0; j < *n; ++j)
        c.push_back(subs[k].el[0].i + j * subs[k].el[2].i);
      shape.push_back(*n);
    }
    for (int64_t n : c)
      if (n < 0 || n >= a.shape[k])
        return Val();
    choices.push_back(c);
  }
  std::vector<size_t> positions{0};
  for (size_t k = 0; k < choices.size(); ++k) {
    std::vector<size_t> next;
    for (size_t p : positions)
      for (int64_t c : choices[k])
        next.push_back(p * a.shape[k] + c);
    positions = std::move(next);
  }
  Val x = tensor(shape, {});
  if (a.mem) {
    x.mem = a.mem;
    for (size_t p : positions)
      x.pos.push_back(a.pos[p]);
  } else {
    for (size_t p : positions)
      x.el.push_back(a.el[p]);
  }
  return x;
}

inline Val matmul(const Val &a, const Val &b) {
  auto dot = [](const std::vector<Val> &x, const std::vector<Val> &y) {
    Val s = arith("mul", x[0], y[0]);
    for (size_t k = 1; k < x.size(); ++k)
      s = arith("add", s, arith("mul", x[k], y[k]));
    return s;
  };
  auto rows = [](const Val &m) {
    std::vector<std::vector<Val>> r(m.shape[0]);
    for (int64_t k = 0; k < m.shape[0] * m.shape[1]; ++k)
      r[k / m.shape[1]].push_back(m.at(k));
    return r;
  };
  auto columns = [](const Val &m) {
    std::vector<std::vector<Val>> r(m.shape[1]);
    for (int64_t k = 0; k < m.shape[0] * m.shape[1]; ++k)
      r[k % m.shape[1]].push_back(m.at(k));
    return r;
  };
  auto all = [](const Val &m) {
    std::vector<Val> r;
    for (size_t k = 0; k < m.count(); ++k)
      r.push_back(m.at(k));
    return r;
  };
  size_t ra = a.shape.size(), rb = b.shape.size();
  if (ra > 2 || rb > 2 || a.shape.back() != b.shape.front())
    return Val();
  if (ra == 1 && rb == 1)
    return dot(all(a), all(b));
  std::vector<Val> el;
  std::vector<int64_t> shape;
  if (ra == 2)
    shape.push_back(a.shape[0]);
  if (rb == 2)
    shape.push_back(b.shape[1]);
  std::vector<std::vector<Val>> r = ra == 2 ? rows(a) : std::vector<std::vector<Val>>{all(a)};
  std::vector<std::vector<Val>> c = rb == 2 ? columns(b) : std::vector<std::vector<Val>>{all(b)};
  for (auto &x : r)
    for (auto &y : c)
      el.push_back(dot(x, y));
  return tensor(shape, el);
}

inline Val identity(int64_t n) {
  std::vector<Val> el;
  for (int64_t k = 0; k < n * n; ++k)
    el.push_back(Val::ofInt(k / n == k % n));
  return tensor({n, n}, el);
}

/// Any two operands of an arithmetic, comparison or logic operation.
inline Val binary(llvm::StringRef op, const Val &a, const Val &b) {
  if (a.scalar() && b.scalar())
    return arith(op, a, b);
  if (a.kind == Val::Range || b.kind == Val::Range) {
    if (a.kind == b.kind)
      return Val();
    const Val &range = a.kind == Val::Range ? a : b;
    const Val &other = a.kind == Val::Range ? b : a;
    if (!other.scalar())
      return Val();
    Val x = range;
    if (op == "add" || (op == "sub" && a.kind == Val::Range)) {
      x.el[0] = arith(op, range.el[0], other);
      x.el[1] = arith(op, range.el[1], other);
      return x;
    }
    if (op == "mul") {
      for (Val &e : x.el)
        e = arith(op, e, other);
      return x;
    }
    return Val();
  }
  if (a.kind == Val::None || b.kind == Val::None)
    return Val();
  if (op == "mul" && a.kind == Val::Tensor && b.kind == Val::Tensor)
    return matmul(a, b);
  if (op == "pow" && a.kind == Val::Tensor) {
    if (b.kind != Val::Int || b.i < 0 || b.i > 20 || a.shape.size() != 2 || a.shape[0] != a.shape[1])
      return Val();
    Val x = identity(a.shape[0]);
    for (int64_t k = 0; k < b.i; ++k)
      x = matmul(x, a);
    return x;
  }
  llvm::StringRef s = op.ends_with("_ew") ? op.drop_back(3) : op;
  if (a.scalar())
    return map(b, [&](const Val &e) { return arith(s, a, e); });
  if (b.scalar())
    return map(a, [&](const Val &e) { return arith(s, e, b); });
  if (a.shape != b.shape)
    return Val();
  Val x = tensor(a.shape, {});
  for (size_t k = 0; k < a.count(); ++k)
    x.el.push_back(arith(s, a.at(k), b.at(k)));
  return x;
}

inline Val attribute(mlir::Attribute a) {
  auto array = [](mlir::Type type, std::vector<Val> el) {
    auto shaped = mlir::cast<mlir::ShapedType>(type);
    Val x = tensor({shaped.getShape().begin(), shaped.getShape().end()}, {});
    if (mlir::isa<d::ArrayType>(type)) {
      x.mem = std::make_shared<std::vector<Val>>(el);
      for (size_t k = 0; k < el.size(); ++k)
        x.pos.push_back(k);
    } else {
      x.el = el;
    }
    return x;
  };
  std::vector<Val> el;
  if (auto v = mlir::dyn_cast<d::BooleanAttr>(a)) return Val::ofInt(v.getValue());
  if (auto v = mlir::dyn_cast<d::IntegerAttr>(a)) return Val::ofInt(v.getValue().getSExtValue());
  if (auto v = mlir::dyn_cast<d::RealAttr>(a)) return Val::ofReal(v.getValue().convertToDouble());
  if (auto v = mlir::dyn_cast<mlir::IntegerAttr>(a)) return Val::ofInt(v.getValue().getSExtValue());
  if (auto v = mlir::dyn_cast<mlir::FloatAttr>(a)) return Val::ofReal(v.getValueAsDouble());
  if (auto v = mlir::dyn_cast<d::IntegerRangeAttr>(a)) {
    Val x;
    x.kind = Val::Range;
    x.el = {Val::ofInt(v.getLowerBound()), Val::ofInt(v.getUpperBound()), Val::ofInt(v.getStep())};
    return x;
  }
  if (auto v = mlir::dyn_cast<d::RealRangeAttr>(a)) {
    Val x;
    x.kind = Val::Range;
    x.el = {Val::ofReal(v.getLowerBound().convertToDouble()), Val::ofReal(v.getUpperBound().convertToDouble()),
            Val::ofReal(v.getStep().convertToDouble())};
    return x;
  }
  if (auto v = mlir::dyn_cast<d::DenseBooleanElementsAttr>(a)) {
    for (bool e : v.getValues()) el.push_back(Val::ofInt(e));
    return array(v.getType(), el);
  }
  if (auto v = mlir::dyn_cast<d::DenseIntegerElementsAttr>(a)) {
    for (int64_t e : v.getValues()) el.push_back(Val::ofInt(e));
    return array(v.getType(), el);
  }
  if (auto v = mlir::dyn_cast<d::DenseRealElementsAttr>(a)) {
    for (llvm::APFloat e : v.getValues()) el.push_back(Val::ofReal(e.convertToDouble()));
    return array(v.getType(), el);
  }
  return Val();
}

/// Runs the operations of a block in order.
struct Interpreter {
  llvm::DenseMap<mlir::Value, Val> env;
  /// Values of the operations which are not expressions.
  std::function<bool(mlir::Operation *, Interpreter &)> leaf;
  std::string unknown;

  Val get(mlir::Value v) {
    auto it = env.find(v);
    return it == env.end() ? Val() : it->second;
  }

  /// The value of an expression, computing what it depends on.
  Val demand(mlir::Value v) {
    auto it = env.find(v);
    if (it != env.end())
      return it->second;
    mlir::Operation *op = v.getDefiningOp();
    if (!op)
      return Val();
    for (mlir::Value o : op->getOperands())
      demand(o);
    run(op);
    return get(v);
  }

  void run(mlir::Block &b) {
    for (mlir::Operation &op : b)
      run(&op);
  }

  void run(mlir::Operation *op) {
    if (leaf && leaf(op, *this))
      return;
    llvm::StringRef full = op->getName().getStringRef();
    if (!full.consume_front("bmodelica.")) {
      if (op->isRegistered() && !op->hasTrait<mlir::OpTrait::IsTerminator>())
        unknown = op->getName().getStringRef().str();
      return;
    }
    std::vector<Val> a;
    for (mlir::Value v : op->getOperands())
      a.push_back(get(v));
    if (full == "store") {
      Val x = slice(a[1], {a.begin() + 2, a.end()});
      if (x.kind == Val::Tensor && x.mem && x.pos.size() == 1)
        (*x.mem)[x.pos[0]] = conv(a[0], mlir::cast<mlir::ShapedType>(op->getOperand(1).getType()).getElementType());
      return;
    }
    if (full == "select") {
      size_t n = op->getNumResults();
      for (size_t k = 0; k < n; ++k)
        env[op->getResult(k)] = !a[0].scalar() ? Val() : conv(a[0].truth() ? a[1 + k] : a[1 + n + k], op->getResult(k).getType());
      return;
    }
    if (op->getNumResults() != 1)
      return;
    mlir::Type type = op->getResult(0).getType();
    Val x = eval(op, full, a);
    env[op->getResult(0)] = conv(x, type);
  }

  Val eval(mlir::Operation *op, llvm::StringRef n, std::vector<Val> &a) {
    mlir::Type type = op->getResult(0).getType();
    auto shaped = mlir::dyn_cast<mlir::ShapedType>(type);
    std::vector<int64_t> shape;
    if (shaped)
      shape = {shaped.getShape().begin(), shaped.getShape().end()};
    size_t count = 1;
    for (int64_t k : shape)
      count *= k < 0 ? 0 : k;
    bool dynamic = shaped && !shaped.hasStaticShape();
    auto memory = [&](std::vector<Val> el) {
      Val x = tensor(shape, {});
      for (Val &e : el)
        e = conv(e, shaped.getElementType());
      for (size_t k = 0; k < el.size(); ++k)
        x.pos.push_back(k);
      x.mem = std::make_shared<std::vector<Val>>(std::move(el));
      return x;
    };
    auto intsOf = [&](std::vector<Val> v, std::vector<int64_t> &r) {
      for (Val &e : v) {
        if (e.kind != Val::Int)
          return false;
        r.push_back(e.i);
      }
      return true;
    };
    if (n == "constant")
      return attribute(op->getAttr("value") ? op->getAttr("value") : mlir::cast<d::ConstantOp>(op).getValue());
    if (n == "cast")
      return a[0];
    if (isUnary(n)) {
      if (a[0].kind == Val::Tensor)
        return map(a[0], [&](const Val &e) { return unary(n, e); });
      return unary(n, a[0]);
    }
    if ((n == "max" || n == "min") && a.size() == 1) {
      if (a[0].kind != Val::Tensor || a[0].count() == 0)
        return Val();
      Val x = a[0].at(0);
      for (size_t k = 1; k < a[0].count(); ++k)
        x = arith(n, x, a[0].at(k));
      return x;
    }
    if (n == "sum" || n == "product") {
      if (a[0].kind != Val::Tensor)
        return Val();
      Val x = Val::ofInt(n == "product");
      for (size_t k = 0; k < a[0].count(); ++k)
        x = arith(n == "sum" ? "add" : "mul", x, a[0].at(k));
      return x;
    }
    if (n == "range") {
      Val x;
      x.kind = Val::Range;
      x.el = a;
      return x;
    }
    if (n == "range_begin") return a[0].kind == Val::Range ? a[0].el[0] : Val();
    if (n == "range_end") return a[0].kind == Val::Range ? a[0].el[1] : Val();
    if (n == "range_step") return a[0].kind == Val::Range ? a[0].el[2] : Val();
    if (n == "range_size") {
      auto s = rangeSize(a[0]);
      return s ? Val::ofInt(*s) : Val();
    }
    if (n == "tensor_from_elements") return tensor(shape, a);
    if (n == "array_from_elements") return memory(a);
    if (n == "alloca" || n == "alloc") return dynamic ? Val() : memory(std::vector<Val>(count));
    if (n == "tensor_broadcast" || n == "fill") return dynamic ? Val() : tensor(shape, std::vector<Val>(count, a[0]));
    if (n == "array_broadcast") return dynamic ? Val() : memory(std::vector<Val>(count, a[0]));
    if (n == "ones" || n == "zeros") {
      std::vector<int64_t> s;
      size_t c = 1;
      if (!intsOf(a, s)) return Val();
      for (int64_t k : s) c *= std::clamp<int64_t>(k, 0, 100);
      return tensor(s, std::vector<Val>(c, Val::ofInt(n == "ones")));
    }
    if (n == "identity") return a[0].kind == Val::Int && a[0].i >= 0 && a[0].i < 20 ? identity(a[0].i) : Val();
    if (n == "diagonal") {
      if (a[0].kind != Val::Tensor) return Val();
      Val x = identity(a[0].count());
      for (size_t k = 0; k < a[0].count(); ++k) x.el[k * a[0].count() + k] = a[0].at(k);
      return x;
    }
    if (n == "transpose" || n == "symmetric") {
      if (a[0].kind != Val::Tensor || a[0].shape.size() != 2) return Val();
      int64_t r = a[0].shape[0], c = a[0].shape[1];
      Val x = tensor(n == "transpose" ? std::vector<int64_t>{c, r} : a[0].shape, std::vector<Val>(r * c));
      for (int64_t k = 0; k < r; ++k)
        for (int64_t l = 0; l < c; ++l)
          if (n == "transpose") x.el[l * r + k] = a[0].at(k * c + l);
          else x.el[k * c + l] = a[0].at(std::min(k, l) * c + std::max(k, l));
      return x;
    }
    if (n == "linspace") {
      if (!a[0].scalar() || !a[1].scalar() || a[2].kind != Val::Int || a[2].i < 2 || a[2].i > 100) return Val();
      std::vector<Val> el;
      for (int64_t k = 0; k < a[2].i; ++k)
        el.push_back(Val::ofReal(a[0].num() + (a[1].num() - a[0].num()) * double(k) / double(a[2].i - 1)));
      return tensor({a[2].i}, el);
    }
    if (n == "ndims") return a[0].kind == Val::Tensor ? Val::ofInt(a[0].shape.size()) : Val();
    if (n == "size" || n == "dim") {
      if (a[0].kind != Val::Tensor) return Val();
      if (a.size() == 2)
        return a[1].kind == Val::Int && a[1].i >= 0 && a[1].i < int64_t(a[0].shape.size()) ? Val::ofInt(a[0].shape[a[1].i]) : Val();
      std::vector<Val> el;
      for (int64_t k : a[0].shape) el.push_back(Val::ofInt(k));
      return tensor({int64_t(el.size())}, el);
    }
    if (n == "tensor_view" || n == "subscription") return slice(a[0], {a.begin() + 1, a.end()});
    if (n == "tensor_extract" || n == "load") {
      Val x = slice(a[0], {a.begin() + 1, a.end()});
      return x.kind == Val::Tensor && x.count() == 1 && x.shape.empty() ? x.at(0) : Val();
    }
    if (n == "tensor_insert") {
      // Number the elements, to know which one is selected.
      Val numbered = a[1];
      for (size_t k = 0; k < numbered.el.size(); ++k) numbered.el[k] = Val::ofInt(k);
      Val where = slice(numbered, {a.begin() + 2, a.end()});
      if (where.kind != Val::Tensor || where.el.size() != 1) return Val();
      Val x = a[1];
      x.el[where.el[0].i] = conv(a[0], shaped.getElementType());
      return x;
    }
    if (a.size() == 2) {
      static const std::set<std::string> s{"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew",
                                           "eq", "neq", "gt", "gte", "lt", "lte", "and", "or", "max", "min", "mod", "rem",
                                           "div_trunc", "atan2"};
      if (s.count(n.str())) {
        if (n.ends_with("_ew") && a[0].scalar() && a[1].scalar())
          return arith(n.drop_back(3), a[0], a[1]);
        return binary(n, a[0], a[1]);
      }
    }
    unknown = op->getName().getStringRef().str();
    return Val();
  }
};

/// Creates an operation by its name.
inline mlir::Operation *make(mlir::OpBuilder &b, llvm::StringRef name, mlir::TypeRange results, mlir::ValueRange operands) {
  mlir::OperationState s(b.getUnknownLoc(), ("bmodelica." + name).str());
  s.addTypes(results);
  s.addOperands(operands);
  return b.create(s);
}

/// The type inferred by an operation for its operands, if any.
inline mlir::Type inferred(mlir::MLIRContext &ctx, llvm::StringRef name, mlir::ValueRange operands) {
  auto info = mlir::RegisteredOperationName::lookup(("bmodelica." + name).str(), &ctx);
  if (!info)
    return {};
  auto *iface = info->getInterface<mlir::InferTypeOpInterface>();
  if (!iface)
    return {};
  llvm::SmallVector<mlir::Type> types;
  if (mlir::failed(iface->inferReturnTypes(&ctx, mlir::UnknownLoc::get(&ctx), operands, mlir::DictionaryAttr(),
                                           mlir::OpaqueProperties(nullptr), mlir::RegionRange(), types)) ||
      types.size() != 1)
    return {};
  return types[0];
}
} // namespace bm
