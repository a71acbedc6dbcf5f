// Functions of the language: an interpreter of their bodies and a generator of
// random ones, written as text.
#pragma once

#include "bm_ir.h"
#include "mlir/Pass/PassManager.h"

namespace bm {
/// Executes functions.
struct Machine {
  mlir::ModuleOp module;
  double time = 0;
  long fuel = 20000;
  int depth = 0;
  std::string unknown;
  std::string trace; // the conditions met so far
  /// Values of further operations.
  std::function<bool(mlir::Operation *, Interpreter &)> more;

  explicit Machine(mlir::ModuleOp m) : module(m) {}

  mlir::Operation *resolve(mlir::SymbolRefAttr ref) {
    return mlir::SymbolTable::lookupSymbolIn(module, ref);
  }

  struct Frame {
    Machine &m;
    Interpreter in;
    std::map<std::string, Val> vars;
    std::map<std::string, d::VariableOp> decls;
    enum Flow { Next, Break, Return };

    explicit Frame(Machine &m) : m(m) {
      in.leaf = [this](mlir::Operation *op, Interpreter &) { return leaf(op); };
    }

    Val initial(mlir::Type type) {
      auto shaped = mlir::dyn_cast<mlir::ShapedType>(type);
      if (!shaped || !shaped.hasStaticShape())
        return Val();
      return tensor({shaped.getShape().begin(), shaped.getShape().end()}, std::vector<Val>(shaped.getNumElements()));
    }

    void set(llvm::StringRef name, const std::vector<Val> &subs, const Val &value) {
      auto it = decls.find(name.str());
      if (it == decls.end()) {
        m.unknown = "variable " + name.str();
        return;
      }
      Val &var = vars[name.str()];
      mlir::Type type = it->second.getVariableType().unwrap();
      if (subs.empty()) {
        // The copy does not share the memory.
        Val x = value;
        if (x.mem) {
          Val y = tensor(x.shape, {});
          for (size_t k = 0; k < x.count(); ++k)
            y.el.push_back(x.at(k));
          x = y;
        }
        var = conv(x, type);
        return;
      }
      auto shaped = mlir::dyn_cast<mlir::ShapedType>(type);
      if (!shaped || var.kind != Val::Tensor) {
        var = Val();
        return;
      }
      Val numbered = var;
      for (size_t k = 0; k < numbered.el.size(); ++k)
        numbered.el[k] = Val::ofInt(k);
      Val where = slice(numbered, subs);
      if (where.kind != Val::Tensor) {
        var = Val();
        return;
      }
      bool whole = value.kind == Val::Tensor;
      if (whole && (value.shape != where.shape)) {
        var = Val();
        return;
      }
      for (size_t k = 0; k < where.count(); ++k)
        var.el[where.at(k).i] = conv(whole ? value.at(k) : value, shaped.getElementType());
    }

    Val yielded(mlir::Block &b) {
      for (mlir::Operation &op : b) {
        if (auto y = mlir::dyn_cast<d::YieldOp>(op))
          return y.getValues().empty() ? Val() : in.get(y.getValues()[0]);
        in.run(&op);
      }
      return Val();
    }

    bool leaf(mlir::Operation *op) {
      if (--m.fuel < 0) {
        m.unknown = "endless";
        return true;
      }
      if (m.more && m.more(op, in))
        return true;
      if (auto get = mlir::dyn_cast<d::VariableGetOp>(op)) {
        auto it = vars.find(get.getVariable().str());
        if (it == vars.end())
          return false;
        in.env[get.getResult()] = conv(it->second, get.getResult().getType());
        return true;
      }
      if (op->getName().getStringRef() == "tensor.dim") {
        Val t = in.get(op->getOperand(0)), k = in.get(op->getOperand(1));
        bool ok = t.kind == Val::Tensor && k.kind == Val::Int && k.i >= 0 && k.i < int64_t(t.shape.size());
        in.env[op->getResult(0)] = ok ? Val::ofInt(t.shape[k.i]) : Val();
        return true;
      }
      if (mlir::isa<d::TensorBroadcastOp>(op) && op->getNumOperands() > 1) {
        auto sizes = mlir::cast<mlir::ShapedType>(op->getResult(0).getType()).getShape();
        std::vector<int64_t> shape(sizes.begin(), sizes.end());
        unsigned next = 1;
        int64_t count = 1;
        for (int64_t &n : shape) {
          if (n < 0)
            n = next < op->getNumOperands() ? in.get(op->getOperand(next++)).i : 0;
          count *= n;
        }
        in.env[op->getResult(0)] = tensor(shape, std::vector<Val>(count, in.get(op->getOperand(0))));
        return true;
      }
      if (mlir::isa<d::TimeOp>(op)) {
        in.env[op->getResult(0)] = Val::ofReal(m.time);
        return true;
      }
      if (auto call = mlir::dyn_cast<d::CallOp>(op)) {
        std::vector<Val> args;
        for (mlir::Value v : call.getArgs())
          args.push_back(in.get(v));
        std::vector<Val> r = m.call(m.resolve(call.getCallee()), args, call.getArgNames());
        for (size_t k = 0; k < op->getNumResults(); ++k)
          in.env[op->getResult(k)] = k < r.size() ? conv(r[k], op->getResult(k).getType()) : Val();
        return true;
      }
      if (auto red = mlir::dyn_cast<d::ReductionOp>(op)) {
        std::vector<Val> ranges;
        for (mlir::Value v : red.getIterables())
          ranges.push_back(in.get(v));
        std::vector<int64_t> sizes;
        int64_t total = 1;
        for (Val &r : ranges) {
          auto n = rangeSize(r);
          if (!n || *n > 50) {
            in.env[op->getResult(0)] = Val();
            return true;
          }
          sizes.push_back(*n);
          total *= *n;
        }
        std::string action = red.getAction().str();
        Val acc;
        for (int64_t k = 0; k < total; ++k) {
          int64_t rest = k;
          for (size_t j = ranges.size(); j-- > 0;) {
            int64_t p = rest % sizes[j];
            rest /= sizes[j];
            if (j < red.getInductions().size())
              in.env[red.getInductions()[j]] = conv(arith("add", ranges[j].el[0], arith("mul", Val::ofInt(p), ranges[j].el[2])),
                                                    red.getInductions()[j].getType());
          }
          Val v = yielded(red->getRegion(0).front());
          acc = k == 0 ? v : arith(action, acc, v);
        }
        in.env[op->getResult(0)] = conv(acc, op->getResult(0).getType());
        return true;
      }
      if (mlir::isa<d::TensorInsertSliceOp>(op)) {
        Val value = in.get(op->getOperand(0)), dest = in.get(op->getOperand(1));
        std::vector<Val> subs;
        for (mlir::Value v : op->getOperands().drop_front(2))
          subs.push_back(in.get(v));
        Val numbered = dest;
        for (size_t k = 0; k < numbered.el.size(); ++k)
          numbered.el[k] = Val::ofInt(k);
        Val where = slice(numbered, subs);
        Val x = dest;
        if (where.kind != Val::Tensor || value.kind != Val::Tensor || where.shape != value.shape) {
          x = Val();
        } else {
          for (size_t k = 0; k < where.count(); ++k)
            x.el[where.at(k).i] = conv(value.at(k), mlir::cast<mlir::ShapedType>(op->getResult(0).getType()).getElementType());
        }
        in.env[op->getResult(0)] = x;
        return true;
      }
      return false;
    }

    Val condition(mlir::Region &r) {
      for (mlir::Operation &op : r.front()) {
        if (auto c = mlir::dyn_cast<d::ConditionOp>(op))
          return in.get(c.getCondition());
        in.run(&op);
      }
      return Val();
    }

    Flow exec(mlir::Region &r) { return r.empty() ? Next : exec(r.front()); }

    Flow exec(mlir::Block &b) {
      for (mlir::Operation &op : b) {
        Flow f = exec(&op);
        if (f != Next)
          return f;
      }
      return Next;
    }

    Flow exec(mlir::Operation *op) {
      if (--m.fuel < 0) {
        m.unknown = "endless";
        return Return;
      }
      if (auto o = mlir::dyn_cast<d::VariableSetOp>(op)) {
        std::vector<Val> subs;
        for (mlir::Value v : o.getIndices())
          subs.push_back(in.get(v));
        set(o.getVariable(), subs, in.get(o.getValue()));
        return Next;
      }
      if (auto o = mlir::dyn_cast<d::IfOp>(op)) {
        Val c = in.get(o.getCondition());
        if (!c.scalar()) {
          m.unknown = "undefined condition";
          return Return;
        }
        m.trace += c.truth() ? 't' : 'f';
        return exec(c.truth() ? o.getThenRegion() : o.getElseRegion());
      }
      if (mlir::isa<d::WhileOp, d::ForOp>(op)) {
        while (true) {
          Val c = condition(op->getRegion(0));
          if (!c.scalar()) {
            m.unknown = "undefined condition";
            return Return;
          }
          m.trace += c.truth() ? 't' : 'f';
          if (!c.truth())
            return Next;
          Flow f = exec(op->getRegion(1));
          if (f == Return)
            return f;
          if (f == Break)
            return Next;
          if (op->getNumRegions() == 3)
            exec(op->getRegion(2));
          if (!m.unknown.empty())
            return Return;
        }
      }
      if (mlir::isa<d::BreakOp>(op))
        return Break;
      if (mlir::isa<d::ReturnOp>(op))
        return Return;
      if (mlir::isa<d::YieldOp>(op))
        return Next;
      in.run(op);
      return Next;
    }
  };

  std::vector<Val> call(mlir::Operation *op, std::vector<Val> args, std::optional<mlir::ArrayAttr> names = std::nullopt) {
    auto fn = mlir::dyn_cast_or_null<d::FunctionOp>(op);
    if (!fn) {
      unknown = "callee";
      return {};
    }
    if (++depth > 20) {
      unknown = "endless recursion";
      --depth;
      return {};
    }
    Frame f(*this);
    std::vector<std::string> inputs, outputs;
    for (d::VariableOp v : fn.getVariables()) {
      std::string name = v.getSymName().str();
      f.decls[name] = v;
      f.vars[name] = f.initial(v.getVariableType().unwrap());
      if (v.isInput())
        inputs.push_back(name);
      else if (v.isOutput())
        outputs.push_back(name);
    }
    std::set<std::string> given;
    auto give = [&](const std::string &name, const Val &v) {
      f.set(name, {}, v);
      given.insert(name);
    };
    if (names) {
      for (size_t k = 0; k < args.size() && k < names->size(); ++k)
        give(mlir::cast<mlir::FlatSymbolRefAttr>((*names)[k]).getValue().str(), args[k]);
    } else {
      for (size_t k = 0; k < args.size() && k < inputs.size(); ++k)
        give(inputs[k], args[k]);
    }
    // The default values may depend on the other variables, in any order.
    std::map<std::string, d::DefaultOp> defaults;
    for (d::DefaultOp o : fn.getDefaultValues())
      if (!given.count(o.getVariable().str()))
        defaults[o.getVariable().str()] = o;
    std::set<std::string> open;
    std::function<void(const std::string &)> settle = [&](const std::string &name) {
      auto it = defaults.find(name);
      if (it == defaults.end() || !open.insert(name).second)
        return;
      d::DefaultOp o = it->second;
      o->walk([&](d::VariableGetOp get) { settle(get.getVariable().str()); });
      Val v = f.yielded(o->getRegion(0).front());
      if (v.scalar() && f.vars[name].kind == Val::Tensor)
        v = map(f.vars[name], [&](const Val &) { return v; });
      f.set(name, {}, v);
    };
    for (auto &[name, o] : defaults)
      settle(name);
    for (auto &child : fn.getOps())
      if (auto algorithm = mlir::dyn_cast<d::AlgorithmOp>(child))
        if (f.exec(algorithm->getRegion(0)) == Frame::Return)
          break;
    if (!f.in.unknown.empty())
      unknown = f.in.unknown;
    std::vector<Val> r;
    for (auto &name : outputs)
      r.push_back(f.vars[name]);
    --depth;
    return r;
  }
};

/// Calls a function by name; nothing if it can not be executed.
inline std::optional<std::vector<Val>> callFunction(mlir::ModuleOp module, llvm::StringRef name, const std::vector<Val> &args,
                                                    double time = 0, std::string *trace = nullptr, long fuel = 5000) {
  Machine m(module);
  m.fuel = fuel;
  m.time = time;
  std::vector<Val> r = m.call(mlir::SymbolTable::lookupSymbolIn(module, name), args);
  if (trace)
    *trace += m.trace;
  if (!m.unknown.empty())
    return std::nullopt;
  return r;
}

/// Writes random operations on reals.
struct Writer {
  using Shape = std::vector<int64_t>;
  struct Var {
    std::string name;
    Shape shape;
    char io; // i, o, p
    bool real = true;
    bool dynamic = false; // of sizes which are not declared
  };
  struct Callee {
    std::string name;
    std::vector<Shape> in, out;
  };

  pbt::G &g;
  std::ostringstream os;
  int next = 0;
  int indent = 2;
  std::vector<Var> vars;
  std::vector<std::string> assigned; // variables which have a value
  std::vector<Callee> callees;
  std::vector<std::string> inductions; // values of index type, from 0 to 1
  bool time = false;
  bool matrices = true;
  bool smooth = true; // only operations which have a derivative

  explicit Writer(pbt::G &g) : g(g) {}

  static std::string type(const Shape &s, const char *element = "!bmodelica.real") {
    if (s.empty())
      return element;
    std::string t = "tensor<";
    for (int64_t n : s)
      t += (n < 0 ? "?" : std::to_string(n)) + "x";
    return t + element + ">";
  }
  static std::string variableType(const Var &v) {
    std::string t = "!bmodelica.variable<";
    for (int64_t n : v.shape)
      t += (v.dynamic ? "?" : std::to_string(n)) + "x";
    t += v.real ? "!bmodelica.real" : "!bmodelica.int";
    return t + (v.io == 'i' ? ", input>" : v.io == 'o' ? ", output>" : ">");
  }

  struct Value {
    std::string name, type;
    Shape shape;
  };

  std::ostream &line() { return os << std::string(indent, ' '); }

  Value op(const std::string &name, const std::vector<Value> &args, const std::string &type, Shape shape,
           const std::string &attrs = "") {
    Value v{"%" + std::to_string(next++), type, std::move(shape)};
    line() << v.name << " = \"bmodelica." << name << "\"(";
    for (size_t k = 0; k < args.size(); ++k)
      os << (k ? ", " : "") << args[k].name;
    os << ")" << attrs << " : (";
    for (size_t k = 0; k < args.size(); ++k)
      os << (k ? ", " : "") << args[k].type;
    os << ") -> " << type << "\n";
    g.label(name);
    return v;
  }
  Value real(const std::string &name, const std::vector<Value> &args, const Shape &shape) {
    return op(name, args, type(shape), shape);
  }
  Value constant(double x) {
    std::ostringstream t;
    t.precision(17);
    t << std::showpoint << x;
    return raw("bmodelica.constant #bmodelica<real " + t.str() + ">", "!bmodelica.real");
  }
  Value integer(int64_t x) { return raw("bmodelica.constant #bmodelica<int " + std::to_string(x) + ">", "!bmodelica.int"); }
  Value index(int64_t x) { return raw("bmodelica.constant " + std::to_string(x) + " : index", "index"); }
  Value raw(const std::string &text, const std::string &type, Shape shape = {}) {
    Value v{"%" + std::to_string(next++), type, std::move(shape)};
    line() << v.name << " = " << text << "\n";
    return v;
  }
  Value get(const Var &v) {
    std::string t = type(v.dynamic ? Shape(v.shape.size(), -1) : v.shape, v.real ? "!bmodelica.real" : "!bmodelica.int");
    return raw("bmodelica.variable_get @" + v.name + " : " + t, t, v.shape);
  }
  const Var &var(const std::string &name) {
    for (auto &v : vars)
      if (v.name == name)
        return v;
    return vars[0];
  }

  double number() { return double(g.around(-30, 30)) / 10 + 0.013; }
  Shape shape() {
    switch (g.weighted({4, 3, matrices ? 2 : 0})) {
    case 0: return {};
    case 1: return {g.range(1, 3)};
    }
    return {g.range(1, 3), g.range(1, 3)};
  }

  Value leaf(const Shape &s) {
    std::vector<std::string> same;
    for (auto &n : assigned)
      if (var(n).shape == s && var(n).real && !var(n).dynamic)
        same.push_back(n);
    if (!same.empty() && !g.chance(15))
      return get(var(g.pick(same)));
    if (s.empty()) {
      if (time && g.chance(15))
        return op("time", {}, "!bmodelica.real", {});
      if (g.chance(25)) {
        std::vector<std::string> ints;
        for (auto &v : vars)
          if (v.io == 'i' && !v.real)
            ints.push_back(v.name);
        Value i = !ints.empty() && g.draw(2) ? get(var(g.pick(ints))) : integer(g.around(-3, 3));
        return op("cast", {i}, "!bmodelica.real", {});
      }
      // An element of a tensor.
      std::vector<std::string> other;
      for (auto &n : assigned)
        if (!var(n).shape.empty() && var(n).real)
          other.push_back(n);
      if (!other.empty() && g.chance(60)) {
        Value t = get(var(g.pick(other)));
        return element(t);
      }
      return constant(number());
    }
    if (g.chance(40)) {
      int64_t n = 1;
      for (int64_t k : s)
        n *= k;
      std::vector<Value> el;
      for (int64_t k = 0; k < n; ++k)
        el.push_back(g.chance(50) ? constant(number()) : leaf({}));
      return op("tensor_from_elements", el, type(s), s);
    }
    return op("tensor_broadcast", {leaf({})}, type(s), s);
  }

  Value subscript(int64_t n) {
    if (!inductions.empty() && n >= 2 && g.chance(60))
      return Value{g.pick(inductions), "index", {}};
    return index(g.draw(n));
  }
  Value element(const Value &t) {
    std::vector<Value> args{t};
    for (int64_t n : t.shape)
      args.push_back(subscript(n));
    return op("tensor_extract", args, "!bmodelica.real", {});
  }

  /// An expression whose value is in [0.5, 2.5].
  Value positive(const Shape &s, int depth) {
    Value e = op("sin", {expr(s, depth - 1)}, type(s), s);
    return op("add_ew", {constant(1.5), e}, type(s), s);
  }
  /// In [-0.8, 0.8].
  Value small(const Shape &s, int depth) {
    Value e = op("cos", {expr(s, depth - 1)}, type(s), s);
    return op("mul_ew", {constant(0.8), e}, type(s), s);
  }

  Value expr(const Shape &s, int depth) {
    if (depth <= 0)
      return leaf(s);
    std::string t = type(s);
    switch (g.weighted({3, 8, 5, 3, 4, 3, 4, s.empty() ? 3 : 2, s.empty() ? 2 : 3, 2, callees.empty() ? 0 : 2})) {
    case 0: return leaf(s);
    case 1: {
      static const std::vector<std::string> n{"neg", "sin", "cos", "tan", "exp", "log", "log10", "sqrt", "asin", "acos", "atan", "sinh",
                                              "cosh", "tanh"};
      auto &f = g.pick(n);
      if (f == "log" || f == "log10" || f == "sqrt")
        return op(f, {positive(s, depth)}, t, s);
      if (f == "asin" || f == "acos" || f == "tan" || f == "exp" || f == "sinh" || f == "cosh")
        return op(f, {small(s, depth)}, t, s);
      return op(f, {expr(s, depth - 1)}, t, s);
    }
    case 2: return op(g.draw(2) ? "add" : "sub", {expr(s, depth - 1), expr(s, depth - 1)}, t, s);
    case 3: {
      static const std::vector<std::string> n{"add_ew", "sub_ew", "mul_ew"};
      Shape a = s, b = s;
      if (!s.empty() && g.chance(50))
        (g.draw(2) ? a : b).clear();
      Value x = expr(a, depth - 1), y = expr(b, depth - 1);
      return op(g.pick(n), {x, y}, t, s);
    }
    case 4: {
      if (s.empty() || g.chance(60)) {
        Shape a = s, b;
        if (g.draw(2))
          std::swap(a, b);
        Value x = expr(a, depth - 1), y = expr(b, depth - 1);
        return op("mul", {x, y}, t, s);
      }
      [[fallthrough]];
    }
    case 5: {
      if (!matrices)
        return leaf(s);
      // Products of vectors and matrices.
      int64_t k = g.range(1, 3);
      Shape a, b;
      if (s.empty()) {
        a = b = {k};
      } else if (s.size() == 1) {
        if (g.draw(2)) {
          a = {s[0], k};
          b = {k};
        } else {
          a = {k};
          b = {k, s[0]};
        }
      } else {
        a = {s[0], k};
        b = {k, s[1]};
      }
      Value x = expr(a, depth - 1), y = expr(b, depth - 1);
      return op("mul", {x, y}, t, s);
    }
    case 6: {
      bool ew = g.draw(2);
      Shape a = s, b;
      if (ew && !s.empty() && g.chance(60)) {
        b = s;
        if (g.chance(30))
          a.clear();
      }
      Value x = expr(a, depth - 1), y = positive(b, depth);
      return op(ew ? "div_ew" : "div", {x, y}, t, s);
    }
    case 7: {
      if (s.size() == 2 && s[0] == s[1] && g.draw(2)) {
        Value x = expr(s, depth - 1), n = integer(g.range(0, 3));
        g.label("power of a matrix");
        return op("pow", {x, n}, t, s);
      }
      bool ew = !s.empty() || g.chance(30);
      Shape a = s, b;
      if (g.chance(60)) {
        // A constant exponent.
        Value x = expr(a, depth - 1);
        Value n = g.draw(2) ? integer(g.range(1, 4)) : constant(g.range(2, 3));
        return op(ew ? "pow_ew" : "pow", {ew ? positive(a, depth) : x, n}, t, s);
      }
      if (!s.empty() && g.chance(60)) {
        b = s;
        if (g.chance(40))
          a.clear();
      }
      Value x = positive(a, depth), y = expr(b, depth - 1);
      return op(ew ? "pow_ew" : "pow", {x, y}, t, s);
    }
    case 8: return structural(s, depth);
    case 9: {
      if (!s.empty())
        return leaf(s);
      if (g.chance(50)) {
        Value x = small(s, depth), y = positive(s, depth);
        return op("atan2", {x, y}, t, s);
      }
      return reduction(depth);
    }
    }
    return callOp(s, depth);
  }

  Value structural(const Shape &s, int depth) {
    if (s.empty()) {
      Shape o = g.draw(2) && matrices ? Shape{g.range(1, 3), g.range(1, 3)} : Shape{g.range(1, 3)};
      return element(expr(o, depth - 1));
    }
    switch (g.weighted({2, 2, 2, 2, 1})) {
    case 0: { // a part of something larger
      Shape o = s;
      o.insert(o.begin(), g.range(1, 3));
      if (o.size() > 2)
        return leaf(s);
      std::vector<Value> args{expr(o, depth - 1), subscript(o[0])};
      return op("tensor_view", args, type(s), s);
    }
    case 1: {
      std::vector<Value> args{expr({}, depth - 1), expr(s, depth - 1)};
      for (int64_t n : s)
        args.push_back(subscript(n));
      return op("tensor_insert", args, type(s), s);
    }
    case 2: {
      if (s.size() != 2)
        return leaf(s);
      std::vector<Value> args{expr({s[1]}, depth - 1), expr(s, depth - 1), subscript(s[0])};
      return op("tensor_insert_slice", args, type(s), s);
    }
    case 3: {
      int64_t n = 1;
      for (int64_t k : s)
        n *= k;
      std::vector<Value> el;
      for (int64_t k = 0; k < n; ++k)
        el.push_back(expr({}, g.chance(40) ? depth - 1 : 0));
      return op("tensor_from_elements", el, type(s), s);
    }
    }
    return op("tensor_broadcast", {expr({}, depth - 1)}, type(s), s);
  }

  Value reduction(int depth) {
    size_t n = g.weighted({3, 1}) + 1;
    std::string iterables, args, types;
    std::vector<std::string> mine;
    for (size_t k = 0; k < n; ++k) {
      Value zero = index(0), one = index(1);
      Value r = op("range", {zero, one, one}, "!bmodelica<range index>", {});
      std::string i = "%i" + std::to_string(next++);
      iterables += (k ? ", " : "") + r.name;
      args += (k ? ", " : "") + i + ": index";
      types += (k ? ", " : "") + r.type;
      mine.push_back(i);
    }
    Value v{"%" + std::to_string(next++), "!bmodelica.real", {}};
    g.label("reduction");
    line() << v.name << " = bmodelica.reduction \"add\", iterables = [" << iterables << "], inductions = [" << args << "] {\n";
    indent += 2;
    size_t kept = inductions.size();
    inductions.insert(inductions.end(), mine.begin(), mine.end());
    Value e = expr({}, depth - 1);
    inductions.resize(kept);
    line() << "bmodelica.yield " << e.name << " : " << e.type << "\n";
    indent -= 2;
    line() << "} : (" << types << ") -> !bmodelica.real\n";
    return v;
  }

  Value callOp(const Shape &s, int depth) {
    std::vector<Callee *> c;
    for (auto &k : callees)
      if (k.out.size() == 1 && k.out[0] == s)
        c.push_back(&k);
    if (c.empty())
      return leaf(s);
    Callee &k = *g.pick(c);
    std::vector<Value> args;
    for (auto &a : k.in)
      args.push_back(expr(a, depth - 1));
    Value v{"%" + std::to_string(next++), type(s), s};
    g.label("call");
    line() << v.name << " = bmodelica.call @" << k.name << "(";
    for (size_t j = 0; j < args.size(); ++j)
      os << (j ? ", " : "") << args[j].name;
    os << ") : (";
    for (size_t j = 0; j < args.size(); ++j)
      os << (j ? ", " : "") << args[j].type;
    os << ") -> " << v.type << "\n";
    return v;
  }

  // --- statements ---------------------------------------------------------

  bool isAssigned(const std::string &n) { return std::find(assigned.begin(), assigned.end(), n) != assigned.end(); }

  void assign(const Var &v, int depth) {
    if (!v.shape.empty() && isAssigned(v.name) && g.chance(40)) {
      // An element, or a row.
      size_t n = v.shape.size() == 2 && g.chance(40) ? 1 : v.shape.size();
      Shape rest(v.shape.begin() + n, v.shape.end());
      std::string subs, types;
      for (size_t k = 0; k < n; ++k) {
        Value i = subscript(v.shape[k]);
        subs += (k ? ", " : "") + i.name;
        types += i.type + ", ";
      }
      Value e = expr(rest, depth);
      line() << "bmodelica.variable_set @" << v.name << "[" << subs << "], " << e.name << " : " << types << e.type << "\n";
      g.label("set element");
      return;
    }
    Value e = expr(v.shape, depth);
    line() << "bmodelica.variable_set @" << v.name << ", " << e.name << " : " << e.type << "\n";
    if (!isAssigned(v.name))
      assigned.push_back(v.name);
  }

  std::vector<Var> assignable(bool all) {
    std::vector<Var> r;
    for (auto &v : vars)
      if (v.io != 'i' && v.real && (all || isAssigned(v.name)))
        r.push_back(v);
    return r;
  }

  Value conditionValue() {
    static const std::vector<std::string> n{"gt", "gte", "lt", "lte"};
    Value x = leaf({}), y = g.chance(50) ? constant(number()) : leaf({});
    return op(g.pick(n), {x, y}, "!bmodelica.bool", {});
  }

  bool breakable = false;

  void statement(int depth, int size) {
    auto known = assignable(false);
    switch (g.weighted({6, depth > 0 && !known.empty() ? 2 : 0, depth > 0 && !known.empty() ? 2 : 0})) {
    case 0: {
      auto all = assignable(depth >= 100);
      if (all.empty())
        all = assignable(true);
      if (!all.empty())
        assign(g.pick(all), size);
      return;
    }
    case 1: {
      Value c = conditionValue();
      g.label("if");
      line() << "bmodelica.if (" << c.name << " : !bmodelica.bool) {\n";
      auto before = assigned;
      block(depth - 1, size);
      assigned = before;
      bool otherwise = g.draw(2);
      if (otherwise) {
        line() << "} else {\n";
        block(depth - 1, size);
        assigned = before;
      }
      line() << "}\n";
      return;
    }
    }
    // A loop with a counter.
    std::string k = "k" + std::to_string(counters++);
    vars.push_back({k, {}, 'p', false});
    Value zero = integer(0);
    line() << "bmodelica.variable_set @" << k << ", " << zero.name << " : !bmodelica.int\n";
    auto before = assigned;
    bool isFor = g.draw(2);
    g.label(isFor ? "for" : "while");
    line() << (isFor ? "bmodelica.for condition {\n" : "bmodelica.while {\n");
    indent += 2;
    {
      Value v = get(var(k)), n = integer(g.range(1, 3));
      Value c = op("lt", {v, n}, "!bmodelica.bool", {});
      line() << "bmodelica.condition (" << c.name << " : !bmodelica.bool)\n";
    }
    indent -= 2;
    line() << (isFor ? "} body {\n" : "} do {\n");
    bool b = breakable;
    breakable = true;
    auto increment = [&] {
      Value v = get(var(k)), one = integer(1);
      Value s = op("add", {v, one}, "!bmodelica.int", {});
      line() << "bmodelica.variable_set @" << k << ", " << s.name << " : !bmodelica.int\n";
    };
    if (!isFor) {
      indent += 2;
      increment();
      indent -= 2;
    }
    block(depth - 1, size, isFor);
    breakable = b;
    if (isFor) {
      line() << "} step {\n";
      indent += 2;
      increment();
      line() << "bmodelica.yield\n";
      indent -= 2;
    }
    line() << "}\n";
    assigned = before;
  }
  int counters = 0;

  void block(int depth, int size, bool yield = false) {
    indent += 2;
    int n = int(g.range(1, 2));
    for (int k = 0; k < n; ++k)
      statement(depth, size);
    if (yield)
      line() << "bmodelica.yield\n";
    else if (!exits || !g.chance(15))
      ;
    else if (breakable && g.draw(2))
      line() << "bmodelica.break\n";
    else
      line() << "bmodelica.return\n";
    indent -= 2;
  }
  bool exits = true;

  /// A whole function. Every output is assigned.
  std::string function(const std::string &name, const std::string &attributes, int depth, int size) {
    os.str("");
    next = 0;
    indent = 4;
    assigned.clear();
    for (auto &v : vars)
      if (v.io == 'i')
        assigned.push_back(v.name);
    auto all = assignable(true);
    int n = int(g.range(0, 3));
    // Protected variables first, so that the outputs depend on them.
    for (auto &v : all)
      if (v.io == 'p')
        assign(v, size);
    for (auto &v : all)
      if (v.io == 'o')
        assign(v, size);
    for (int k = 0; k < n; ++k)
      statement(depth, size);
    std::string body = os.str();
    std::ostringstream f;
    f << "bmodelica.function @" << name << (attributes.empty() ? "" : " attributes {" + attributes + "}") << " {\n";
    for (auto &v : vars)
      f << "  bmodelica.variable @" << v.name << " : " << variableType(v) << "\n";
    f << "  bmodelica.algorithm {\n" << body << "  }\n}\n";
    return f.str();
  }
};
} // namespace bm
