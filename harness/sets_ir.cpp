// C28: intervals, boxes and index sets stored in the intermediate
// representation.
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Dialect/Modeling/IR/Attributes.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "ir_util.h"
#include "modeling_util.h"
#include "verif/Verif.h"
#include <optional>

using mlir::modeling::IndexSetsList;
using mlir::modeling::MultidimensionalRangeAttr;
using mlir::modeling::RangeAttr;
using mu::Bounds;
using mu::IndexSet;

namespace {
constexpr int64_t kMin = INT64_MIN, kMax = INT64_MAX;

mlir::MLIRContext &context() {
  return ir::context<mlir::modeling::ModelingDialect, mlir::runtime::RuntimeDialect,
                     verif::VerifDialect>();
}

/// Origin of the coordinates of a case.
int64_t origin(pbt::G &g) {
  switch (g.weighted({8, 2, 1, 1, 1})) {
  case 0: return 0;
  case 1: return g.around(-1000, 1000);
  case 2: return g.around(-(1LL << 33), 1LL << 33);
  case 3: return kMax - 40;
  default: return kMin + 40;
  }
}

Bounds genBounds(pbt::G &g, size_t rank, int64_t at) {
  Bounds b = mu::genBox(g, rank, -8, 8, g.chance(20) ? 10 : 3);
  for (auto &x : b)
    x.first += at, x.second += at;
  return b;
}

/// A set as a history of boxes, with its points.
struct Model {
  std::vector<Bounds> boxes;
  mu::Set points;

  IndexSet build(bool reversed = false) const {
    IndexSet s;
    if (reversed)
      for (auto b = boxes.rbegin(); b != boxes.rend(); ++b)
        s += mu::box(*b);
    else
      for (auto &b : boxes)
        s += mu::box(b);
    return s;
  }

  std::string text() const {
    std::string s = "{";
    for (auto &b : boxes)
      s += (s.size() > 1 ? "," : "") + mu::str(b);
    return s + "}";
  }
};

Model genSet(pbt::G &g, int64_t at) {
  Model m;
  size_t rank = 1 + g.weighted({6, 4, 1});
  for (size_t n = g.weighted({2, 5, 4, 3, 2, 1}); n; --n)
    m.boxes.push_back(!m.boxes.empty() && at == 0 && g.chance(60) ? mu::genRelated(g, m.boxes.back(), 4)
                                                      : genBounds(g, rank, at));
  for (auto &b : m.boxes)
    mu::addTuples(m.points, b);
  return m;
}

mu::Set points(const IndexSet &s) {
  llvm::SmallVector<mu::MultidimensionalRange> ranges;
  s.getCompactRanges(ranges);
  mu::Set r;
  for (auto &x : ranges)
    mu::addTuples(r, mu::bounds(x));
  return r;
}

void requireSet(pbt::G &g, const char *what, const IndexSet &s, const Model &m) {
  if (points(s) != m.points)
    g.fail(std::string(what) + ": " + mu::str(points(s)) + " instead of " + mu::str(m.points));
}

template <typename Op>
std::vector<Op> ops(mlir::ModuleOp module) {
  std::vector<Op> r;
  for (auto op : module.getOps<Op>())
    r.push_back(op);
  return r;
}

struct Content {
  std::vector<Model> sets;
  std::vector<std::vector<Model>> lists;
  std::vector<std::vector<std::pair<int, Model>>> printed; // 0, 1 or a set
  std::vector<Model> equations;
  std::vector<Bounds> ranges; // the first bounds only
  std::vector<Bounds> boxes;
};

void check(pbt::G &g, mlir::ModuleOp module, const Content &c) {
  auto sets = ops<verif::SetOp>(module);
  auto lists = ops<verif::ListOp>(module);
  auto printed = ops<mlir::runtime::PrintableIndicesOp>(module);
  auto equations = ops<mlir::runtime::SchedulerAddEquationOp>(module);
  REQUIRE(sets.size() == c.sets.size() && lists.size() == c.lists.size() &&
              printed.size() == c.printed.size() && equations.size() == c.equations.size());
  for (size_t i = 0; i < sets.size(); ++i)
    requireSet(g, "set", sets[i].getIndices(), c.sets[i]);
  for (size_t i = 0; i < equations.size(); ++i)
    requireSet(g, "indices of an equation", equations[i].getProperties().indices, c.equations[i]);
  for (size_t i = 0; i < lists.size(); ++i) {
    const IndexSetsList &l = lists[i].getProperties().sets;
    if (l.size() != c.lists[i].size())
      g.fail("list of " + std::to_string(l.size()) + " sets instead of " + std::to_string(c.lists[i].size()));
    for (size_t j = 0; j < l.size(); ++j)
      requireSet(g, "element of a list", l[j], c.lists[i][j]);
  }
  for (size_t i = 0; i < printed.size(); ++i) {
    auto &l = printed[i].getProperties().indices;
    if (l.size() != c.printed[i].size())
      g.fail("list of " + std::to_string(l.size()) + " printable indices instead of " +
             std::to_string(c.printed[i].size()));
    for (size_t j = 0; j < l.size(); ++j) {
      REQUIRE(l[j].isa<bool>() == (c.printed[i][j].first < 2));
      if (l[j].isa<bool>())
        REQUIRE(l[j].get<bool>() == bool(c.printed[i][j].first));
      else
        requireSet(g, "printable indices", l[j].get<IndexSet>(), c.printed[i][j].second);
    }
  }
  auto array = [&](const char *name) { return module->getAttrOfType<mlir::ArrayAttr>(name); };
  auto ranges = array("verif.ranges"), boxes = array("verif.boxes");
  REQUIRE(ranges && boxes && ranges.size() == c.ranges.size() && boxes.size() == c.boxes.size());
  for (size_t i = 0; i < ranges.size(); ++i) {
    auto r = mlir::dyn_cast<RangeAttr>(ranges[i]);
    REQUIRE(r);
    REQUIRE(r.getValue().getBegin() == c.ranges[i][0].first);
    REQUIRE(r.getValue().getEnd() == c.ranges[i][0].second);
  }
  for (size_t i = 0; i < boxes.size(); ++i) {
    auto r = mlir::dyn_cast<MultidimensionalRangeAttr>(boxes[i]);
    REQUIRE(r);
    REQUIRE(mu::bounds(r.getValue()) == c.boxes[i]);
  }
}

void values(pbt::G &g) {
  mlir::MLIRContext &ctx = context();
  mlir::OpBuilder b(&ctx);
  auto loc = b.getUnknownLoc();
  ir::ModuleRef module(mlir::ModuleOp::create(loc));
  b.setInsertionPointToEnd(module->getBody());
  int64_t at = origin(g);
  Content c;
  mlir::SmallVector<mlir::Attribute> ranges, boxes;
  for (size_t n = g.range(0, 2); n; --n) {
    c.ranges.push_back(genBounds(g, 1, at));
    ranges.push_back(RangeAttr::get(&ctx, {c.ranges.back()[0].first, c.ranges.back()[0].second}));
  }
  for (size_t n = g.range(0, 2); n; --n) {
    c.boxes.push_back(genBounds(g, g.range(1, 4), at));
    boxes.push_back(MultidimensionalRangeAttr::get(&ctx, mu::box(c.boxes.back())));
  }
  (*module)->setAttr("verif.ranges", b.getArrayAttr(ranges));
  (*module)->setAttr("verif.boxes", b.getArrayAttr(boxes));

  size_t n = g.range(1, 3), total = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (g.weighted({3, 5, 3, 2})) {
    case 0: {
      Model m = genSet(g, at);
      g.log << "set " << m.text() << "\n";
      auto op = b.create<verif::SetOp>(loc, IndexSet());
      op.getProperties().indices = m.build();
      total += m.boxes.size();
      c.sets.push_back(m);
      break;
    }
    case 1: {
      std::vector<Model> l;
      g.log << "list";
      auto op = b.create<verif::ListOp>(loc, IndexSetsList());
      for (size_t k = g.weighted({1, 2, 4, 3, 2}); k; --k) {
        l.push_back(genSet(g, at));
        g.log << " " << l.back().text();
        op.getProperties().sets.push_back(l.back().build());
        total += l.back().boxes.size();
      }
      g.log << "\n";
      c.lists.push_back(l);
      break;
    }
    case 2: {
      std::vector<std::pair<int, Model>> l;
      g.log << "printable";
      auto op = b.create<mlir::runtime::PrintableIndicesOp>(loc, mlir::runtime::PrintableIndicesList());
      for (size_t k = g.weighted({1, 2, 4, 3, 2}); k; --k) {
        int kind = g.range(0, 2);
        l.emplace_back(kind, kind == 2 ? genSet(g, at) : Model());
        auto &p = op.getProperties().indices;
        if (kind == 2)
          p.emplace_back(l.back().second.build()), total += l.back().second.boxes.size();
        else
          p.emplace_back(bool(kind));
        g.log << " " << (kind == 2 ? l.back().second.text() : std::to_string(kind));
      }
      g.log << "\n";
      c.printed.push_back(l);
      break;
    }
    default: {
      Model m = genSet(g, at);
      g.log << "equation " << m.text() << "\n";
      auto op = b.create<mlir::runtime::SchedulerAddEquationOp>(loc, "s", "f", m.build(), g.chance(50));
      total += m.boxes.size();
      c.equations.push_back(m);
      break;
    }
    }
  }
  if (total > 1)
    g.nontrivial();
  check(g, *module, c);
  ir::roundTrips(g, *module, false);
  for (int form = 0; form < 3; ++form) {
    std::string text = form == 2 ? ir::bytecode(*module) : ir::print(*module, form == 1);
    ir::Diagnostics d(&ctx);
    ir::ModuleRef again = ir::parse(ctx, text);
    if (!again)
      g.fail("not read back");
    check(g, *again, c);
  }
}

/// Attributes of any kind, with the set they stand for, if they do.
mlir::Attribute genAttribute(pbt::G &g, mlir::Builder &b, int depth) {
  switch (g.weighted({depth ? 4 : 0, 3, 1, 1, 1, 1})) {
  case 0: {
    mlir::SmallVector<mlir::Attribute> v;
    for (size_t n = g.range(0, 3); n; --n)
      v.push_back(genAttribute(g, b, depth - 1));
    return b.getArrayAttr(v);
  }
  case 1:
    return MultidimensionalRangeAttr::get(b.getContext(), mu::box(genBounds(g, g.range(1, 2), 0)));
  case 2:
    return RangeAttr::get(b.getContext(), {0, 3});
  case 3:
    return b.getBoolAttr(g.chance(50));
  case 4:
    return b.getI64IntegerAttr(g.range(0, 3));
  default:
    return b.getStringAttr("x");
  }
}

std::optional<mu::Set> asSet(mlir::Attribute a) {
  auto array = mlir::dyn_cast<mlir::ArrayAttr>(a);
  if (!array)
    return std::nullopt;
  mu::Set r;
  size_t rank = 0;
  for (mlir::Attribute e : array) {
    auto box = mlir::dyn_cast<MultidimensionalRangeAttr>(e);
    if (!box || (rank && rank != box.getValue().rank()))
      return std::nullopt;
    rank = box.getValue().rank();
    mu::addTuples(r, mu::bounds(box.getValue()));
  }
  return r;
}

template <typename Op>
void replace(pbt::G &g, Op op, llvm::StringRef name, mlir::Attribute value, bool valid) {
  mlir::MLIRContext *ctx = op->getContext();
  ir::Diagnostics d(ctx);
  mlir::NamedAttrList l;
  l.append(name, value);
  bool ok = mlir::succeeded(op->setPropertiesFromAttribute(
      l.getDictionary(ctx), [&] { return mlir::emitError(op->getLoc()); }));
  if (ok != valid)
    g.fail(ir::str(value) + (ok ? " is accepted" : " is refused") + d.text());
  if (ok != d.errors.empty())
    g.fail(ir::str(value) + (ok ? " is accepted with a diagnostic" : " is refused without a diagnostic"));
}

void attributes(pbt::G &g) {
  mlir::MLIRContext &ctx = context();
  mlir::OpBuilder b(&ctx);
  auto loc = b.getUnknownLoc();
  ir::ModuleRef module(mlir::ModuleOp::create(loc));
  b.setInsertionPointToEnd(module->getBody());
  auto text = [](const std::vector<Model> &l) {
    std::string s;
    for (auto &x : l)
      s += " " + x.text();
    return s;
  };
  switch (g.weighted({3, 3, 3, 3})) {
  case 0: { // conversion onto an operation which holds something else
    Model from = genSet(g, 0), onto = genSet(g, 0);
    g.log << "set " << from.text() << " replaces " << onto.text() << "\n";
    if (!onto.boxes.empty() && !from.boxes.empty())
      g.nontrivial();
    auto op = b.create<verif::SetOp>(loc, IndexSet()), other = b.create<verif::SetOp>(loc, IndexSet());
    op.getProperties().indices = from.build();
    other.getProperties().indices = onto.build();
    REQUIRE((op.getProperties() == other.getProperties()) == (from.points == onto.points));
    mlir::Attribute a = op->getPropertiesAsAttribute();
    REQUIRE(a);
    REQUIRE(mlir::succeeded(other->setPropertiesFromAttribute(a, [&] { return mlir::emitError(loc); })));
    requireSet(g, "set converted from an attribute", other.getIndices(), from);
    REQUIRE(op.getProperties() == other.getProperties());
    // Equal values built differently are equal for the operations.
    other.getProperties().indices = from.build(true);
    REQUIRE(mlir::OperationEquivalence::isEquivalentTo(op, other, mlir::OperationEquivalence::IgnoreLocations));
    REQUIRE(mlir::OperationEquivalence::computeHash(op) == mlir::OperationEquivalence::computeHash(other));
    break;
  }
  case 1: {
    std::vector<Model> from, onto;
    for (size_t n = g.range(0, 3); n; --n)
      from.push_back(genSet(g, 0));
    for (size_t n = g.range(0, 3); n; --n)
      onto.push_back(genSet(g, 0));
    g.log << "list" << text(from) << " replaces" << text(onto) << "\n";
    if (from.size() > 1)
      g.nontrivial();
    auto op = b.create<verif::ListOp>(loc, IndexSetsList()), other = b.create<verif::ListOp>(loc, IndexSetsList());
    for (auto &x : from)
      op.getProperties().sets.push_back(x.build());
    for (auto &x : onto)
      other.getProperties().sets.push_back(x.build());
    mlir::Attribute a = op->getPropertiesAsAttribute();
    REQUIRE(mlir::succeeded(other->setPropertiesFromAttribute(a, [&] { return mlir::emitError(loc); })));
    REQUIRE(other.getProperties().sets.size() == from.size());
    for (size_t i = 0; i < from.size(); ++i)
      requireSet(g, "element converted from an attribute", other.getProperties().sets[i], from[i]);
    REQUIRE(op.getProperties() == other.getProperties());
    for (size_t i = 0; i < from.size(); ++i)
      other.getProperties().sets[i] = from[i].build(true);
    REQUIRE(mlir::OperationEquivalence::isEquivalentTo(op, other, mlir::OperationEquivalence::IgnoreLocations));
    REQUIRE(mlir::OperationEquivalence::computeHash(op) == mlir::OperationEquivalence::computeHash(other));
    // A list is a copy of the operation, too.
    auto copy = mlir::cast<verif::ListOp>(b.clone(*op.getOperation()));
    REQUIRE(copy.getProperties() == op.getProperties());
    break;
  }
  default: { // attributes of any kind
    mlir::Attribute a = genAttribute(g, b, 3);
    g.log << "attribute " << ir::str(a) << "\n";
    g.nontrivial();
    auto set = asSet(a);
    auto op = b.create<verif::SetOp>(loc, IndexSet());
    replace(g, op, "indices", a, bool(set));
    if (set)
      REQUIRE(points(op.getIndices()) == *set);
    auto array = mlir::dyn_cast<mlir::ArrayAttr>(a);
    bool list = bool(array), printable = bool(array);
    if (array)
      for (mlir::Attribute e : array) {
        list &= bool(asSet(e));
        printable &= mlir::isa<mlir::BoolAttr>(e) || bool(asSet(e));
      }
    auto listOp = b.create<verif::ListOp>(loc, IndexSetsList());
    replace(g, listOp, "sets", a, list);
    if (list) {
      auto &l = listOp.getProperties().sets;
      REQUIRE(l.size() == array.size());
      for (size_t i = 0; i < l.size(); ++i)
        REQUIRE(points(l[i]) == *asSet(array[i]));
    }
    auto printableOp = b.create<mlir::runtime::PrintableIndicesOp>(loc, mlir::runtime::PrintableIndicesList());
    replace(g, printableOp, "indices", a, printable);
    if (printable) {
      auto &l = printableOp.getProperties().indices;
      REQUIRE(l.size() == array.size());
      for (size_t i = 0; i < l.size(); ++i)
        if (auto v = mlir::dyn_cast<mlir::BoolAttr>(array[i]))
          REQUIRE(l[i].isa<bool>() && l[i].get<bool>() == v.getValue());
        else
          REQUIRE(l[i].isa<IndexSet>() && points(l[i].get<IndexSet>()) == *asSet(array[i]));
    }
    break;
  }
  }
}

// --- malformed texts ---------------------------------------------------------

using Tokens = std::vector<std::string>;

void put(Tokens &t, const Bounds &b) {
  for (auto &x : b) {
    t.push_back("[");
    t.push_back(std::to_string(x.first));
    t.push_back(",");
    t.push_back(std::to_string(x.second - 1));
    t.push_back("]");
  }
}

void put(Tokens &t, const Model &m) {
  t.push_back("{");
  for (size_t i = 0; i < m.boxes.size(); ++i) {
    if (i)
      t.push_back(",");
    put(t, m.boxes[i]);
  }
  t.push_back("}");
}

/// Reference recogniser.
struct Reader {
  const Tokens &t;
  size_t at = 0;
  bool keyword = false;

  bool eat(const char *s) {
    if (at < t.size() && t[at] == s) {
      ++at;
      return true;
    }
    return false;
  }

  std::optional<int64_t> number() {
    if (eat("true") || eat("false")) { // an integer for MLIR
      keyword = true;
      return 0;
    }
    bool minus = eat("-");
    if (at >= t.size())
      return std::nullopt;
    std::string s = t[at];
    if (s[0] == '-') {
      if (minus)
        return std::nullopt;
      minus = true;
      s = s.substr(1);
    }
    if (s.empty() || !isdigit(s[0]))
      return std::nullopt;
    ++at;
    errno = 0;
    s = (minus ? "-" : "") + s;
    int64_t v = strtoll(s.c_str(), nullptr, 10);
    if (errno)
      return std::nullopt;
    return v;
  }

  bool range(Bounds &b) {
    if (!eat("["))
      return false;
    auto lo = number();
    if (!lo || !eat(","))
      return false;
    auto hi = number();
    if (!hi || !eat("]") || *hi < *lo || *hi == kMax)
      return false;
    b.emplace_back(*lo, *hi + 1);
    return true;
  }

  bool box(Bounds &b) {
    do
      if (!range(b))
        return false;
    while (at < t.size() && t[at] == "[");
    return true;
  }

  bool set(std::vector<Bounds> &s) {
    if (!eat("{"))
      return false;
    if (eat("}"))
      return true;
    do {
      Bounds b;
      if (!box(b) || (!s.empty() && s[0].size() != b.size()))
        return false;
      s.push_back(b);
    } while (eat(","));
    return eat("}");
  }

  bool list(std::vector<std::vector<Bounds>> &l, bool flags) {
    if (!eat("["))
      return false;
    if (eat("]"))
      return true;
    do {
      l.emplace_back();
      if (flags && (eat("true") || eat("false")))
        continue;
      if (!set(l.back()))
        return false;
    } while (eat(","));
    return eat("]");
  }
};

void malformed(pbt::G &g) {
  mlir::MLIRContext &ctx = context();
  int kind = g.weighted({2, 2, 3, 3, 3});
  int64_t at = origin(g);
  Tokens t;
  switch (kind) {
  case 0:
    put(t, genBounds(g, 1, at));
    break;
  case 1:
    put(t, genBounds(g, g.range(1, 3), at));
    break;
  case 2:
    put(t, genSet(g, at));
    break;
  default:
    t.push_back("[");
    for (size_t n = g.range(0, 3), i = 0; i < n; ++i) {
      if (i)
        t.push_back(",");
      if (kind == 4 && g.chance(50))
        t.push_back(g.chance(50) ? "true" : "false");
      else
        put(t, genSet(g, at));
    }
    t.push_back("]");
    break;
  }
  static const Tokens numbers = {"0", "1", "5", "-1", "-3", "9223372036854775807", "9223372036854775806",
                                 "-9223372036854775808", "9223372036854775808", "-9223372036854775809",
                                 "18446744073709551615", "18446744073709551616",
                                 "99999999999999999999999999999999999999999", "007"};
  static const Tokens other = {"[", "]", "{", "}", ",", "-", "true", "(", ":"};
  size_t changes = g.weighted({2, 5, 3, 1});
  for (size_t n = changes; n; --n) {
    size_t i = g.draw(t.size() + 1);
    switch (g.weighted({4, 2, 2, 2, 1})) {
    case 0: { // a number, if there is one
      for (size_t k = 0; k < t.size(); ++k) {
        size_t j = (i + k) % t.size();
        if (isdigit(t[j].back())) {
          t[j] = g.pick(numbers);
          break;
        }
      }
      break;
    }
    case 1:
      if (i < t.size())
        t.erase(t.begin() + i);
      break;
    case 2:
      t.insert(t.begin() + i, g.chance(70) ? g.pick(other) : g.pick(numbers));
      break;
    case 3:
      if (i < t.size())
        t.insert(t.begin() + i, t[i]);
      break;
    default:
      t.resize(i);
      break;
    }
    if (t.empty())
      t.push_back("[");
  }
  if (changes)
    g.nontrivial();

  Reader r{t};
  std::vector<std::vector<Bounds>> expected(1);
  bool ok;
  if (kind == 0)
    expected[0].emplace_back(), ok = r.range(expected[0][0]);
  else if (kind == 1)
    expected[0].emplace_back(), ok = r.box(expected[0][0]);
  else if (kind == 2)
    ok = r.set(expected[0]);
  else
    expected.clear(), ok = r.list(expected, kind == 4);
  // What follows the text can be an empty dictionary of attributes, and MLIR
  // ignores what follows the body of an attribute.
  bool judged = !r.keyword && (!ok || r.at == t.size() || (kind >= 2 && t[r.at] != "{"));
  ok &= r.at == t.size();
  g.label(ok ? "valid" : "invalid");

  std::string s;
  for (auto &x : t)
    s += (s.empty() ? "" : g.chance(20) ? " " : isdigit(s.back()) && isdigit(x[0]) ? " " : "") + x;
  // A keyword touching a number or another keyword is a single token.
  g.log << "kind " << kind << " text " << s << "\n";
  for (size_t i = 1; i < t.size(); ++i)
    if (isalnum(t[i - 1].back()) && isalpha(t[i][0]))
      judged = false;
  // An arrow, or a number starting with more zeroes.
  std::string source;
  switch (kind) {
  case 0: source = "module attributes {verif.a = #modeling<range " + s + ">} {}"; break;
  case 1: source = "module attributes {verif.a = #modeling<multidim_range " + s + ">} {}"; break;
  case 2: source = "module { verif.set " + s + "\n}"; break;
  case 3: source = "module { verif.list " + s + "\n}"; break;
  default: source = "module { runtime.printable_indices " + s + "\n}"; break;
  }
  ir::Diagnostics d(&ctx);
  ir::ModuleRef m = ir::parse(ctx, source);
  if (bool(m) == !d.errors.empty())
    g.fail(m ? "read with an error" + d.text() : "refused without a diagnostic");
  if (!judged)
    return;
  if (bool(m) != ok)
    g.fail(std::string(ok ? "refused" : "accepted") + d.text());
  if (!m)
    return;
  auto same = [&](const IndexSet &v, const std::vector<Bounds> &boxes) {
    std::vector<Bounds> small;
    IndexSet all;
    for (auto &b : boxes)
      all += mu::box(b);
    if (!(all == v))
      g.fail("read as " + mu::str(v));
  };
  if (kind == 0) {
    auto a = (*m)->getAttrOfType<RangeAttr>("verif.a");
    REQUIRE(a && a.getValue().getBegin() == expected[0][0][0].first &&
                a.getValue().getEnd() == expected[0][0][0].second);
  } else if (kind == 1) {
    auto a = (*m)->getAttrOfType<MultidimensionalRangeAttr>("verif.a");
    REQUIRE(a && mu::bounds(a.getValue()) == expected[0][0]);
  } else if (kind == 2) {
    same(ops<verif::SetOp>(*m)[0].getIndices(), expected[0]);
  } else if (kind == 3) {
    auto &l = ops<verif::ListOp>(*m)[0].getProperties().sets;
    REQUIRE(l.size() == expected.size());
    for (size_t i = 0; i < l.size(); ++i)
      same(l[i], expected[i]);
  } else {
    auto &l = ops<mlir::runtime::PrintableIndicesOp>(*m)[0].getProperties().indices;
    REQUIRE(l.size() == expected.size());
    for (size_t i = 0; i < l.size(); ++i)
      if (l[i].isa<IndexSet>())
        same(l[i].get<IndexSet>(), expected[i]);
  }
}
} // namespace

PBT_PROP("C28", p_values, 20000, 400000,
         "at least two boxes in the stored sets") { values(g); }
PBT_PROP("C28", p_attributes, 60000, 1000000,
         "two non-empty values, or an attribute of any kind") { attributes(g); }
PBT_PROP("C28", p_malformed, 100000, 2000000,
         "the text is changed at least once") { malformed(g); }
