// C02, C03: index sets against plain sets of tuples, under operation histories.
#include "modeling_util.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/SmallBitVector.h"

using namespace mu;

namespace {
struct Entry {
  IndexSet real;
  Set model;
};

Set setUnion(Set a, const Set &b) {
  a.insert(b.begin(), b.end());
  return a;
}
Set inter(const Set &a, const Set &b) {
  Set r;
  for (auto &x : a)
    if (b.count(x))
      r.insert(x);
  return r;
}
Set minus(const Set &a, const Set &b) {
  Set r;
  for (auto &x : a)
    if (!b.count(x))
      r.insert(x);
  return r;
}
bool subset(const Set &a, const Set &b) {
  if (a.size() > b.size())
    return false;
  for (auto &x : a)
    if (!b.count(x))
      return false;
  return true;
}
template <typename F>
Set mapSet(const Set &a, F f) {
  Set r;
  for (auto &x : a)
    r.insert(f(x));
  return r;
}
Set product(const Set &a, const Set &b) {
  Set r;
  for (auto &x : a)
    for (auto &y : b) {
      Tuple t = x;
      t.insert(t.end(), y.begin(), y.end());
      r.insert(t);
    }
  return r;
}

struct World {
  size_t rank;
  std::vector<int64_t> lo, hi; // universe

  Bounds randomBox(pbt::G &g, int64_t maxLen) {
    Bounds b;
    for (size_t i = 0; i < rank; ++i) {
      int64_t s = g.range(lo[i], hi[i] - 1);
      int64_t n = g.range(1, std::max<int64_t>(1, std::min(maxLen, hi[i] - s)));
      b.emplace_back(s, s + n);
    }
    return b;
  }

  /// A box with some full dimensions: cuts through everything there.
  Bounds slab(pbt::G &g) {
    Bounds b = randomBox(g, 6);
    for (size_t i = 0; i < rank; ++i)
      if (g.chance(50))
        b[i] = {lo[i], hi[i]};
    return b;
  }

  /// Scattered boxes: a lattice with a stride, possibly with thin boxes.
  std::vector<Bounds> lattice(pbt::G &g, size_t maxCount) {
    std::vector<Bounds> res;
    Tuple stride, at;
    for (size_t i = 0; i < rank; ++i) {
      stride.push_back(g.range(2, 4));
      at.push_back(lo[i] + g.range(0, 1));
    }
    Tuple first = at;
    size_t longDim = g.draw(rank + 1);
    while (res.size() < maxCount) {
      Bounds b;
      bool in = true;
      for (size_t i = 0; i < rank; ++i) {
        int64_t e = at[i] + 1;
        if (i == longDim)
          e = std::min(hi[i], at[i] + stride[i] - 1);
        b.emplace_back(at[i], std::max(e, at[i] + 1));
        in &= at[i] < hi[i];
      }
      if (in)
        res.push_back(b);
      size_t i = rank;
      while (i-- > 0) {
        at[i] += stride[i];
        if (at[i] < hi[i])
          break;
        at[i] = first[i];
        if (i == 0)
          return res;
      }
    }
    return res;
  }

  Tuple randomPoint(pbt::G &g) {
    Tuple t;
    for (size_t i = 0; i < rank; ++i)
      t.push_back(g.range(lo[i], hi[i] - 1));
    return t;
  }
};

World genWorld(pbt::G &g, bool big) {
  World w;
  w.rank = 1 + g.weighted({3, 5, 2});
  static const int64_t side[] = {0, 60, 14, 7};
  static const int64_t bigSide[] = {0, 300, 26, 10};
  for (size_t i = 0; i < w.rank; ++i) {
    int64_t o = g.chance(15) ? g.around(-20, 20) : 0;
    w.lo.push_back(o);
    w.hi.push_back(o + (big ? bigSide : side)[w.rank]);
  }
  return w;
}

/// Compares the set with its model, using enumeration, ranges and size.
void check(pbt::G &g, const IndexSet &s, const Set &model, const World &w,
           const char *what, size_t rank = 0) {
  if (!rank)
    rank = w.rank;
  std::vector<Bounds> boxes;
  size_t volume = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) {
    boxes.push_back(bounds(*it));
    size_t v = 1;
    for (auto &d : boxes.back()) {
      PBT_REQUIRE(g, d.first < d.second, what << ": empty range " << str(boxes.back()));
      v *= d.second - d.first;
    }
    volume += v;
    PBT_REQUIRE(g, boxes.back().size() == rank, what << ": range of a wrong rank " << str(boxes.back()));
    PBT_REQUIRE(g, volume <= 100000, what << ": too many points");
  }
  Set pts;
  for (auto &b : boxes)
    addTuples(pts, b);
  PBT_REQUIRE(g, pts == model, what << ": the ranges hold " << str(pts) << " instead of " << str(model)
                                    << "; missing " << str(minus(model, pts)) << " extra " << str(minus(pts, model)));
  PBT_REQUIRE(g, volume == model.size(), what << ": overlapping ranges in " << str(s));
  PBT_REQUIRE(g, s.size() == model.size(), what << ": size " << s.size() << " instead of " << model.size());
  PBT_REQUIRE(g, s.empty() == model.empty(), what << ": emptiness");
  size_t n = 0;
  Set seen;
  for (auto it = s.begin(), e = s.end(); it != e; ++it) {
    ++n;
    PBT_REQUIRE(g, n <= model.size(), what << ": enumeration too long");
    seen.insert(tuple(*it));
  }
  PBT_REQUIRE(g, n == model.size() && seen == model, what << ": enumeration gives " << str(seen));
  if (!model.empty())
    PBT_REQUIRE(g, s.rank() == rank, what << ": rank " << s.rank());
}

void queries(pbt::G &g, const Entry &a, const Entry &b, World &w) {
  Tuple p = w.randomPoint(g);
  PBT_REQUIRE(g, a.real.contains(point(p)) == (a.model.count(p) != 0), "contains point " << str(p));
  Bounds bx = w.randomBox(g, g.chance(50) ? 2 : 8);
  if (!a.model.empty() && g.chance(50)) {
    // A box around a member.
    auto it = a.model.begin();
    std::advance(it, g.draw(a.model.size()));
    for (size_t i = 0; i < w.rank; ++i)
      bx[i] = {(*it)[i], (*it)[i] + g.range(1, 3)};
  }
  Set sb = tuples(bx);
  PBT_REQUIRE(g, a.real.contains(box(bx)) == subset(sb, a.model), "contains box " << str(bx));
  PBT_REQUIRE(g, a.real.overlaps(box(bx)) == !inter(sb, a.model).empty(), "overlaps box " << str(bx));
  bool sub = subset(b.model, a.model);
  PBT_REQUIRE(g, a.real.contains(b.real) == sub, "contains set");
  PBT_REQUIRE(g, a.real.overlaps(b.real) == !inter(a.model, b.model).empty(), "overlaps set");
  PBT_REQUIRE(g, b.real.overlaps(a.real) == !inter(a.model, b.model).empty(), "overlaps set, exchanged");
  bool eq = a.model == b.model;
  PBT_REQUIRE(g, (a.real == b.real) == eq, "equality of " << str(a.real) << " and " << str(b.real));
  PBT_REQUIRE(g, (a.real != b.real) == !eq, "inequality");
  PBT_REQUIRE(g, (a.real == box(bx)) == (a.model == sb), "equality with a box");
  PBT_REQUIRE(g, (a.real != box(bx)) == (a.model != sb), "inequality with a box");
  PBT_REQUIRE(g, (a.real == point(p)) == (a.model == Set{p}), "equality with a point");
  PBT_REQUIRE(g, (a.real != point(p)) == (a.model != Set{p}), "inequality with a point");
  if (sub && !b.model.empty() && !eq)
    g.label("query: proper subset");
  if (eq && !a.model.empty())
    g.label("query: equal sets");
}

/// Reshaping operations on one set: results checked, set unchanged.
void reshape(pbt::G &g, Entry &a, Entry &b, World &w) {
  size_t r = w.rank;
  switch (g.draw(7)) {
  case 0: {
    size_t n = g.range(1, r);
    g.log << " takeFirst(" << n << ")";
    check(g, a.real.takeFirstDimensions(n),
          mapSet(a.model, [&](Tuple t) { t.resize(n); return t; }), w, "takeFirstDimensions", n);
    break;
  }
  case 1: {
    size_t n = g.range(1, r);
    g.log << " takeLast(" << n << ")";
    check(g, a.real.takeLastDimensions(n),
          mapSet(a.model, [&](const Tuple &t) { return Tuple(t.end() - n, t.end()); }), w,
          "takeLastDimensions", n);
    break;
  }
  case 2: {
    if (r < 2)
      return;
    size_t n = g.range(1, r - 1);
    g.log << " dropFirst(" << n << ")";
    check(g, a.real.dropFirstDimensions(n),
          mapSet(a.model, [&](const Tuple &t) { return Tuple(t.begin() + n, t.end()); }), w,
          "dropFirstDimensions", r - n);
    break;
  }
  case 3: {
    if (r < 2)
      return;
    size_t n = g.range(1, r - 1);
    g.log << " dropLast(" << n << ")";
    check(g, a.real.dropLastDimensions(n),
          mapSet(a.model, [&](const Tuple &t) { return Tuple(t.begin(), t.end() - n); }), w,
          "dropLastDimensions", r - n);
    break;
  }
  case 4: {
    std::vector<bool> keep;
    size_t n = 0;
    for (size_t i = 0; i < r; ++i) {
      keep.push_back(g.chance(60));
      n += keep.back();
    }
    if (!n) {
      keep[0] = true;
      n = 1;
    }
    llvm::SmallBitVector sbv(r);
    llvm::BitVector bv(r);
    g.log << " take/slice";
    for (size_t i = 0; i < r; ++i)
      if (keep[i]) {
        sbv.set(i);
        bv.set(i);
        g.log << " " << i;
      }
    Set m = mapSet(a.model, [&](const Tuple &t) {
      Tuple u;
      for (size_t i = 0; i < r; ++i)
        if (keep[i])
          u.push_back(t[i]);
      return u;
    });
    check(g, a.real.takeDimensions(sbv), m, w, "takeDimensions", n);
    check(g, a.real.slice(bv), m, w, "slice", n);
    break;
  }
  default: {
    // Products may be large: only of small sets.
    if (a.model.size() * b.model.size() > 3000)
      return;
    bool app = g.chance(50);
    g.log << (app ? " append" : " prepend");
    if (app)
      check(g, a.real.append(b.real), product(a.model, b.model), w, "append", 2 * r);
    else
      check(g, a.real.prepend(b.real), product(b.model, a.model), w, "prepend", 2 * r);
    break;
  }
  }
}

std::vector<Bounds> overlappingBoxes(pbt::G &g, World &w, size_t maxCount) {
  std::vector<Bounds> v;
  size_t n = g.range(0, maxCount);
  for (size_t i = 0; i < n; ++i) {
    if (v.empty() || g.chance(60))
      v.push_back(g.chance(30) ? w.slab(g) : w.randomBox(g, 5));
    else {
      Bounds b = genRelated(g, g.pick(v));
      v.push_back(b);
    }
  }
  return v;
}

template <typename T>
std::string list(const std::vector<T> &v) {
  std::string s = "{";
  for (auto &x : v)
    s += str(x) + " ";
  return s + "}";
}

void step(pbt::G &g, std::vector<Entry> &pool, World &w, bool big) {
  size_t i = g.draw(pool.size());
  Entry &a = pool[i];
  Entry &b = pool[g.draw(pool.size())];
  size_t bi = &b - pool.data();
  g.log << "; S" << i;
  switch (g.weighted({8, 8, 7, 6, 6, 8, 5, 3, 3, 3, 7, 6, 6, 1, 3, 3})) {
  case 0: {
    Tuple p = w.randomPoint(g);
    g.log << "+=" << str(p);
    if (g.chance(50))
      a.real += point(p);
    else
      a.real = a.real + point(p);
    a.model.insert(p);
    break;
  }
  case 1: {
    Bounds x = g.chance(30) ? w.slab(g) : w.randomBox(g, 5);
    g.log << "+=" << str(x);
    if (g.chance(50))
      a.real += box(x);
    else
      a.real = a.real + box(x);
    addTuples(a.model, x);
    break;
  }
  case 2: {
    auto v = w.lattice(g, g.range(1, big ? 150 : 40));
    bool rev = g.chance(30);
    if (rev)
      std::reverse(v.begin(), v.end());
    g.log << "+=lattice(" << v.size() << " from " << str(v[0]) << " to " << str(v.back()) << ")";
    for (auto &x : v) {
      a.real += box(x);
      addTuples(a.model, x);
    }
    break;
  }
  case 3:
    g.log << "+=S" << bi;
    if (g.chance(50))
      a.real += b.real;
    else
      a.real = a.real + b.real;
    a.model = setUnion(a.model, b.model);
    break;
  case 4: {
    Tuple p = w.randomPoint(g);
    if (!a.model.empty() && g.chance(80)) {
      auto it = a.model.begin();
      std::advance(it, g.draw(a.model.size()));
      p = *it;
    }
    g.log << "-=" << str(p);
    if (g.chance(50))
      a.real -= point(p);
    else
      a.real = a.real - point(p);
    a.model.erase(p);
    break;
  }
  case 5: {
    Bounds x = g.chance(50) ? w.slab(g) : w.randomBox(g, 6);
    g.log << "-=" << str(x);
    if (g.chance(50))
      a.real -= box(x);
    else
      a.real = a.real - box(x);
    a.model = minus(a.model, tuples(x));
    break;
  }
  case 6:
    g.log << "-=S" << bi;
    if (g.chance(50))
      a.real -= b.real;
    else
      a.real = a.real - b.real;
    a.model = minus(a.model, Set(b.model));
    break;
  case 7: {
    Bounds x = w.slab(g);
    g.log << "=intersect" << str(x);
    a.real = a.real.intersect(box(x));
    a.model = inter(a.model, tuples(x));
    break;
  }
  case 8:
    g.log << "=intersect S" << bi;
    a.real = a.real.intersect(b.real);
    a.model = inter(a.model, Set(b.model));
    break;
  case 9: {
    Bounds x = g.chance(50) ? w.slab(g) : w.randomBox(g, 8);
    g.log << "=complement in " << str(x);
    a.real = a.real.complement(box(x));
    a.model = minus(tuples(x), a.model);
    break;
  }
  case 10: {
    g.log << "=S" << bi;
    if (g.chance(50)) {
      IndexSet copy(b.real);
      a.real = std::move(copy);
    } else {
      const Entry &cb = b;
      a.real = cb.real;
    }
    a.model = Set(b.model);
    break;
  }
  case 11: {
    auto v = g.chance(70) ? overlappingBoxes(g, w, big ? 60 : 8) : w.lattice(g, g.range(1, big ? 300 : 90));
    if (g.chance(30))
      std::reverse(v.begin(), v.end());
    g.log << "=ranges" << list(v);
    llvm::SmallVector<MultidimensionalRange> rs;
    a.model.clear();
    for (auto &x : v) {
      rs.push_back(box(x));
      addTuples(a.model, x);
    }
    if (g.chance(50))
      a.real.setFromRanges(rs);
    else
      a.real = IndexSet(llvm::ArrayRef<MultidimensionalRange>(rs));
    break;
  }
  case 12: {
    std::vector<Tuple> v;
    size_t n = g.range(0, big ? 200 : 30);
    for (size_t k = 0; k < n; ++k)
      v.push_back(w.randomPoint(g));
    g.log << "=points" << list(v);
    llvm::SmallVector<Point> ps;
    for (auto &x : v)
      ps.push_back(point(x));
    a.real = IndexSet(llvm::ArrayRef<Point>(ps));
    a.model = Set(v.begin(), v.end());
    break;
  }
  case 13:
    if (g.chance(50)) {
      g.log << " clear";
      a.real.clear();
    } else {
      g.log << "=emptyCopy";
      a.real = a.real.emptyCopy();
    }
    a.model.clear();
    break;
  case 14: {
    llvm::SmallVector<MultidimensionalRange> rs;
    g.log << "=compact";
    if (a.model.empty())
      break;
    a.real.getCompactRanges(rs);
    Set pts;
    size_t volume = 0;
    for (auto &r : rs) {
      addTuples(pts, bounds(r));
      volume += r.size();
    }
    PBT_REQUIRE(g, pts == a.model, "compact ranges hold " << str(pts));
    PBT_REQUIRE(g, volume == pts.size(), "compact ranges overlap");
    if (g.chance(50))
      a.real = IndexSet(llvm::ArrayRef<MultidimensionalRange>(rs));
    break;
  }
  case 15: {
    // Small trees: the same structure with few elements per node.
    static const std::pair<size_t, size_t> sizes[] = {{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 8}};
    auto s = sizes[g.draw(5)];
    g.log << "=tree(" << s.first << "," << s.second << ")";
    IndexSet n(s.first, s.second);
    for (auto it = b.real.rangesBegin(), e = b.real.rangesEnd(); it != e; ++it)
      n += *it;
    Set m = b.model;
    a.real = std::move(n);
    a.model = m;
    break;
  }
  }
}

void history(pbt::G &g, bool big) {
  World w = genWorld(g, big);
  g.log << "rank " << w.rank << " universe";
  for (size_t i = 0; i < w.rank; ++i)
    g.log << "[" << w.lo[i] << "," << w.hi[i] << ")";
  std::vector<Entry> pool(3);
  if (g.chance(50)) {
    // Start with trees of small nodes, so that few elements make deep trees.
    pool[0].real = IndexSet(1, 2);
    pool[1].real = IndexSet(2, 4);
    g.log << " small trees";
  }
  size_t n = g.range(1, big ? 10 : 16);
  size_t maxRanges = 0, removals = 0;
  for (size_t k = 0; k < n; ++k) {
    std::vector<size_t> before;
    for (auto &e : pool)
      before.push_back(e.model.size());
    step(g, pool, w, big);
    for (size_t i = 0; i < pool.size(); ++i) {
      check(g, pool[i].real, pool[i].model, w, "after the step");
      if (pool[i].model.size() < before[i] && !pool[i].model.empty())
        ++removals;
      size_t r = 0;
      for (auto it = pool[i].real.rangesBegin(), e = pool[i].real.rangesEnd(); it != e; ++it)
        ++r;
      maxRanges = std::max(maxRanges, r);
    }
    if (g.chance(60)) {
      Entry &a = pool[g.draw(3)], &b = pool[g.draw(3)];
      queries(g, a, b, w);
    }
    if (g.chance(20)) {
      Entry &a = pool[g.draw(3)], &b = pool[g.draw(3)];
      g.log << "; reshape S" << (&a - pool.data());
      reshape(g, a, b, w);
      check(g, a.real, a.model, w, "operand after reshaping");
    }
  }
  if (maxRanges >= 3 && removals)
    g.nontrivial();
  g.label(maxRanges <= 1 ? "<=1 range" : maxRanges <= 16 ? "2-16 ranges" : maxRanges <= 64 ? "17-64 ranges" : ">64 ranges");
}
} // namespace

PBT_PROP("C02", set_history, 60000, 3000000,
         "history of up to 16 operations on three sets of rank 1-3; non-trivial: some set had 3 or more "
         "ranges and a removal left a set non-empty") {
  history(g, false);
}

PBT_PROP("C02", large_set_history, 16000, 800000,
         "history of up to 10 operations on sets of up to some hundred ranges (trees of depth 2-4); "
         "non-trivial: as in set_history") {
  history(g, true);
}

PBT_PROP("C02", union_of_boxes, 150000, 10000000,
         "construction from up to 7 overlapping boxes in any order; non-trivial: some boxes overlap") {
  World w = genWorld(g, false);
  auto v = overlappingBoxes(g, w, 7);
  g.log << list(v);
  llvm::SmallVector<MultidimensionalRange> rs;
  Set m;
  size_t volume = 0;
  for (auto &x : v) {
    rs.push_back(box(x));
    Set t = tuples(x);
    volume += t.size();
    m.insert(t.begin(), t.end());
  }
  if (volume != m.size())
    g.nontrivial();
  check(g, IndexSet(llvm::ArrayRef<MultidimensionalRange>(rs)), m, w, "constructor");
  IndexSet inc;
  for (auto &r : rs)
    inc += r;
  check(g, inc, m, w, "insertion one by one");
  Set left = m;
  for (auto &x : v) {
    inc -= box(x);
    left = minus(left, tuples(x));
    check(g, inc, left, w, "removal one by one");
  }
}

namespace {
/// Builds a set with exactly the given points, in a random way.
IndexSet build(pbt::G &g, const Set &pts, World &w, int depth = 0) {
  std::vector<Tuple> v(pts.begin(), pts.end());
  switch (g.weighted({3, 3, 3, 3, 2, 2, 2})) {
  case 0: { // points in a random order
    g.log << " points";
    llvm::SmallVector<Point> ps;
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[g.draw(i)]);
    for (auto &t : v)
      ps.push_back(point(t));
    return IndexSet(llvm::ArrayRef<Point>(ps));
  }
  case 1: { // inserted one by one
    g.log << " inserted";
    IndexSet s;
    if (g.chance(50))
      s = IndexSet(1, 2);
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[g.draw(i)]);
    for (auto &t : v)
      s += point(t);
    return s;
  }
  case 2: { // maximal boxes grown from random points
    g.log << " boxes";
    llvm::SmallVector<MultidimensionalRange> rs;
    Set left = pts;
    while (!left.empty()) {
      auto it = left.begin();
      std::advance(it, g.draw(left.size()));
      Bounds b;
      for (auto x : *it)
        b.emplace_back(x, x + 1);
      for (int tries = 0; tries < 8; ++tries) {
        Bounds c = b;
        auto &d = c[g.draw(c.size())];
        if (g.chance(50))
          d.first -= 1;
        else
          d.second += 1;
        bool in = true;
        for (auto &t : tuples(c))
          in &= pts.count(t) != 0;
        if (in)
          b = c;
      }
      rs.push_back(box(b));
      left = minus(left, tuples(b));
    }
    if (g.chance(50))
      return IndexSet(llvm::ArrayRef<MultidimensionalRange>(rs));
    IndexSet s;
    for (auto &r : rs)
      s += r;
    return s;
  }
  case 3: { // a larger set with boxes removed
    g.log << " removed";
    IndexSet s;
    Bounds u;
    for (size_t i = 0; i < w.rank; ++i)
      u.emplace_back(w.lo[i] - 1, w.hi[i] + 1);
    s += box(u);
    for (auto &t : minus(tuples(u), pts))
      s -= point(t);
    return s;
  }
  case 4: { // union of two parts
    if (depth > 1 || v.size() < 2)
      return build(g, pts, w, depth + 1);
    Set a, b;
    for (auto &t : v)
      switch (g.draw(3)) {
      case 0: a.insert(t); break;
      case 1: b.insert(t); break;
      default: a.insert(t); b.insert(t);
      }
    g.log << " union(";
    IndexSet x = build(g, a, w, depth + 1), y = build(g, b, w, depth + 1);
    g.log << ")";
    return x + y;
  }
  case 5: { // double complement
    Bounds u;
    for (size_t i = 0; i < w.rank; ++i)
      u.emplace_back(w.lo[i], w.hi[i]);
    if (depth > 1)
      return build(g, pts, w, depth);
    g.log << " complement(";
    Set c = minus(tuples(u), pts);
    IndexSet x = build(g, c, w, 2);
    g.log << ")";
    // An empty set has a complement in any box.
    if (c.empty())
      return IndexSet(box(u));
    return x.complement(box(u));
  }
  default: { // compacted
    if (depth > 1 || v.empty())
      return build(g, pts, w, 2);
    g.log << " compact(";
    IndexSet x = build(g, pts, w, depth + 1);
    g.log << ")";
    llvm::SmallVector<MultidimensionalRange> rs;
    x.getCompactRanges(rs);
    return IndexSet(llvm::ArrayRef<MultidimensionalRange>(rs));
  }
  }
}

int sgn(int x) { return (x > 0) - (x < 0); }
} // namespace

PBT_PROP("C03", identity, 40000, 3000000,
         "a set of points of rank 1-3 built in two random ways, and a set that differs in one point; "
         "non-trivial: the two builds have different ranges") {
  World w;
  w.rank = 1 + g.weighted({2, 4, 2});
  static const int64_t side[] = {0, 24, 6, 4};
  for (size_t i = 0; i < w.rank; ++i) {
    w.lo.push_back(0);
    w.hi.push_back(side[w.rank]);
  }
  Set pts;
  size_t nb = g.range(0, 6);
  for (size_t i = 0; i < nb; ++i) {
    Bounds b = w.randomBox(g, 4);
    if (g.chance(25))
      pts = minus(pts, tuples(b));
    else
      addTuples(pts, b);
  }
  g.log << str(pts, 200) << " by";
  auto buildDepth0 = [&](const Set &p) {
    IndexSet s = build(g, p, w);
    return s;
  };
  IndexSet a = buildDepth0(pts);
  g.log << " and by";
  IndexSet b = buildDepth0(pts);
  check(g, a, pts, w, "first");
  check(g, b, pts, w, "second");
  if (str(a) != str(b))
    g.nontrivial();
  PBT_REQUIRE(g, a == b && b == a, "equality of " << str(a) << " and " << str(b));
  PBT_REQUIRE(g, !(a != b) && !(b != a), "inequality");
  PBT_REQUIRE(g, hash_value(a) == hash_value(b), "hash");
  PBT_REQUIRE(g, llvm::DenseMapInfo<IndexSet>::getHashValue(a) == llvm::DenseMapInfo<IndexSet>::getHashValue(b), "map hash");
  PBT_REQUIRE(g, llvm::DenseMapInfo<IndexSet>::isEqual(a, b), "map equality");
  PBT_REQUIRE(g, a.contains(b) && b.contains(a), "mutual containment");
  PBT_REQUIRE(g, a.compare(a) == 0 && b.compare(b) == 0, "comparison with itself");
  PBT_REQUIRE(g, sgn(a.compare(b)) == -sgn(b.compare(a)), "comparison exchanged");
  IndexSet c(a);
  PBT_REQUIRE(g, c == a && c.compare(a) == 0 && str(c) == str(a), "copy");
  check(g, c, pts, w, "copy");
  c = b;
  PBT_REQUIRE(g, c == b && c.compare(b) == 0 && str(c) == str(b), "assigned copy");
  // Compaction keeps the points.
  if (!pts.empty()) {
    llvm::SmallVector<MultidimensionalRange> rs;
    a.getCompactRanges(rs);
    IndexSet d{llvm::ArrayRef<MultidimensionalRange>(rs)};
    check(g, d, pts, w, "compacted");
    PBT_REQUIRE(g, d == a && d == b, "compacted equality");
    PBT_REQUIRE(g, hash_value(d) == hash_value(a), "compacted hash");
  }
  // A set that differs.
  Tuple p = w.randomPoint(g);
  Set other = pts;
  if (!other.erase(p))
    other.insert(p);
  g.log << " and " << (other.count(p) ? "with " : "without ") << str(p) << " by";
  IndexSet d = build(g, other, w);
  check(g, d, other, w, "third");
  PBT_REQUIRE(g, a != d && d != a && !(a == d) && !(d == a), "equality of different sets");
  PBT_REQUIRE(g, a.contains(d) == subset(other, pts), "containment of the third");
  PBT_REQUIRE(g, d.contains(a) == subset(pts, other), "containment in the third");
  PBT_REQUIRE(g, a.compare(d) != 0 && d.compare(a) != 0, "comparison of different sets");
  PBT_REQUIRE(g, sgn(a.compare(d)) == -sgn(d.compare(a)), "comparison exchanged");
  // Transitivity among three.
  std::vector<const IndexSet *> v = {&a, &b, &d};
  for (auto *x : v)
    for (auto *y : v)
      for (auto *z : v)
        if (x->compare(*y) < 0 && y->compare(*z) < 0)
          PBT_REQUIRE(g, x->compare(*z) < 0, "transitivity");
}
