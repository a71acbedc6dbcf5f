// C01: intervals, boxes and points against enumerated sets of tuples.
#include "modeling_util.h"
#include "llvm/ADT/SmallBitVector.h"

using namespace mu;

namespace {
int sign(int x) { return x < 0 ? -1 : (x > 0 ? 1 : 0); }

Set inter(const Set &a, const Set &b) {
  Set r;
  for (auto &x : a)
    if (b.count(x))
      r.insert(x);
  return r;
}

Set minus(const Set &a, const Set &b) {
  Set r;
  for (auto &x : a)
    if (!b.count(x))
      r.insert(x);
  return r;
}

bool subset(const Set &a, const Set &b) {
  for (auto &x : a)
    if (!b.count(x))
      return false;
  return true;
}

Bounds shifted(Bounds b, int64_t by) {
  for (auto &x : b) {
    x.first += by;
    x.second += by;
  }
  return b;
}

int64_t genOrigin(pbt::G &g) {
  switch (g.weighted({6, 1, 1, 1})) {
  case 0: return 0;
  case 1: return g.around(-50, 50);
  case 2: return (int64_t(1) << g.range(20, 61));
  default: return -(int64_t(1) << g.range(20, 61));
  }
}

std::string relation(const Set &a, const Set &b) {
  if (a == b)
    return "equal";
  Set i = inter(a, b);
  if (i.empty())
    return "disjoint";
  if (i == a || i == b)
    return "nested";
  return "partial overlap";
}
} // namespace

PBT_PROP("C01", interval_algebra, 600000, 20000000,
         "two intervals of at most 8 values, near each other, at the origin or "
         "at +-2^20..2^61; non-trivial: the intervals are not equal") {
  int64_t o = genOrigin(g);
  Bounds ba = shifted(genBox(g, 1, -4, 6, 6), o);
  Bounds bb = genRelated(g, ba);
  g.log << "a=" << str(ba) << " b=" << str(bb);
  Range a(ba[0].first, ba[0].second), b(bb[0].first, bb[0].second);
  Set sa = tuples(ba), sb = tuples(bb), si = inter(sa, sb), sd = minus(sa, sb);
  if (ba != bb)
    g.nontrivial();
  g.label(relation(sa, sb));

  PBT_REQUIRE(g, a.size() == sa.size(), a.size());
  PBT_REQUIRE(g, (a == b) == (sa == sb), "equality");
  PBT_REQUIRE(g, (a != b) == (sa != sb), "inequality");
  PBT_REQUIRE(g, a.contains(b) == subset(sb, sa), a.contains(b));
  PBT_REQUIRE(g, a.overlaps(b) == !si.empty(), a.overlaps(b));
  PBT_REQUIRE(g, b.overlaps(a) == !si.empty(), b.overlaps(a));
  if (a == b)
    PBT_REQUIRE(g, hash_value(a) == hash_value(b), "hash of equal intervals");

  // Comparison of values around the interval.
  for (int64_t v = ba[0].first - 2; v <= ba[0].second + 1; ++v) {
    PBT_REQUIRE(g, a.contains(v) == (sa.count({v}) == 1), v);
    bool eq = sa.size() == 1 && sa.count({v});
    PBT_REQUIRE(g, (a == v) == eq, v);
    PBT_REQUIRE(g, (a != v) == !eq, v);
  }

  // Enumeration.
  std::vector<int64_t> seen;
  for (auto v : a)
    seen.push_back(v);
  PBT_REQUIRE(g, seen.size() == sa.size(), "enumeration length");
  for (size_t i = 0; i < seen.size(); ++i)
    PBT_REQUIRE(g, seen[i] == ba[0].first + (int64_t)i, "enumeration");
  auto it = a.begin();
  auto it2 = it++;
  PBT_REQUIRE(g, *it2 == ba[0].first, "post-increment");

  if (!si.empty()) {
    Range r = a.intersect(b);
    PBT_REQUIRE(g, tuples(Bounds{{r.getBegin(), r.getEnd()}}) == si, str(r));
  }
  // Union is an interval iff there is no gap.
  Set su = sa;
  su.insert(sb.begin(), sb.end());
  bool contiguous =
      (uint64_t)((*su.rbegin())[0] - (*su.begin())[0]) + 1 == su.size();
  PBT_REQUIRE(g, a.canBeMerged(b) == contiguous, a.canBeMerged(b));
  if (contiguous) {
    Range m = a.merge(b);
    PBT_REQUIRE(g, tuples(Bounds{{m.getBegin(), m.getEnd()}}) == su, str(m));
  }
  // Difference: disjoint well-formed pieces.
  Set got;
  size_t n = 0;
  for (const Range &r : a.subtract(b)) {
    PBT_REQUIRE(g, r.getBegin() < r.getEnd(), str(r));
    n += r.getEnd() - r.getBegin();
    addTuples(got, {{r.getBegin(), r.getEnd()}});
  }
  PBT_REQUIRE(g, got == sd && n == sd.size(), str(got));

  // Order.
  int c = a.compare(b);
  PBT_REQUIRE(g, sign(c) == -sign(b.compare(a)), "antisymmetry");
  PBT_REQUIRE(g, (c == 0) == (a == b), "order consistent with equality");
  PBT_REQUIRE(g, (a < b) == (c < 0), "less");
  PBT_REQUIRE(g, (a > b) == (c > 0), "greater");
  Bounds bc = genRelated(g, bb);
  Range cc(bc[0].first, bc[0].second);
  if (a.compare(b) <= 0 && b.compare(cc) <= 0)
    PBT_REQUIRE(g, a.compare(cc) <= 0, "transitivity with " << str(bc));
}

PBT_PROP("C01", box_algebra, 300000, 10000000,
         "two boxes of equal rank 1..4, each dimension equal, nested, touching, "
         "shifted or disjoint; non-trivial: rank > 1 and the boxes differ") {
  size_t rank = 1 + g.weighted({2, 4, 3, 1});
  int64_t o = genOrigin(g);
  int64_t len = rank <= 2 ? 6 : (rank == 3 ? 4 : 3);
  Bounds ba = shifted(genBox(g, rank, -3, 5, len), o);
  Bounds bb = genRelated(g, ba, len);
  g.log << "a=" << str(ba) << " b=" << str(bb);
  MultidimensionalRange a = box(ba), b = box(bb);
  Set sa = tuples(ba), sb = tuples(bb), si = inter(sa, sb), sd = minus(sa, sb);
  if (rank > 1 && ba != bb)
    g.nontrivial();
  g.label("rank " + std::to_string(rank));
  g.label(relation(sa, sb));

  PBT_REQUIRE(g, a.rank() == rank, a.rank());
  PBT_REQUIRE(g, a.size() == sa.size(), a.size());
  llvm::SmallVector<size_t> sizes;
  a.getSizes(sizes);
  PBT_REQUIRE(g, sizes.size() == rank, "sizes");
  for (size_t i = 0; i < rank; ++i)
    PBT_REQUIRE(g, (int64_t)sizes[i] == ba[i].second - ba[i].first, i);
  PBT_REQUIRE(g, (a == b) == (sa == sb), "equality");
  PBT_REQUIRE(g, (a != b) == (sa != sb), "inequality");
  PBT_REQUIRE(g, a.contains(b) == subset(sb, sa), a.contains(b));
  PBT_REQUIRE(g, b.contains(a) == subset(sa, sb), b.contains(a));
  PBT_REQUIRE(g, a.overlaps(b) == !si.empty(), a.overlaps(b));
  PBT_REQUIRE(g, b.overlaps(a) == !si.empty(), b.overlaps(a));
  bool any = false;
  for (size_t i = 0; i < rank; ++i)
    any |= ba[i].first < bb[i].second && bb[i].first < ba[i].second;
  PBT_REQUIRE(g, a.anyDimensionOverlaps(b) == any, any);
  if (a == b)
    PBT_REQUIRE(g, hash_value(a) == hash_value(b), "hash of equal boxes");

  // Membership of every tuple of both, and of neighbours.
  Set probes = sa;
  probes.insert(sb.begin(), sb.end());
  for (auto &t : probes)
    PBT_REQUIRE(g, a.contains(point(t)) == (sa.count(t) == 1), str(t));
  Tuple t0 = *sa.begin();
  for (size_t i = 0; i < rank; ++i) {
    for (int64_t d : {int64_t(-1), ba[i].second - ba[i].first}) {
      Tuple t = t0;
      t[i] += d;
      PBT_REQUIRE(g, !a.contains(point(t)), str(t));
    }
  }
  for (const Tuple &t : {t0, *sa.rbegin(), *sb.begin()}) {
    bool eq = sa.size() == 1 && sa.count(t);
    PBT_REQUIRE(g, (a == point(t)) == eq, str(t));
    PBT_REQUIRE(g, (a != point(t)) == !eq, str(t));
  }
  MultidimensionalRange single{point(t0)};
  PBT_REQUIRE(g, tuples(single) == Set{t0}, str(single));
  PBT_REQUIRE(g, single == point(t0) && !(single != point(t0)), "point box");

  // Enumeration: every tuple once, in lexicographic order.
  std::vector<Tuple> seen;
  for (auto it = a.begin(), e = a.end(); it != e; ++it) {
    seen.push_back(tuple(*it));
    if (seen.size() > sa.size())
      break;
  }
  PBT_REQUIRE(g, seen == std::vector<Tuple>(sa.begin(), sa.end()),
              "enumeration of " << seen.size() << " tuples");

  if (!si.empty()) {
    MultidimensionalRange r = a.intersect(b);
    PBT_REQUIRE(g, tuples(r) == si, str(r));
  }
  Set got;
  size_t n = 0;
  for (const MultidimensionalRange &r : a.subtract(b)) {
    PBT_REQUIRE(g, r.rank() == rank, "rank of a piece");
    for (unsigned i = 0; i < rank; ++i)
      PBT_REQUIRE(g, r[i].getBegin() < r[i].getEnd(), str(r));
    Set p = tuples(r);
    n += p.size();
    got.insert(p.begin(), p.end());
  }
  PBT_REQUIRE(g, got == sd && n == sd.size(), "difference " << str(got));

  // Merging: allowed exactly for two different boxes whose union is a box
  // that extends them along one dimension only.
  auto merge = a.canBeMerged(b);
  size_t differing = 0, dim = 0;
  for (size_t i = 0; i < rank; ++i)
    if (ba[i] != bb[i]) {
      ++differing;
      dim = i;
    }
  bool mergeable = differing == 1 && ba[dim].first <= bb[dim].second &&
                   bb[dim].first <= ba[dim].second;
  if (ba != bb)
    PBT_REQUIRE(g, merge.first == mergeable, merge.first);
  if (merge.first) {
    MultidimensionalRange m = a.merge(b, merge.second);
    Set su = sa;
    su.insert(sb.begin(), sb.end());
    PBT_REQUIRE(g, tuples(m) == su, str(m));
  }

  // Order.
  int c = a.compare(b);
  PBT_REQUIRE(g, sign(c) == -sign(b.compare(a)), "antisymmetry");
  PBT_REQUIRE(g, (c == 0) == (a == b), "order consistent with equality");
  PBT_REQUIRE(g, (a < b) == (c < 0) && (a > b) == (c > 0), "less / greater");
  Bounds bc = genRelated(g, bb, len);
  MultidimensionalRange cc = box(bc);
  if (a.compare(b) <= 0 && b.compare(cc) <= 0)
    PBT_REQUIRE(g, a.compare(cc) <= 0, "transitivity with " << str(bc));
}

PBT_PROP("C01", box_reshaping, 200000, 5000000,
         "slices, projections and concatenations of boxes of rank 1..5; "
         "non-trivial: rank > 1") {
  size_t rank = 1 + g.draw(5);
  Bounds ba = shifted(genBox(g, rank, -5, 8, 6), genOrigin(g));
  Bounds bb = genBox(g, 1 + g.draw(3), -5, 8, 6);
  size_t n = 1 + g.draw(rank);
  llvm::BitVector filter(rank);
  llvm::SmallBitVector small(rank);
  size_t bits = 0;
  for (size_t i = 0; i < rank; ++i)
    if (g.chance(50)) {
      filter.set(i);
      small.set(i);
      ++bits;
    }
  if (!bits) {
    filter.set(0);
    small.set(0);
  }
  g.log << "a=" << str(ba) << " b=" << str(bb) << " n=" << n << " filter=";
  for (size_t i = 0; i < rank; ++i)
    g.log << filter[i];
  if (rank > 1)
    g.nontrivial();
  MultidimensionalRange a = box(ba), b = box(bb);
  auto sub = [&](size_t from, size_t to) {
    return Bounds(ba.begin() + from, ba.begin() + to);
  };
  Bounds filtered;
  for (size_t i = 0; i < rank; ++i)
    if (filter[i])
      filtered.push_back(ba[i]);
  PBT_REQUIRE(g, bounds(a.slice(n)) == sub(0, n), "slice");
  PBT_REQUIRE(g, bounds(a.slice(filter)) == filtered, "filtered slice");
  PBT_REQUIRE(g, bounds(a.takeDimensions(small)) == filtered, "take");
  PBT_REQUIRE(g, bounds(a.takeFirstDimensions(n)) == sub(0, n), "first");
  PBT_REQUIRE(g, bounds(a.takeLastDimensions(n)) == sub(rank - n, rank), "last");
  if (n < rank) {
    PBT_REQUIRE(g, bounds(a.dropFirstDimensions(n)) == sub(n, rank), "drop");
    PBT_REQUIRE(g, bounds(a.dropLastDimensions(n)) == sub(0, rank - n), "drop");
  }
  Bounds ab = ba, baa = bb;
  ab.insert(ab.end(), bb.begin(), bb.end());
  baa.insert(baa.end(), ba.begin(), ba.end());
  PBT_REQUIRE(g, bounds(a.append(b)) == ab, str(a.append(b)));
  PBT_REQUIRE(g, bounds(a.prepend(b)) == baa, str(a.prepend(b)));
  // Subscript access is a reference to the dimension.
  size_t d = g.draw(rank);
  MultidimensionalRange copy = a;
  copy[d] = Range(100, 103);
  Bounds changed = ba;
  changed[d] = {100, 103};
  PBT_REQUIRE(g, bounds(copy) == changed && bounds(a) == ba, "assignment");
}

PBT_PROP("C01", point_algebra, 200000, 5000000,
         "two points of rank 1..5 that share a prefix; non-trivial: rank > 1") {
  size_t rank = 1 + g.draw(5);
  Tuple a, b;
  for (size_t i = 0; i < rank; ++i) {
    a.push_back(g.around(-5, 5) * (g.chance(5) ? (int64_t(1) << 40) : 1));
    b.push_back(g.chance(60) ? a[i] : g.around(-5, 5));
  }
  if (g.chance(10))
    b.push_back(g.around(-5, 5));
  size_t n = g.draw(rank + 1);
  g.log << "a=" << str(a) << " b=" << str(b) << " n=" << n;
  if (rank > 1)
    g.nontrivial();
  Point pa = point(a), pb = point(b);
  PBT_REQUIRE(g, pa.rank() == rank && tuple(pa) == a, str(pa));
  for (size_t i = 0; i < rank; ++i)
    PBT_REQUIRE(g, pa[i] == a[i], i);
  PBT_REQUIRE(g, (pa == pb) == (a == b) && (pa != pb) == (a != b), "equality");
  if (a == b)
    PBT_REQUIRE(g, hash_value(pa) == hash_value(pb), "hash");
  int c = pa.compare(pb);
  PBT_REQUIRE(g, (c == 0) == (a == b), "compare");
  PBT_REQUIRE(g, sign(c) == -sign(pb.compare(pa)), "antisymmetry");
  PBT_REQUIRE(g, (pa < pb) == (c < 0), "less");
  if (a.size() == b.size())
    PBT_REQUIRE(g, sign(c) == (a < b ? -1 : (a == b ? 0 : 1)), "lexicographic");
  Tuple ab = a;
  ab.insert(ab.end(), b.begin(), b.end());
  PBT_REQUIRE(g, tuple(pa.append(pb)) == ab, "append");
  PBT_REQUIRE(g, tuple(pa.takeFront(n)) == Tuple(a.begin(), a.begin() + n), n);
  PBT_REQUIRE(g, tuple(pa.takeBack(n)) == Tuple(a.end() - n, a.end()), n);
  llvm::BitVector filter(rank);
  Tuple f;
  for (size_t i = 0; i < rank; ++i)
    if (g.chance(50)) {
      filter.set(i);
      f.push_back(a[i]);
    }
  PBT_REQUIRE(g, tuple(pa.slice(filter)) == f, "slice");
}
