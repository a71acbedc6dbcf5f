// C05, C06, C07: access functions against an evaluator of the expressions they
// were built from.
#include "access_util.h"

using namespace au;

namespace {
void check(pbt::G &g, const std::string &what, const IndexSet &got,
           const Set &want) {
  Set have = enumerate(got);
  PBT_REQUIRE(g, have == want,
              what << ": got " << str(have) << " instead of " << str(want));
}

const char *kindName(const AccessFunction &f) {
  switch (f.getKind()) {
  case AccessFunction::Kind::Generic:
    return "kind generic";
  case AccessFunction::Kind::Constant:
    return "kind constant";
  case AccessFunction::Kind::Affine_Constant:
    return "kind affine constant";
  case AccessFunction::Kind::Empty:
    return "kind empty";
  case AccessFunction::Kind::RotoTranslation:
    return "kind rototranslation";
  default:
    return "kind other";
  }
}

void checkPredicates(pbt::G &g, const std::string &way, const Fn &f,
                     const AccessFunction &a, const std::vector<Tuple> &pts) {
  PBT_REQUIRE(g, a.getNumOfDims() == f.dims, way << ": dims");
  PBT_REQUIRE(g, a.getNumOfResults() == f.res.size(), way << ": results");
  if (a.isConstant())
    for (auto &p : pts)
      PBT_REQUIRE(g, f.image(p) == f.image(pts[0]),
                  way << ": reported constant, but maps " << str(p)
                      << " and " << str(pts[0]) << " differently");
  if (a.isIdentity())
    for (auto &p : pts)
      PBT_REQUIRE(g, f.image(p) == Set{Tuple(p.begin(), p.begin() + f.dims)},
                  way << ": reported identity");
  if (a.isAffine()) {
    PBT_REQUIRE(g, f.single() || f.image(pts[0]).size() == 1,
                way << ": reported affine");
    mlir::AffineMap m = a.getAffineMap();
    PBT_REQUIRE(g, m.getNumDims() == f.dims && m.getNumResults() == f.res.size(),
                way << ": affine map shape");
    for (auto &p : pts) {
      auto r = m.compose(llvm::ArrayRef<int64_t>(p).take_front(f.dims));
      PBT_REQUIRE(g, (f.image(p) == Set{Tuple(r.begin(), r.end())}),
                  way << ": affine map at " << str(p));
    }
  }
}
} // namespace

PBT_PROP("C05", map_points_and_sets, 60000, 1500000,
         "at least one result is not a constant, and the set has more than one point") {
  Opts o;
  o.ranges = g.chance(50);
  o.onlyRoto = !o.ranges && g.chance(40);
  Fn f = genFn(g, o, 0, 3, 1, 3);
  size_t extra = f.dims && g.chance(10) ? 1 : 0;
  g.log << f.text();
  std::vector<Tuple> pts;
  for (int i = 0; i < 3; ++i)
    pts.push_back(genPoint(g, f.dims + extra));
  IndexSet real;
  std::string text;
  Set s;
  if (f.dims + extra)
    s = genSet(g, f.dims + extra, real, text);
  g.log << " set" << text << "\n";
  bool varies = false;
  for (auto &e : f.res)
    varies |= e->k != E::Const;
  if (varies && s.size() > 1)
    g.nontrivial();

  for (auto &[way, a] : f.all()) {
    if (way == "build")
      g.label(kindName(*a));
    for (auto &p : pts)
      check(g, way + ".map" + str(p), a->map(point(p)), f.image(p));
    if (f.dims) {
      check(g, way + ".map(set)", a->map(real), f.image(s));
      check(g, way + ".map(empty)", a->map(IndexSet()), {});
      if (a->getKind() == AccessFunction::Kind::RotoTranslation) {
        // The image of a box, when the function maps boxes to boxes.
        auto *rt = a->cast<AccessFunctionRotoTranslation>();
        llvm::SmallVector<size_t> usages;
        rt->countVariablesUsages(usages);
        bool once = true;
        for (size_t u : usages)
          once &= u <= 1;
        if (once) {
          MultidimensionalRange b = *real.rangesBegin();
          PBT_REQUIRE(g, tuples(rt->map(b)) == f.image(tuples(b)),
                      "box image of " << str(b));
        }
      }
    }
    checkPredicates(g, way, f, *a, pts);
  }
}

PBT_PROP("C06", composition, 60000, 1500000,
         "both functions have a non-constant result") {
  // The first function; the second one takes as many dimensions as (or fewer
  // than) the first one has results.
  Opts o1, o2;
  o1.ranges = g.chance(30);
  o2.ranges = g.chance(40);
  Fn a = genFn(g, o1, 0, 3, 1, 3);
  Fn b = genFn(g, o2, 0, a.res.size(), 1, 3);
  g.log << a.text() << " then " << b.text() << "\n";
  bool va = false, vb = false;
  for (auto &e : a.res)
    va |= e->k != E::Const;
  for (auto &e : b.res)
    vb |= e->k != E::Const;
  if (va && vb)
    g.nontrivial();
  std::vector<Tuple> pts;
  for (int i = 0; i < 3; ++i)
    pts.push_back(genPoint(g, a.dims));
  auto as = a.all();
  auto bs = b.all();
  g.label(a.single() ? "first single-valued" : "first set-valued");
  g.label(b.single() ? "second single-valued" : "second set-valued");

  // Exact unless a set-valued result is used more than once.
  std::vector<int> uses(a.res.size(), 0);
  std::function<void(const P &)> count = [&](const P &e) {
    if (e->k == E::Dim)
      ++uses[e->c];
    if (e->a)
      count(e->a), count(e->b);
  };
  for (auto &e : b.res)
    count(e);
  bool exact = true;
  std::set<size_t> corr;
  for (size_t i = 0; i < uses.size(); ++i)
    exact &= uses[i] <= 1 || affine(a.res[i]);

  auto &ca = as[g.draw(as.size())];
  auto &cb = bs[g.draw(bs.size())];
  auto c = ca.second->combine(*cb.second);
  PBT_REQUIRE(g, c != nullptr, "no composition");
  PBT_REQUIRE(g, c->getNumOfResults() == b.res.size(),
              ca.first << " * " << cb.first << ": " << c->getNumOfResults() << " results");
  PBT_REQUIRE(g, c->getNumOfDims() == a.dims,
              ca.first << " * " << cb.first << ": " << c->getNumOfDims() << " dims");
  for (auto &p : pts) {
    Set want = b.image(a.image(p));
    Set got = enumerate(c->map(point(p)));
    bool ok = exact ? got == want
                    : std::includes(got.begin(), got.end(), want.begin(),
                                    want.end());
    PBT_REQUIRE(g, ok, ca.first << " * " << cb.first << " = " << str(*c)
                                << " at " << str(p) << ": " << str(got)
                                << " instead of " << str(want));
    // The same through the library's own map.
    if (exact) {
      Set lib = enumerate(cb.second->map(ca.second->map(point(p))));
      PBT_REQUIRE(g, lib == got, ca.first << " then " << cb.first);
    }
  }
}

PBT_PROP("C06", copies_and_equality, 60000, 1500000,
         "the two functions are different expressions of the same shape") {
  Opts o;
  o.ranges = g.chance(50);
  o.onlyRoto = g.chance(30);
  Fn a = genFn(g, o, 0, 3, 0, 3);
  // A second function, close to the first one.
  Fn b = a;
  if (!b.res.empty()) {
    switch (g.weighted({3, 1, 1, 1, 1})) {
    case 0: {
      size_t i = g.draw(b.res.size());
      b.res[i] = genResult(g, b, o);
      break;
    }
    case 1:
      b.res.pop_back();
      break;
    case 2:
      if (b.res.size() > 1)
        std::swap(b.res[0], b.res[1]);
      break;
    case 3:
      b.res.push_back(genResult(g, b, o));
      break;
    default: {
      // The same function, written differently.
      size_t i = g.draw(b.res.size());
      b.res[i] = mk2(E::Add, b.res[i], mk(E::Const, g.around(-1, 1)));
      break;
    }
    }
  }
  if (g.chance(15))
    b.dims += 1;
  if (!b.spaces.empty() && g.chance(30))
    b.spaces[0].correlated = !b.spaces[0].correlated;
  g.log << a.text() << " and " << b.text() << "\n";
  if (a.text() != b.text() && a.res.size() == b.res.size())
    g.nontrivial();
  unsigned dims = std::max(a.dims, b.dims);
  std::vector<Tuple> pts;
  for (int i = 0; i < 4; ++i)
    pts.push_back(genPoint(g, dims));
  auto cut = [](const Tuple &p, unsigned n) {
    return Tuple(p.begin(), p.begin() + n);
  };
  auto as = a.all();
  auto bs = b.all();
  for (auto &[way, f] : as) {
    auto c = f->clone();
    PBT_REQUIRE(g, *c == *f && !(*c != *f), way << ": clone differs");
    PBT_REQUIRE(g, c->getKind() == f->getKind(), way << ": kind of the clone");
    if (!a.res.empty()) {
      for (auto &p : pts) {
        Point q = point(cut(p, a.dims));
        check(g, way + " clone", c->map(q), a.image(cut(p, a.dims)));
      }
      if (dims) {
        // More dimensions: the additional coordinates do not matter.
        auto w = f->getWithGivenDimensions(a.dims + 1);
        PBT_REQUIRE(g, w->getNumOfDims() == a.dims + 1, way << ": given dimensions");
        Tuple p = cut(pts[0], a.dims);
        Set want = a.image(p);
        p.push_back(3);
        check(g, way + " with more dimensions", w->map(point(p)), want);
      }
    }
    // The accesses and the general form of the function.
    auto acc = f->getGeneralizedAccesses();
    PBT_REQUIRE(g, acc.size() == a.res.size(), way << ": accesses");
    AccessFunctionGeneric gen(&ctx(), a.dims, acc);
    if (!a.res.empty())
      check(g, way + " accesses", gen.map(point(cut(pts[0], a.dims))),
            a.image(cut(pts[0], a.dims)));
    for (size_t i = 0; i < acc.size(); ++i) {
      auto ac = acc[i]->clone();
      PBT_REQUIRE(g, *ac == *acc[i] && !(*ac != *acc[i]),
                  way << ": clone of access " << i);
    }
  }
  size_t equal = 0;
  for (auto &[wa, fa] : as)
    for (auto &[wb, fb] : bs) {
      bool e = *fa == *fb;
      PBT_REQUIRE(g, e == (*fb == *fa), wa << " = " << wb << ": not symmetric");
      PBT_REQUIRE(g, e != (*fa != *fb), wa << " = " << wb << ": both or neither");
      if (!e)
        continue;
      ++equal;
      PBT_REQUIRE(g, a.res.size() == b.res.size() && a.dims == b.dims,
                  wa << " = " << wb << ": equal but of different shape");
      if (!a.res.empty())
        for (auto &p : pts)
          PBT_REQUIRE(g, a.image(cut(p, a.dims)) == b.image(cut(p, b.dims)),
                      wa << " = " << wb << ": equal but different at " << str(p));
    }
  if (equal)
    g.label("some equal");
}

PBT_PROP("C07", inverse_function, 40000, 1000000,
         "the function is reported invertible and is not the identity") {
  Opts o;
  o.ranges = g.chance(10);
  o.onlyRoto = g.chance(50);
  o.permutations = 60;
  Fn f = genFn(g, o, 0, 4, 0, 4);
  g.log << f.text() << "\n";
  std::vector<Tuple> pts;
  for (int i = 0; i < 3; ++i)
    pts.push_back(genPoint(g, f.dims));
  for (auto &[way, a] : f.all()) {
    auto inv = a->inverse();
    if (!a->isInvertible())
      PBT_REQUIRE(g, !inv, way << ": inverse of a function which has none");
    if (!inv)
      continue;
    g.label(kindName(*a));
    if (!a->isIdentity() && f.dims)
      g.nontrivial();
    auto id1 = a->combine(*inv);
    auto id2 = inv->combine(*a);
    for (auto &p : pts) {
      if (!f.dims)
        continue;
      check(g, way + ": inverse(f(p))", inv->map(a->map(point(p))), {p});
      check(g, way + ": f(inverse(p))", a->map(inv->map(point(p))), {p});
      check(g, way + ": f * inverse", id1->map(point(p)), {p});
      check(g, way + ": inverse * f", id2->map(point(p)), {p});
    }
  }
}

PBT_PROP("C07", inverse_image, 60000, 1500000,
         "some but not all iterations hit the accessed set") {
  Opts o;
  o.ranges = g.chance(20);
  o.onlyRoto = !o.ranges && g.chance(70);
  Fn f = genFn(g, o, 1, 3, 1, 3);
  IndexSet parent;
  std::string text;
  Set parentPts = genSet(g, f.dims, parent, text);
  g.log << f.text() << " parent" << text;
  // Accessed elements: part of the image, and others near it.
  Set image = f.image(parentPts);
  std::vector<Tuple> img(image.begin(), image.end());
  Set acc;
  IndexSet accessed;
  size_t n = g.range(0, 3);
  g.log << " accessed";
  for (size_t i = 0; i < n; ++i) {
    Tuple at = g.chance(90) ? img[g.draw(img.size())]
                            : genPoint(g, f.res.size());
    Bounds b;
    for (int64_t x : at) {
      int64_t lo = x - (g.chance(30) ? g.range(0, 2) : 0);
      b.emplace_back(lo, x + 1 + (g.chance(40) ? g.range(0, 3) : 0));
    }
    addTuples(acc, b);
    accessed += box(b);
    g.log << " " << str(b);
  }
  g.log << "\n";
  Set hits;
  for (auto &p : parentPts)
    for (auto &q : f.image(p))
      if (acc.count(q)) {
        hits.insert(p);
        break;
      }
  if (!hits.empty() && hits.size() < parentPts.size())
    g.nontrivial();
  for (auto &[way, a] : f.all()) {
    if (way == "build")
      g.label(kindName(*a));
    Set got = enumerate(a->inverseMap(accessed, parent));
    for (auto &p : got) {
      PBT_REQUIRE(g, p.size() == f.dims, way << ": rank of " << str(p));
      bool hit = false;
      for (auto &q : f.image(p))
        hit |= acc.count(q) > 0;
      PBT_REQUIRE(g, hit, way << ": " << str(p) << " does not access the set");
      if (!a->isInvertible())
        PBT_REQUIRE(g, parentPts.count(p),
                    way << ": " << str(p) << " is not in the parent set");
    }
    if (f.single() || a->getKind() == AccessFunction::Kind::Constant)
      for (auto &p : hits)
        PBT_REQUIRE(g, got.count(p), way << ": misses " << str(p));
  }
}

