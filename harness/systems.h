// Systems of array equations and variables: generation, scalar view, and the
// scalar matching oracle.
#pragma once
#include "access_util.h"

namespace sys {
using namespace au;

struct Var {
  int64_t id;
  Bounds shape;
  Set pts; // the indices to be matched
};

struct Acc {
  size_t var;
  Fn fn;
  bool fromMap; // how the access function is built
};

struct Eq {
  int64_t id;
  Bounds hull;
  Set pts;
  std::vector<Acc> accs;
  size_t rank() const { return hull.size(); }
};

inline IndexSet real(const Set &pts) {
  llvm::SmallVector<Point> v;
  for (auto &t : pts)
    v.push_back(point(t));
  return IndexSet(v);
}

/// A set built from a few boxes rather than from points only.
inline IndexSet realBoxes(const Bounds &hull, const Set &pts) {
  Set all = tuples(hull);
  if (all == pts)
    return IndexSet(box(hull));
  return real(pts);
}

inline std::unique_ptr<AccessFunction> build(const Acc &a) {
  if (a.fromMap && a.fn.single())
    return AccessFunction::build(a.fn.affineMap());
  return AccessFunction::build(&ctx(), a.fn.dims, a.fn.reals());
}

struct System {
  std::vector<Var> vars;
  std::vector<Eq> eqs;

  using Scalar = std::pair<size_t, Tuple>; // equation or variable, indices

  size_t numEqs() const {
    size_t n = 0;
    for (auto &e : eqs)
      n += e.pts.size();
    return n;
  }
  size_t numVars() const {
    size_t n = 0;
    for (auto &v : vars)
      n += v.pts.size();
    return n;
  }

  /// Scalar variables accessed by a scalar equation.
  std::set<Scalar> accessed(size_t e, const Tuple &p,
                            bool onlyMatchable = true) const {
    std::set<Scalar> r;
    for (auto &a : eqs[e].accs)
      for (auto &t : a.fn.image(p))
        if (onlyMatchable ? vars[a.var].pts.count(t) > 0
                          : tuples(vars[a.var].shape).count(t) > 0)
          r.insert({a.var, t});
    return r;
  }

  std::string text() const {
    std::string s;
    for (auto &v : vars) {
      s += "v" + std::to_string(v.id) + " " + mu::str(v.shape);
      if (v.pts.size() != tuples(v.shape).size())
        s += " only " + mu::str(v.pts, 40);
      s += "\n";
    }
    for (auto &e : eqs) {
      s += "e" + std::to_string(e.id) + " for " + mu::str(e.hull);
      if (e.pts.size() != tuples(e.hull).size())
        s += " only " + mu::str(e.pts, 40);
      s += ":";
      for (auto &a : e.accs)
        s += " v" + std::to_string(vars[a.var].id) + "{" + a.fn.text() + "}" +
             (a.fromMap ? "m" : "");
      s += "\n";
    }
    return s;
  }
};

/// Maximum matching between two sides, given the links of the left one.
struct ScalarMatching {
  std::map<System::Scalar, System::Scalar> ofVar, ofEq;

  static bool augment(const std::map<System::Scalar, std::set<System::Scalar>> &l,
                      const System::Scalar &e, std::set<System::Scalar> &seen,
                      ScalarMatching &m) {
    for (auto &v : l.at(e)) {
      if (!seen.insert(v).second)
        continue;
      auto it = m.ofVar.find(v);
      if (it == m.ofVar.end() || augment(l, it->second, seen, m)) {
        m.ofVar[v] = e;
        m.ofEq[e] = v;
        return true;
      }
    }
    return false;
  }

  explicit ScalarMatching(
      const std::map<System::Scalar, std::set<System::Scalar>> &links) {
    for (auto &l : links) {
      std::set<System::Scalar> seen;
      augment(links, l.first, seen, *this);
    }
  }
};

inline std::map<System::Scalar, std::set<System::Scalar>>
links(const System &s) {
  std::map<System::Scalar, std::set<System::Scalar>> l;
  for (size_t e = 0; e < s.eqs.size(); ++e)
    for (auto &p : s.eqs[e].pts)
      l[{e, p}] = s.accessed(e, p);
  return l;
}

// --- generation ---------------------------------------------------------------

struct GenOpts {
  bool sets = true;   // accesses to more than one element
  bool masks = true;  // variables which are matchable only in part
  bool perturb = true;
  size_t maxScalars = 16;
  size_t maxVars = 4;
};

inline P dimPlus(int64_t d, int64_t k, bool reversed = false) {
  if (k == 0)
    return mk(E::Dim, d);
  if (reversed)
    return mk2(E::Add, mk(E::Const, k), mk(E::Dim, d));
  return mk2(E::Add, mk(E::Dim, d), mk(E::Const, k));
}

/// Random access of an equation iterating on `hull` to an array of the given
/// shape, all the accessed elements being within the array.
inline Acc genAccess(pbt::G &g, const Bounds &hull, size_t var,
                     const Bounds &shape, const GenOpts &o) {
  Acc a;
  a.var = var;
  a.fn.dims = hull.size();
  a.fromMap = g.chance(50);
  size_t firstDim = g.draw(hull.size());
  for (size_t i = 0; i < shape.size(); ++i) {
    int64_t n = shape[i].second; // begins at zero
    size_t d = g.chance(80) ? (firstDim + i) % hull.size()
                            : g.draw(hull.size());
    int64_t lo = hull[d].first, hi = hull[d].second - 1;
    switch (g.weighted({12, 5, 2, 1, 1, o.sets ? 2 : 0, o.sets ? 1 : 0})) {
    case 0: // d + k
      if (hi - lo < n) {
        a.fn.res.push_back(dimPlus(d, g.range(-lo, n - 1 - hi), g.chance(20)));
        continue;
      }
      break;
    case 2: // k - d
      if (hi - lo < n) {
        a.fn.res.push_back(mk2(E::Sub, mk(E::Const, g.range(hi, n - 1 + lo)),
                               mk(E::Dim, d)));
        continue;
      }
      break;
    case 3: // d div 2 + k
    {
      int64_t l = floorDiv(lo, 2), h = floorDiv(hi, 2);
      if (h - l < n) {
        a.fn.res.push_back(
            mk2(E::Add,
                mk2(E::Div, mk(E::Dim, d), mk(E::Const, 2)),
                mk(E::Const, g.range(-l, n - 1 - h))));
        continue;
      }
      break;
    }
    case 4: // 2 d + k
      if (2 * (hi - lo) < n) {
        a.fn.res.push_back(
            mk2(E::Add, mk2(E::Mul, mk(E::Dim, d), mk(E::Const, 2)),
                mk(E::Const, g.range(-2 * lo, n - 1 - 2 * hi))));
        continue;
      }
      break;
    case 5: {
      int64_t b = g.range(0, n - 1);
      a.fn.res.push_back(mk(E::Rng, b, g.range(b + 1, n)));
      continue;
    }
    case 6: {
      Space s;
      s.rank = 1;
      s.correlated = g.chance(50);
      Set pts;
      size_t k = g.range(1, 3);
      for (size_t j = 0; j < k; ++j)
        pts.insert({g.range(0, n - 1)});
      s.points.assign(pts.begin(), pts.end());
      s.real = std::make_shared<IndexSet>(real(pts));
      auto e = mk(E::Ind, 0);
      e->space = a.fn.spaces.size();
      a.fn.spaces.push_back(s);
      a.fn.res.push_back(e);
      continue;
    }
    default:
      break;
    }
    a.fn.res.push_back(mk(E::Const, g.range(0, n - 1)));
  }
  return a;
}

/// Equation whose access to the variable covers exactly the given piece.
inline Eq planted(pbt::G &g, const System &s, size_t var, const Bounds &piece,
                  Acc &acc) {
  Eq e;
  acc.var = var;
  acc.fromMap = g.chance(50);
  std::vector<size_t> order;
  for (size_t i = 0; i < piece.size(); ++i)
    order.push_back(i);
  if (order.size() > 1 && g.chance(40))
    std::swap(order[0], order[1]);
  if (order.size() > 2 && g.chance(60))
    std::swap(order[g.draw(2)], order[2]);
  acc.fn.res.resize(piece.size());
  for (size_t i : order) {
    int64_t lo = piece[i].first, hi = piece[i].second;
    if (hi - lo == 1 && g.chance(50)) {
      acc.fn.res[i] = mk(E::Const, lo);
      continue;
    }
    int64_t k = g.around(-2, 2);
    if (g.chance(10)) { // backwards
      acc.fn.res[i] = mk2(E::Sub, mk(E::Const, hi - 1 - k + lo),
                          mk(E::Dim, e.hull.size()));
      // c - (lo - k) = hi - 1 and c - (hi - 1 - k) = lo
      acc.fn.res[i]->a->c = hi - 1 + lo - k;
    } else {
      acc.fn.res[i] = dimPlus(e.hull.size(), k, g.chance(20));
    }
    e.hull.push_back({lo - k, hi - k});
  }
  if (e.hull.empty() || (e.hull.size() == 1 && g.chance(15))) {
    int64_t b = g.around(-2, 2);
    e.hull.push_back({b, b + 1});
  }
  acc.fn.dims = e.hull.size();
  addTuples(e.pts, e.hull);
  // Only the matchable elements.
  Set pts;
  for (auto &p : e.pts)
    if (s.vars[var].pts.count(*acc.fn.image(p).begin()))
      pts.insert(p);
  e.pts = pts;
  return e;
}

/// Rarely removes parts of the system. The choices shrink towards the removal.
inline void thin(pbt::G &g, System &s) {
  // Scalar equations with the variables they can be matched to.
  auto m = ScalarMatching(links(s)).ofEq;
  for (auto &[e, v] : m)
    if (!g.chance(98) && s.numVars() > 1) {
      s.eqs[e.first].pts.erase(e.second);
      s.vars[v.first].pts.erase(v.second);
    }
  for (size_t i = 0; i < s.vars.size();) {
    if (!s.vars[i].pts.empty()) {
      ++i;
      continue;
    }
    s.vars.erase(s.vars.begin() + i);
    for (auto &e : s.eqs)
      for (size_t j = 0; j < e.accs.size();) {
        if (e.accs[j].var == i) {
          e.accs.erase(e.accs.begin() + j);
          continue;
        }
        if (e.accs[j].var > i)
          --e.accs[j].var;
        ++j;
      }
  }
  for (size_t i = 0; i < s.vars.size(); ++i)
    s.vars[i].id = i;
  for (auto &e : s.eqs)
    for (size_t j = 0; j < e.accs.size();)
      if (!g.chance(98))
        e.accs.erase(e.accs.begin() + j);
      else
        ++j;
  for (size_t i = 0; i < s.eqs.size();)
    if (s.eqs[i].pts.empty())
      s.eqs.erase(s.eqs.begin() + i);
    else
      ++i;
}

inline System genSystem(pbt::G &g, const GenOpts &o) {
  System s;
  size_t nv = g.range(1, o.maxVars);
  size_t total = 0;
  for (size_t i = 0; i < nv; ++i) {
    Var v;
    v.id = i;
    if (g.chance(70))
      v.shape = {{0, g.range(1, 5)}};
    else
      v.shape = {{0, g.range(1, 3)}, {0, g.range(1, 3)}};
    addTuples(v.pts, v.shape);
    if (total && total + v.pts.size() > o.maxScalars)
      break;
    if (o.masks && v.pts.size() > 1 && g.chance(12)) {
      size_t k = g.range(1, v.pts.size() - 1);
      for (size_t j = 0; j < k; ++j) {
        auto it = v.pts.begin();
        std::advance(it, g.draw(v.pts.size()));
        v.pts.erase(it);
      }
    }
    total += v.pts.size();
    s.vars.push_back(v);
  }
  // Equations from pieces of the variables.
  for (size_t i = 0; i < s.vars.size(); ++i) {
    std::vector<Bounds> pieces{s.vars[i].shape};
    size_t cuts = g.weighted({5, 4, 2});
    for (size_t c = 0; c < cuts; ++c) {
      Bounds b = pieces.back();
      size_t d = g.draw(b.size());
      if (b[d].second - b[d].first < 2)
        continue;
      int64_t at = g.range(b[d].first + 1, b[d].second - 1);
      Bounds l = b, r = b;
      l[d].second = at;
      r[d].first = at;
      pieces.back() = l;
      pieces.push_back(r);
    }
    for (auto &b : pieces) {
      Acc acc;
      Eq e = planted(g, s, i, b, acc);
      if (e.pts.empty())
        continue;
      e.id = s.eqs.size();
      e.accs.push_back(acc);
      s.eqs.push_back(e);
    }
  }
  for (auto &e : s.eqs) {
    size_t extra = g.weighted({3, 4, 3, 1});
    for (size_t i = 0; i < extra; ++i) {
      size_t v = g.draw(s.vars.size());
      e.accs.push_back(genAccess(g, e.hull, v, s.vars[v].shape, o));
    }
  }
  if (o.perturb && g.chance(40)) {
    size_t n = g.range(1, 2);
    for (size_t i = 0; i < n && !s.eqs.empty(); ++i) {
      auto &e = s.eqs[g.draw(s.eqs.size())];
      switch (g.weighted({6, 2, 1})) {
      case 0: {
        size_t v = g.draw(s.vars.size());
        e.accs[0] = genAccess(g, e.hull, v, s.vars[v].shape, o);
        break;
      }
      case 1:
        if (e.accs.size() > 1)
          e.accs.erase(e.accs.begin());
        break;
      default:
        if (e.pts.size() > 1)
          e.pts.erase(std::prev(e.pts.end()));
        break;
      }
    }
  }
  thin(g, s);
  // Any order.
  for (auto &e : s.eqs)
    for (size_t i = 0; i + 1 < e.accs.size(); ++i)
      std::swap(e.accs[i], e.accs[i + g.draw(e.accs.size() - i)]);
  for (size_t i = 0; i + 1 < s.eqs.size(); ++i)
    std::swap(s.eqs[i], s.eqs[i + g.draw(s.eqs.size() - i)]);
  for (size_t i = 0; i < s.eqs.size(); ++i)
    s.eqs[i].id = i;
  return s;
}
} // namespace sys
