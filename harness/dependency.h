// Matched systems of array equations, their scalar dependency graph, and the
// traits connecting them to the dependency analyses (C13, C14, C16).
#pragma once
#include "systems.h"
#include "marco/Modeling/Dependency.h"

namespace dep {
using namespace sys;

/// A system whose equations write what their first access leads to. Accesses
/// to the written variable staying within the written elements are writes too.
struct Matched {
  System s;

  size_t writtenVar(size_t e) const { return s.eqs[e].accs[0].var; }

  Tuple written(size_t e, const Tuple &p) const {
    return *s.eqs[e].accs[0].fn.image(p).begin();
  }

  Set writtenAll(size_t e) const {
    Set r;
    for (auto &p : s.eqs[e].pts)
      r.insert(written(e, p));
    return r;
  }

  bool isWrite(size_t e, size_t a) const {
    auto &acc = s.eqs[e].accs[a];
    if (acc.var != writtenVar(e))
      return false;
    Set w = writtenAll(e);
    for (auto &p : s.eqs[e].pts)
      for (auto &t : acc.fn.image(p))
        if (!w.count(t))
          return false;
    return true;
  }

  /// Scalar equation writing each scalar variable.
  std::map<System::Scalar, System::Scalar> writers() const {
    std::map<System::Scalar, System::Scalar> r;
    for (size_t e = 0; e < s.eqs.size(); ++e)
      for (auto &p : s.eqs[e].pts)
        r[{writtenVar(e), written(e, p)}] = {e, p};
    return r;
  }

  /// True if the access leads to what the equation writes at each index.
  bool sameAsWrite(size_t e, size_t a, const Set &pts) const {
    auto &acc = s.eqs[e].accs[a];
    if (acc.var != writtenVar(e))
      return false;
    for (auto &p : pts)
      if (acc.fn.image(p) != Set{written(e, p)})
        return false;
    return true;
  }

  /// Elements that a scalar equation may be considered to write: an access to
  /// the written elements of the array equation counts, whichever they are.
  std::set<System::Scalar> mayWrite(size_t e, const Tuple &p) const {
    std::set<System::Scalar> r;
    for (size_t a = 0; a < s.eqs[e].accs.size(); ++a)
      if (isWrite(e, a))
        for (auto &t : s.eqs[e].accs[a].fn.image(p))
          r.insert({writtenVar(e), t});
    return r;
  }

  /// Scalar equations whose result is needed by each scalar equation.
  std::map<System::Scalar, std::set<System::Scalar>> needs() const {
    auto w = writers();
    std::map<System::Scalar, std::set<System::Scalar>> r;
    for (size_t e = 0; e < s.eqs.size(); ++e)
      for (auto &p : s.eqs[e].pts) {
        auto &x = r[{e, p}];
        for (auto &v : s.accessed(e, p)) {
          auto it = w.find(v);
          if (it != w.end() && it->second != System::Scalar{e, p})
            x.insert(it->second);
        }
      }
    return r;
  }

  std::string text() const {
    std::string t = s.text() + "writes:";
    for (size_t e = 0; e < s.eqs.size(); ++e) {
      t += " e" + std::to_string(e) + ":";
      for (size_t a = 0; a < s.eqs[e].accs.size(); ++a)
        t += isWrite(e, a) ? "w" : "r";
    }
    return t + "\n";
  }
};

/// Strongly connected components of a graph.
template <typename T>
std::map<T, size_t> components(const std::map<T, std::set<T>> &graph) {
  std::map<T, size_t> index, low, comp;
  std::vector<T> stack;
  std::set<T> on;
  size_t next = 0, comps = 0;
  std::function<void(const T &)> visit = [&](const T &v) {
    index[v] = low[v] = next++;
    stack.push_back(v);
    on.insert(v);
    for (auto &u : graph.at(v)) {
      if (!index.count(u)) {
        visit(u);
        low[v] = std::min(low[v], low[u]);
      } else if (on.count(u)) {
        low[v] = std::min(low[v], index[u]);
      }
    }
    if (low[v] == index[v]) {
      while (true) {
        T u = stack.back();
        stack.pop_back();
        on.erase(u);
        comp[u] = comps;
        if (!(u < v) && !(v < u))
          break;
      }
      ++comps;
    }
  };
  for (auto &x : graph)
    if (!index.count(x.first))
      visit(x.first);
  return comp;
}

struct MatchOpts {
  GenOpts gen;
  int loops = 60;       // % of the systems where algebraic loops are allowed
  bool sameWrites = true; // further accesses to the written elements
};

/// Removes the accesses responsible for scalar equations of an algebraic loop.
inline void removeLoops(Matched &m) {
  while (true) {
    auto n = m.needs();
    auto c = components(n);
    std::map<size_t, size_t> size;
    for (auto &x : c)
      ++size[x.second];
    bool found = false;
    for (auto &[e, ds] : n) {
      for (auto &d : ds) {
        if (c[e] != c[d])
          continue;
        // The last access of e leading to what d writes.
        auto &accs = m.s.eqs[e.first].accs;
        System::Scalar v{m.writtenVar(d.first), m.written(d.first, d.second)};
        for (size_t a = accs.size(); a-- > 1;) {
          if (accs[a].var != v.first || !accs[a].fn.image(e.second).count(v.second))
            continue;
          accs.erase(accs.begin() + a);
          found = true;
          break;
        }
        if (found)
          break;
      }
      if (found)
        break;
    }
    if (!found)
      return;
  }
}

inline Matched genMatched(pbt::G &g, const MatchOpts &o) {
  Matched m;
  System &s = m.s;
  size_t nv = g.range(1, o.gen.maxVars);
  size_t total = 0;
  for (size_t i = 0; i < nv; ++i) {
    Var v;
    v.id = i;
    if (g.chance(75))
      v.shape = {{0, g.range(1, 6)}};
    else if (g.chance(30))
      v.shape = {{0, g.range(1, 3)}, {0, g.range(1, 3)}, {0, g.range(1, 3)}};
    else
      v.shape = {{0, g.range(1, 3)}, {0, g.range(1, 3)}};
    addTuples(v.pts, v.shape);
    if (total && total + v.pts.size() > o.gen.maxScalars)
      break;
    total += v.pts.size();
    s.vars.push_back(v);
  }
  for (size_t i = 0; i < s.vars.size(); ++i) {
    std::vector<Bounds> pieces{s.vars[i].shape};
    size_t cuts = g.weighted({5, 4, 2});
    for (size_t c = 0; c < cuts; ++c) {
      Bounds b = pieces.back();
      size_t d = g.draw(b.size());
      if (b[d].second - b[d].first < 2)
        continue;
      int64_t at = g.range(b[d].first + 1, b[d].second - 1);
      Bounds l = b, r = b;
      l[d].second = at;
      r[d].first = at;
      pieces.back() = l;
      pieces.push_back(r);
    }
    for (auto &b : pieces) {
      if (g.chance(6)) // not computed by any equation: a state, a parameter
        continue;
      Acc acc;
      Eq e = planted(g, s, i, b, acc);
      if (e.pts.empty())
        continue;
      if (o.gen.masks && e.pts.size() > 1 && g.chance(10))
        e.pts.erase(std::next(e.pts.begin(), g.draw(e.pts.size())));
      e.id = s.eqs.size();
      e.accs.push_back(acc);
      s.eqs.push_back(e);
    }
  }
  if (s.eqs.empty())
    g.discard();
  bool chains = g.chance(35);
  for (auto &e : s.eqs) {
    size_t extra = g.weighted({3, 5, 3, 1});
    for (size_t i = 0; i < extra; ++i) {
      size_t v = g.draw(s.vars.size());
      if (chains && g.chance(70)) {
        // Neighbours of what is written.
        Acc a = e.accs[0];
        size_t d = g.draw(a.fn.res.size());
        a.fn.res[d] = mk2(E::Add, a.fn.res[d], mk(E::Const, g.around(-2, 2)));
        bool inside = true;
        Set all = tuples(s.vars[a.var].shape);
        for (auto &p : e.pts)
          for (auto &t : a.fn.image(p))
            inside &= all.count(t) > 0;
        if (inside) {
          e.accs.push_back(a);
          continue;
        }
      }
      e.accs.push_back(genAccess(g, e.hull, v, s.vars[v].shape, o.gen));
    }
    if (o.sameWrites && g.chance(8)) {
      e.accs.push_back(e.accs[0]);
      e.accs.back().fromMap = !e.accs[0].fromMap;
    }
  }
  // Many writes in the same equation are all alternatives for each other, and
  // the number of the paths among them explodes.
  for (size_t e = 0; e < s.eqs.size(); ++e) {
    size_t writes = 0;
    for (size_t a = 0; a < s.eqs[e].accs.size();)
      if (m.isWrite(e, a) && ++writes > (s.eqs[e].pts.size() > 6 ? 1 : 2))
        s.eqs[e].accs.erase(s.eqs[e].accs.begin() + a);
      else
        ++a;
  }
  if (!g.chance(o.loops))
    removeLoops(m);
  for (size_t i = 0; i + 1 < s.eqs.size(); ++i)
    std::swap(s.eqs[i], s.eqs[i + g.draw(s.eqs.size() - i)]);
  for (size_t i = 0; i < s.eqs.size(); ++i)
    s.eqs[i].id = i;
  return m;
}

/// Handles of the elements, as the analyses store them.
struct DV {
  const Matched *m;
  size_t i;
  int64_t getId() const { return i; }
  friend llvm::hash_code hash_value(const DV &v) { return llvm::hash_value(v.i); }
};
struct DE {
  const Matched *m;
  size_t i;
};
} // namespace dep

namespace marco::modeling::dependency {
template <>
struct VariableTraits<dep::DV> {
  using Id = int64_t;
  static Id getId(const dep::DV *v) { return v->i; }
};

template <>
struct EquationTraits<dep::DE> {
  using Id = int64_t;
  using VariableType = dep::DV;
  using AccessProperty = int64_t; // position of the access
  static Id getId(const dep::DE *e) { return e->i; }
  static size_t getNumOfIterationVars(const dep::DE *e) {
    return e->m->s.eqs[e->i].rank();
  }
  static IndexSet getIterationRanges(const dep::DE *e) {
    auto &q = e->m->s.eqs[e->i];
    return dep::realBoxes(q.hull, q.pts);
  }
  static std::vector<Access<dep::DV, int64_t>> get(const dep::DE *e, bool w) {
    std::vector<Access<dep::DV, int64_t>> r;
    auto &accs = e->m->s.eqs[e->i].accs;
    for (size_t a = 0; a < accs.size(); ++a)
      if (e->m->isWrite(e->i, a) == w)
        r.emplace_back(dep::DV{e->m, accs[a].var}, dep::build(accs[a]), a);
    return r;
  }
  static std::vector<Access<dep::DV, int64_t>> getWrites(const dep::DE *e) {
    return get(e, true);
  }
  static std::vector<Access<dep::DV, int64_t>> getReads(const dep::DE *e) {
    return get(e, false);
  }
};
} // namespace marco::modeling::dependency
