// C08, C09: compressed incidence matrices and local matching alternatives
// against explicit boolean matrices.
#include "access_util.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/MCIM.h"

using namespace au;
using namespace marco::modeling::internal;

namespace {
using Cell = std::pair<Tuple, Tuple>;
using Cells = std::set<Cell>;

std::string str(const Cells &c) {
  std::string s = "{";
  size_t n = 0;
  for (auto &x : c) {
    if (n++ == 12)
      return s + " ... " + std::to_string(c.size()) + " cells}";
    s += mu::str(x.first) + mu::str(x.second) + " ";
  }
  return s + "}";
}

struct Sp {
  IndexSet real;
  Set pts;
  std::string text;
};

Sp genSpace(pbt::G &g, size_t rank, size_t maxPts) {
  Sp s;
  size_t n = g.weighted({5, 3, 1}) + 1;
  for (size_t i = 0; i < n; ++i) {
    Bounds b = genBox(g, rank, -4, 6, rank == 1 ? 6 : 3);
    Set more = tuples(b);
    if (!s.pts.empty() && s.pts.size() + more.size() > maxPts)
      continue;
    s.pts.insert(more.begin(), more.end());
    s.real += box(b);
    s.text += mu::str(b);
  }
  return s;
}

/// A variation of a space: grown, shrunk, moved.
Sp genVariation(pbt::G &g, const Sp &o, size_t rank) {
  Sp s;
  switch (g.weighted({4, 2, 2, 1})) {
  case 0: { // shrunk
    Bounds cut = genBox(g, rank, -4, 6, 6);
    s.real = o.real.intersect(box(cut));
    for (auto &p : o.pts)
      if (tuples(cut).count(p))
        s.pts.insert(p);
    s.text = "intersected with " + mu::str(cut);
    if (s.pts.empty())
      return o;
    return s;
  }
  case 1: { // grown
    s = o;
    Bounds b = genBox(g, rank, -4, 6, 2);
    addTuples(s.pts, b);
    s.real += box(b);
    s.text = "plus " + mu::str(b);
    return s;
  }
  case 2:
    return genSpace(g, rank, 40);
  default:
    return o;
  }
}

Set rows(const Cells &c) {
  Set r;
  for (auto &x : c)
    r.insert(x.first);
  return r;
}
Set cols(const Cells &c) {
  Set r;
  for (auto &x : c)
    r.insert(x.second);
  return r;
}

struct Mat {
  MCIM real;
  Cells model;
  Sp eq, var;
};

Cells read(const MCIM &m, const Sp &eq, const Sp &var) {
  Cells c;
  for (auto &e : eq.pts)
    for (auto &v : var.pts)
      if (m.get(point(e), point(v)))
        c.insert({e, v});
  return c;
}

void check(pbt::G &g, const std::string &what, const Mat &m) {
  PBT_REQUIRE(g, enumerate(m.real.getEquationSpace()) == m.eq.pts,
              what << ": equation space");
  PBT_REQUIRE(g, enumerate(m.real.getVariableSpace()) == m.var.pts,
              what << ": variable space");
  Cells c = read(m.real, m.eq, m.var);
  PBT_REQUIRE(g, c == m.model,
              what << ": holds " << str(c) << " instead of " << str(m.model));
  Set fr = enumerate(m.real.flattenRows());
  PBT_REQUIRE(g, fr == cols(m.model),
              what << ": flattened rows " << mu::str(fr) << " instead of "
                   << mu::str(cols(m.model)));
  Set fc = enumerate(m.real.flattenColumns());
  PBT_REQUIRE(g, fc == rows(m.model),
              what << ": flattened columns " << mu::str(fc) << " instead of "
                   << mu::str(rows(m.model)));
  PBT_REQUIRE(g, m.real.empty() == m.model.empty(), what << ": emptiness");
}

bool inside(const Cells &c, const Sp &e, const Sp &v) {
  for (auto &x : c)
    if (!e.pts.count(x.first) || !v.pts.count(x.second))
      return false;
  return true;
}

Cells restrict(const Cells &c, const Set *e, const Set *v) {
  Cells r;
  for (auto &x : c)
    if ((!e || e->count(x.first)) && (!v || v->count(x.second)))
      r.insert(x);
  return r;
}
} // namespace

PBT_PROP("C08", matrix_history, 40000, 1000000,
         "at least one access function and one other change were applied to a matrix with several cells") {
  size_t er = g.range(1, 2), vr = g.range(1, 2);
  Sp eq = genSpace(g, er, 25), var = genSpace(g, vr, 25);
  g.log << "equations " << eq.text << " variables " << var.text << "\n";
  std::vector<Mat> m;
  m.push_back({MCIM(eq.real, var.real), {}, eq, var});
  check(g, "new matrix", m[0]);
  // All the pairs of indices are visited once.
  {
    Cells seen;
    size_t n = 0;
    for (const auto &p :
         llvm::make_range(m[0].real.indicesBegin(), m[0].real.indicesEnd())) {
      seen.insert({tuple(p.first), tuple(p.second)});
      ++n;
    }
    PBT_REQUIRE(g, n == seen.size() && n == eq.pts.size() * var.pts.size(),
                "visited indices");
  }
  std::vector<Fn> fns; // reused, so that groups meet again
  size_t ops = g.range(3, g.thorough ? 18 : 12);
  size_t applied = 0, other = 0;
  size_t biggest = 0;
  for (size_t i = 0; i < ops; ++i) {
    size_t k = g.draw(m.size());
    Mat &x = m[k];
    std::vector<Tuple> ev(x.eq.pts.begin(), x.eq.pts.end()),
        vv(x.var.pts.begin(), x.var.pts.end());
    g.log << "m" << k << ": ";
    std::string what = "operation " + std::to_string(i);
    switch (i == 0 ? 0 : g.weighted({8, 4, 4, 3, 3, 2, 2, 3, 2, 2, 2, 1})) {
    case 0: { // apply
      Fn f;
      if (!fns.empty() && g.chance(40)) {
        f = fns[g.draw(fns.size())];
      } else {
        Opts o;
        o.ranges = g.chance(15);
        o.onlyRoto = g.chance(60);
        o.permutations = 40;
        f = genFn(g, o, er, er, vr, vr);
        // Bring the images close to the variables.
        if (g.chance(85))
          aim(f, g.pick(ev), g.pick(vv));
        fns.push_back(f);
      }
      Set on = x.eq.pts;
      auto real = f.all();
      size_t way = g.draw(real.size());
      auto &af = *real[way].second;
      int form = g.weighted({3, 3, 2});
      if (form == 0) {
        x.real.apply(af);
        g.log << "apply " << f.text();
      } else {
        // A part of the equations.
        Bounds b = genBox(g, er, -4, 6, 6);
        IndexSet part = x.eq.real.intersect(box(b));
        on.clear();
        for (auto &p : tuples(b))
          if (x.eq.pts.count(p))
            on.insert(p);
        g.log << "apply to " << mu::str(b) << " " << f.text();
        if (on.empty()) {
          g.log << " (nothing)\n";
          break;
        }
        if (form == 1 && on.size() == tuples(b).size())
          x.real.apply(box(b), af);
        else
          x.real.apply(part, af);
      }
      for (auto &e : on)
        for (auto &v : f.image(e))
          if (x.var.pts.count(v))
            x.model.insert({e, v});
      ++applied;
      g.label(std::string("apply ") + real[way].first);
      break;
    }
    case 1: { // set
      Tuple e = g.pick(ev), v = g.pick(vv);
      g.log << "set " << mu::str(e) << mu::str(v);
      x.real.set(point(e), point(v));
      x.model.insert({e, v});
      ++other;
      break;
    }
    case 2: { // unset, preferably something set
      Tuple e, v;
      if (!x.model.empty() && g.chance(75)) {
        auto it = x.model.begin();
        std::advance(it, g.draw(x.model.size()));
        e = it->first;
        v = it->second;
      } else {
        e = g.pick(ev), v = g.pick(vv);
      }
      g.log << "unset " << mu::str(e) << mu::str(v);
      x.real.unset(point(e), point(v));
      x.model.erase({e, v});
      ++other;
      break;
    }
    case 3:
    case 4: { // sum and difference with a matrix over the same spaces
      size_t j = g.draw(m.size());
      if (m[j].eq.pts != x.eq.pts || m[j].var.pts != x.var.pts) {
        g.log << "(nothing)";
        break;
      }
      bool add = g.chance(50), inPlace = g.chance(50);
      Cells old = m[j].model;
      g.log << (add ? "add" : "subtract") << " m" << j;
      if (inPlace && j != k) {
        if (add)
          x.real += m[j].real;
        else
          x.real -= m[j].real;
      } else {
        MCIM r = add ? x.real + m[j].real : x.real - m[j].real;
        x.real = r;
      }
      if (add)
        x.model.insert(old.begin(), old.end());
      else
        for (auto &c : old)
          x.model.erase(c);
      ++other;
      break;
    }
    case 5: { // filter rows
      std::string text;
      IndexSet f;
      Set s = genSet(g, er, f, text);
      g.log << "filter rows" << text;
      MCIM r = x.real.filterRows(f);
      Mat n{r, restrict(x.model, &s, nullptr), x.eq, x.var};
      check(g, what + " (rows)", n);
      if (g.chance(50))
        x = n;
      ++other;
      break;
    }
    case 6: { // filter columns
      std::string text;
      IndexSet f;
      Set s = genSet(g, vr, f, text);
      g.log << "filter columns" << text;
      MCIM r = x.real.filterColumns(f);
      Mat n{r, restrict(x.model, nullptr, &s), x.eq, x.var};
      check(g, what + " (columns)", n);
      if (g.chance(50))
        x = n;
      ++other;
      break;
    }
    case 7: { // another matrix: empty or a copy
      if (m.size() >= 3) {
        g.log << "(nothing)";
        break;
      }
      if (g.chance(50)) {
        g.log << "copy";
        Mat n = x;
        m.push_back(n);
      } else {
        g.log << "new";
        Mat n{MCIM(x.eq.real, x.var.real), {}, x.eq, x.var};
        m.push_back(n);
      }
      break;
    }
    case 8: { // spaces, functionally
      Sp e = genVariation(g, x.eq, er), v = genVariation(g, x.var, vr);
      g.log << "with spaces " << e.text << " and " << v.text;
      MCIM r = x.real.withSpace(std::make_shared<const IndexSet>(e.real),
                                std::make_shared<const IndexSet>(v.real));
      Mat n{r, restrict(x.model, &e.pts, &v.pts), e, v};
      check(g, what + " (spaces)", n);
      if (g.chance(60))
        x = n;
      ++other;
      break;
    }
    case 9: {
      Sp e = genVariation(g, x.eq, er);
      g.log << "equation space " << e.text;
      x.real.setEquationSpace(std::make_shared<const IndexSet>(e.real));
      x.eq = e;
      x.model = restrict(x.model, &e.pts, nullptr);
      ++other;
      break;
    }
    case 10: {
      Sp v = genVariation(g, x.var, vr);
      g.log << "variable space " << v.text;
      x.real.setVariableSpace(std::make_shared<const IndexSet>(v.real));
      x.var = v;
      x.model = restrict(x.model, nullptr, &v.pts);
      ++other;
      break;
    }
    default:
      g.log << "clear";
      x.real.clear();
      x.model.clear();
      break;
    }
    g.log << "\n";
    for (size_t j = 0; j < m.size(); ++j) {
      check(g, what + " on m" + std::to_string(k) + ", matrix m" +
                   std::to_string(j),
            m[j]);
      biggest = std::max(biggest, m[j].model.size());
    }
    for (size_t a = 0; a < m.size(); ++a)
      for (size_t b = 0; b < m.size(); ++b) {
        bool same = m[a].eq.pts == m[b].eq.pts &&
                    m[a].var.pts == m[b].var.pts && m[a].model == m[b].model;
        PBT_REQUIRE(g, (m[a].real == m[b].real) == same,
                    what << ": equality of m" << a << " and m" << b);
        PBT_REQUIRE(g, (m[a].real != m[b].real) == !same,
                    what << ": inequality of m" << a << " and m" << b);
      }
  }
  if (applied && other && biggest > 3)
    g.nontrivial();
}

namespace {
void checkAlternative(pbt::G &g, size_t i, const Cells &c, const Cells &all) {
  Set e, v;
  for (auto &x : c) {
    PBT_REQUIRE(g, all.count(x), "alternative " << i << ": " << mu::str(x.first)
                                                << mu::str(x.second)
                                                << " is not incident");
    PBT_REQUIRE(g, e.insert(x.first).second,
                "alternative " << i << ": equation " << mu::str(x.first)
                               << " appears twice");
    PBT_REQUIRE(g, v.insert(x.second).second,
                "alternative " << i << ": variable " << mu::str(x.second)
                               << " appears twice");
  }
}
} // namespace

PBT_PROP("C09", alternatives_of_functions, 40000, 1000000,
         "several access functions, or an access function needing several alternatives") {
  size_t er = g.range(1, 3), vr = g.range(1, 2);
  Sp eq = genSpace(g, er, 16);
  size_t n = g.chance(3) ? g.range(17, 20) : g.range(1, 4);
  std::vector<Fn> fns;
  g.log << "equations " << eq.text;
  Opts o;
  o.onlyRoto = g.chance(60);
  o.ranges = !o.onlyRoto && g.chance(30);
  Set image;
  llvm::SmallVector<std::unique_ptr<AccessFunction>> real;
  Cells all;
  for (size_t i = 0; i < n; ++i) {
    o.permutations = 40;
    Fn f = genFn(g, o, er, er, vr, vr);
    fns.push_back(f);
    g.log << "; " << f.text();
    auto ways = f.all();
    real.push_back(std::move(ways[g.draw(ways.size())].second));
    for (auto &e : eq.pts)
      for (auto &v : f.image(e)) {
        all.insert({e, v});
        image.insert(v);
      }
  }
  g.log << "\n";
  Sp var;
  for (auto &v : image)
    var.real += point(v);
  var.pts = image;
  if (g.chance(40)) {
    Bounds b = genBox(g, vr, -4, 6, 3);
    var.real += box(b);
    addTuples(var.pts, b);
  }
  auto sols = solveLocalMatchingProblem(eq.real, var.real, real);
  size_t count = sols.size();
  if (n > 1 || count > 1)
    g.nontrivial();
  g.label("alternatives " + std::string(count > 8 ? "> 8" : count > 1 ? "2-8" : std::to_string(count)));
  Cells covered;
  std::vector<Cells> seen(count);
  size_t i = 0;
  // Either in order, or asking for one of the last ones first.
  if (count && g.chance(30))
    (void)sols[g.draw(count)];
  for (MCIM &s : sols) {
    PBT_REQUIRE(g, i < count, "more alternatives than announced");
    Cells c = read(s, eq, var);
    PBT_REQUIRE(g, enumerate(s.flattenRows()) == cols(c) &&
                       enumerate(s.flattenColumns()) == rows(c),
                "alternative " << i << " holds other cells too");
    checkAlternative(g, i, c, all);
    seen[i] = c;
    covered.insert(c.begin(), c.end());
    ++i;
  }
  PBT_REQUIRE(g, i == count, "fewer alternatives than announced");
  PBT_REQUIRE(g, sols.size() == count, "the number of alternatives changed");
  PBT_REQUIRE(g, covered == all,
              "covered " << str(covered) << " instead of " << str(all));
  if (count) {
    size_t j = g.draw(count);
    PBT_REQUIRE(g, read(sols[j], eq, var) == seen[j],
                "alternative " << j << " changed");
  }
}

PBT_PROP("C09", alternatives_of_matrices, 40000, 1000000,
         "several alternatives and at least one access function with several cells") {
  size_t er = g.range(1, 2), vr = g.range(1, 2);
  Sp eq = genSpace(g, er, 16), var = genSpace(g, vr, 16);
  g.log << "equations " << eq.text << " variables " << var.text;
  MCIM m(eq.real, var.real);
  Cells all;
  std::vector<Tuple> ev(eq.pts.begin(), eq.pts.end()),
      vv(var.pts.begin(), var.pts.end());
  size_t n = g.range(0, 3);
  bool big = false;
  for (size_t i = 0; i < n; ++i) {
    Opts o;
    o.onlyRoto = g.chance(60);
    o.ranges = !o.onlyRoto && g.chance(30);
    o.permutations = 40;
    Fn f = genFn(g, o, er, er, vr, vr);
    if (g.chance(85))
      aim(f, g.pick(ev), g.pick(vv));
    auto ways = f.all();
    m.apply(*ways[g.draw(ways.size())].second);
    g.log << "; " << f.text();
    size_t before = all.size();
    for (auto &e : eq.pts)
      for (auto &v : f.image(e))
        if (var.pts.count(v))
          all.insert({e, v});
    big |= all.size() > before + 1;
  }
  size_t pts = g.range(0, 4);
  for (size_t i = 0; i < pts; ++i) {
    Tuple e = g.pick(ev), v = g.pick(vv);
    m.set(point(e), point(v));
    all.insert({e, v});
    g.log << "; set " << mu::str(e) << mu::str(v);
  }
  size_t cuts = g.range(0, 2);
  for (size_t i = 0; i < cuts && !all.empty(); ++i) {
    auto it = all.begin();
    std::advance(it, g.draw(all.size()));
    g.log << "; unset " << mu::str(it->first) << mu::str(it->second);
    m.unset(point(it->first), point(it->second));
    all.erase(it);
  }
  g.log << "\n";
  auto sols = solveLocalMatchingProblem(m);
  size_t count = sols.size();
  if (count > 1 && big)
    g.nontrivial();
  Cells covered;
  size_t i = 0;
  for (MCIM &s : sols) {
    PBT_REQUIRE(g, i < count, "more alternatives than announced");
    PBT_REQUIRE(g, s.getEquationSpace() == eq.real && s.getVariableSpace() == var.real,
                "spaces of alternative " << i);
    Cells c = read(s, eq, var);
    PBT_REQUIRE(g, enumerate(s.flattenRows()) == cols(c) &&
                       enumerate(s.flattenColumns()) == rows(c),
                "alternative " << i << " holds other cells too");
    checkAlternative(g, i, c, all);
    covered.insert(c.begin(), c.end());
    ++i;
  }
  PBT_REQUIRE(g, i == count, "fewer alternatives than announced");
  PBT_REQUIRE(g, covered == all,
              "covered " << str(covered) << " instead of " << str(all));
}
