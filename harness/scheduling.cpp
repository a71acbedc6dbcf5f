// C14: schedules are run and every read is checked.
#include "dependency.h"
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/Scheduling.h"

using namespace dep;

namespace {
/// Part of an equation.
struct View {
  const Matched *m;
  size_t eq;
  Set pts;
};
struct Comp {
  std::vector<View> views;
  const std::vector<std::unique_ptr<Comp>> *all;
};
} // namespace

namespace marco::modeling::dependency {
template <>
struct EquationTraits<const View *> {
  using Id = int64_t;
  using VariableType = DV;
  using AccessProperty = int64_t;
  using T = const View *const *;
  static Id getId(T e) { return (*e)->eq; }
  static size_t getNumOfIterationVars(T e) {
    return (*e)->m->s.eqs[(*e)->eq].rank();
  }
  static IndexSet getIterationRanges(T e) {
    return realBoxes((*e)->m->s.eqs[(*e)->eq].hull, (*e)->pts);
  }
  static std::vector<Access<DV, int64_t>> get(T e, bool w) {
    std::vector<Access<DV, int64_t>> r;
    auto &m = *(*e)->m;
    auto &accs = m.s.eqs[(*e)->eq].accs;
    for (size_t a = 0; a < accs.size(); ++a)
      if (m.sameAsWrite((*e)->eq, a, (*e)->pts) == w)
        r.emplace_back(DV{&m, accs[a].var}, dep::build(accs[a]), a);
    return r;
  }
  static std::vector<Access<DV, int64_t>> getWrites(T e) { return get(e, true); }
  static std::vector<Access<DV, int64_t>> getReads(T e) { return get(e, false); }
};

template <>
struct SCCTraits<const Comp *> {
  using ElementRef = const View *;
  static std::vector<ElementRef> getElements(const Comp *const *c) {
    std::vector<ElementRef> r;
    for (auto &v : (*c)->views)
      r.push_back(&v);
    return r;
  }
  static std::vector<ElementRef> getDependencies(const Comp *const *c,
                                                 ElementRef e) {
    std::vector<ElementRef> r;
    std::set<System::Scalar> reads;
    for (auto &p : e->pts)
      for (auto &v : e->m->s.accessed(e->eq, p))
        if (v != System::Scalar{e->m->writtenVar(e->eq), e->m->written(e->eq, p)})
          reads.insert(v);
    for (auto &o : *(*c)->all)
      for (auto &w : o->views)
        for (auto &p : w.pts)
          if (reads.count({w.m->writtenVar(w.eq), w.m->written(w.eq, p)})) {
            r.push_back(&w);
            break;
          }
    return r;
  }
};
} // namespace marco::modeling::dependency

namespace {
using marco::modeling::scheduling::Direction;
using Graph = marco::modeling::DependencyGraph<DV, DE>;

struct Block {
  size_t eq;
  Set pts;
  std::vector<Direction> dirs;
};
using Step = std::vector<Block>;

std::string text(const std::vector<Step> &ss) {
  std::string s = "schedule:\n";
  for (auto &st : ss) {
    for (auto &b : st) {
      s += " e" + std::to_string(b.eq) + mu::str(b.pts, 30) + " ";
      for (auto d : b.dirs)
        s += d == Direction::Any        ? "*"
             : d == Direction::Forward  ? "+"
             : d == Direction::Backward ? "-"
                                        : "?";
    }
    s += "\n";
  }
  return s;
}

/// Indices in the order given by the directions. `flip` tells how to run the
/// dimensions that can be run either way, `order` the nesting of the loops.
std::vector<Tuple> ordered(const Block &b, unsigned flip, bool innerFirst) {
  std::vector<Tuple> r(b.pts.begin(), b.pts.end());
  std::sort(r.begin(), r.end(), [&](const Tuple &x, const Tuple &y) {
    for (size_t k = 0; k < x.size(); ++k) {
      size_t i = innerFirst ? x.size() - 1 - k : k;
      if (x[i] == y[i])
        continue;
      bool back = b.dirs[i] == Direction::Backward ||
                  (b.dirs[i] == Direction::Any && (flip >> i & 1));
      return back ? x[i] > y[i] : x[i] < y[i];
    }
    return false;
  });
  return r;
}

std::vector<Step> schedule(const std::vector<std::unique_ptr<Comp>> &comps) {
  std::vector<const Comp *> cs;
  for (auto &c : comps)
    cs.push_back(c.get());
  marco::modeling::Scheduler<DV, const Comp *> scheduler(&ctx());
  std::vector<Step> r;
  for (auto &st : scheduler.schedule(cs)) {
    r.emplace_back();
    for (auto &q : st) {
      Block b;
      b.eq = q.getEquation()->eq;
      b.pts = enumerate(q.getIndexes());
      auto d = q.getIterationDirections();
      b.dirs.assign(d.begin(), d.end());
      r.back().push_back(b);
    }
  }
  return r;
}
} // namespace

namespace {
using Needs = decltype(std::declval<Matched>().needs());

std::vector<std::unique_ptr<Comp>> componentsOf(const Matched &m) {
  std::vector<std::unique_ptr<Comp>> comps;
  {
    Graph graph(&ctx());
    std::vector<DE> es;
    for (size_t i = 0; i < m.s.eqs.size(); ++i)
      es.push_back({&m, i});
    graph.addEquations(es);
    for (auto &c : graph.getSCCs()) {
      comps.push_back(std::make_unique<Comp>());
      comps.back()->all = &comps;
      for (auto &v : c)
        comps.back()->views.push_back(
            {&m, graph[*v].i, enumerate(v.getIndices())});
    }
  }
  return comps;
}

/// The component of only one equation are not cyclic.
bool acyclicEquations(const std::vector<std::unique_ptr<Comp>> &comps,
                      const Needs &needs) {
  auto comp = components(needs);
  for (auto &c : comps) {
    if (c->views.size() > 1)
      continue;
    std::map<size_t, size_t> n;
    for (auto &p : c->views[0].pts)
      ++n[comp[{c->views[0].eq, p}]];
    for (auto &p : c->views[0].pts)
      if (n[comp[{c->views[0].eq, p}]] > 1)
        return false;
  }
  return true;
}

void checkSchedule(pbt::G &g, const Matched &m, Needs &needs,
                   const std::vector<std::unique_ptr<Comp>> &comps,
                   const std::vector<Step> &steps) {
  // Exactly once.
  std::set<System::Scalar> seen;
  for (auto &st : steps)
    for (auto &b : st) {
      PBT_REQUIRE(g, b.dirs.size() == m.s.eqs[b.eq].rank(), "directions");
      for (auto &p : b.pts) {
        PBT_REQUIRE(g, m.s.eqs[b.eq].pts.count(p),
                    "e" << b.eq << " has no " << mu::str(p));
        PBT_REQUIRE(g, seen.insert({b.eq, p}).second,
                    "e" << b.eq << mu::str(p) << " is scheduled twice");
      }
    }
  PBT_REQUIRE(g, seen.size() == m.s.numEqs(), "scalar equations left out");

  // Only the components of more equations are cyclic, and they are kept.
  std::set<std::set<std::pair<size_t, Set>>> cyclic, wanted;
  for (auto &st : steps)
    if (st.size() > 1) {
      std::set<std::pair<size_t, Set>> x;
      for (auto &b : st)
        x.insert({b.eq, b.pts});
      cyclic.insert(x);
    } else {
      for (auto d : st[0].dirs)
        PBT_REQUIRE(g, d != Direction::Unknown,
                    "unknown direction of e" << st[0].eq);
    }
  for (auto &c : comps)
    if (c->views.size() > 1) {
      std::set<std::pair<size_t, Set>> x;
      for (auto &v : c->views)
        x.insert({v.eq, v.pts});
      wanted.insert(x);
    }
  PBT_REQUIRE(g, cyclic == wanted, "cyclic blocks");

  for (unsigned mode = 0; mode < 8; ++mode) {
    std::set<System::Scalar> done;
    for (auto &st : steps) {
      std::set<System::Scalar> block;
      if (st.size() > 1)
        for (auto &b : st)
          for (auto &p : b.pts)
            block.insert({b.eq, p});
      for (auto &b : st)
        for (auto &p : ordered(b, mode & 3, mode & 4)) {
          for (auto &n : needs[{b.eq, p}])
            PBT_REQUIRE(g, done.count(n) || block.count(n),
                        "e" << b.eq << mu::str(p) << " needs e" << n.first
                            << mu::str(n.second) << " which is computed later");
          if (st.size() == 1)
            done.insert({b.eq, p});
        }
      done.insert(block.begin(), block.end());
    }
  }
}
} // namespace

PBT_PROP("C14", values_before_uses, 16000, 200000,
         "some scalar equation needs the value of another one") {
  MatchOpts o;
  o.gen.sets = g.chance(40);
  o.loops = 25;
  Matched m = genMatched(g, o);
  g.log << m.text();
  auto needs = m.needs();
  auto comps = componentsOf(m);
  for (size_t i = 0; i + 1 < comps.size(); ++i)
    std::swap(comps[i], comps[i + g.draw(comps.size() - i)]);
  for (auto &c : comps) {
    g.log << "component";
    for (auto &v : c->views)
      g.log << " e" << v.eq << mu::str(v.pts, 30);
    g.log << "\n";
  }

  // An equation with an algebraic loop among its own indices is not split any
  // further by the components: the scheduler requires it to be solved before.
  if (!acyclicEquations(comps, needs))
    g.discard();

  auto steps = schedule(comps);
  g.log << text(steps);
  for (auto &n : needs)
    if (!n.second.empty())
      g.nontrivial();

  checkSchedule(g, m, needs, comps, steps);
}

PBT_PROP("C16", repeated_schedules, 1500, 40000,
         "some scalar equation needs the value of another one") {
  MatchOpts o;
  o.gen.sets = g.chance(40);
  o.loops = 25;
  Matched m = genMatched(g, o);
  g.log << m.text();
  auto needs = m.needs();
  auto comps = componentsOf(m);
  if (!acyclicEquations(comps, needs))
    g.discard();
  auto first = schedule(comps);
  g.log << text(first);
  for (auto &n : needs)
    if (!n.second.empty())
      g.nontrivial();
  std::vector<std::unique_ptr<char[]>> blocks;
  for (size_t n = g.range(1, 40), i = 0; i < n; ++i)
    blocks.emplace_back(new char[16 << g.draw(7)]);
  for (size_t i = 0; i < blocks.size(); i += 2)
    blocks[i].reset();
  auto second = schedule(comps);
  PBT_REQUIRE(g, text(first) == text(second), "another " << text(second));
  for (size_t n = g.range(1, 3); n; --n) {
    au::threaded() = true;
    auto t = schedule(comps);
    au::threaded() = false;
    g.log << "with threads: " << text(t);
    checkSchedule(g, m, needs, comps, t);
  }
}
