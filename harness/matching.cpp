// C10, C11, C16 (matching): array matching against a scalar oracle.
#include "systems.h"
#include "marco/Modeling/Matching.h"

using namespace sys;

namespace {
struct SV {
  const System *s;
  size_t i;
};
struct SE {
  const System *s;
  size_t i;
};
} // namespace

namespace marco::modeling::matching {
template <>
struct VariableTraits<SV> {
  using Id = int64_t;
  static Id getId(const SV *v) { return v->s->vars[v->i].id; }
  static size_t getRank(const SV *v) { return v->s->vars[v->i].shape.size(); }
  static IndexSet getIndices(const SV *v) {
    return realBoxes(v->s->vars[v->i].shape, v->s->vars[v->i].pts);
  }
  static llvm::raw_ostream &dump(const SV *v, llvm::raw_ostream &os) {
    return os << "v" << v->i;
  }
};

template <>
struct EquationTraits<SE> {
  using Id = int64_t;
  using VariableType = SV;
  static Id getId(const SE *e) { return e->s->eqs[e->i].id; }
  static size_t getNumOfIterationVars(const SE *e) {
    return e->s->eqs[e->i].rank();
  }
  static IndexSet getIndices(const SE *e) {
    return realBoxes(e->s->eqs[e->i].hull, e->s->eqs[e->i].pts);
  }
  static std::vector<Access<int64_t>> getAccesses(const SE *e) {
    std::vector<Access<int64_t>> r;
    for (auto &a : e->s->eqs[e->i].accs)
      r.emplace_back(e->s->vars[a.var].id, sys::build(a));
    return r;
  }
  static llvm::raw_ostream &dump(const SE *e, llvm::raw_ostream &os) {
    return os << "e" << e->i;
  }
};
} // namespace marco::modeling::matching

namespace {
std::string bookkeeping; // first inconsistency found in a graph
size_t graphsChecked = 0;

void complain(const std::string &what) {
  if (bookkeeping.empty())
    bookkeeping = what;
}

/// Matching graph whose matches are examined when it is destroyed, so that the
/// graphs built internally by the matching process are examined too.
class Probe
    : public marco::modeling::internal::matching::MatchingGraphCRTP<Probe, SV,
                                                                    SE> {
  using Base =
      marco::modeling::internal::matching::MatchingGraphCRTP<Probe, SV, SE>;

  // Follows the content when it is moved elsewhere.
  std::unique_ptr<int> content = std::make_unique<int>(0);

public:
  using Base::Base;
  Probe(Probe &&) = default;
  Probe &operator=(Probe &&) = default;
  ~Probe() override { examine(); }
  Probe newInstance() const override { return Probe(this->getContext()); }

  void examine() {
    if (!content)
      return;
    ++graphsChecked;
    auto &graph = this->getBaseGraph();
    const auto &cg = graph;
    for (auto d : graph.getVertices()) {
      bool isEq = std::holds_alternative<Equation>(cg[d]);
      std::string name =
          isEq ? "equation " + mu::str(std::get<Equation>(cg[d]).getId())
               : "variable " + mu::str(std::get<Variable>(cg[d]).getId());
      Set all, matched, unmatched;
      std::visit(
          [&](const auto &v) {
            all = enumerate(v.getIndices());
            matched = enumerate(v.getMatched());
            unmatched = enumerate(v.getUnmatched());
          },
          cg[d]);
      Set either = matched;
      either.insert(unmatched.begin(), unmatched.end());
      if (either != all || matched.size() + unmatched.size() != all.size())
        complain(name + ": matched " + mu::str(matched) + " and unmatched " +
                 mu::str(unmatched) + " are not a partition of " +
                 mu::str(all));
      Set byEdges;
      for (auto e : graph.getOutgoingEdges(d)) {
        const auto &edge = cg[e];
        const Equation &eq = std::get<Equation>(cg[isEq ? e.from : e.to]);
        const Variable &var = std::get<Variable>(cg[isEq ? e.to : e.from]);
        for (Point pe : eq.getIndices())
          for (Point pv : var.getIndices()) {
            bool m = edge.getMatched().get(pe, pv);
            bool u = edge.getUnmatched().get(pe, pv);
            bool i = edge.getIncidenceMatrix().get(pe, pv);
            std::string cell = "edge " + mu::str(eq.getId()) + " - " +
                               mu::str(var.getId()) + " cell " + mu::str(pe) +
                               mu::str(pv);
            if (m && !i)
              complain(cell + " is matched but is not an access");
            if (u != (i && !m))
              complain(cell + ": incidence, matched, unmatched are " +
                       std::to_string(i) + std::to_string(m) +
                       std::to_string(u));
            if (m && !byEdges.insert(tuple(isEq ? pe : pv)).second)
              complain(name + " matched twice at " +
                       mu::str(isEq ? pe : pv));
          }
      }
      if (byEdges != matched)
        complain(name + " says it is matched at " + mu::str(matched) +
                 " but its edges say " + mu::str(byEdges));
    }
  }
};

struct Options {
  marco::modeling::matching::MatchingOptions real;
  bool threads = false;

  std::string text() const {
    std::string s;
    if (real.enableLeafNodesSimplification)
      s += " leaves";
    if (real.enableScalarization)
      s += " scalarization " + std::to_string(real.scalarAccessThreshold);
    if (threads)
      s += " threads";
    return s;
  }
};

Options genOptions(pbt::G &g, int threads) {
  Options o;
  o.real.enableLeafNodesSimplification = g.chance(50);
  o.real.enableScalarization = g.chance(50);
  static const double thresholds[] = {0.5, 0.25, 0.0, 1.0, 0.75, 2.0};
  o.real.scalarAccessThreshold = thresholds[g.draw(6)];
  o.threads = g.chance(threads);
  return o;
}

template <typename Graph>
void fill(Graph &graph, const System &s) {
  for (size_t i = 0; i < s.vars.size(); ++i)
    graph.addVariable(SV{&s, i});
  for (size_t i = 0; i < s.eqs.size(); ++i)
    graph.addEquation(SE{&s, i});
}

struct Outcome {
  bool ok;
  std::vector<std::pair<System::Scalar, System::Scalar>> pairs; // unused
  struct Piece {
    size_t eq, var;
    Set eqPts, varPts;
  };
  std::vector<Piece> pieces;

  std::string text() const {
    std::string s = ok ? "matched" : "not matched";
    for (auto &p : pieces)
      s += "\n  e" + std::to_string(p.eq) + mu::str(p.eqPts, 40) + " -> v" +
           std::to_string(p.var) + mu::str(p.varPts, 40);
    return s;
  }
};

template <typename Graph>
Outcome run(const System &s, const Options &o) {
  au::threaded() = o.threads;
  Outcome r;
  {
    Graph graph(&ctx());
    fill(graph, s);
    llvm::SmallVector<typename Graph::MatchingSolution> solutions;
    r.ok = graph.match(solutions, o.real);
    for (auto &x : solutions)
      r.pieces.push_back({(size_t)x.getEquation(), (size_t)x.getVariable(),
                          enumerate(x.getEquationIndices()),
                          enumerate(x.getVariableIndices())});
  }
  au::threaded() = false;
  return r;
}

using Plain = marco::modeling::MatchingGraph<SV, SE>;

void checkOutcome(pbt::G &g, const System &s, const Outcome &r) {
  if (!r.ok) {
    PBT_REQUIRE(g, r.pieces.empty(), "solutions of a failed matching");
    return;
  }
  std::set<System::Scalar> eqs, vars;
  for (auto &p : r.pieces) {
    PBT_REQUIRE(g, p.eq < s.eqs.size() && p.var < s.vars.size(), "identifiers");
    std::map<System::Scalar, std::set<System::Scalar>> l;
    for (auto &t : p.eqPts) {
      PBT_REQUIRE(g, s.eqs[p.eq].pts.count(t),
                  "e" << p.eq << " has no " << mu::str(t));
      PBT_REQUIRE(g, eqs.insert({p.eq, t}).second,
                  "e" << p.eq << mu::str(t) << " is matched twice");
      auto &x = l[{p.eq, t}];
      for (auto &v : s.accessed(p.eq, t))
        if (v.first == p.var && p.varPts.count(v.second))
          x.insert(v);
    }
    for (auto &t : p.varPts) {
      PBT_REQUIRE(g, s.vars[p.var].pts.count(t),
                  "v" << p.var << " has no " << mu::str(t));
      PBT_REQUIRE(g, vars.insert({p.var, t}).second,
                  "v" << p.var << mu::str(t) << " is matched twice");
    }
    PBT_REQUIRE(g, p.eqPts.size() == p.varPts.size(),
                "sizes of a solution: " << r.text());
    PBT_REQUIRE(g, ScalarMatching(l).ofEq.size() == p.eqPts.size(),
                "accesses of e" << p.eq << " do not lead to the matched "
                                   "elements of v"
                                << p.var << ": " << r.text());
  }
  PBT_REQUIRE(g, eqs.size() == s.numEqs(), "equations left out: " << r.text());
  PBT_REQUIRE(g, vars.size() == s.numVars(), "variables left out: " << r.text());
}

/// The matching is not trivial when some scalar equation has more than one
/// choice and there is more than one array equation.
bool interesting(const System &s) {
  if (s.eqs.size() < 2)
    return false;
  for (auto &l : links(s))
    if (l.second.size() > 1)
      return true;
  return false;
}
} // namespace

PBT_PROP("C10", matches_are_one_to_one, 24000, 300000,
         "at least two array equations, a scalar equation with a choice, and a "
         "successful matching") {
  GenOpts go;
  if (g.chance(60))
    go.perturb = false;
  System s = genSystem(g, go);
  Options o = genOptions(g, 5);
  g.log << s.text() << "options:" << o.text() << "\n";
  bookkeeping.clear();
  Outcome r = run<Probe>(s, o);
  g.log << r.text() << "\n";
  PBT_REQUIRE(g, bookkeeping.empty(), bookkeeping);
  checkOutcome(g, s, r);
  g.label(r.ok ? "matched" : "not matched");
  if (r.ok && interesting(s))
    g.nontrivial();
}

PBT_PROP("C11", verdict, 40000, 400000,
         "at least two array equations, and a scalar equation with a choice") {
  GenOpts go;
  System s = genSystem(g, go);
  Options o = genOptions(g, 3);
  g.log << s.text() << "options:" << o.text() << "\n";
  size_t want = ScalarMatching(links(s)).ofEq.size();
  bool perfect = want == s.numEqs() && want == s.numVars();
  Outcome r = run<Plain>(s, o);
  PBT_REQUIRE(g, r.ok == perfect,
              "perfect scalar matching: " << perfect << ", " << s.numEqs()
                                          << " equations, " << s.numVars()
                                          << " variables, " << want
                                          << " can be matched; " << r.text());
  g.label(perfect ? "perfect" : "not perfect");
  if (interesting(s))
    g.nontrivial();
}

namespace {
/// Moves the next objects elsewhere.
void disturb(pbt::G &g, std::vector<std::unique_ptr<char[]>> &blocks) {
  size_t n = g.range(1, 40);
  for (size_t i = 0; i < n; ++i)
    blocks.emplace_back(new char[16 << g.draw(7)]);
  for (size_t i = 0; i < blocks.size(); i += 2)
    blocks[i].reset();
}
} // namespace

PBT_PROP("C16", repeated_matching, 900, 40000,
         "at least two array equations, a scalar equation with a choice, and a "
         "successful matching") {
  GenOpts go;
  if (g.chance(70))
    go.perturb = false;
  System s = genSystem(g, go);
  Options o = genOptions(g, 0);
  g.log << s.text() << "options:" << o.text() << "\n";
  std::vector<std::unique_ptr<char[]>> blocks;
  Outcome first = run<Plain>(s, o);
  g.log << first.text() << "\n";
  disturb(g, blocks);
  if (g.chance(50)) {
    GenOpts other;
    System t = genSystem(g, other);
    Options oo = genOptions(g, 30);
    run<Plain>(t, oo);
  }
  Outcome second = run<Plain>(s, o);
  PBT_REQUIRE(g, first.text() == second.text(),
              "another result: " << second.text());
  o.threads = true;
  for (size_t n = g.range(1, 3); n; --n) {
    Outcome t = run<Plain>(s, o);
    PBT_REQUIRE(g, t.ok == first.ok, "another verdict with threads");
    checkOutcome(g, s, t);
  }
  g.label(first.ok ? "matched" : "not matched");
  if (first.ok && interesting(s))
    g.nontrivial();
}
