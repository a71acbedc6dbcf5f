// C13: strongly connected components and cycles of matched array equations.
#include "dependency.h"
#include "marco/Modeling/DependencyGraph.h"

using namespace dep;
using Graph = marco::modeling::DependencyGraph<DV, DE>;

namespace {
struct View {
  size_t eq;
  Set pts;
};
using Comp = std::vector<View>;

std::string text(const std::vector<Comp> &cs) {
  std::string s;
  for (auto &c : cs) {
    s += " [";
    for (auto &v : c)
      s += " e" + std::to_string(v.eq) + mu::str(v.pts, 30);
    s += " ]\n";
  }
  return s;
}

void addAll(Graph &graph, const Matched &m) {
  std::vector<DE> es;
  for (size_t i = 0; i < m.s.eqs.size(); ++i)
    es.push_back({&m, i});
  graph.addEquations(es);
}

std::vector<Comp> sccs(const Matched &m) {
  Graph graph(&ctx());
  addAll(graph, m);
  std::vector<Comp> r;
  for (auto &c : graph.getSCCs()) {
    r.emplace_back();
    for (auto &v : c)
      r.back().push_back({graph[*v].i, enumerate(v.getIndices())});
  }
  return r;
}
} // namespace

namespace {
void checkComponents(pbt::G &g, const Matched &m, const std::vector<Comp> &got,
                     bool interesting) {
  auto comp = components(m.needs());
  // A partition of the scalar equations.
  std::map<System::Scalar, size_t> where;
  for (size_t c = 0; c < got.size(); ++c) {
    PBT_REQUIRE(g, !got[c].empty(), "component without equations");
    for (auto &v : got[c]) {
      PBT_REQUIRE(g, !v.pts.empty(), "equation without indices");
      for (auto &p : v.pts) {
        PBT_REQUIRE(g, v.eq < m.s.eqs.size() && m.s.eqs[v.eq].pts.count(p),
                    "e" << v.eq << " has no " << mu::str(p));
        PBT_REQUIRE(g, where.insert({{v.eq, p}, c}).second,
                    "e" << v.eq << mu::str(p) << " is reported twice");
      }
    }
  }
  PBT_REQUIRE(g, where.size() == m.s.numEqs(), "scalar equations left out");

  // The blocks grouped together depend on each other.
  for (auto &c : got) {
    if (c.size() < 2)
      continue;
    std::vector<std::set<System::Scalar>> reads(c.size()), writes(c.size());
    for (size_t i = 0; i < c.size(); ++i)
      for (auto &p : c[i].pts) {
        for (auto &v : m.s.accessed(c[i].eq, p))
          reads[i].insert(v);
        for (auto &v : m.mayWrite(c[i].eq, p))
          writes[i].insert(v);
      }
    std::map<size_t, std::set<size_t>> blocks;
    for (size_t i = 0; i < c.size(); ++i) {
      blocks[i];
      for (size_t j = 0; j < c.size(); ++j)
        for (auto &v : reads[i])
          if (i != j && writes[j].count(v))
            blocks[i].insert(j);
    }
    auto cc = components(blocks);
    for (auto &x : cc)
      PBT_REQUIRE(g, x.second == cc[0],
                  "the blocks of a component are not mutually dependent: e"
                      << c[x.first].eq << mu::str(c[x.first].pts));
  }

  // Scalar equations depending on each other are together.
  std::map<size_t, System::Scalar> first;
  for (auto &x : comp) {
    auto [it, isNew] = first.insert({x.second, x.first});
    if (it->second.first != x.first.first)
      if (interesting)
        g.nontrivial();
    if (!isNew)
      PBT_REQUIRE(g, where[x.first] == where[it->second],
                  "e" << x.first.first << mu::str(x.first.second) << " and e"
                      << it->second.first << mu::str(it->second.second)
                      << " depend on each other but are apart");
  }
}
} // namespace

PBT_PROP("C13", components_are_real, 12000, 150000,
         "some component has more than one scalar equation of different array "
         "equations") {
  MatchOpts o;
  o.gen.sets = true;
  Matched m = genMatched(g, o);
  g.log << m.text();
  auto got = sccs(m);
  g.log << text(got);

  checkComponents(g, m, got, true);
}

PBT_PROP("C13", cycles_are_real, 12000, 150000,
         "a cycle is reported, or scalar equations of different array "
         "equations depend on each other") {
  MatchOpts o;
  o.gen.sets = g.chance(50);
  o.loops = 75;
  Matched m = genMatched(g, o);
  g.log << m.text();
  auto needs = m.needs();
  auto comp = components(needs);
  std::map<size_t, System::Scalar> first;
  bool loop = false;
  for (auto &x : comp) {
    auto it = first.insert({x.second, x.first}).first;
    loop |= it->second.first != x.first.first;
  }

  Graph graph(&ctx());
  addAll(graph, m);
  auto cycles = graph.getEquationsCycles();
  // Which element is written by which index is ambiguous when the elements are
  // accessed in more than one way: a loop may then be followed only in part.
  // The same holds for the reads of more elements at once, because mapping back
  // some of them does not give any index.
  bool ambiguous = o.gen.sets;
  for (size_t e = 0; e < m.s.eqs.size(); ++e)
    for (auto &p : m.s.eqs[e].pts)
      ambiguous |= m.mayWrite(e, p).size() > 1;
  PBT_REQUIRE(g, ambiguous || !loop || !cycles.empty(),
              "array equations depend on each other but there is no cycle");
  if (loop || !cycles.empty())
    g.nontrivial();
  g.label(loop ? "loop" : cycles.empty() ? "no loop" : "loop of blocks only");

  for (auto &c : cycles) {
    std::string t;
    std::set<size_t> eqs;
    for (auto &s : c) {
      size_t e = graph[s.equation].i;
      eqs.insert(e);
      t += " e" + std::to_string(e) + mu::str(s.equationIndices) + " writes v" +
           mu::str(s.writeAccess.getVariable()) +
           mu::str(s.writtenVariableIndices) + " reads v" +
           mu::str(s.readAccess.getVariable()) +
           mu::str(s.readVariableIndices) + ";";
    }
    g.log << "cycle:" << t << "\n";
    PBT_REQUIRE(g, eqs.size() > 1, "cycle of a single array equation:" << t);
    for (size_t i = 0; i < c.size(); ++i) {
      auto &s = c[i];
      size_t e = graph[s.equation].i;
      auto &accs = m.s.eqs[e].accs;
      size_t w = s.writeAccess.getProperty(), r = s.readAccess.getProperty();
      PBT_REQUIRE(g, w < accs.size() && m.isWrite(e, w), "write access");
      PBT_REQUIRE(g, r < accs.size(), "read access");
      PBT_REQUIRE(g, s.writeAccess.getVariable() == (int64_t)accs[w].var &&
                         s.readAccess.getVariable() == (int64_t)accs[r].var,
                  "variables of step " << i << ":" << t);
      Set pts = enumerate(s.equationIndices);
      PBT_REQUIRE(g, !pts.empty(), "step " << i << " has no indices:" << t);
      Set ws, rs;
      for (auto &p : pts) {
        PBT_REQUIRE(g, m.s.eqs[e].pts.count(p),
                    "step " << i << " is outside the equation:" << t);
        auto x = accs[w].fn.image(p), y = accs[r].fn.image(p);
        ws.insert(x.begin(), x.end());
        rs.insert(y.begin(), y.end());
      }
      PBT_REQUIRE(g, enumerate(s.writtenVariableIndices) == ws,
                  "written indices of step " << i << ":" << t);
      Set read = enumerate(s.readVariableIndices);
      PBT_REQUIRE(g, !read.empty(), "step " << i << " reads nothing:" << t);
      for (auto &p : read)
        PBT_REQUIRE(g, rs.count(p),
                    "step " << i << " does not read " << mu::str(p) << ":"
                            << t);
      // What is read is written next.
      auto &n = c[(i + 1) % c.size()];
      PBT_REQUIRE(g, n.writeAccess.getVariable() == s.readAccess.getVariable(),
                  "variable between steps:" << t);
      PBT_REQUIRE(g, n.writtenVariableIndices.overlaps(s.readVariableIndices),
                  "step " << i << " does not read what the next writes:" << t);
    }
  }
}

PBT_PROP("C16", repeated_components, 1500, 40000,
         "some component has more than one scalar equation of different array "
         "equations") {
  MatchOpts o;
  o.gen.sets = true;
  Matched m = genMatched(g, o);
  g.log << m.text();
  auto first = sccs(m);
  g.log << text(first);
  std::vector<std::unique_ptr<char[]>> blocks;
  for (size_t n = g.range(1, 40), i = 0; i < n; ++i)
    blocks.emplace_back(new char[16 << g.draw(7)]);
  for (size_t i = 0; i < blocks.size(); i += 2)
    blocks[i].reset();
  if (g.chance(50))
    sccs(genMatched(g, o));
  auto second = sccs(m);
  PBT_REQUIRE(g, text(first) == text(second), "other components:\n" << text(second));
  for (size_t n = g.range(1, 3); n; --n) {
    au::threaded() = true;
    auto t = sccs(m);
    au::threaded() = false;
    // The threads may find the cycles in another order, and split the
    // equations in other ways.
    g.log << "with threads:\n" << text(t);
    checkComponents(g, m, t, false);
  }
  for (auto &c : first)
    for (auto &v : c)
      if (v.eq != c[0].eq)
        g.nontrivial();
}
