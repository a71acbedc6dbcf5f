// C12: graphs against plain lists of vertices and edges.
#include "marco/Modeling/Graph.h"
#include "marco/Modeling/GraphDumper.h"
#include "pbt.h"

using namespace marco::modeling::internal;

namespace {
// Properties owning memory, so that a wrong lifetime is noticed.
struct VP {
  std::string text;
  int id;
};
struct EP {
  std::string text;
  int id;
};

struct MV {
  int id;
  std::string text;
  bool alive;
};
struct ME {
  int id, from, to;
  std::string text;
};

template <typename Graph, bool Directed>
struct Run {
  pbt::G &g;
  Graph graph;
  std::vector<MV> vs;
  std::vector<ME> es;
  std::vector<typename Graph::VertexDescriptor> vd;
  std::map<int, typename Graph::EdgeDescriptor> ed;

  explicit Run(pbt::G &g) : g(g) {}

  std::vector<int> alive() {
    std::vector<int> r;
    for (auto &v : vs)
      if (v.alive)
        r.push_back(v.id);
    return r;
  }

  static std::string str(const std::multiset<std::string> &s) {
    std::string r = "{";
    for (auto &x : s)
      r += x + " ";
    return r + "}";
  }

  void same(const std::string &what, const std::multiset<std::string> &got,
            const std::multiset<std::string> &want) {
    PBT_REQUIRE(g, got == want,
                what << ": " << str(got) << " instead of " << str(want));
  }

  std::string edgeText(int from, int to, int id, const std::string &t) {
    if (!Directed && from > to)
      std::swap(from, to);
    return std::to_string(from) + "-" + std::to_string(to) + ":" +
           std::to_string(id) + t;
  }

  template <typename D>
  std::string real(const D &e) {
    const Graph &cg = graph;
    return edgeText(cg[e.from].id, cg[e.to].id, cg[e].id, cg[e].text);
  }

  void check() {
    const Graph &cg = graph;
    PBT_REQUIRE(g, graph.verticesCount() == alive().size(), "vertices count");
    PBT_REQUIRE(g, graph.edgesCount() == es.size(),
                "edges count " << graph.edgesCount() << " instead of "
                               << es.size());
    auto even = [](const VP &p) { return p.id % 2 == 0; };
    auto third = [](const EP &p) { return p.id % 3 == 0; };
    std::multiset<std::string> want, wantEven, got, gotEven;
    for (auto &v : vs)
      if (v.alive) {
        want.insert(std::to_string(v.id) + v.text);
        if (v.id % 2 == 0)
          wantEven.insert(std::to_string(v.id) + v.text);
      }
    for (auto d : graph.getVertices())
      got.insert(std::to_string(cg[d].id) + cg[d].text);
    for (auto d : llvm::make_range(graph.verticesBegin(even),
                                   graph.verticesEnd(even)))
      gotEven.insert(std::to_string(cg[d].id) + cg[d].text);
    same("vertices", got, want);
    same("filtered vertices", gotEven, wantEven);

    std::multiset<std::string> we, wt, ge, gt;
    for (auto &e : es) {
      we.insert(edgeText(e.from, e.to, e.id, e.text));
      if (e.id % 3 == 0)
        wt.insert(edgeText(e.from, e.to, e.id, e.text));
    }
    for (auto d : graph.getEdges())
      ge.insert(real(d));
    for (auto d : llvm::make_range(graph.edgesBegin(third), graph.edgesEnd(third)))
      gt.insert(real(d));
    same("edges", ge, we);
    same("filtered edges", gt, wt);

    for (auto &v : vs) {
      if (!v.alive)
        continue;
      auto d = vd[v.id];
      PBT_REQUIRE(g, cg[d].id == v.id && cg[d].text == v.text,
                  "property through the descriptor of vertex " << v.id);
      std::multiset<std::string> wo, wof, wl, wlf, go, gof, gl, glf;
      for (auto &e : es) {
        std::vector<int> ends;
        if (e.from == v.id)
          ends.push_back(e.to);
        else if (!Directed && e.to == v.id)
          ends.push_back(e.from);
        for (int o : ends) {
          wo.insert(edgeText(e.from, e.to, e.id, e.text));
          if (e.id % 3 == 0)
            wof.insert(edgeText(e.from, e.to, e.id, e.text));
          wl.insert(std::to_string(o));
          if (o % 2 == 0)
            wlf.insert(std::to_string(o));
        }
      }
      for (auto e : graph.getOutgoingEdges(d)) {
        PBT_REQUIRE(g, e.from == d, "source of an outgoing edge");
        go.insert(real(e));
      }
      for (auto e : graph.getOutgoingEdges(d, third))
        gof.insert(real(e));
      for (auto l : graph.getLinkedVertices(d))
        gl.insert(std::to_string(cg[l].id));
      for (auto l : graph.getLinkedVertices(d, even))
        glf.insert(std::to_string(cg[l].id));
      std::string n = " of " + std::to_string(v.id);
      same("outgoing edges" + n, go, wo);
      same("filtered outgoing edges" + n, gof, wof);
      same("linked vertices" + n, gl, wl);
      same("filtered linked vertices" + n, glf, wlf);
    }
    for (auto &e : es)
      PBT_REQUIRE(g, real(ed[e.id]) == edgeText(e.from, e.to, e.id, e.text),
                  "property through the descriptor of edge " << e.id);
    // Descriptors: equality, ordering, use as keys.
    llvm::DenseSet<typename Graph::VertexDescriptor> keys;
    for (auto d : graph.getVertices())
      PBT_REQUIRE(g, keys.insert(d).second, "vertex descriptors coincide");
    for (auto &v : vs)
      if (v.alive) {
        PBT_REQUIRE(g, keys.contains(vd[v.id]), "descriptor of " << v.id);
        for (auto &w : vs)
          if (w.alive) {
            PBT_REQUIRE(g, (vd[v.id] == vd[w.id]) == (v.id == w.id) &&
                               (vd[v.id] != vd[w.id]) == (v.id != w.id),
                        "equality of descriptors");
            PBT_REQUIRE(g, !(vd[v.id] < vd[w.id] && vd[w.id] < vd[v.id]) &&
                               (v.id == w.id || vd[v.id] < vd[w.id] ||
                                vd[w.id] < vd[v.id]),
                        "ordering of descriptors");
          }
      }
  }

  void operator()() {
    size_t ops = g.range(2, g.thorough ? 60 : 30);
    int nextE = 0;
    size_t removed = 0, edgesSeen = 0;
    for (size_t i = 0; i < ops; ++i) {
      auto a = alive();
      switch (a.empty() ? 0 : g.weighted({5, 10, 2, 2, 2})) {
      case 0: {
        int id = vs.size();
        std::string t = "vertex property number " + std::to_string(id);
        vs.push_back({id, t, true});
        vd.push_back(graph.addVertex(VP{t, id}));
        g.log << "add vertex " << id << "\n";
        break;
      }
      case 1: {
        int u = g.pick(a), v = g.pick(a);
        int id = nextE++;
        std::string t = "edge property number " + std::to_string(id);
        g.log << "add edge " << id << ": " << u << " " << v << "\n";
        auto d = graph.addEdge(vd[u], vd[v], EP{t, id});
        PBT_REQUIRE(g, d.from == vd[u] && d.to == vd[v], "new descriptor");
        ed[id] = d;
        es.push_back({id, u, v, t});
        ++edgesSeen;
        break;
      }
      case 2: {
        int u = g.pick(a);
        g.log << "remove vertex " << u << "\n";
        size_t before = es.size();
        graph.removeVertex(vd[u]);
        vs[u].alive = false;
        std::vector<ME> rest;
        for (auto &e : es)
          if (e.from != u && e.to != u)
            rest.push_back(e);
        es = rest;
        removed += es.size() < before;
        break;
      }
      case 3: {
        int u = g.pick(a);
        g.log << "change vertex " << u << "\n";
        vs[u].text += "'";
        graph[vd[u]].text += "'";
        break;
      }
      default:
        if (es.empty())
          break;
        {
          auto &e = es[g.draw(es.size())];
          g.log << "change edge " << e.id << "\n";
          e.text += "'";
          graph[ed[e.id]].text += "'";
        }
      }
      check();
    }
    if (edgesSeen >= 3 && removed)
      g.nontrivial();
  }
};
} // namespace

PBT_PROP("C12", directed_history, 30000, 600000,
         "at least three edges, and a vertex with edges was removed") {
  Run<DirectedGraph<VP, EP>, true> r(g);
  r();
}

PBT_PROP("C12", undirected_history, 30000, 600000,
         "at least three edges, and a vertex with edges was removed") {
  Run<UndirectedGraph<VP, EP>, false> r(g);
  r();
}

// The diagram shows every vertex once, under its own identifier, and every
// edge once between the identifiers of its ends.
template <typename Graph, bool Directed>
static void diagram(pbt::G &g) {
  Graph graph;
  std::vector<typename Graph::VertexDescriptor> vd;
  // Identifiers change length after 26 and after 702 vertices.
  size_t n = g.weighted({10, 6, 1}) == 0   ? g.range(0, 8)
             : g.chance(90) ? g.range(20, 60)
                            : g.range(695, 720);
  for (size_t i = 0; i < n; ++i)
    vd.push_back(graph.addVertex(VP{"", (int)i}));
  std::vector<bool> removed(n, false);
  std::vector<std::pair<int, int>> ends;
  size_t m = n ? g.range(0, 12) : 0;
  for (size_t i = 0; i < m; ++i) {
    int u = g.draw(n), v = g.draw(n);
    ends.push_back({u, v});
    graph.addEdge(vd[u], vd[v], EP{"", (int)i});
  }
  if (n && g.chance(40)) {
    int u = g.draw(n);
    graph.removeVertex(vd[u]);
    removed[u] = true;
  }
  bool edgeNames = g.chance(60);
  g.log << n << " vertices, edges";
  for (auto &e : ends)
    g.log << " " << e.first << "-" << e.second;
  for (size_t i = 0; i < n; ++i)
    if (removed[i])
      g.log << ", removed " << i;
  g.log << (edgeNames ? ", with" : ", without") << " edge names\n";
  auto vp = [](const VP &v, llvm::raw_ostream &os) { os << "v" << v.id; };
  auto ep = [](const EP &e, llvm::raw_ostream &os) { os << "e" << e.id; };
  std::string out[2];
  if (edgeNames) {
    GraphDumper<> d(&graph, vp, ep);
    for (auto &o : out) {
      llvm::raw_string_ostream os(o);
      d.dump(os);
    }
  } else {
    GraphDumper<> d(&graph, vp);
    for (auto &o : out) {
      llvm::raw_string_ostream os(o);
      d.dump(os);
    }
  }
  PBT_REQUIRE(g, out[0] == out[1], "dumping twice");
  std::map<std::string, int> ids;
  std::set<int> shown;
  std::multiset<std::string> edges, want;
  std::istringstream in(out[0]);
  std::string line;
  while (std::getline(in, line)) {
    size_t dash = line.find(" --");
    if (dash == std::string::npos) {
      size_t b = line.find("(\"v");
      PBT_REQUIRE(g, b != std::string::npos && b > 0, "vertex line " << line);
      std::string id = line.substr(0, b);
      for (char c : id)
        PBT_REQUIRE(g, c >= 'A' && c <= 'Z', "identifier in " << line);
      int v = atoi(line.c_str() + b + 3);
      PBT_REQUIRE(g, line == id + "(\"v" + std::to_string(v) + "\")", line);
      PBT_REQUIRE(g, ids.emplace(id, v).second, "identifier used twice " << id);
      PBT_REQUIRE(g, shown.insert(v).second, "vertex shown twice " << v);
    } else {
      size_t gt = line.find("> ", dash);
      PBT_REQUIRE(g, gt != std::string::npos, "edge line " << line);
      auto a = ids.find(line.substr(0, dash)), b = ids.find(line.substr(gt + 2));
      PBT_REQUIRE(g, a != ids.end() && b != ids.end(),
                  "end of an edge is not a vertex: " << line);
      int u = a->second, v = b->second;
      if (!Directed && u > v)
        std::swap(u, v);
      edges.insert(std::to_string(u) + "-" + std::to_string(v) +
                   line.substr(dash, gt - dash));
    }
  }
  std::set<int> wantV;
  for (size_t i = 0; i < n; ++i)
    if (!removed[i])
      wantV.insert(i);
  PBT_REQUIRE(g, shown == wantV, "vertices shown: " << shown.size());
  for (size_t i = 0; i < ends.size(); ++i) {
    auto [u, v] = ends[i];
    if (removed[u] || removed[v])
      continue;
    if (!Directed && u > v)
      std::swap(u, v);
    want.insert(std::to_string(u) + "-" + std::to_string(v) + " --" +
                (edgeNames ? "\"e" + std::to_string(i) + "\"--" : ""));
  }
  PBT_REQUIRE(g, edges == want, "edges of the diagram\n" << out[0]);
  if (want.size() >= 2)
    g.nontrivial();
}

PBT_PROP("C12", diagrams, 12000, 200000, "at least two edges shown") {
  if (g.chance(50))
    diagram<DirectedGraph<VP, EP>, true>(g);
  else
    diagram<UndirectedGraph<VP, EP>, false>(g);
}
