// C04: the spatial index against a linear scan, and its shape.
#include "marco/Modeling/RTree.h"
#include "modeling_util.h"

using namespace mu;

namespace {
struct Obj {
  int64_t id;
  Bounds where;
};
bool operator<(const Obj &a, const Obj &b) {
  return a.id != b.id ? a.id < b.id : a.where < b.where;
}
bool operator==(const Obj &a, const Obj &b) { return a.id == b.id && a.where == b.where; }
} // namespace

namespace marco::modeling {
template <>
struct RTreeInfo<Obj> {
  static MultidimensionalRange getShape(const Obj &o) { return box(o.where); }
  static bool isEqual(const Obj &a, const Obj &b) { return a == b; }
};
} // namespace marco::modeling

namespace {
using marco::modeling::RTree;
using marco::modeling::r_tree::impl::RTreeCRTP;

/// A tree with its own limits of the nodes' occupancy.
struct Tree : public RTreeCRTP<Tree, Obj> {
  using Base = RTreeCRTP<Tree, Obj>;
  using Base::Base;
  using NodeT = Base::Node;
  auto begin() const { return this->objectsBegin(); }
  auto end() const { return this->objectsEnd(); }
  const NodeT *top() const { return this->getRoot(); }
};

struct SetTree : public IndexSet {
  using NodeT = IndexSet::Node;
  using IndexSet::IndexSet;
  const NodeT *top() const { return this->getRoot(); }
};

std::string str(const Obj &o) { return "#" + std::to_string(o.id) + mu::str(o.where); }

bool overlap(const Bounds &a, const Bounds &b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].second <= b[i].first || b[i].second <= a[i].first)
      return false;
  return true;
}

struct Shape {
  size_t depth = 0, objects = 0;
};

template <typename N>
Bounds shape(pbt::G &g, const N *node, const N *parent, size_t depth, size_t min, size_t max, Shape &s) {
  PBT_REQUIRE(g, node->getParent() == parent, "parent link at depth " << depth);
  Bounds around;
  auto grow = [&](const Bounds &b) {
    if (around.empty())
      around = b;
    for (size_t i = 0; i < b.size(); ++i) {
      around[i].first = std::min(around[i].first, b[i].first);
      around[i].second = std::max(around[i].second, b[i].second);
    }
  };
  size_t n = node->children.empty() ? node->objects.size() : node->children.size();
  PBT_REQUIRE(g, node->children.empty() || node->objects.empty(), "objects in an inner node");
  PBT_REQUIRE(g, n <= max, n << " elements in a node of at most " << max);
  PBT_REQUIRE(g, n >= (parent ? min : 1), n << " elements in a node of at least " << min << " at depth " << depth);
  if (node->children.empty()) {
    if (!s.depth)
      s.depth = depth;
    PBT_REQUIRE(g, s.depth == depth, "leaves at depths " << s.depth << " and " << depth);
    s.objects += n;
    for (auto &o : node->objects)
      grow(bounds(o.getBoundary()));
  } else {
    for (auto &c : node->children)
      grow(shape(g, static_cast<const N *>(c.get()), node, depth + 1, min, max, s));
  }
  PBT_REQUIRE(g, bounds(node->getBoundary()) == around,
              "bounding box " << mu::str(bounds(node->getBoundary())) << " instead of " << mu::str(around)
                              << " at depth " << depth);
  return around;
}

struct World {
  size_t rank;
  int64_t side, origin;
  Bounds randomBox(pbt::G &g, int64_t maxLen) {
    Bounds b;
    for (size_t i = 0; i < rank; ++i) {
      int64_t s = g.range(0, side - 1);
      int64_t n = g.range(1, std::max<int64_t>(1, std::min(maxLen, side - s)));
      b.emplace_back(origin + s, origin + s + n);
    }
    return b;
  }
};

template <typename T>
void checkAgainst(pbt::G &g, const T &t, const std::vector<Obj> &model) {
  std::vector<Obj> got;
  for (auto it = t.begin(), e = t.end(); it != e; ++it) {
    got.push_back(*it);
    PBT_REQUIRE(g, got.size() <= model.size(), "enumeration longer than the " << model.size() << " objects");
  }
  std::vector<Obj> want = model;
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  PBT_REQUIRE(g, got == want, "enumeration of " << got.size() << " objects instead of the " << want.size() << " stored");
  PBT_REQUIRE(g, t.size() == model.size(), "size " << t.size());
  PBT_REQUIRE(g, t.empty() == model.empty(), "emptiness");
}

template <typename T>
void queries(pbt::G &g, T &t, const std::vector<Obj> &model, World &w) {
  Bounds q = g.chance(20) && !model.empty() ? g.pick(model).where : w.randomBox(g, g.chance(50) ? 3 : w.side);
  std::vector<Obj> got, got2, want;
  const T &c = t;
  c.walkOverlappingObjects(box(q), [&](const Obj &o) { got.push_back(o); });
  t.walkOverlappingObjects(box(q), [&](Obj &o) { got2.push_back(o); });
  for (auto &o : model)
    if (overlap(o.where, q))
      want.push_back(o);
  std::sort(got.begin(), got.end());
  std::sort(got2.begin(), got2.end());
  std::sort(want.begin(), want.end());
  PBT_REQUIRE(g, got == want, "walk of " << mu::str(q) << ": " << got.size() << " objects instead of " << want.size());
  PBT_REQUIRE(g, got2 == want, "mutable walk of " << mu::str(q) << ": " << got2.size());
  Obj o{g.range(0, 30), w.randomBox(g, 4)};
  if (!model.empty() && g.chance(70)) {
    o = g.pick(model);
    if (g.chance(30))
      o.id += 1;
  }
  bool has = std::find(model.begin(), model.end(), o) != model.end();
  PBT_REQUIRE(g, t.contains(o) == has, "contains " << str(o));
}

template <typename T>
void run(pbt::G &g, T (*make)(), size_t min, size_t max, size_t maxBulk) {
  World w;
  w.rank = g.range(1, 3);
  w.side = w.rank == 1 ? 60 : w.rank == 2 ? 16 : 8;
  w.origin = g.chance(10) ? g.around(-1000000, 1000000) : 0;
  if (g.chance(5))
    w.side *= 200000; // large boxes: volumes beyond 32 bits
  g.log << "rank " << w.rank << " side " << w.side << " nodes " << min << ".." << max;
  T trees[2] = {make(), make()};
  std::vector<Obj> models[2];
  int64_t next = 0;
  size_t deepest = 0, removed = 0;
  size_t steps = g.range(1, 14);
  for (size_t k = 0; k < steps; ++k) {
    size_t i = g.draw(2);
    T &t = trees[i];
    auto &m = models[i];
    g.log << "; T" << i;
    switch (g.weighted({5, 6, 4, 5, 4, 2, 2, 2, 1})) {
    case 0: {
      Obj o{g.chance(80) ? next++ : g.range(0, 3), w.randomBox(g, 4)};
      g.log << "+=" << str(o);
      t.insert(o);
      m.push_back(o);
      break;
    }
    case 1: { // many
      size_t n = g.range(2, maxBulk);
      g.log << "+=" << n << "{";
      bool sorted = g.chance(30);
      for (size_t j = 0; j < n; ++j) {
        Obj o{next++, w.randomBox(g, sorted ? 1 : 5)};
        if (sorted)
          o.where[0] = {w.origin + (int64_t)j, w.origin + (int64_t)j + 1};
        g.log << str(o) << " ";
        t.insert(o);
        m.push_back(o);
      }
      g.log << "}";
      break;
    }
    case 2: { // one stored, or a stranger
      Obj o{g.range(0, 30), w.randomBox(g, 3)};
      if (!m.empty() && g.chance(85))
        o = g.pick(m);
      g.log << "-=" << str(o);
      t.remove(o);
      m.erase(std::remove(m.begin(), m.end(), o), m.end());
      ++removed;
      break;
    }
    case 3: { // all those in a region, one by one
      Bounds q = w.randomBox(g, w.side);
      g.log << "-=in" << mu::str(q);
      std::vector<Obj> del;
      for (auto &o : m)
        if (overlap(o.where, q))
          del.push_back(o);
      for (auto &o : del) {
        t.remove(o);
        m.erase(std::remove(m.begin(), m.end(), o), m.end());
        ++removed;
      }
      break;
    }
    case 4: { // most of them, in a random order
      size_t n = m.empty() ? 0 : g.range(0, m.size());
      g.log << "-=" << n << "{";
      for (size_t j = 0; j < n && !m.empty(); ++j) {
        Obj o = g.pick(m);
        g.log << str(o) << " ";
        t.remove(o);
        m.erase(std::remove(m.begin(), m.end(), o), m.end());
        ++removed;
      }
      g.log << "}";
      break;
    }
    case 5: // all the objects of the other tree
      g.log << "+=T" << 1 - i;
      if (m.size() + models[1 - i].size() > 600)
        break;
      t.insert(trees[1 - i]);
      m.insert(m.end(), models[1 - i].begin(), models[1 - i].end());
      break;
    case 6: {
      g.log << "-=T" << 1 - i;
      t.remove(trees[1 - i]);
      for (auto &o : models[1 - i])
        m.erase(std::remove(m.begin(), m.end(), o), m.end());
      break;
    }
    case 7:
      g.log << "=T" << 1 - i;
      if (g.chance(50)) {
        const T &other = trees[1 - i];
        t = other;
      } else {
        T copy(trees[1 - i]);
        t = std::move(copy);
      }
      m = models[1 - i];
      break;
    case 8:
      g.log << " clear";
      t.clear();
      m.clear();
      break;
    }
    for (int j = 0; j < 2; ++j) {
      checkAgainst(g, trees[j], models[j]);
      if constexpr (std::is_same_v<T, Tree>) {
        Shape s;
        if (auto *top = trees[j].top())
          shape(g, top, (const Tree::NodeT *)nullptr, 1, min, max, s);
        PBT_REQUIRE(g, s.objects == models[j].size(), "objects in the leaves");
        deepest = std::max(deepest, s.depth);
      }
    }
    for (int j = 0; j < 2; ++j)
      queries(g, t, m, w);
    bool sub = true, sup = true;
    for (auto &o : models[0])
      sub &= std::find(models[1].begin(), models[1].end(), o) != models[1].end();
    for (auto &o : models[1])
      sup &= std::find(models[0].begin(), models[0].end(), o) != models[0].end();
    PBT_REQUIRE(g, trees[1].contains(trees[0]) == sub, "containment of a tree");
    PBT_REQUIRE(g, trees[0].contains(trees[1]) == sup, "containment of a tree");
  }
  if (removed && (deepest > 1 || models[0].size() + models[1].size() > max))
    g.nontrivial();
  g.label("depth " + std::to_string(deepest));
}

size_t gMin, gMax;
Tree makeTree() { return Tree(gMin, gMax); }
RTree<Obj> makeRTree() { return RTree<Obj>(); }
} // namespace

PBT_PROP("C04", tree_history, 30000, 2000000,
         "history of insertions and removals of boxed objects in trees with 1-4 to 2-16 elements per node; "
         "non-trivial: the tree had more than one level and objects were removed") {
  static const std::pair<size_t, size_t> sizes[] = {{4, 16}, {1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 6}, {4, 8}};
  auto s = sizes[g.draw(7)];
  gMin = s.first;
  gMax = s.second;
  run<Tree>(g, makeTree, gMin, gMax, gMax > 8 ? 90 : 30);
}

PBT_PROP("C04", default_tree_history, 6000, 400000,
         "as tree_history, on the public tree type with its default limits and up to some hundred objects") {
  run<RTree<Obj>>(g, makeRTree, 4, 16, 120);
}

PBT_PROP("C04", set_tree_shape, 30000, 2000000,
         "shape of the tree of an index set after constructions, insertions and removals of boxes; non-trivial: "
         "more than one level") {
  World w;
  w.rank = g.range(1, 3);
  w.side = w.rank == 1 ? 300 : w.rank == 2 ? 24 : 9;
  w.origin = 0;
  size_t min = 4, max = 16;
  SetTree s;
  if (g.chance(40)) {
    static const std::pair<size_t, size_t> sizes[] = {{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 6}, {4, 8}};
    auto p = sizes[g.draw(6)];
    min = p.first;
    max = p.second;
    s = SetTree(min, max);
  }
  g.log << "rank " << w.rank << " nodes " << min << ".." << max;
  size_t steps = g.range(1, 8), deepest = 0;
  Set model;
  for (size_t k = 0; k < steps; ++k) {
    switch (g.draw(3)) {
    case 0: {
      size_t n = g.range(1, 150);
      g.log << "; =" << n << " boxes{";
      std::vector<Bounds> v;
      llvm::SmallVector<MultidimensionalRange> rs;
      model.clear();
      for (size_t i = 0; i < n; ++i) {
        v.push_back(w.randomBox(g, 2));
        g.log << mu::str(v.back()) << " ";
        rs.push_back(box(v.back()));
        addTuples(model, v.back());
      }
      g.log << "}";
      s.setFromRanges(rs);
      break;
    }
    case 1: {
      size_t n = g.range(1, 40);
      g.log << "; +=" << n << " boxes{";
      for (size_t i = 0; i < n; ++i) {
        Bounds b = w.randomBox(g, 2);
        g.log << mu::str(b) << " ";
        s += box(b);
        addTuples(model, b);
      }
      g.log << "}";
      break;
    }
    default: {
      Bounds b = w.randomBox(g, w.side);
      for (auto &d : b)
        if (g.chance(30))
          d = {0, w.side};
      g.log << "; -=" << mu::str(b);
      s -= box(b);
      for (auto &t : tuples(b))
        model.erase(t);
      break;
    }
    }
    Shape sh;
    if (auto *top = s.top())
      shape(g, top, (const SetTree::NodeT *)nullptr, 1, min, max, sh);
    deepest = std::max(deepest, sh.depth);
    Set got;
    for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
      addTuples(got, bounds(*it));
    PBT_REQUIRE(g, got == model, "points");
  }
  if (deepest > 1)
    g.nontrivial();
  g.label("depth " + std::to_string(deepest));
}
