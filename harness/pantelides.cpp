// C15: index reduction of array systems against a scalar reference.

// MARCO uses a method which the containers of the LLVM installed here lack.
#define MapVector MapVectorWithoutArrayRef
#include "llvm/ADT/MapVector.h"
#undef MapVector
#include "llvm/ADT/ArrayRef.h"
namespace llvm {
template <typename K, typename V, typename M = DenseMap<K, unsigned>,
          typename S = SmallVector<std::pair<K, V>, 0>>
struct MapVector : MapVectorWithoutArrayRef<K, V, M, S> {
  ArrayRef<std::pair<K, V>> getArrayRef() const {
    return ArrayRef<std::pair<K, V>>(this->begin(), this->end());
  }
};
} // namespace llvm

#include "systems.h"
#include "marco/Modeling/Pantelides.h"

using namespace sys;

namespace {
/// A variable of the client: the derivative of order `order` of a family.
struct PV {
  size_t family;
  size_t order;
  int64_t id;
  Bounds shape;
  Set derived; // elements whose derivative is another variable
  PV *derivative = nullptr;
};

/// An equation of the client.
struct PE {
  size_t origin;
  size_t order;
  int64_t id;
  Bounds hull;
  Set pts;
  Set derived;
  PE *derivative = nullptr;
  std::vector<std::pair<PV *, const Acc *>> accs;
};
} // namespace

namespace marco::modeling::matching {
template <>
struct VariableTraits<PV *> {
  using Id = int64_t;
  static Id getId(PV *const *v) { return (*v)->id; }
  static size_t getRank(PV *const *v) { return (*v)->shape.size(); }
  static IndexSet getIndices(PV *const *v) {
    return IndexSet(box((*v)->shape));
  }
  static llvm::raw_ostream &dump(PV *const *v, llvm::raw_ostream &os) {
    return os << "v" << (*v)->id;
  }
};

template <>
struct EquationTraits<PE *> {
  using Id = int64_t;
  using VariableType = PV *;
  static Id getId(PE *const *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(PE *const *e) {
    return (*e)->hull.size();
  }
  static IndexSet getIndices(PE *const *e) {
    return realBoxes((*e)->hull, (*e)->pts);
  }
  static std::vector<Access<int64_t>> getAccesses(PE *const *e) {
    std::vector<Access<int64_t>> r;
    for (auto &a : (*e)->accs)
      r.emplace_back(a.first->id, sys::build(*a.second));
    return r;
  }
  static llvm::raw_ostream &dump(PE *const *e, llvm::raw_ostream &os) {
    return os << "e" << (*e)->id;
  }
};
} // namespace marco::modeling::matching

namespace {
using Graph =
    marco::modeling::internal::pantelides::PantelidesGraph<PV *, PE *>;
using Scalar = System::Scalar;

/// The scalar algorithm. Every scalar equation is differentiated until it can
/// be matched to a derivative of the highest order.
struct Reference {
  using At = std::pair<Scalar, int>; // element, order
  std::map<Scalar, int> eq, var;     // orders
  const std::map<Scalar, std::map<Scalar, int>> &sigma;
  std::map<Scalar, Scalar> match; // of variables
  bool tooDeep = false;

  bool augment(const Scalar &e, std::set<Scalar> &eqs, std::set<Scalar> &vars) {
    eqs.insert(e);
    std::vector<Scalar> later;
    for (auto &[v, s] : sigma.at(e))
      if (s + eq[e] == var[v] && !vars.count(v)) {
        vars.insert(v);
        auto it = match.find(v);
        if (it == match.end() || augment(it->second, eqs, vars)) {
          match[v] = e;
          return true;
        }
      }
    return false;
  }

  Reference(const std::map<Scalar, std::map<Scalar, int>> &sigma,
            const std::map<Scalar, int> &orders)
      : var(orders), sigma(sigma) {
    for (auto &[e, l] : sigma)
      eq[e] = 0;
    for (auto &[e, l] : sigma)
      while (true) {
        std::set<Scalar> eqs, vars;
        if (augment(e, eqs, vars))
          break;
        for (auto &x : eqs)
          if (++eq[x] > 4) {
            tooDeep = true;
            return;
          }
        for (auto &v : vars)
          ++var[v];
      }
  }
};

struct Client {
  pbt::G &g;
  System s; // the families and the accesses to them
  std::vector<std::unique_ptr<PV>> vars;
  std::vector<std::unique_ptr<PE>> eqs;
  size_t callbacks = 0, extended = 0;

  explicit Client(pbt::G &g) : g(g) {}

  PV *addVariable(size_t family, size_t order) {
    auto v = std::make_unique<PV>();
    v->family = family;
    v->order = order;
    v->id = vars.size();
    v->shape = s.vars[family].shape;
    vars.push_back(std::move(v));
    return vars.back().get();
  }

  static std::string name(const PV *v) {
    return "v" + std::to_string(v->family) + std::string(v->order, '\'');
  }
  static std::string name(const PE *e) {
    return "e" + std::to_string(e->origin) + std::string(e->order, '\'');
  }

  std::string text() const {
    std::string r;
    for (auto &v : vars) {
      r += name(v.get()) + " " + mu::str(v->shape);
      if (v->derivative)
        r += ", derivatives of " + mu::str(v->derived, 40);
      r += "\n";
    }
    for (auto &e : eqs) {
      r += name(e.get()) + " for " + mu::str(e->hull);
      if (e->pts.size() != tuples(e->hull).size())
        r += " only " + mu::str(e->pts, 40);
      r += ":";
      for (auto &a : e->accs)
        r += " " + name(a.first) + "{" + a.second->fn.text() + "}";
      r += "\n";
    }
    return r;
  }

  PV *differentiate(PV *v, const IndexSet &indices) {
    if (++callbacks > 500)
      g.fail("the reduction does not end");
    Set pts = enumerate(indices);
    g.log << "der " << name(v) << " " << mu::str(pts, 40) << "\n";
    PBT_REQUIRE(g, !pts.empty(), "no index to be differentiated");
    for (auto &p : pts) {
      if (!tuples(v->shape).count(p))
        g.fail("index " + mu::str(p) + " is outside of " + name(v));
      if (!v->derived.insert(p).second)
        g.fail(name(v) + mu::str(p) + " is differentiated twice");
    }
    if (!v->derivative)
      v->derivative = addVariable(v->family, v->order + 1);
    return v->derivative;
  }

  PE *differentiate(PE *e, const IndexSet &indices) {
    if (++callbacks > 500)
      g.fail("the reduction does not end");
    Set pts = enumerate(indices);
    g.log << "der " << name(e) << " " << mu::str(pts, 40) << "\n";
    PBT_REQUIRE(g, !pts.empty(), "no index to be differentiated");
    for (auto &p : pts) {
      if (!e->pts.count(p))
        g.fail("index " + mu::str(p) + " is outside of " + name(e));
      if (!e->derived.insert(p).second)
        g.fail(name(e) + mu::str(p) + " is differentiated twice");
    }
    if (e->derivative) {
      ++extended;
      e->derivative->pts.insert(pts.begin(), pts.end());
      return e->derivative;
    }
    auto d = std::make_unique<PE>();
    d->origin = e->origin;
    d->order = e->order + 1;
    d->id = eqs.size();
    d->hull = e->hull;
    d->pts = pts;
    for (auto &a : e->accs) {
      d->accs.push_back(a);
      if (!a.first->derivative)
        g.fail(name(e) + " is differentiated before " + name(a.first));
      std::pair<PV *, const Acc *> to{a.first->derivative, a.second};
      if (std::find(d->accs.begin(), d->accs.end(), to) == d->accs.end())
        d->accs.push_back(to);
    }
    e->derivative = d.get();
    eqs.push_back(std::move(d));
    return e->derivative;
  }
};
} // namespace

PBT_PROP("C15", reduction, 6000, 300000,
         "at least one equation is differentiated") {
  Client c(g);
  GenOpts o;
  o.masks = false;
  o.perturb = g.chance(20);
  o.maxScalars = 10;
  c.s = genSystem(g, o);
  if (c.s.vars.empty() || c.s.eqs.empty())
    g.discard();
  for (auto &v : c.s.vars)
    if (v.pts != tuples(v.shape))
      v.pts = tuples(v.shape);

  // The variables, and the derivatives existing from the beginning.
  std::vector<std::vector<PV *>> family(c.s.vars.size());
  for (size_t i = 0; i < c.s.vars.size(); ++i)
    family[i].push_back(c.addVariable(i, 0));
  std::map<Scalar, std::map<Scalar, int>> sigma;
  std::map<Scalar, int> orders;
  for (size_t i = 0; i < c.s.eqs.size(); ++i) {
    auto e = std::make_unique<PE>();
    e->origin = i;
    e->order = 0;
    e->id = i;
    e->hull = c.s.eqs[i].hull;
    e->pts = c.s.eqs[i].pts;
    for (auto &a : c.s.eqs[i].accs) {
      size_t order = g.weighted({6, 5, 1});
      for (size_t k = family[a.var].size(); k <= order; ++k)
        family[a.var].push_back(c.addVariable(a.var, k));
      e->accs.push_back({family[a.var][order], &a});
      for (auto &p : e->pts) {
        sigma[{i, p}];
        for (auto &t : a.fn.image(p)) {
          auto [it, added] = sigma[{i, p}].insert({{a.var, t}, order});
          it->second = std::max<int>(it->second, order);
          auto &h = orders[{a.var, t}];
          h = std::max<int>(h, order);
        }
      }
    }
    for (auto &p : e->pts)
      sigma[{i, p}];
    c.eqs.push_back(std::move(e));
  }
  for (auto &[v, h] : orders)
    for (int k = 0; k < h; ++k) {
      family[v.first][k]->derivative = family[v.first][k + 1];
      family[v.first][k]->derived.insert(v.second);
    }
  for (auto &f : family)
    for (size_t k = 0; k + 1 < f.size(); ++k)
      if (f[k]->derived.empty())
        g.discard(); // an equation without elements accesses the derivative

  // Only the systems which differentiation makes solvable.
  std::map<Scalar, std::set<Scalar>> all;
  for (auto &[e, l] : sigma)
    for (auto &[v, k] : l)
      all[e].insert(v);
  if (all.size() != sigma.size() ||
      ScalarMatching(all).ofEq.size() != sigma.size())
    g.discard();
  Reference ref(sigma, orders);
  if (ref.tooDeep)
    g.discard();

  g.log << c.text();
  for (auto &[e, k] : ref.eq)
    if (k)
      g.log << "expected: e" << e.first << mu::str(e.second) << " differentiated " << k
            << " times\n";
  bool solvable = true;
  for (auto &[e, k] : ref.eq)
    solvable &= k == 0;
  if (!solvable)
    g.nontrivial();

  bool threads = g.chance(5);
  if (threads)
    g.log << "with threads\n";
  au::threaded() = threads;
  Graph graph(
      &ctx(),
      [&](PV *const &v, const IndexSet &i) { return c.differentiate(v, i); },
      [&](PE *const &e, const IndexSet &i) { return c.differentiate(e, i); });
  size_t nv = c.vars.size(), ne = c.eqs.size();
  for (size_t i = 0; i < nv; ++i)
    graph.addVariable(c.vars[i].get());
  bool before = g.chance(70); // the derivatives are known before the equations
  auto derivatives = [&] {
    for (auto &f : family)
      for (size_t k = 0; k + 1 < f.size(); ++k)
        graph.addVariableDerivative(f[k]->id, f[k + 1]->id,
                                    real(f[k]->derived));
  };
  if (before)
    derivatives();
  for (size_t i = 0; i < ne; ++i)
    graph.addEquation(c.eqs[i].get());
  if (!before)
    derivatives();
  bool done = graph.run();
  au::threaded() = false;
  PBT_REQUIRE(g, done, "the reduction fails");

  if (c.extended)
    g.label("a derivative is extended");
  g.label(solvable ? "solvable" : "higher index");
  // The order of the highest derivative of every scalar.
  std::map<Scalar, int> eq, var;
  for (auto &v : c.vars)
    for (auto &p : tuples(v->shape)) {
      int k = 0;
      PV *f = family[v->family][0];
      while (f->derivative && f->derived.count(p)) {
        f = f->derivative;
        ++k;
      }
      var[{v->family, p}] = k;
    }
  for (size_t i = 0; i < ne; ++i)
    for (auto &p : c.eqs[i]->pts) {
      int k = 0;
      PE *e = c.eqs[i].get();
      while (e->derivative && e->derived.count(p)) {
        e = e->derivative;
        ++k;
      }
      eq[{i, p}] = k;
    }
  if (solvable)
    PBT_REQUIRE(g, c.callbacks == 0, "a solvable system is differentiated");
  // The equations of the highest order can be matched.
  std::map<Scalar, std::set<Scalar>> last;
  for (auto &[e, l] : sigma) {
    last[e];
    for (auto &[v, s] : l)
      if (s + eq[e] == var[v])
        last[e].insert(v);
      else if (s + eq[e] > var[v])
        g.fail("the derivative " + std::to_string(s + eq[e]) + " of v" +
               std::to_string(v.first) + mu::str(v.second) +
               " is accessed but not known");
  }
  if (ScalarMatching(last).ofEq.size() != sigma.size())
    g.fail("the result is not solvable");
  for (auto &[e, k] : eq)
    if (k != ref.eq[e])
      g.fail("e" + std::to_string(e.first) + mu::str(e.second) +
             " is differentiated " + std::to_string(k) + " times");
  for (auto &[v, k] : var)
    if (ref.var.count(v) ? k != ref.var[v] : k != 0)
      g.fail("v" + std::to_string(v.first) + mu::str(v.second) + " has order " +
             std::to_string(k) + " instead of " +
             std::to_string(ref.var.count(v) ? ref.var[v] : 0));
}
