// Expressions of access functions: generation, evaluation, and construction of
// the real ones.
#pragma once

#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionAffineConstant.h"
#include "marco/Modeling/AccessFunctionConstant.h"
#include "marco/Modeling/AccessFunctionEmpty.h"
#include "marco/Modeling/AccessFunctionGeneric.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "mlir/IR/MLIRContext.h"
#include "modeling_util.h"

using namespace mu;
using namespace marco::modeling;

namespace au {
inline bool &threaded() {
  static bool t = false;
  return t;
}
/// One context without and one with threads.
inline mlir::MLIRContext &ctx() {
  static mlir::MLIRContext *c[2] = {nullptr, nullptr};
  auto *&r = c[threaded()];
  if (!r)
    r = new mlir::MLIRContext(threaded()
                                  ? mlir::MLIRContext::Threading::ENABLED
                                  : mlir::MLIRContext::Threading::DISABLED);
  return *r;
}

struct Space {
  std::shared_ptr<IndexSet> real;
  std::vector<Tuple> points;
  size_t rank;
  bool correlated;
};

struct E;
using P = std::shared_ptr<E>;
struct E {
  enum K { Const, Dim, Add, Sub, Mul, Div, Rng, Ind } k;
  int64_t c = 0, c2 = 0; // constant, dimension, range
  size_t space = 0;
  P a, b;
};

inline P mk(E::K k, int64_t c, int64_t c2 = 0) {
  auto e = std::make_shared<E>();
  e->k = k;
  e->c = c;
  e->c2 = c2;
  return e;
}
inline P mk2(E::K k, P a, P b) {
  auto e = std::make_shared<E>();
  e->k = k;
  e->a = a;
  e->b = b;
  return e;
}

inline std::string show(const P &e) {
  switch (e->k) {
  case E::Const:
    return std::to_string(e->c);
  case E::Dim:
    return "d" + std::to_string(e->c);
  case E::Add:
    return "(" + show(e->a) + " + " + show(e->b) + ")";
  case E::Sub:
    return "(" + show(e->a) + " - " + show(e->b) + ")";
  case E::Mul:
    return "(" + show(e->a) + " * " + show(e->b) + ")";
  case E::Div:
    return "(" + show(e->a) + " div " + show(e->b) + ")";
  case E::Rng:
    return "[" + std::to_string(e->c) + "," + std::to_string(e->c2) + ")";
  case E::Ind:
    return "e" + std::to_string(e->space) + "[" + std::to_string(e->c) + "]";
  }
  return "?";
}

inline bool affine(const P &e) {
  if (e->k == E::Rng || e->k == E::Ind)
    return false;
  return (!e->a || affine(e->a)) && (!e->b || affine(e->b));
}

inline int64_t floorDiv(int64_t a, int64_t b) {
  int64_t q = a / b;
  return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}

struct Fn {
  unsigned dims = 0;
  std::vector<P> res;
  std::vector<Space> spaces;

  bool single() const {
    return std::all_of(res.begin(), res.end(), affine);
  }

  std::set<int64_t> eval(const P &e, const Tuple &p,
                         const std::map<size_t, Tuple> &cur) const {
    switch (e->k) {
    case E::Const:
      return {e->c};
    case E::Dim:
      return {p[e->c]};
    case E::Rng: {
      std::set<int64_t> s;
      for (int64_t i = e->c; i < e->c2; ++i)
        s.insert(i);
      return s;
    }
    case E::Ind: {
      if (spaces[e->space].correlated)
        return {cur.at(e->space)[e->c]};
      std::set<int64_t> s;
      for (auto &t : spaces[e->space].points)
        s.insert(t[e->c]);
      return s;
    }
    default:
      break;
    }
    std::set<int64_t> s;
    for (int64_t x : eval(e->a, p, cur))
      for (int64_t y : eval(e->b, p, cur))
        s.insert(e->k == E::Add   ? x + y
                 : e->k == E::Sub ? x - y
                 : e->k == E::Mul ? x * y
                                  : floorDiv(x, y));
    return s;
  }

  void usedSpaces(const P &e, std::set<size_t> &u) const {
    if (e->k == E::Ind && spaces[e->space].correlated)
      u.insert(e->space);
    if (e->a)
      usedSpaces(e->a, u), usedSpaces(e->b, u);
  }

  /// The images of a point (which may have more coordinates than needed).
  Set image(const Tuple &p) const {
    std::set<size_t> used;
    for (auto &e : res)
      usedSpaces(e, used);
    std::vector<std::map<size_t, Tuple>> envs{{}};
    for (size_t s : used) {
      std::vector<std::map<size_t, Tuple>> next;
      for (auto &env : envs)
        for (auto &t : spaces[s].points) {
          auto n = env;
          n[s] = t;
          next.push_back(n);
        }
      envs = next;
    }
    Set out;
    for (auto &env : envs) {
      std::vector<Tuple> acc{{}};
      for (auto &e : res) {
        auto vals = eval(e, p, env);
        std::vector<Tuple> next;
        for (auto &t : acc)
          for (int64_t v : vals) {
            Tuple n = t;
            n.push_back(v);
            next.push_back(n);
          }
        acc = next;
      }
      out.insert(acc.begin(), acc.end());
    }
    return out;
  }

  Set image(const Set &s) const {
    Set out;
    for (auto &p : s) {
      Set i = image(p);
      out.insert(i.begin(), i.end());
    }
    return out;
  }

  std::unique_ptr<DimensionAccess> real(const P &e) const {
    auto *c = &ctx();
    switch (e->k) {
    case E::Const:
      return std::make_unique<DimensionAccessConstant>(c, e->c);
    case E::Dim:
      return std::make_unique<DimensionAccessDimension>(c, e->c);
    case E::Add:
      return std::make_unique<DimensionAccessAdd>(c, real(e->a), real(e->b));
    case E::Sub:
      return std::make_unique<DimensionAccessSub>(c, real(e->a), real(e->b));
    case E::Mul:
      return std::make_unique<DimensionAccessMul>(c, real(e->a), real(e->b));
    case E::Div:
      return std::make_unique<DimensionAccessDiv>(c, real(e->a), real(e->b));
    case E::Rng:
      return std::make_unique<DimensionAccessRange>(c, Range(e->c, e->c2));
    case E::Ind: {
      llvm::SetVector<uint64_t> deps;
      if (spaces[e->space].correlated)
        for (size_t i = 0; i < spaces[e->space].rank; ++i)
          if ((int64_t)i != e->c || spaces[e->space].rank == 1)
            deps.insert(i);
      return std::make_unique<DimensionAccessIndices>(
          c, spaces[e->space].real, e->c, deps);
    }
    }
    return nullptr;
  }

  llvm::SmallVector<std::unique_ptr<DimensionAccess>> reals() const {
    llvm::SmallVector<std::unique_ptr<DimensionAccess>> v;
    for (auto &e : res)
      v.push_back(real(e));
    return v;
  }

  mlir::AffineExpr aff(const P &e) const {
    switch (e->k) {
    case E::Const:
      return mlir::getAffineConstantExpr(e->c, &ctx());
    case E::Dim:
      return mlir::getAffineDimExpr(e->c, &ctx());
    case E::Add:
      return aff(e->a) + aff(e->b);
    case E::Sub:
      return aff(e->a) - aff(e->b);
    case E::Mul:
      return aff(e->a) * aff(e->b);
    default:
      return aff(e->a).floorDiv(aff(e->b));
    }
  }

  mlir::AffineMap affineMap() const {
    llvm::SmallVector<mlir::AffineExpr> v;
    for (auto &e : res)
      v.push_back(aff(e));
    return mlir::AffineMap::get(dims, 0, v, &ctx());
  }

  std::string text() const {
    std::string s = std::to_string(dims) + " dims -> (";
    for (size_t i = 0; i < res.size(); ++i)
      s += (i ? ", " : "") + show(res[i]);
    s += ")";
    for (size_t i = 0; i < spaces.size(); ++i) {
      s += " e" + std::to_string(i) + (spaces[i].correlated ? "*" : "") + "=";
      for (auto &t : spaces[i].points)
        s += str(t);
    }
    return s;
  }

  /// The ways in which the function can be represented.
  std::vector<std::pair<std::string, std::unique_ptr<AccessFunction>>>
  all() const {
    std::vector<std::pair<std::string, std::unique_ptr<AccessFunction>>> v;
    auto r = reals();
    v.emplace_back("build", AccessFunction::build(&ctx(), dims, r));
    v.emplace_back("generic",
                   std::make_unique<AccessFunctionGeneric>(&ctx(), dims, r));
    if (single()) {
      v.emplace_back("build(affine)", AccessFunction::build(affineMap()));
    }
    if (AccessFunctionRotoTranslation::canBeBuilt(dims, r))
      v.emplace_back("rototranslation",
                     std::make_unique<AccessFunctionRotoTranslation>(
                         &ctx(), dims, r));
    if (!r.empty() && AccessFunctionAffineConstant::canBeBuilt(r))
      v.emplace_back("affine constant",
                     std::make_unique<AccessFunctionAffineConstant>(
                         &ctx(), dims, r));
    if (!r.empty() && AccessFunctionConstant::canBeBuilt(r))
      v.emplace_back("constant", std::make_unique<AccessFunctionConstant>(
                                     &ctx(), dims, r));
    return v;
  }
};

// --- generation ---------------------------------------------------------------

struct Opts {
  bool ranges = true;
  bool onlyRoto = false;
  int permutations = 15; // percent
};

inline P genDim(pbt::G &g, unsigned dims) { return mk(E::Dim, g.range(0, dims - 1)); }
inline P genConst(pbt::G &g) { return mk(E::Const, g.around(-6, 6)); }

inline P genTree(pbt::G &g, Fn &f, const Opts &o, int depth) {
  if (depth == 0) {
    switch (g.weighted({f.dims ? 6 : 0, 2, o.ranges ? 2 : 0,
                        o.ranges && !f.spaces.empty() ? 3 : 0})) {
    case 0:
      if (f.dims)
        return genDim(g, f.dims);
      return genConst(g);
    case 1:
      return genConst(g);
    case 2: {
      int64_t b = g.around(-4, 4);
      return mk(E::Rng, b, b + g.range(1, 3));
    }
    default: {
      auto e = mk(E::Ind, 0);
      e->space = g.draw(f.spaces.size());
      e->c = g.draw(f.spaces[e->space].rank);
      return e;
    }
    }
  }
  switch (g.weighted({2, 4, 4, 3, 3, 2})) {
  case 0:
    return genTree(g, f, o, 0);
  case 1:
    return mk2(E::Add, genTree(g, f, o, depth - 1), genTree(g, f, o, depth - 1));
  case 2:
    return mk2(E::Sub, genTree(g, f, o, depth - 1), genTree(g, f, o, depth - 1));
  case 3: {
    auto c = mk(E::Const, g.around(-3, 3));
    auto t = genTree(g, f, o, depth - 1);
    return g.chance(50) ? mk2(E::Mul, t, c) : mk2(E::Mul, c, t);
  }
  case 4:
    return mk2(E::Div, genTree(g, f, o, depth - 1),
               mk(E::Const, g.range(1, 4)));
  default: {
    // x - (x div c) * c : the remainder.
    auto t = genTree(g, f, o, depth - 1);
    auto c = mk(E::Const, g.range(1, 4));
    return mk2(E::Sub, t, mk2(E::Mul, mk2(E::Div, t, c), c));
  }
  }
}

inline P genResult(pbt::G &g, Fn &f, const Opts &o) {
  switch (g.weighted({f.dims ? 6 : 0, 3, o.onlyRoto ? 0 : 5})) {
  case 0:
    if (f.dims) {
      auto d = genDim(g, f.dims);
      switch (g.weighted({2, 3, 1, o.onlyRoto ? 0 : 2})) {
      case 0:
        return d;
      case 1:
        return mk2(E::Add, d, genConst(g));
      case 2:
        return mk2(E::Add, genConst(g), d);
      default:
        return mk2(E::Sub, d, genConst(g));
      }
    }
    return genConst(g);
  case 1:
    if (o.ranges && g.chance(40)) {
      int64_t b = g.around(-4, 4);
      return mk(E::Rng, b, b + g.range(1, 3));
    }
    return genConst(g);
  default:
    return genTree(g, f, o, g.range(0, 2));
  }
}

inline Fn genFn(pbt::G &g, const Opts &o, int minDims = 0, int maxDims = 3,
         int minRes = 0, int maxRes = 3) {
  Fn f;
  f.dims = g.range(minDims, maxDims);
  if (o.ranges && g.chance(40)) {
    size_t n = g.range(1, 2);
    for (size_t i = 0; i < n; ++i) {
      Space s;
      s.rank = g.range(1, 2);
      s.correlated = g.chance(60);
      Set pts;
      size_t k = g.range(1, 3);
      for (size_t j = 0; j < k; ++j)
        addTuples(pts, genBox(g, s.rank, -2, 4, 2));
      s.points.assign(pts.begin(), pts.end());
      llvm::SmallVector<Point> real;
      for (auto &t : pts)
        real.push_back(point(t));
      s.real = std::make_shared<IndexSet>(IndexSet(real));
      f.spaces.push_back(s);
    }
  }
  size_t n = g.range(minRes, maxRes);
  if (f.dims >= 1 && (int)f.dims >= minRes && (int)f.dims <= maxRes &&
      g.chance(o.permutations)) {
    // Permutation with offsets.
    std::vector<int64_t> d;
    for (unsigned i = 0; i < f.dims; ++i)
      d.push_back(i);
    for (unsigned i = 0; i + 1 < f.dims; ++i)
      std::swap(d[i], d[i + g.draw(f.dims - i)]);
    for (int64_t x : d)
      f.res.push_back(mk2(E::Add, mk(E::Dim, x), genConst(g)));
  } else {
    for (size_t i = 0; i < n; ++i)
      f.res.push_back(genResult(g, f, o));
  }
  return f;
}

/// Shift the results so that the image of `from` contains `to`.
inline void aim(Fn &f, const Tuple &from, const Tuple &to) {
  Tuple at = *f.image(from).begin();
  for (size_t i = 0; i < f.res.size(); ++i) {
    int64_t delta = to[i] - at[i];
    P &e = f.res[i];
    if (delta == 0)
      continue;
    if (e->k == E::Const)
      e = mk(E::Const, e->c + delta);
    else if (e->k == E::Rng)
      e = mk(E::Rng, e->c + delta, e->c2 + delta);
    else if (e->k == E::Add && e->b->k == E::Const)
      e = mk2(E::Add, e->a, mk(E::Const, e->b->c + delta));
    else if (e->k == E::Add && e->a->k == E::Const)
      e = mk2(E::Add, mk(E::Const, e->a->c + delta), e->b);
    else
      e = mk2(E::Add, e, mk(E::Const, delta));
  }
}

inline Tuple genPoint(pbt::G &g, size_t rank) {
  Tuple t;
  for (size_t i = 0; i < rank; ++i)
    t.push_back(g.around(-7, 7));
  return t;
}

/// A set of points as a union of boxes.
inline Set genSet(pbt::G &g, size_t rank, IndexSet &real, std::string &text) {
  Set s;
  size_t n = g.range(1, 4);
  for (size_t i = 0; i < n; ++i) {
    Bounds b = genBox(g, rank, -6, 7, 4);
    addTuples(s, b);
    real += box(b);
    text += " " + str(b);
  }
  return s;
}

inline Set enumerate(const IndexSet &s) {
  Set r;
  for (Point p : s)
    r.insert(tuple(p));
  return r;
}
} // namespace au
