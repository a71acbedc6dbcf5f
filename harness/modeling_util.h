// Shared helpers of the Modeling harnesses: generators and reference sets.
#pragma once

#include "marco/Modeling/IndexSet.h"
#include "marco/Modeling/MultidimensionalRange.h"
#include "marco/Modeling/Point.h"
#include "marco/Modeling/Range.h"
#include "pbt.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
#include <vector>

namespace mu {
using marco::modeling::IndexSet;
using marco::modeling::MultidimensionalRange;
using marco::modeling::Point;
using marco::modeling::Range;

using Tuple = std::vector<int64_t>;
using Set = std::set<Tuple>;

template <typename T>
std::string str(const T &t) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << t;
  return os.str();
}

inline std::string str(const Tuple &t) {
  std::string s = "(";
  for (size_t i = 0; i < t.size(); ++i)
    s += (i ? "," : "") + std::to_string(t[i]);
  return s + ")";
}

inline std::string str(const Set &t, size_t max = 12) {
  std::string s = "{";
  size_t n = 0;
  for (auto &x : t) {
    if (n++ >= max) {
      s += " ... " + std::to_string(t.size()) + " points";
      break;
    }
    s += str(x);
  }
  return s + "}";
}

inline Tuple tuple(const Point &p) {
  return Tuple(p.begin(), p.end());
}

inline Point point(const Tuple &t) { return Point(llvm::ArrayRef<int64_t>(t)); }

/// Enumerates the tuples of a box from its bounds only.
inline void addTuples(Set &out, const std::vector<std::pair<int64_t, int64_t>> &b) {
  Tuple t;
  for (auto &x : b) {
    if (x.first >= x.second)
      return;
    t.push_back(x.first);
  }
  while (true) {
    out.insert(t);
    size_t i = t.size();
    while (i-- > 0) {
      if (++t[i] < b[i].second)
        break;
      t[i] = b[i].first;
      if (i == 0)
        return;
    }
    if (t.empty())
      return;
  }
}

using Bounds = std::vector<std::pair<int64_t, int64_t>>;

inline Bounds bounds(const MultidimensionalRange &r) {
  Bounds b;
  for (unsigned i = 0; i < r.rank(); ++i)
    b.emplace_back(r[i].getBegin(), r[i].getEnd());
  return b;
}

inline Set tuples(const Bounds &b) {
  Set s;
  addTuples(s, b);
  return s;
}

inline Set tuples(const MultidimensionalRange &r) { return tuples(bounds(r)); }

inline MultidimensionalRange box(const Bounds &b) {
  llvm::SmallVector<Range> v;
  for (auto &x : b)
    v.push_back(Range(x.first, x.second));
  return MultidimensionalRange(v);
}

inline std::string str(const Bounds &b) {
  std::string s;
  for (auto &x : b)
    s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
  return s;
}

/// Box of the given rank inside [lo, hi) in each dimension, at most `len` wide.
inline Bounds genBox(pbt::G &g, size_t rank, int64_t lo, int64_t hi,
                     int64_t len) {
  Bounds b;
  for (size_t i = 0; i < rank; ++i) {
    int64_t s = g.range(lo, hi - 1);
    int64_t n = g.range(1, std::max<int64_t>(1, std::min(len, hi - s)));
    b.emplace_back(s, s + n);
  }
  return b;
}

/// Box related to another one: nested, touching, shifted, sharing borders.
inline Bounds genRelated(pbt::G &g, const Bounds &a, int64_t maxLen = 6) {
  Bounds b;
  for (auto &x : a) {
    int64_t lo = x.first, hi = x.second;
    switch (g.weighted({4, 2, 2, 2, 2, 2})) {
    case 0: // same
      break;
    case 1: // touching after
      lo = x.second;
      hi = lo + g.range(1, 3);
      break;
    case 2: // touching before
      hi = x.first;
      lo = hi - g.range(1, 3);
      break;
    case 3: // moved borders
      lo += g.around(-2, 2);
      hi += g.around(-2, 2);
      break;
    case 4: // inner
      lo = g.range(x.first, x.second - 1);
      hi = g.range(lo + 1, x.second);
      break;
    case 5: // anywhere near
      lo += g.around(-4, 4);
      hi = lo + g.range(1, maxLen);
      break;
    }
    if (hi <= lo)
      hi = lo + 1;
    if (hi - lo > maxLen + 2)
      hi = lo + maxLen + 2;
    b.emplace_back(lo, hi);
  }
  return b;
}
} // namespace mu
