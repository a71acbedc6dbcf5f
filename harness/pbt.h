// A small property-based testing engine.
//
// Every generated case is a pure function of a stream of bounded random
// choices, so that a case can be shrunk (by deleting and lowering choices) and
// replayed without any knowledge of its structure. Cases run in forked workers:
// crashes, sanitizer reports and endless loops become failures of the case
// that caused them, and are shrunk and replayed like any other failure.
//
// The set of cases of a run is a function of (seed, property, tier) only.
#pragma once

#include <algorithm>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/types.h>
#include <vector>

namespace pbt {

struct Failure {
  std::string message;
};

/// Thrown to abandon a case which does not belong to the domain.
struct Discard {};

constexpr size_t kMaxChoices = 1u << 16;

/// Memory shared between a worker and the parent process.
struct Shared {
  volatile uint64_t caseIndex;
  volatile uint32_t numChoices;
  volatile uint32_t state; // 0 running, 1 finished, 2 failed
  volatile uint64_t executed, discarded, nontrivial, known;
  char message[4096];
  uint32_t logSize;
  char log[1 << 16];
  uint64_t choices[kMaxChoices];
};

class G;

/// Stream keeping its text also in the memory shared with the parent process,
/// when requested.
class Log : public std::ostream {
  struct Buf : std::stringbuf {
    G *g;
    std::streamsize xsputn(const char *s, std::streamsize n) override;
    int_type overflow(int_type c) override;
  } buf;

public:
  explicit Log(G *g) : std::ostream(nullptr) {
    buf.g = g;
    rdbuf(&buf);
  }
  std::string str() const { return buf.str(); }
  void str(const std::string &s) { buf.str(s); }
};

class G {
public:
  // --- random choices ------------------------------------------------------

  /// Uniform in [0, n).
  uint64_t draw(uint64_t n);

  /// Uniform in [lo, hi]; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }

  /// Uniform in [lo, hi] with lo <= 0 <= hi; shrinks towards 0.
  int64_t around(int64_t lo, int64_t hi) {
    int64_t v = static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
    // 0, 1, -1, 2, -2, ... as long as both sides are available.
    int64_t m = std::min(-lo, hi);
    if (v <= 2 * m)
      return (v & 1) ? (v + 1) / 2 : -(v / 2);
    v -= 2 * m;
    return hi > m ? m + v : -m - v;
  }

  /// True with the given probability; shrinks towards false.
  bool chance(int percent) {
    return draw(100) >= static_cast<uint64_t>(100 - percent);
  }

  /// Index drawn with the given weights; shrinks towards 0.
  size_t weighted(std::initializer_list<int> weights) {
    int total = 0;
    for (int w : weights)
      total += w;
    int v = static_cast<int>(draw(static_cast<uint64_t>(total)));
    size_t i = 0;
    for (int w : weights) {
      if (v < w)
        return i;
      v -= w;
      ++i;
    }
    return 0;
  }

  template <typename C>
  const typename C::value_type &pick(const C &c) {
    return c[draw(c.size())];
  }

  // --- reporting -----------------------------------------------------------

  /// Description of the case; its text also identifies the case.
  Log log{this};

  /// Declares the case to be non-trivial according to the rule.
  void nontrivial() { isNontrivial = true; }

  void label(const std::string &name) { ++labels[name]; }

  /// True if the finding is in the list of known ones: the caller must then
  /// leave the case. The case is counted as excluded.
  bool known(const std::string &key);

  void discard() { throw Discard(); }

  [[noreturn]] void fail(const std::string &message) {
    throw Failure{message};
  }

  bool thorough = false;

  // --- internals -----------------------------------------------------------
  uint64_t rng = 0;
  bool replaying = false;
  bool streamLog = false; // keep shared->log up to date, in case of a crash
  std::vector<uint64_t> input;
  Shared *shared = nullptr;
  bool isNontrivial = false;
  std::map<std::string, uint64_t> labels;
};

#define PBT_REQUIRE(g, cond, msg)                                              \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream pbt_os;                                               \
      pbt_os << #cond << ": " << msg;                                          \
      (g).fail(pbt_os.str());                                                  \
    }                                                                          \
  } while (false)

struct Property {
  std::string id; // property of the list (C01, ...)
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  std::string rule;
  std::function<void(G &)> run;
  int cpuLimit = 20; // seconds of CPU time for one case
};

std::vector<Property> &registry();

struct Registrar {
  Registrar(Property p) { registry().push_back(std::move(p)); }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

/// PBT_PROP("C01", name, quick count, thorough count, "rule") (body using g)
#define PBT_PROP(ID, NAME, QUICK, THOROUGH, RULE)                              \
  static void PBT_CAT(prop_, NAME)(pbt::G & g);                                \
  static pbt::Registrar PBT_CAT(reg_, NAME)(                                   \
      pbt::Property{ID, #NAME, QUICK, THOROUGH, RULE, PBT_CAT(prop_, NAME)});  \
  static void PBT_CAT(prop_, NAME)(pbt::G & g)

int main(int argc, char **argv);

} // namespace pbt
