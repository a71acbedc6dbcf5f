// C25, C26: filters of variables.
#include "marco/VariableFilter/VariableFilter.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "llvm/Support/Regex.h"
#include "pbt.h"
#include <climits>
#include <regex.h>

using marco::VariableFilter;

namespace {
constexpr long kFree = -1;

struct Bounds {
  long lower = kFree, upper = kFree;
  bool contains(long i) const {
    return (lower == kFree || lower <= i) && (upper == kFree || i <= upper);
  }
};

enum Kind { Name, Der, Regex };

struct Entry {
  Kind kind = Name;
  std::string text;
  std::vector<Bounds> bounds;
};

std::string quote(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c >= 32 && c < 127)
      r += c;
    else
      snprintf(b, sizeof b, "\\x%02x", c), r += b;
  }
  return r;
}

std::string name(pbt::G &g) {
  static const std::vector<std::string> pool = {
      "x", "y", "x.y", "der.x", "derx", "xder", "x1", "x_", "_x", "a.b.c",
      "X", "xx", "x.", "der_", "abc", "x2.y1"};
  if (g.chance(85))
    return g.pick(pool);
  static const std::string first = "abxyzAZ_", rest = "abxyz01239AZ_.";
  std::string s(1, g.pick(first));
  for (size_t n = g.draw(6); n; --n)
    s += g.pick(rest);
  return s == "der" ? "x" : s;
}

/// A regular expression on which every engine agrees.
std::string regex(pbt::G &g, int depth) {
  switch (g.weighted({4, 2, 2, depth ? 2 : 0, depth ? 2 : 0, depth ? 3 : 0, 1})) {
  case 0:
    return std::string(1, g.pick(std::string("xyabc12_der")));
  case 1:
    return ".";
  case 2: {
    static const std::vector<std::string> sets = {"[a-z]", "[xy]", "[^x]", "[0-9]", "[a-z_.]", "\\.", "\\(", "\\)"};
    return g.pick(sets);
  }
  case 3:
    return "(" + regex(g, depth - 1) + ")" + g.pick(std::vector<std::string>{"*", "+", "?", "{1,2}", "{2}"});
  case 4:
    return "(" + regex(g, depth - 1) + "|" + regex(g, depth - 1) + ")";
  case 5:
    return regex(g, depth - 1) + regex(g, depth - 1);
  default:
    return g.pick(std::vector<std::string>{"der\\(", "x\\)", "der\\(x\\)", "x"});
  }
}

std::string anchored(pbt::G &g) {
  std::string s = regex(g, 3);
  if (g.chance(40))
    s = "^" + s;
  if (g.chance(40))
    s += "$";
  return s;
}

bool matches(const std::string &pattern, const std::string &text) {
  regex_t r;
  if (regcomp(&r, pattern.c_str(), REG_EXTENDED | REG_NOSUB))
    throw pbt::Discard();
  bool m = regexec(&r, text.c_str(), 0, nullptr, 0) == 0;
  regfree(&r);
  return m;
}

long bound(pbt::G &g) {
  switch (g.weighted({12, 4, 1, 1, 1})) {
  case 0:
    return g.range(0, 6);
  case 1:
    return kFree;
  case 2:
    return (1l << 32) + g.range(-3, 4);
  case 3:
    return (1l << 31) + g.range(-3, 4);
  default:
    return LONG_MAX - g.range(0, 3);
  }
}

std::vector<Entry> entries(pbt::G &g, size_t max, bool bounded = true) {
  std::vector<Entry> r;
  for (size_t n = g.range(0, max); n; --n) {
    Entry e;
    switch (g.weighted({6, 2, 2})) {
    case 0:
      e.text = name(g);
      if (bounded && g.chance(70))
        for (size_t d = g.range(1, 3); d; --d)
          e.bounds.push_back({bound(g), bound(g)});
      break;
    case 1:
      e.kind = Der;
      e.text = name(g);
      break;
    default:
      e.kind = Regex;
      e.text = anchored(g);
    }
    r.push_back(e);
  }
  return r;
}

struct Tok {
  enum K { Id, Int, Rx, Sym, DerK, Bad, End } k;
  std::string text;
  size_t offset = 0;
  // Of a regular expression, whether it is a good one.
  bool valid = true;
};

std::vector<Tok> tokens(pbt::G &g, const std::vector<Entry> &es) {
  std::vector<Tok> r;
  auto sym = [&](const char *s) { r.push_back({Tok::Sym, s}); };
  auto semis = [&](size_t n) {
    for (; n; --n)
      sym(";");
  };
  semis(g.chance(10));
  for (size_t i = 0; i < es.size(); ++i) {
    const Entry &e = es[i];
    if (e.kind == Regex) {
      r.push_back({Tok::Rx, "/" + e.text + "/"});
    } else if (e.kind == Der) {
      r.push_back({Tok::DerK, "der"});
      sym("(");
      r.push_back({Tok::Id, e.text});
      sym(")");
    } else {
      r.push_back({Tok::Id, e.text});
      if (!e.bounds.empty()) {
        auto index = [&](long v) {
          if (v == kFree)
            sym("$");
          else
            r.push_back({Tok::Int, (g.chance(5) ? "0" : "") + std::to_string(v)});
        };
        sym("[");
        for (size_t d = 0; d < e.bounds.size(); ++d) {
          if (d)
            sym(",");
          index(e.bounds[d].lower);
          sym(":");
          index(e.bounds[d].upper);
        }
        sym("]");
      }
    }
    if (i + 1 < es.size())
      semis(1 + g.chance(10));
  }
  semis(g.chance(20));
  return r;
}

bool word(char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.'; }

/// Writes the tokens, recording where they begin.
std::string layout(pbt::G &g, std::vector<Tok> &ts) {
  std::string s;
  for (Tok &t : ts) {
    bool glue = !s.empty() && word(s.back()) && word(t.text[0]);
    if (glue || g.chance(15))
      for (size_t n = 1 + g.chance(20); n; --n)
        s += g.pick(std::string(" \t\n  "));
    t.offset = s.size();
    s += t.text;
  }
  if (g.chance(10))
    s += ' ';
  return s;
}

struct Parsed {
  std::optional<VariableFilter> filter;
  std::vector<shim::Diagnostic> diagnostics;
};

Parsed parse(const std::string &text) {
  shim::diagnostics.clear();
  Parsed r;
  r.filter = VariableFilter::fromString(text);
  r.diagnostics = shim::diagnostics;
  return r;
}

VariableFilter called(const std::vector<Entry> &es) {
  VariableFilter vf;
  for (const Entry &e : es) {
    llvm::SmallVector<marco::vf::Range, 3> ranges;
    for (const Bounds &b : e.bounds)
      ranges.emplace_back(b.lower, b.upper);
    if (e.kind == Regex)
      vf.addRegexString(e.text);
    else if (e.kind == Der)
      vf.addDerivative(marco::vf::Tracker(e.text, ranges));
    else
      vf.addVariable(marco::vf::Tracker(e.text, ranges));
  }
  return vf;
}

void print(pbt::G &g, const std::vector<Entry> &es) {
  for (const Entry &e : es) {
    g.log << (e.kind == Regex ? "regex " : e.kind == Der ? "der " : "") << quote(e.text);
    for (const Bounds &b : e.bounds)
      g.log << " " << b.lower << ":" << b.upper;
    g.log << "; ";
  }
}

VariableFilter make(pbt::G &g, const std::vector<Entry> &es) {
  VariableFilter result;
  if (g.chance(25)) {
    g.log << "(by calls) ";
    result = called(es);
  } else {
    auto ts = tokens(g, es);
    std::string text = layout(g, ts);
    g.log << "text <" << quote(text) << "> ";
    Parsed p = parse(text);
    PBT_REQUIRE(g, p.filter.has_value(), "refused: " << (p.diagnostics.empty() ? "" : p.diagnostics[0].message));
    PBT_REQUIRE(g, p.diagnostics.empty(), "accepted, with " << p.diagnostics[0].message);
    result = std::move(*p.filter);
  }
  if (g.chance(20)) {
    // A copy which outlives its origin.
    VariableFilter copy = result;
    result = VariableFilter();
    result.addVariable(marco::vf::Tracker("x"));
    result.addDerivative(marco::vf::Tracker("x"));
    return copy;
  }
  return result;
}

bool kept(const std::vector<marco::vf::Filter> &filters, const std::vector<long> &point) {
  for (const auto &f : filters) {
    if (!f.isVisible())
      continue;
    bool in = true;
    for (size_t d = 0; d < point.size(); ++d) {
      const auto &r = f.getRanges()[d];
      in &= (!r.hasLowerBound() || r.getLowerBound() <= point[d]) && (!r.hasUpperBound() || point[d] <= r.getUpperBound());
    }
    if (in)
      return true;
  }
  return false;
}

std::string queried(pbt::G &g, const std::vector<Entry> &es) {
  std::vector<std::string> names;
  for (const Entry &e : es)
    if (e.kind != Regex)
      names.push_back(e.text);
  if (names.empty() || g.chance(30))
    return name(g);
  std::string s = g.pick(names);
  if (g.chance(10))
    s = s.substr(0, s.size() - 1);
  if (g.chance(10))
    s += g.pick(std::string("xX_1."));
  return s.empty() ? "x" : s;
}

/// Points around the bounds of the entries.
std::vector<long> point(pbt::G &g, const std::vector<Entry> &es, size_t rank) {
  std::vector<long> interesting;
  for (const Entry &e : es)
    for (const Bounds &b : e.bounds)
      for (long v : {b.lower, b.upper})
        if (v != kFree)
          interesting.push_back(v);
  std::vector<long> p;
  for (size_t d = 0; d < rank; ++d) {
    if (!interesting.empty() && g.chance(50)) {
      long v = g.pick(interesting);
      long delta = g.around(-1, 1);
      p.push_back(delta > 0 && v == LONG_MAX ? v : std::max(1l, v + delta));
    } else {
      p.push_back(g.range(1, 7));
    }
  }
  return p;
}
} // namespace

PBT_PROP("C25", variables, 6000, 150000, "a query answered by an entry with subscripts") {
  auto es = entries(g, 6);
  print(g, es);
  VariableFilter vf = make(g, es);
  PBT_REQUIRE(g, vf.isEnabled() == !es.empty(), "");
  for (size_t q = 0; q < 8; ++q) {
    std::string n = queried(g, es);
    size_t rank = g.range(0, 4);
    g.log << "\n  " << quote(n) << " rank " << rank << ": ";
    auto filters = vf.getVariableInfo(n, rank);
    PBT_REQUIRE(g, !filters.empty(), "no answer");
    for (const auto &f : filters)
      PBT_REQUIRE(g, f.getRanges().size() == rank, "rank of the answer");
    bool named = false, matched = es.empty();
    for (const Entry &e : es) {
      named |= e.kind == Name && e.text == n;
      matched |= e.kind == Regex && matches(e.text, n);
      if (e.kind == Name && e.text == n && rank && !e.bounds.empty())
        g.nontrivial();
    }
    bool visible = false;
    for (const auto &f : filters)
      visible |= f.isVisible();
    PBT_REQUIRE(g, visible == (named || matched), "visible: " << visible);
    for (size_t k = 0; k < 12; ++k) {
      auto p = point(g, es, rank);
      bool expected = !named && matched;
      for (const Entry &e : es)
        if (e.kind == Name && e.text == n) {
          bool in = true;
          for (size_t d = 0; d < rank && d < e.bounds.size(); ++d)
            in &= e.bounds[d].contains(p[d]);
          expected |= in;
        }
      for (long v : p)
        g.log << v << ",";
      g.log << " ";
      PBT_REQUIRE(g, kept(filters, p) == expected, "the element must be " << (expected ? "kept" : "left out"));
    }
  }
}

PBT_PROP("C25", derivatives, 6000, 150000, "a derivative requested by name or matched") {
  auto es = entries(g, 5);
  print(g, es);
  VariableFilter vf = make(g, es);
  for (size_t q = 0; q < 8; ++q) {
    std::string n = queried(g, es);
    size_t rank = g.range(0, 4);
    g.log << "\n  der(" << quote(n) << ") rank " << rank;
    auto filters = vf.getVariableDerInfo(n, rank);
    bool expected = false;
    for (const Entry &e : es) {
      expected |= e.kind == Der && e.text == n;
      expected |= e.kind == Regex && matches(e.text, "der(" + n + ")");
    }
    if (expected)
      g.nontrivial();
    for (const auto &f : filters)
      PBT_REQUIRE(g, f.getRanges().size() == rank, "rank of the answer");
    bool visible = false;
    for (const auto &f : filters)
      visible |= f.isVisible();
    PBT_REQUIRE(g, visible == expected, "visible: " << visible);
    for (size_t k = 0; k < 6; ++k)
      PBT_REQUIRE(g, kept(filters, point(g, es, rank)) == expected, "element");
  }
}

PBT_PROP("C26", written, 6000, 150000, "at least two entries of the same variable") {
  auto es = entries(g, 8);
  print(g, es);
  auto ts = tokens(g, es);
  std::string text = layout(g, ts);
  g.log << "text <" << quote(text) << "> ";
  Parsed p = parse(text);
  PBT_REQUIRE(g, p.filter.has_value(), "refused: " << (p.diagnostics.empty() ? "" : p.diagnostics[0].message));
  PBT_REQUIRE(g, p.diagnostics.empty(), "accepted, with " << p.diagnostics[0].message);
  std::map<std::string, std::vector<const Entry *>> byName;
  for (const Entry &e : es)
    if (e.kind == Name)
      byName[e.text].push_back(&e);
  for (auto &[n, list] : byName) {
    if (list.size() > 1)
      g.nontrivial();
    auto filters = p.filter->getVariableInfo(n, 4);
    PBT_REQUIRE(g, filters.size() == list.size(), "entries of " << n << ": " << filters.size());
    for (size_t i = 0; i < list.size(); ++i) {
      auto ranges = filters[i].getRanges();
      PBT_REQUIRE(g, filters[i].isVisible() && ranges.size() == 4, n);
      for (size_t d = 0; d < 4; ++d) {
        Bounds b = d < list[i]->bounds.size() ? list[i]->bounds[d] : Bounds();
        bool same = ranges[d].hasLowerBound() == (b.lower != kFree) && ranges[d].hasUpperBound() == (b.upper != kFree);
        if (same && b.lower != kFree)
          same = ranges[d].getLowerBound() == b.lower;
        if (same && b.upper != kFree)
          same = ranges[d].getUpperBound() == b.upper;
        PBT_REQUIRE(g, same, "entry " << i << " of " << n << ", dimension " << d);
      }
    }
  }
}

namespace {
/// Reference scanner.
std::vector<Tok> scan(const std::string &s) {
  std::vector<Tok> r;
  size_t i = 0;
  while (true) {
    while (i < s.size() && s[i] && isspace(static_cast<unsigned char>(s[i])))
      ++i;
    if (i >= s.size() || !s[i]) {
      r.push_back({Tok::End, "", std::min(i, s.size())});
      return r;
    }
    Tok t{Tok::Bad, "", i};
    size_t b = i;
    if (isalpha(static_cast<unsigned char>(s[i])) || s[i] == '_') {
      while (i < s.size() && word(s[i]))
        ++i;
      t.text = s.substr(b, i - b);
      t.k = t.text == "der" ? Tok::DerK : Tok::Id;
    } else if (isdigit(static_cast<unsigned char>(s[i]))) {
      while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])))
        ++i;
      t.text = s.substr(b, i - b);
      size_t z = t.text.find_first_not_of('0');
      std::string v = z == std::string::npos ? "0" : t.text.substr(z);
      bool fits = v.size() < 19 || (v.size() == 19 && v <= "9223372036854775807");
      t.k = fits ? Tok::Int : Tok::Bad;
    } else if (s[i] == '/') {
      size_t e = i + 1;
      while (e < s.size() && s[e] && s[e] != '/')
        ++e;
      if (e < s.size() && s[e] == '/') {
        t.k = Tok::Rx;
        t.text = s.substr(i, e + 1 - i);
        std::string pattern = t.text.substr(1, t.text.size() - 2);
        t.valid = !pattern.empty() && llvm::Regex(pattern).isValid();
        i = e + 1;
      }
    } else if (strchr("()[],;:$", s[i])) {
      t.k = Tok::Sym;
      t.text = s[i++];
    }
    r.push_back(t);
    if (t.k == Tok::Bad)
      return r;
  }
}

/// Reference recogniser: the position of the token which cannot be accepted, if
/// any. Entries without anything between them are left to the implementation.
struct Recogniser {
  const std::vector<Tok> &ts;
  size_t i = 0;
  bool adjacent = false;

  bool sym(const char *s) {
    if (ts[i].k == Tok::Sym && ts[i].text == s) {
      ++i;
      return true;
    }
    return false;
  }
  bool is(Tok::K k) {
    if (ts[i].k == k) {
      ++i;
      return true;
    }
    return false;
  }
  bool index() { return sym("$") || is(Tok::Int); }
  bool range() { return index() && sym(":") && index(); }
  bool entry() {
    if (is(Tok::DerK))
      return sym("(") && is(Tok::Id) && sym(")");
    if (ts[i].k == Tok::Rx) {
      if (!ts[i].valid)
        return false;
      ++i;
      return true;
    }
    if (!is(Tok::Id))
      return false;
    if (!sym("["))
      return true;
    if (!range())
      return false;
    while (sym(","))
      if (!range())
        return false;
    return sym("]");
  }
  bool run() {
    bool first = true, separated = true;
    while (true) {
      while (sym(";"))
        separated = true;
      if (ts[i].k == Tok::End)
        return true;
      adjacent |= !separated && ts[i].k != Tok::Sym && ts[i].k != Tok::Bad && ts[i].k != Tok::Int;
      first = false;
      if (!entry())
        return false;
      separated = false;
    }
  }
};

void judge(pbt::G &g, const std::string &text) {
  std::vector<Tok> ts = scan(text);
  Recogniser r{ts};
  bool expected = r.run();
  Parsed p = parse(text);
  size_t errors = 0;
  for (const auto &d : p.diagnostics) {
    errors += d.error;
    g.log << d.line << ":" << d.column << " " << quote(d.message) << "\n";
  }
  PBT_REQUIRE(g, p.filter.has_value() == (errors == 0), "accepted: " << p.filter.has_value() << ", errors: " << errors);
  if (r.adjacent)
    return;
  PBT_REQUIRE(g, p.filter.has_value() == expected, "must be " << (expected ? "accepted" : "refused"));
  if (!expected) {
    g.nontrivial();
    PBT_REQUIRE(g, p.diagnostics[0].located, "the error has no position");
    // The position of the token at fault.
    unsigned line = 1, column = 1;
    for (size_t k = 0; k < ts[r.i].offset; ++k) {
      if (text[k] == '\n')
        ++line, column = 1;
      else
        ++column;
    }
    bool simple = ts[r.i].k != Tok::End;
    if (simple)
      PBT_REQUIRE(g, p.diagnostics[0].line == line && p.diagnostics[0].column == column,
                  "the token at fault is at " << line << ":" << column);
  } else if (ts.size() > 6) {
    g.nontrivial();
  }
}
} // namespace

PBT_PROP("C26", sequences, 12000, 300000, "refused, or accepted with more than five tokens") {
  std::vector<Tok> ts;
  if (g.chance(60)) {
    // A written filter, and what is close to it.
    ts = tokens(g, entries(g, 4));
    for (size_t n = g.range(0, 3); n; --n) {
      if (ts.empty())
        break;
      size_t i = g.draw(ts.size()), j = g.draw(ts.size());
      switch (g.draw(4)) {
      case 0:
        ts.erase(ts.begin() + i);
        break;
      case 1:
        std::swap(ts[i], ts[j]);
        break;
      case 2:
        ts[i] = ts[j];
        break;
      default:
        ts.insert(ts.begin() + i, Tok(ts[j]));
      }
    }
  }
  static const std::vector<std::string> pool = {
      "x", "y.z", "der", "derx", "(", ")", "[", "]", ",", ";", ":", "$", "1", "20", "/x/", "//", "/(/", "/[/", "/a*/",
      "/*/", "/", "#", "1x", "9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967296", "-", "\"", "/a)/"};
  for (size_t n = ts.empty() ? g.range(0, 10) : g.chance(30); n; --n) {
    Tok t{Tok::Sym, g.pick(pool)};
    ts.insert(ts.begin() + g.draw(ts.size() + 1), t);
  }
  std::string text = layout(g, ts);
  g.log << "<" << quote(text) << ">\n";
  judge(g, text);
}

PBT_PROP("C26", bytes, 12000, 300000, "refused, or accepted with more than five tokens") {
  std::string text;
  static const std::string alphabet = "xyder()[],;:$/ 0123\n\t.*_";
  for (size_t n = g.range(0, 40); n; --n)
    text += g.chance(92) ? g.pick(alphabet) : static_cast<char>(g.draw(256));
  // What regular expressions accept differs among engines: keep them simple.
  // A lone carriage return is a line break for the diagnostics only.
  bool in = false;
  for (char &c : text) {
    if (c == '\r')
      c = ' ';
    if (c == '/')
      in = !in;
    else if (in && !isalnum(static_cast<unsigned char>(c)) && c != '.' && c != '_')
      c = 'r';
  }
  g.log << "<" << quote(text) << ">\n";
  judge(g, text);
}
