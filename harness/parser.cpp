// C19-C24: the parser of the language and its syntax trees.
#include "ast_build.h"

using namespace walk;
using syn::Gen;
using syn::Writer;
using tok::Pos;
using tok::TK;
using tok::Token;

namespace {
/// A token sequence with its text, and where each token is.
struct Text {
  std::string text;
  std::vector<Pos> at;
  std::vector<uint64_t> begin, end; // offsets
  bool special = false;

  Text(pbt::G &g, const std::vector<Token> &tokens) {
    special = tok::layout(g, tokens, text, at);
    // Carriage returns alone are lines for the diagnostics only.
    for (char &c : text)
      if (c == '\r')
        c = ' ';
    std::vector<uint64_t> lines{0};
    for (size_t i = 0; i < text.size(); ++i)
      if (text[i] == '\n')
        lines.push_back(i + 1);
    for (auto &p : at) {
      begin.push_back(lines[p.line - 1] + p.column - 1);
      end.push_back(p.endLine == 0 ? 0 : lines[p.endLine - 1] + p.endColumn);
    }
  }
};

std::string printable(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if ((c < 32 && c != '\n') || c > 126)
      snprintf(b, sizeof b, "<%02x>", c), r += b;
    else
      r += c;
  }
  return r;
}

std::string messages(const Parsing &p) {
  std::string r;
  for (auto &d : p.diags.errors)
    r += d.message + "; ";
  return r;
}

/// The text must be accepted, with no error.
T accepted(pbt::G &g, Parsing &p) {
  if (!p.root || !p.diags.errors.empty())
    g.fail("rejected: " + messages(p));
  Walker w;
  return w.read(p.root.get(), nullptr);
}

/// Carriage returns are not written within texts, see Text.
void clean(T &t) {
  for (auto &p : t.props) {
    for (char &c : p.second.s)
      if (c == '\r')
        c = ' ';
    for (auto &s : p.second.l)
      for (char &c : s)
        if (c == '\r')
          c = ' ';
  }
  for (auto &gr : t.groups)
    for (auto &k : gr.second.kids)
      clean(k);
}

void rejected(pbt::G &g, const Parsing &p) {
  PBT_REQUIRE(g, !p.root, "accepted");
  PBT_REQUIRE(g, !p.diags.errors.empty(), "rejected with no error");
}

/// Model with an expression somewhere.
T withExpression(pbt::G &g, T e) {
  T m("model");
  m.set("name", V::of(std::string("M"))).set("external", V::of(false));
  m.all("inner_classes", {});
  std::vector<T> vars, eqs, algs;
  auto ref = [](const char *n) {
    T r("component_reference"), x("component_reference_entry");
    r.set("dummy", V::of(false)).set("global_lookup", V::of(false));
    x.set("name", V::of(std::string(n))).all("subscripts", {});
    r.all("path", {x});
    return r;
  };
  switch (g.draw(3)) {
  case 0: {
    T v("member"), y("builtin_type"), x("type_prefix"), d("modification");
    v.set("name", V::of(std::string("x"))).set("public", V::of(true));
    y.set("type", V::of(std::string("Real"))).all("dimensions", {});
    x.set("variability", V::of(std::string("none"))).set("io", V::of(std::string("none")));
    d.one("expression", std::move(e));
    v.one("type", y).one("type_prefix", x).one("modification", d);
    vars.push_back(std::move(v));
    break;
  }
  case 1: {
    T s("equation_section"), q("equation_equality");
    s.set("initial", V::of(false));
    bool left = g.chance(50);
    T o = ref("x");
    q.one("lhs", left ? std::move(e) : o).one("rhs", left ? o : std::move(e));
    s.all("equations", {q});
    eqs.push_back(std::move(s));
    break;
  }
  default: {
    T s("algorithm"), q("assignment_statement"), d("tuple");
    s.set("initial", V::of(false));
    d.all("expressions", {ref("x")});
    q.one("destinations", d).one("expression", std::move(e));
    s.all("statements", {q});
    algs.push_back(std::move(s));
  }
  }
  m.all("variables", vars).all("equation_sections", eqs).all("algorithms", algs);
  T r("root");
  r.all("inner_classes", {m});
  return r;
}

size_t countOperators(const T &t) {
  size_t n = t.kind == "operation";
  for (auto &gr : t.groups)
    for (auto &k : gr.second.kids)
      n += countOperators(k);
  return n;
}

/// Reads the source written from the model and compares.
void roundTrip(pbt::G &g, T &model, int redundant) {
  clean(model);
  Writer w(g);
  w.redundant = redundant;
  w.unaryPlus = true;
  w.root(model);
  Text s(g, w.out);
  g.log << printable(s.text) << "\n";
  Parsing p(s.text);
  T found = accepted(g, p);
  std::string d = syn::difference(model, found, false);
  PBT_REQUIRE(g, d.empty(), d);
}

// ---------------------------------------------------------------------------
// Positions.

struct Checker {
  pbt::G &g;
  const std::string &text;
  std::vector<uint64_t> lines{0};
  Checker(pbt::G &g, const std::string &text) : g(g), text(text) {
    for (size_t i = 0; i < text.size(); ++i)
      if (text[i] == '\n')
        lines.push_back(i + 1);
  }

  /// Offset of a position, which must be within the source.
  int64_t offset(const marco::SourcePosition &p, const T &t) {
    PBT_REQUIRE(g, p.line >= 1 && (size_t)p.line <= lines.size() && p.column >= 1,
                "position " << p.line << ":" << p.column << " of " << t.kind << " outside of the source");
    int64_t o = lines[p.line - 1] + p.column - 1;
    int64_t end = (size_t)p.line < lines.size() ? lines[p.line] : text.size();
    PBT_REQUIRE(g, o < std::max<int64_t>(end, 1), "position " << p.line << ":" << p.column << " of " << t.kind << " outside of its line");
    return o;
  }

  static bool container(const std::string &k) {
    return k.rfind("equation_", 0) == 0 || k.find("statement") != std::string::npos || k == "operation" || k == "call" ||
           k == "tuple" || k == "array_constant" || k == "array_for_generator" || k == "subscript" || k == "for_index" ||
           k.rfind("function_argument", 0) == 0 || k == "modification" || k == "class_modification" || k == "component_reference" ||
           k == "component_reference_entry" || k == "algorithm" || k == "annotation" || k == "external_function_call";
  }

  /// Ranges are well formed, and within the ones of the containing nodes.
  void ranges(T &t, int64_t lo, int64_t hi, const std::string &outer, bool eof) {
    if (t.kind != "#list" && t.kind != "root") {
      auto l = static_cast<const Node *>(t.node)->getLocation();
      int64_t b = offset(l.begin, t), e = offset(l.end, t);
      PBT_REQUIRE(g, b <= e, t.kind << " ends before its beginning");
      PBT_REQUIRE(g, b >= lo && e <= hi, t.kind << " outside of " << outer);
      t.b = b;
      t.e = e;
      if (container(t.kind)) {
        for (auto &gr : t.groups)
          for (auto &k : gr.second.kids)
            ranges(k, b, e, t.kind, eof);
        return;
      }
    }
    for (auto &gr : t.groups)
      for (auto &k : gr.second.kids)
        ranges(k, t.kind == "#list" ? lo : 0, t.kind == "#list" ? hi : INT64_MAX, outer, eof);
  }

  /// Ranges are the ones of the written tokens.
  void tokens(const T &model, const T &found, const Text &s) {
    if (model.b >= 0) {
      auto l = static_cast<const Node *>(found.node)->getLocation();
      auto &x = s.at[model.b], &y = s.at[model.e];
      PBT_REQUIRE(g, l.begin.line == x.line && l.begin.column == x.column && l.end.line == y.endLine && l.end.column == y.endColumn,
                  model.kind << " at " << l.begin.line << ":" << l.begin.column << "-" << l.end.line << ":" << l.end.column
                             << " instead of " << x.line << ":" << x.column << "-" << y.endLine << ":" << y.endColumn);
      PBT_REQUIRE(g, l.begin.file && l.begin.file->getFileName() == "t.mo" && l.end.file && l.end.file->getFileName() == "t.mo",
                  "wrong file");
    }
    for (auto &gr : model.groups)
      for (size_t i = 0; i < gr.second.kids.size(); ++i)
        tokens(gr.second.kids[i], found.groups.at(gr.first).kids.at(i), s);
  }
};

/// Errors are within the source, at the beginning of a token or at the end.
int64_t errorToken(pbt::G &g, const Parsing &p, const Text &s, const Diag &d) {
  PBT_REQUIRE(g, d.valid, "error without a position: " << d.message);
  PBT_REQUIRE(g, d.offset <= p.text.size(), "error outside of the source: " << d.message);
  // The end of the file is reported at the last character, or after it.
  bool atEnd = s.end.empty() || d.offset + 1 >= s.end.back();
  if (d.message.find("found 'EOF'") != std::string::npos) {
    PBT_REQUIRE(g, atEnd, "end of the file reported at offset " << d.offset);
    return s.begin.size();
  }
  for (size_t i = 0; i < s.begin.size(); ++i)
    if (s.begin[i] == d.offset)
      return i;
  PBT_REQUIRE(g, atEnd, "error at offset " << d.offset << ", not at a token: " << d.message);
  return s.begin.size();
}

/// Changes some tokens of a source.
void mutate(pbt::G &g, std::vector<Token> &ts) {
  for (size_t i = 0, n = g.range(1, 3); i < n; ++i) {
    size_t at = ts.empty() ? 0 : g.draw(ts.size());
    switch (g.weighted({4, 4, 4, 3, 2, 2, 2})) {
    case 0:
      if (!ts.empty())
        ts.erase(ts.begin() + at);
      break;
    case 1:
      ts.insert(ts.begin() + at, tok::genToken(g));
      break;
    case 2:
      if (!ts.empty())
        ts[at] = tok::genToken(g);
      break;
    case 3:
      if (!ts.empty())
        std::swap(ts[at], ts[g.draw(ts.size())]);
      break;
    case 4:
      if (!ts.empty())
        ts.resize(at);
      break;
    case 5: {
      // Repeats a part.
      size_t k = std::min(ts.size() - at, (size_t)g.range(1, 6));
      std::vector<Token> part(ts.begin() + at, ts.begin() + at + k);
      ts.insert(ts.begin() + (ts.empty() ? 0 : g.draw(ts.size())), part.begin(), part.end());
      break;
    }
    default:
      // Something meaningful at the place.
      if (!ts.empty()) {
        T x = Gen(g, 5).someExpression();
        Writer w(g);
        w.expression(x, 0);
        ts.insert(ts.begin() + at, w.out.begin(), w.out.end());
      }
    }
  }
}

std::vector<Token> genSource(pbt::G &g, T &model, int budget) {
  Gen gen(g, budget);
  model = gen.root();
  clean(model);
  Writer w(g);
  w.unaryPlus = false;
  w.root(model);
  return w.out;
}

/// What is known about any parsing.
void checkAny(pbt::G &g, Parsing &p) {
  if (!p.root) {
    PBT_REQUIRE(g, !p.diags.errors.empty(), "neither a tree nor an error");
    for (auto &d : p.diags.errors) {
      PBT_REQUIRE(g, d.valid, "error without a position: " << d.message);
      PBT_REQUIRE(g, d.offset <= p.text.size(), "error outside of the source");
    }
    return;
  }
  PBT_REQUIRE(g, p.diags.errors.empty(), "a tree together with an error: " << messages(p));
  Walker w;
  T t = w.read(p.root.get(), nullptr);
  std::string json = dump(*p.root);
  auto copy = p.root->clone();
  PBT_REQUIRE(g, dump(*copy) == json, "the copy is exported differently");
}

} // namespace

// ---------------------------------------------------------------------------

PBT_PROP("C19", tokens, 5000, 150000, "random modifications of the tokens of a valid source, of at least 8 tokens") {
  T model;
  auto ts = genSource(g, model, g.range(5, 60));
  if (g.chance(90))
    mutate(g, ts);
  std::string text;
  std::vector<Pos> at;
  tok::layout(g, ts, text, at);
  g.log << printable(text) << "\n";
  if (ts.size() >= 8)
    g.nontrivial();
  Parsing p(text);
  g.label(p.root ? "accepted" : "rejected");
  checkAny(g, p);
}

PBT_PROP("C19", bytes, 5000, 150000, "random bytes, possibly within a valid source, of at least 8 bytes") {
  std::string text;
  if (g.chance(60)) {
    T model;
    auto ts = genSource(g, model, g.range(2, 40));
    std::vector<Pos> at;
    tok::layout(g, ts, text, at);
    for (size_t i = 0, n = g.range(1, 4); i < n; ++i) {
      size_t k = g.draw(text.size() + 1);
      switch (g.draw(3)) {
      case 0:
        text.insert(k, tok::genBytes(g, 6));
        break;
      case 1:
        if (k < text.size())
          text.erase(k, g.range(1, 5));
        break;
      default:
        if (k < text.size())
          text[k] = g.draw(256);
      }
    }
  } else {
    text = tok::genBytes(g, 80);
    if (g.chance(50))
      text = "model M " + text + " end M;";
  }
  g.log << printable(text) << "\n";
  if (text.size() >= 8)
    g.nontrivial();
  Parsing p(text);
  g.label(p.root ? "accepted" : "rejected");
  checkAny(g, p);
}

PBT_PROP("C19", nesting, 300, 6000, "at least 20 levels of nested constructs") {
  static const std::vector<std::pair<std::string, std::string>> around{
      {"(", ")"}, {"{", "}"}, {"f(", ")"}, {"a[", "]"}, {"-(", ")"}, {"not (", ")"}, {"if b then ", " else c"},
      {"f(x = ", ")"}, {"(x, ", ")"}, {"{y for i in ", "}"}, {"if ", " then b else c"}};
  std::string e = "x", tail;
  size_t n = g.range(1, 120), closed = g.chance(85) ? n : g.draw(n);
  bool mixed = g.chance(50);
  size_t k = g.draw(around.size());
  std::string head;
  for (size_t i = 0; i < n; ++i) {
    if (mixed)
      k = g.draw(around.size());
    head += around[k].first;
    if (i < closed)
      tail = around[k].second + tail;
  }
  std::string text;
  switch (g.draw(3)) {
  case 0:
    text = "model M equation " + std::string("x = ") + head + e + tail + "; end M;";
    break;
  case 1:
    text = "model M Real x = " + head + e + tail + "; end M;";
    break;
  default: {
    for (size_t i = 0; i < n; ++i)
      text += "model M ";
    for (size_t i = 0; i < closed; ++i)
      text += "end M; ";
  }
  }
  g.log << text << "\n";
  if (n >= 20)
    g.nontrivial();
  Parsing p(text);
  g.label(p.root ? "accepted" : "rejected");
  checkAny(g, p);
}

PBT_PROP("C20", expressions, 6000, 200000, "an expression with at least three operators") {
  Gen gen(g, g.range(1, 40));
  T e = gen.expression();
  if (countOperators(e) >= 3)
    g.nontrivial();
  T model = withExpression(g, e);
  roundTrip(g, model, g.chance(50) ? 0 : 10);
}

PBT_PROP("C20", refused, 2500, 60000, "an expression the grammar does not derive") {
  static const std::vector<TK> relations{TK::Greater, TK::GreaterEqual, TK::Less, TK::LessEqual, TK::Equal, TK::NotEqual};
  static const std::vector<TK> binary{TK::Plus, TK::Minus, TK::Product, TK::Division, TK::Pow, TK::PlusEW, TK::MinusEW,
                                      TK::ProductEW, TK::DivisionEW, TK::PowEW, TK::And, TK::Or, TK::Less, TK::Equal, TK::Colon};
  static const std::vector<TK> tight{TK::Product, TK::Division, TK::Pow, TK::ProductEW, TK::DivisionEW, TK::PowEW, TK::Plus, TK::Minus};
  Writer w(g);
  w.redundant = 10;
  auto operand = [&](int least) {
    T e = Gen(g, g.range(1, 8)).expression();
    clean(e);
    w.expression(e, least);
  };
  w.out.clear();
  auto words = [&](std::initializer_list<const char *> ts) {
    for (const char *t : ts) {
      std::string s = t;
      Token k{TK::Identifier, s, s};
      for (auto &x : tok::keywords())
        if (x.first == s)
          k.kind = x.second;
      for (auto &x : tok::symbols())
        if (x.first == s)
          k.kind = x.second;
      w.out.push_back(k);
    }
  };
  words({"model", "M", "equation", "x", "="});
  switch (g.draw(8)) {
  case 0: // chain of relations
    operand(6);
    w.fixed(g.pick(relations));
    operand(6);
    w.fixed(g.pick(relations));
    operand(6);
    break;
  case 1: // sign after an operator
    operand(9);
    w.fixed(g.pick(tight));
    w.fixed(g.chance(50) ? TK::Minus : TK::Plus);
    operand(9);
    break;
  case 2: // two signs
    w.fixed(TK::Minus);
    w.fixed(g.chance(50) ? TK::Minus : TK::Plus);
    operand(9);
    break;
  case 3: // two negations
    w.fixed(TK::Not);
    w.fixed(TK::Not);
    operand(9);
    break;
  case 4: // range of four
    operand(2);
    for (int i = 0; i < 3; ++i) {
      w.fixed(TK::Colon);
      operand(2);
    }
    break;
  case 5: // missing operand
    operand(9);
    w.fixed(g.pick(binary));
    break;
  case 6: // missing operator: constants can not follow an expression
    operand(9);
    w.out.push_back(Token{TK::Integer, "1", "", 1});
    break;
  default: { // unbalanced parentheses
    size_t b = w.out.size();
    operand(9);
    if (g.chance(50))
      w.fixed(TK::RPar);
    else
      w.out.insert(w.out.begin() + b, Token{TK::LPar, "(", ""});
  }
  }
  words({";", "end", "M", ";"});
  Text s(g, w.out);
  g.log << printable(s.text) << "\n";
  g.nontrivial();
  Parsing p(s.text);
  rejected(g, p);
}

PBT_PROP("C21", classes, 6000, 150000, "a source with at least ten nodes") {
  T model = Gen(g, g.range(5, 120)).root();
  if (model.size() >= 10)
    g.nontrivial();
  roundTrip(g, model, 5);
}

PBT_PROP("C22", valid, 2500, 80000, "two layouts with comments or adjacent tokens of a source of at least eight tokens") {
  T model;
  auto ts = genSource(g, model, g.range(5, 60));
  Text x(g, ts), y(g, ts);
  g.log << printable(x.text) << "\n--------\n" << printable(y.text) << "\n";
  if (ts.size() >= 8 && (x.special || y.special))
    g.nontrivial();
  Parsing p(x.text), q(y.text);
  T a = accepted(g, p), b = accepted(g, q);
  std::string d = syn::difference(a, b, true);
  PBT_REQUIRE(g, d.empty(), d);
  PBT_REQUIRE(g, dump(*p.root) == dump(*q.root), "exported differently");
}

PBT_PROP("C22", any, 3500, 100000, "two layouts of a modified source, of at least eight tokens") {
  T model;
  auto ts = genSource(g, model, g.range(2, 40));
  mutate(g, ts);
  for (auto &t : ts)
    for (char &c : t.text)
      if (c == '\r')
        c = ' ';
  Text x(g, ts), y(g, ts);
  g.log << printable(x.text) << "\n--------\n" << printable(y.text) << "\n";
  if (ts.size() >= 8)
    g.nontrivial();
  Parsing p(x.text), q(y.text);
  PBT_REQUIRE(g, !p.root == !q.root, "accepted depending on the layout: " << messages(p) << messages(q));
  g.label(p.root ? "accepted" : "rejected");
  if (p.root) {
    Walker w, v;
    T a = w.read(p.root.get(), nullptr), b = v.read(q.root.get(), nullptr);
    std::string d = syn::difference(a, b, true);
    PBT_REQUIRE(g, d.empty(), d);
    return;
  }
  PBT_REQUIRE(g, messages(p) == messages(q), messages(p) << " against " << messages(q));
  for (size_t i = 0; i < p.diags.errors.size(); ++i) {
    int64_t k = errorToken(g, p, x, p.diags.errors[i]), l = errorToken(g, q, y, q.diags.errors[i]);
    PBT_REQUIRE(g, k == l, "error at the token " << k << " or " << l << " depending on the layout");
  }
}

PBT_PROP("C22", parentheses, 2000, 60000, "a source with redundant parentheses") {
  T model = Gen(g, g.range(5, 40)).root();
  clean(model);
  Writer a(g), b(g);
  a.redundant = 0;
  b.redundant = 30;
  b.unaryPlus = true;
  T other = model;
  a.root(model);
  b.root(other);
  Text x(g, a.out), y(g, b.out);
  g.log << printable(x.text) << "\n--------\n" << printable(y.text) << "\n";
  if (a.out.size() != b.out.size())
    g.nontrivial();
  Parsing p(x.text), q(y.text);
  T t = accepted(g, p), u = accepted(g, q);
  std::string d = syn::difference(t, u, false);
  PBT_REQUIRE(g, d.empty(), d);
}

PBT_PROP("C23", exports, 2500, 80000, "a tree with at least ten nodes") {
  T model;
  auto ts = genSource(g, model, g.range(5, 100));
  Text s(g, ts);
  g.log << printable(s.text) << "\n";
  if (model.size() >= 10)
    g.nontrivial();
  Parsing p(s.text);
  Walker w;
  PBT_REQUIRE(g, p.root, "rejected: " << messages(p));
  T tree = w.read(p.root.get(), nullptr);
  PBT_REQUIRE(g, w.badParent.empty(), "wrong link: " << w.badParent);
  std::string json = dump(*p.root);
  auto doc = llvm::json::parse(json);
  if (!doc) {
    llvm::consumeError(doc.takeError());
    g.fail("the document is malformed");
  }
  std::string d = syn::difference(exported(tree), readJSON(*doc), true);
  PBT_REQUIRE(g, d.empty(), d);
}

PBT_PROP("C23", built, 4000, 120000, "a built and copied tree with at least three nodes") {
  T model;
  genSource(g, model, g.range(5, 60));
  // Builds any of the subtrees.
  std::vector<const T *> all;
  std::function<void(const T &)> visit = [&](const T &t) {
    if (t.kind[0] != '#')
      all.push_back(&t);
    for (auto &x : t.groups)
      for (auto &k : x.second.kids)
        visit(k);
  };
  visit(model);
  // All the kinds of nodes are as frequent.
  std::map<std::string, std::vector<const T *>> kinds;
  for (auto *t : all)
    kinds[t->kind].push_back(t);
  auto it = kinds.begin();
  std::advance(it, g.draw(kinds.size()));
  const T &t = *it->second[g.draw(it->second.size())];
  std::string text;
  t.show(text);
  g.log << printable(text) << "\n";
  if (t.size() >= 3)
    g.nontrivial();
  Builder builder;
  auto origin = builder.build(t);
  PBT_REQUIRE(g, origin, "no node for " << t.kind);
  Walker w;
  T read = w.read(origin.get(), nullptr);
  std::string d = syn::difference(t, read, true);
  PBT_REQUIRE(g, d.empty(), "the built tree differs: " << d);
  PBT_REQUIRE(g, w.badParent.empty(), "wrong link in the built tree: " << w.badParent);
  int64_t line = 1;
  for (auto *n : w.nodes)
    const_cast<Node *>(n)->setLocation(marco::SourceRange(marco::SourcePosition(nullptr, line, 2), marco::SourcePosition(nullptr, line, 5))), ++line;
  std::string json = dump(*origin);
  auto doc = llvm::json::parse(json);
  if (!doc) {
    llvm::consumeError(doc.takeError());
    g.fail("the document is malformed");
  }
  d = syn::difference(exported(read), readJSON(*doc), true);
  PBT_REQUIRE(g, d.empty(), "the document differs: " << d);
  auto copy = origin->clone();
  auto same = [&](const char *when) {
    PBT_REQUIRE(g, dump(*copy) == json, "the copy is exported differently " << when);
    Walker after;
    T c = after.read(copy.get(), nullptr);
    std::string d = syn::difference(t, c, true);
    PBT_REQUIRE(g, d.empty(), "the copy differs " << when << ": " << d);
    PBT_REQUIRE(g, after.badParent.empty(), "wrong link in the copy: " << after.badParent);
    std::set<const Node *> own(w.nodes.begin(), w.nodes.end());
    for (size_t i = 0; i < after.nodes.size(); ++i) {
      PBT_REQUIRE(g, !own.count(after.nodes[i]), "node shared with the origin " << when);
      PBT_REQUIRE(g, after.nodes[i]->getLocation().begin.line == (int64_t)i + 1, "another location in the copy " << when);
    }
  };
  same("at once");
  w.nodes.clear();
  origin.reset();
  same("after destroying the origin");
}

PBT_PROP("C23", copies, 3000, 90000, "a copied tree with at least five nodes") {
  T model;
  auto ts = genSource(g, model, g.range(5, 80));
  Text s(g, ts);
  g.log << printable(s.text) << "\n";
  Parsing p(s.text);
  PBT_REQUIRE(g, p.root, "rejected: " << messages(p));
  Walker all;
  all.read(p.root.get(), nullptr);
  // Copies any of the nodes.
  const Node *origin = g.chance(40) ? p.root.get() : all.nodes[g.draw(all.nodes.size())];
  g.log << "copy of a node of kind " << origin->getKind<int32_t>() << "\n";
  std::string json = dump(*origin);
  Walker before;
  T expected = before.read(origin, nullptr);
  if (expected.size() >= 5)
    g.nontrivial();
  std::vector<marco::SourceRange> where;
  for (auto *n : before.nodes)
    where.push_back(n->getLocation());
  auto copy = origin->clone();
  auto same = [&](const char *when) {
    PBT_REQUIRE(g, dump(*copy) == json, "the copy is exported differently " << when);
    Walker after;
    T t = after.read(copy.get(), nullptr);
    std::string d = syn::difference(expected, t, true);
    PBT_REQUIRE(g, d.empty(), "the copy differs " << when << ": " << d);
    PBT_REQUIRE(g, after.badParent.empty(), "wrong link in the copy: " << after.badParent);
    std::set<const Node *> own(all.nodes.begin(), all.nodes.end());
    for (size_t i = 0; i < after.nodes.size(); ++i) {
      PBT_REQUIRE(g, !own.count(after.nodes[i]), "node shared with the origin " << when);
      auto l = after.nodes[i]->getLocation();
      PBT_REQUIRE(g, l.begin.line == where[i].begin.line && l.begin.column == where[i].begin.column && l.end.line == where[i].end.line && l.end.column == where[i].end.column,
                  "the copy of " << t.kind << " has another location");
    }
  };
  same("at once");
  // Modifies the origin.
  auto another = [] {
    auto c = std::make_unique<Constant>(marco::SourceRange::unknown());
    c->setValue(int64_t(77));
    return c;
  };
  for (auto *cn : all.nodes) {
    Node *n = const_cast<Node *>(cn);
    if (!g.chance(30))
      continue;
    if (auto *x = n->dyn_cast<Class>()) {
      x->setName("other");
      if (g.chance(20))
        x->setExternalLanguage("other");
      if (g.chance(20))
        x->setExternal(!x->isExternal());
    } else if (auto *x = n->dyn_cast<Member>()) {
      x->setName("other");
      x->setPublic(!x->isPublic());
    } else if (auto *x = n->dyn_cast<Constant>()) {
      x->setValue(std::string("other"));
    } else if (auto *x = n->dyn_cast<ComponentReferenceEntry>()) {
      x->setName("other");
    } else if (auto *x = n->dyn_cast<ComponentReference>()) {
      x->setGlobalLookup(!x->isGlobalLookup());
    } else if (auto *x = n->dyn_cast<Operation>()) {
      x->setOperationKind(OperationKind::unknown);
    } else if (auto *x = n->dyn_cast<EquationSection>()) {
      x->setInitial(!x->isInitial());
    } else if (auto *x = n->dyn_cast<Algorithm>()) {
      x->setInitial(!x->isInitial());
    } else if (auto *x = n->dyn_cast<ElementModification>()) {
      x->setName("other");
      x->setEachProperty(!x->hasEachProperty());
      x->setFinalProperty(!x->hasFinalProperty());
    } else if (auto *x = n->dyn_cast<TypePrefix>()) {
      x->setIOQualifier(IOQualifier::output);
      x->setVariabilityQualifier(VariabilityQualifier::discrete);
    } else if (auto *x = n->dyn_cast<BuiltInType>()) {
      x->setBuiltInTypeKind(x->getBuiltInTypeKind() == BuiltInType::Kind::Real ? BuiltInType::Kind::String : BuiltInType::Kind::Real);
    } else if (auto *x = n->dyn_cast<UserDefinedType>()) {
      x->setGlobalLookup(!x->isGlobalLookup());
      x->setPath({std::string("other")});
    } else if (auto *x = n->dyn_cast<ForIndex>()) {
      x->setName("other");
    } else if (auto *x = n->dyn_cast<NamedFunctionArgument>()) {
      x->setName("other");
    }
    n->setLocation(marco::SourceRange::unknown());
  }
  same("after modifying the origin");
  // Setters own what they are given.
  for (auto *cn : before.nodes) {
    if (auto *x = const_cast<Node *>(cn)->dyn_cast<EqualityEquation>()) {
      x->setLhsExpression(another());
      PBT_REQUIRE(g, x->getLhsExpression()->getParent() == x, "wrong link after replacing a child");
      break;
    }
  }
  all.nodes.clear();
  p.root.reset();
  same("after destroying the origin");
}

PBT_PROP("C24", nodes, 3500, 100000, "a source with at least ten nodes and a multi-line layout") {
  T model;
  auto ts = genSource(g, model, g.range(5, 80));
  Text s(g, ts);
  g.log << printable(s.text) << "\n";
  if (model.size() >= 10 && s.text.find('\n') != std::string::npos)
    g.nontrivial();
  Parsing p(s.text);
  T found = accepted(g, p);
  // The same structure is needed to compare.
  if (!syn::difference(model, found, false).empty())
    g.discard();
  Checker c(g, s.text);
  c.tokens(model, found, s);
  c.ranges(found, 0, INT64_MAX, "", true);
}

PBT_PROP("C24", errors, 3500, 100000, "a modified source with at least eight tokens") {
  T model;
  auto ts = genSource(g, model, g.range(2, 40));
  mutate(g, ts);
  for (auto &t : ts)
    for (char &c : t.text)
      if (c == '\r')
        c = ' ';
  Text s(g, ts);
  g.log << printable(s.text) << "\n";
  if (ts.size() >= 8)
    g.nontrivial();
  Parsing p(s.text);
  g.label(p.root ? "accepted" : "rejected");
  for (auto &d : p.diags.errors)
    errorToken(g, p, s, d);
  if (p.root) {
    Walker w;
    T t = w.read(p.root.get(), nullptr);
    Checker c(g, s.text);
    c.ranges(t, 0, INT64_MAX, "", true);
  }
}

