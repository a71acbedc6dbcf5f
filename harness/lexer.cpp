// C17, C18: what the scanner returns against the tokens that were written.
#include "marco/Lexer/FloatLexer.h"
#include "marco/Lexer/IntegerLexer.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include "pbt.h"
#include "tokens.h"
#include <cmath>

using namespace tok;

namespace {
using TK = marco::parser::bmodelica::TokenKind;
using MarcoLexer = marco::lexer::Lexer<marco::parser::bmodelica::StateMachine>;

/// Distance in representable numbers.
uint64_t ulps(double a, double b) {
  if (a == b)
    return 0;
  if (std::isnan(a) || std::isnan(b) || std::signbit(a) != std::signbit(b))
    return ~0ull;
  int64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x > y ? x - y : y - x;
}

std::string digits(pbt::G &g, size_t n) {
  std::string s;
  size_t mode = g.weighted({5, 1, 1, 2});
  for (size_t i = 0; i < n; ++i)
    s += mode == 1 ? '0' : mode == 2 ? '9' : mode == 3 ? (g.chance(30) ? '0' + g.draw(10) : '0') : '0' + g.draw(10);
  return s;
}

size_t count(pbt::G &g) {
  switch (g.weighted({5, 3, 1, 1})) {
  case 0:
    return g.range(1, 6);
  case 1:
    return g.range(1, 20);
  case 2:
    return g.range(17, 40);
  default:
    return g.range(20, g.thorough ? 600 : 120);
  }
}
} // namespace

PBT_PROP("C17", integers, 30000, 600000, "at least three digits") {
  std::string text;
  if (g.chance(40)) {
    // Around the powers of two.
    unsigned p = g.range(1, 63);
    uint64_t v = (1ull << p) - 1;
    v -= std::min<uint64_t>(v, g.draw(3));
    if (p < 62 && g.chance(50))
      v += g.draw(4);
    text = std::to_string(v);
  } else {
    text = digits(g, g.range(1, 19));
    if (text.size() == 19 && text > "9223372036854775807")
      text = text.substr(1);
  }
  if (g.chance(25))
    text = std::string(g.range(1, 30), '0') + text;
  g.log << text << "\n";
  if (text.size() >= 3)
    g.nontrivial();
  uint64_t want = strtoull(text.c_str(), nullptr, 10);

  marco::lexer::IntegerLexer<10> il;
  for (char c : text)
    il += c - '0';
  PBT_REQUIRE(g, (uint64_t)il.get() == want, "integer lexer: " << il.get());

  std::string after = g.pick(std::vector<std::string>{"", " ", ";", ")", "+", "\n", "/", "*", ",", "]", ":"});
  Text t(text + after);
  MarcoLexer lexer(t.file);
  auto token = lexer.scan();
  PBT_REQUIRE(g, token.getKind() == TK::Integer, toString(token));
  PBT_REQUIRE(g, (uint64_t)token.getInt() == want, token.getInt());
}

PBT_PROP("C17", large_integers, 5000, 60000, "always") {
  std::string text = digits(g, g.range(19, 45));
  text[0] = '1' + g.draw(9);
  if (text.size() == 19)
    text[0] = '9', text[1] = '3' + g.draw(7);
  g.nontrivial();
  g.log << text << "\n";
  Text t(text + (g.chance(50) ? ";" : ""));
  MarcoLexer lexer(t.file);
  auto token = lexer.scan();
  PBT_REQUIRE(g, token.getKind() == TK::Error,
              "does not fit 64 bits but is read as " << (token.getKind() == TK::Integer ? token.getInt() : 0));
}

PBT_PROP("C17", reals, 60000, 1500000, "a fractional part or an exponent other than zero") {
  std::string upper = digits(g, count(g)), lower, exp, text;
  bool dot = g.chance(80), e = !dot || g.chance(60);
  if (dot && g.chance(85))
    lower = digits(g, count(g));
  if (e) {
    char sign = "\0+-"[g.draw(3)];
    exp = g.chance(50) ? "e" : "E";
    if (sign)
      exp += sign;
    if (g.chance(10))
      exp += std::string(g.range(1, 25), '0');
    switch (g.weighted({6, 3, 1})) {
    case 0:
      exp += std::to_string(g.draw(20));
      break;
    case 1:
      exp += std::to_string(g.draw(420));
      break;
    default:
      exp += digits(g, g.range(1, 24));
    }
  }
  text = upper + (dot ? "." : "") + lower + exp;
  if (lower.find_first_not_of('0') != std::string::npos || exp.find_first_of("123456789") != std::string::npos)
    g.nontrivial();
  g.log << text << "\n";
  double want = strtod(text.c_str(), nullptr);

  std::vector<std::string> followers{"", " ", ";", ")", "\n", ",", "]", "*"};
  if (!lower.empty() || e)
    followers.insert(followers.end(), {"+", "-1", "/2", "^3", ":"});
  else
    followers.insert(followers.end(), {"+1", "-1", "/2", "^3", ":3"});
  std::string after = g.pick(followers);
  Text t(text + after);
  MarcoLexer lexer(t.file);
  auto token = lexer.scan();
  PBT_REQUIRE(g, token.getKind() == TK::FloatingPoint, toString(token) << " for " << text << after);
  double got = token.getFloat();
  PBT_REQUIRE(g, ulps(got, want) <= 4, got << " instead of " << want);
}

PBT_PROP("C17", digits_in_order, 20000, 300000, "at least five digits") {
  // The accumulators on their own, reused after a reset.
  marco::lexer::FloatLexer<10> fl;
  size_t rounds = g.range(1, 3);
  for (size_t r = 0; r < rounds; ++r) {
    std::string upper = digits(g, g.draw(25)), lower = digits(g, g.draw(30)), exp = digits(g, g.draw(4));
    bool negative = g.chance(40);
    g.log << upper << "." << lower << "e" << (negative ? "-" : "") << exp << "\n";
    if (upper.size() + lower.size() >= 5)
      g.nontrivial();
    for (char c : upper)
      fl.addUpper(c - '0');
    for (char c : lower)
      fl.addLower(c - '0');
    if (!exp.empty()) {
      fl.setSign(!negative);
      for (char c : exp)
        fl.addExponential(c - '0');
    }
    std::string text = "0" + upper + "." + lower + (exp.empty() ? "" : "e" + std::string(negative ? "-" : "") + exp);
    double want = strtod(text.c_str(), nullptr);
    PBT_REQUIRE(g, ulps(fl.get(), want) <= 4, fl.get() << " instead of " << want);
    PBT_REQUIRE(g, ulps(fl.get(), want) <= 4, "asked twice: " << fl.get() << " instead of " << want);
    fl.reset();
    PBT_REQUIRE(g, fl.get() == 0, "not zero after a reset");
  }
}

PBT_PROP("C17", malformed_exponents, 4000, 60000, "always") {
  std::string text = digits(g, g.range(1, 5));
  if (g.chance(60))
    text += "." + digits(g, g.draw(5));
  text += g.chance(50) ? "e" : "E";
  if (g.chance(50))
    text += g.chance(50) ? "+" : "-";
  text += g.pick(std::vector<std::string>{"", "x", " 1", ";", "_", ".", "+", "e1", "\n", ")"});
  // A sign followed by a digit would be an exponent.
  g.nontrivial();
  g.log << text << "\n";
  Text t(text);
  MarcoLexer lexer(t.file);
  PBT_REQUIRE(g, lexer.scan().getKind() == TK::Error, "an exponent without digits is accepted");
}

PBT_PROP("C18", written_tokens, 30000, 600000, "at least three tokens, and a comment or an adjacent pair") {
  auto seq = genTokens(g, g.draw(g.thorough ? 40 : 16));
  std::string text;
  std::vector<Pos> at;
  bool special = layout(g, seq, text, at);
  g.log << text << "\n";
  if (seq.size() >= 3 && special)
    g.nontrivial();
  Text t(text);
  MarcoLexer lexer(t.file);
  for (size_t i = 0; i < seq.size(); ++i) {
    auto token = lexer.scan();
    auto &w = seq[i];
    std::ostringstream where;
    where << "token " << i << " '" << w.text << "'";
    PBT_REQUIRE(g, token.getKind() == w.kind, where.str() << ": read as " << toString(token));
    if (w.kind == TK::Identifier || w.kind == TK::String)
      PBT_REQUIRE(g, token.getString() == w.value, where.str() << ": contents '" << token.getString() << "'");
    if (w.kind == TK::Integer)
      PBT_REQUIRE(g, token.getInt() == w.integer, where.str() << ": value " << token.getInt());
    if (w.kind == TK::FloatingPoint)
      PBT_REQUIRE(g, ulps(token.getFloat(), w.real) <= 4, where.str() << ": value " << token.getFloat());
    auto loc = token.getLocation();
    PBT_REQUIRE(g, loc.begin.line == at[i].line && loc.begin.column == at[i].column,
                where.str() << ": begins at " << loc.begin.line << ":" << loc.begin.column << " instead of "
                            << at[i].line << ":" << at[i].column);
    PBT_REQUIRE(g, loc.end.line == at[i].endLine && loc.end.column == at[i].endColumn,
                where.str() << ": ends at " << loc.end.line << ":" << loc.end.column << " instead of "
                            << at[i].endLine << ":" << at[i].endColumn);
    PBT_REQUIRE(g, loc.begin.file && loc.begin.file->getFileName() == "t.mo" && loc.end.file == loc.begin.file,
                where.str() << ": other file");
  }
  for (size_t i = 0, e = 1 + g.draw(3); i < e; ++i) {
    auto token = lexer.scan();
    PBT_REQUIRE(g, token.getKind() == TK::EndOfFile, "read as " << toString(token) << " after the last token");
  }
}

PBT_PROP("C18", any_bytes, 20000, 500000, "at least two tokens") {
  std::string text = genBytes(g, g.thorough ? 120 : 60);
  for (unsigned char c : text)
    g.log << (c >= 32 && c < 127 ? std::string(1, c) : "\\x" + std::to_string(c));
  g.log << "\n";
  Text t(text);
  size_t length = text.find('\0') == std::string::npos ? text.size() : text.find('\0');
  // Positions of the characters.
  std::vector<std::pair<int64_t, int64_t>> pos;
  int64_t line = 1, column = 0;
  for (size_t i = 0; i <= length; ++i) {
    ++column;
    if (i < length && text[i] == '\n')
      column = 0, ++line;
    pos.push_back({line, column});
  }
  MarcoLexer lexer(t.file);
  size_t n = 0;
  bool malformed = false;
  std::pair<int64_t, int64_t> last{0, 0};
  while (true) {
    auto token = lexer.scan();
    auto loc = token.getLocation();
    std::pair<int64_t, int64_t> b{loc.begin.line, loc.begin.column}, e{loc.end.line, loc.end.column};
    std::ostringstream where;
    where << toString(token) << " at " << b.first << ":" << b.second << "-" << e.first << ":" << e.second;
    PBT_REQUIRE(g, b <= e, where.str());
    malformed |= token.getKind() == TK::Error;
    // Past a malformed token the end of file may be reported some columns further.
    PBT_REQUIRE(g, malformed || e <= pos.back(), where.str() << " ends after the text");
    if (token.getKind() != TK::EndOfFile && token.getKind() != TK::Error) {
      PBT_REQUIRE(g, b > last, where.str() << " overlaps the previous token");
      PBT_REQUIRE(g, std::binary_search(pos.begin(), pos.end(), b), where.str());
      size_t bi = std::lower_bound(pos.begin(), pos.end(), b) - pos.begin();
      size_t ei = std::lower_bound(pos.begin(), pos.end(), e) - pos.begin();
      std::string piece = text.substr(bi, ei - bi + 1);
      // The range holds exactly the text of the token.
      std::string spelled = toString(token.getKind());
      if (isFixed(token.getKind()))
        PBT_REQUIRE(g, piece == spellingOf(token.getKind()), where.str() << " is '" << piece << "'");
      if (token.getKind() == TK::Integer)
        PBT_REQUIRE(g, piece.find_first_not_of("0123456789") == std::string::npos, where.str() << " is '" << piece << "'");
      if (token.getKind() == TK::FloatingPoint) {
        char *end;
        strtod(piece.c_str(), &end);
        PBT_REQUIRE(g, *end == 0 && !piece.empty() && isdigit(piece[0]), where.str() << " is '" << piece << "'");
        PBT_REQUIRE(g, ulps(token.getFloat(), strtod(piece.c_str(), nullptr)) <= 4, where.str() << " is " << token.getFloat());
      }
      if (token.getKind() == TK::String)
        PBT_REQUIRE(g, piece.size() >= 2 && piece[0] == '"' && piece.back() == '"' && decode(piece) == token.getString(), where.str());
      if (token.getKind() == TK::Identifier)
        PBT_REQUIRE(g, (piece[0] == '\'' ? decode(piece) : piece) == token.getString(), where.str() << " is '" << piece << "'");
      last = e;
    }
    if (token.getKind() == TK::EndOfFile)
      break;
    PBT_REQUIRE(g, b <= pos.back(), where.str() << " begins after the text");
    ++n;
    PBT_REQUIRE(g, n <= length + 1, "more tokens than characters");
  }
  if (n >= 2)
    g.nontrivial();
}
