// Written tokens and how they are laid out in a text.
#pragma once
#include "marco/Lexer/Location.h"
#include "marco/Parser/BaseModelica/Token.h"
#include "pbt.h"

namespace tok {
using TK = marco::parser::bmodelica::TokenKind;

struct Token {
  TK kind;
  std::string text;
  std::string value; // identifiers and strings
  int64_t integer = 0;
  double real = 0;
};

struct Pos {
  int64_t line, column, endLine, endColumn;
};

/// A source file owning its text.
struct Text {
  std::unique_ptr<llvm::MemoryBuffer> buffer;
  std::shared_ptr<marco::SourceFile> file;
  explicit Text(const std::string &s) {
    buffer = llvm::MemoryBuffer::getMemBufferCopy(s, "t.mo");
    file = std::make_shared<marco::SourceFile>("t.mo");
    file->setMemoryBuffer(buffer.get());
  }
};

/// Keywords and symbols, as the language defines them.
inline const std::vector<std::pair<std::string, TK>> &keywords() {
  static const std::vector<std::pair<std::string, TK>> k{
      {"algorithm", TK::Algorithm}, {"and", TK::And}, {"annotation", TK::Annotation}, {"block", TK::Block},
      {"break", TK::Break}, {"class", TK::Class}, {"connect", TK::Connect}, {"connector", TK::Connector},
      {"constant", TK::Constant}, {"constrainedby", TK::ConstrainedBy}, {"der", TK::Der}, {"discrete", TK::Discrete},
      {"each", TK::Each}, {"else", TK::Else}, {"elseif", TK::ElseIf}, {"elsewhen", TK::ElseWhen},
      {"encapsulated", TK::Encapsulated}, {"end", TK::End}, {"enumeration", TK::Enumeration}, {"equation", TK::Equation},
      {"expandable", TK::Expandable}, {"extends", TK::Extends}, {"external", TK::External}, {"false", TK::False},
      {"final", TK::Final}, {"flow", TK::Flow}, {"for", TK::For}, {"function", TK::Function}, {"if", TK::If},
      {"import", TK::Import}, {"impure", TK::Impure}, {"in", TK::In}, {"initial", TK::Initial}, {"inner", TK::Inner},
      {"input", TK::Input}, {"loop", TK::Loop}, {"model", TK::Model}, {"not", TK::Not}, {"operator", TK::Operator},
      {"or", TK::Or}, {"outer", TK::Outer}, {"output", TK::Output}, {"package", TK::Package}, {"parameter", TK::Parameter},
      {"partial", TK::Partial}, {"protected", TK::Protected}, {"public", TK::Public}, {"pure", TK::Pure},
      {"record", TK::Record}, {"redeclare", TK::Redeclare}, {"replaceable", TK::Replaceable}, {"return", TK::Return},
      {"stream", TK::Stream}, {"then", TK::Then}, {"true", TK::True}, {"type", TK::Type}, {"when", TK::When},
      {"while", TK::While}, {"within", TK::Within}};
  return k;
}

inline const std::vector<std::pair<std::string, TK>> &symbols() {
  static const std::vector<std::pair<std::string, TK>> s{
      {"+", TK::Plus}, {".+", TK::PlusEW}, {"-", TK::Minus}, {".-", TK::MinusEW}, {"*", TK::Product}, {".*", TK::ProductEW},
      {"/", TK::Division}, {"./", TK::DivisionEW}, {"^", TK::Pow}, {".^", TK::PowEW}, {".", TK::Dot}, {"==", TK::Equal},
      {"<>", TK::NotEqual}, {"<", TK::Less}, {"<=", TK::LessEqual}, {">", TK::Greater}, {">=", TK::GreaterEqual},
      {",", TK::Comma}, {";", TK::Semicolon}, {":", TK::Colon}, {"(", TK::LPar}, {")", TK::RPar}, {"[", TK::LSquare},
      {"]", TK::RSquare}, {"{", TK::LCurly}, {"}", TK::RCurly}, {"=", TK::EqualityOperator}, {":=", TK::AssignmentOperator}};
  return s;
}

inline bool isKeyword(const std::string &s) {
  for (auto &k : keywords())
    if (k.first == s)
      return true;
  return false;
}

inline std::string spellingOf(TK kind) {
  for (auto &k : keywords())
    if (k.second == kind)
      return k.first;
  for (auto &k : symbols())
    if (k.second == kind)
      return k.first;
  return "";
}

inline bool isFixed(TK kind) { return !spellingOf(kind).empty(); }

inline char unescape(char c) {
  switch (c) {
  case 'a': return 7;
  case 'b': return 8;
  case 'f': return 12;
  case 'n': return 10;
  case 'r': return 13;
  case 't': return 9;
  case 'v': return 11;
  }
  return c;
}

/// Contents of a quoted text.
inline std::string decode(const std::string &piece) {
  std::string r;
  for (size_t i = 1; i + 1 < piece.size(); ++i) {
    if (piece[i] == '\\' && i + 2 < piece.size())
      r += unescape(piece[++i]);
    else
      r += piece[i];
  }
  return r;
}

inline std::string quoted(pbt::G &g, char quote, std::string &value) {
  std::string t(1, quote);
  for (size_t i = 0, n = g.draw(8); i < n; ++i) {
    char c;
    switch (g.weighted({6, 2, 1, 1})) {
    case 0:
      c = 'a' + g.draw(26);
      break;
    case 1:
      c = 32 + g.draw(95);
      break;
    case 2:
      c = 1 + g.draw(255);
      break;
    default:
      c = "\n\t*/'\"\\"[g.draw(7)];
    }
    if (c == quote || c == '\\' || g.chance(15)) {
      t += '\\';
      t += c;
      value += unescape(c);
    } else {
      t += c;
      value += c;
    }
  }
  return t + quote;
}

inline std::string word(pbt::G &g) {
  static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  static const std::string next = first + "0123456789";
  std::string s;
  if (g.chance(25)) {
    // Close to a keyword.
    s = g.pick(keywords()).first;
    switch (g.draw(4)) {
    case 0:
      s += next[g.draw(next.size())];
      break;
    case 1:
      s.pop_back();
      break;
    case 2:
      s[0] = toupper(s[0]);
      break;
    default:
      s = "_" + s;
    }
  }
  if (s.empty()) {
    s = first[g.draw(first.size())];
    for (size_t i = 0, n = g.draw(6); i < n; ++i)
      s += next[g.draw(next.size())];
  }
  if (g.chance(8))
    s = "$" + s;
  return isKeyword(s) ? s + "_" : s;
}

inline Token genToken(pbt::G &g) {
  Token t{TK::None, "", ""};
  switch (g.weighted({6, 6, 4, 2, 3, 2, 2})) {
  case 0: {
    auto &s = g.pick(symbols());
    t.kind = s.second;
    t.text = s.first;
    break;
  }
  case 1:
    t.kind = TK::Identifier;
    t.text = t.value = word(g);
    break;
  case 2: {
    auto &s = g.pick(keywords());
    t.kind = s.second;
    t.text = s.first;
    break;
  }
  case 3:
    t.kind = TK::Identifier;
    t.text = quoted(g, '\'', t.value);
    break;
  case 4:
    t.kind = TK::Integer;
    t.integer = g.chance(80) ? g.draw(1000) : g.draw(1ull << 62);
    t.text = std::string(g.chance(10) ? 2 : 0, '0') + std::to_string(t.integer);
    break;
  case 5: {
    t.kind = TK::FloatingPoint;
    t.text = std::to_string(g.draw(1000));
    size_t form = g.draw(4);
    if (form < 3)
      t.text += ".";
    if (form == 0 || form == 1)
      t.text += std::to_string(g.draw(100000));
    if (form == 1 || form == 2 || form == 3) {
      t.text += g.chance(50) ? "e" : "E";
      if (g.chance(50))
        t.text += g.chance(50) ? "-" : "+";
      t.text += std::to_string(g.draw(30));
    }
    t.real = strtod(t.text.c_str(), nullptr);
    break;
  }
  default:
    t.kind = TK::String;
    t.text = quoted(g, '"', t.value);
  }
  return t;
}

inline std::vector<Token> genTokens(pbt::G &g, size_t n) {
  std::vector<Token> r;
  for (size_t i = 0; i < n; ++i)
    r.push_back(genToken(g));
  return r;
}

/// White space and comments; never empty.
inline std::string separator(pbt::G &g, bool last) {
  std::string s;
  for (size_t i = 0, n = g.range(1, 3); i < n; ++i) {
    switch (g.weighted({6, 2, 2, 2, 3})) {
    case 0:
      s += ' ';
      break;
    case 1:
      s += '\n';
      break;
    case 2:
      s += "\t\r\v\f"[g.draw(4)];
      break;
    case 3: {
      s += "//";
      for (size_t k = 0, m = g.draw(6); k < m; ++k)
        s += "ab */\"'\\.1\r"[g.draw(11)];
      if (!last || i + 1 < n || g.chance(70))
        s += '\n';
      break;
    }
    default: {
      std::string c;
      for (size_t k = 0, m = g.draw(6); k < m; ++k) {
        char x = "a *\n/\"'\\e"[g.draw(9)];
        if (x == '/' && !c.empty() && c.back() == '*')
          x = '*';
        c += x;
      }
      s += "/*" + c + "*/";
    }
    }
  }
  return s;
}

/// Whether two texts next to each other are still two tokens.
inline bool separable(const std::string &a, const std::string &b) {
  static const std::string ops = "+-*/^.=<>:";
  auto wordy = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; };
  char x = a.back(), y = b[0];
  if (wordy(x) && wordy(y))
    return false;
  if (ops.find(x) != std::string::npos && ops.find(y) != std::string::npos)
    return false;
  if (isdigit((unsigned char)a[0]) && (y == '.' || wordy(y)))
    return false;
  if (x == '.' && isdigit((unsigned char)a[0]) && (ops.find(y) != std::string::npos || wordy(y)))
    return false;
  if (x == '.' && isdigit((unsigned char)y))
    return false;
  return true;
}

/// Lays the tokens out; returns whether there are comments or adjacent tokens.
inline bool layout(pbt::G &g, const std::vector<Token> &seq, std::string &text, std::vector<Pos> &at) {
  bool special = false;
  if (g.chance(30))
    text += separator(g, seq.empty());
  int64_t line = 1, column = 0;
  size_t done = 0;
  auto follow = [&] {
    for (; done < text.size(); ++done) {
      ++column;
      if (text[done] == '\n')
        column = 0, ++line;
    }
  };
  for (size_t i = 0; i < seq.size(); ++i) {
    follow();
    Pos p{line, column + 1, 0, 0};
    text += seq[i].text;
    follow();
    p.endLine = line;
    p.endColumn = column;
    at.push_back(p);
    bool last = i + 1 == seq.size();
    if (last ? g.chance(50) : separable(seq[i].text, seq[i + 1].text) && g.chance(40)) {
      special = special || !last;
      continue;
    }
    std::string s = separator(g, last);
    if (s.find('/') != std::string::npos)
      special = true;
    if ((text.back() == '/' || text.back() == '.') && s[0] == '/')
      s = " " + s;
    text += s;
  }
  return special;
}

/// Texts which look like sources.
inline std::string genBytes(pbt::G &g, size_t max) {
  std::string s;
  size_t n = g.draw(max);
  while (s.size() < n) {
    switch (g.weighted({3, 3, 2, 2, 1, 2})) {
    case 0:
      s += 32 + g.draw(95);
      break;
    case 1:
      s += genToken(g).text;
      break;
    case 2:
      s += "/*\\\"'.e1+-=<>:\n "[g.draw(16)];
      break;
    case 3:
      s += std::to_string(g.draw(100));
      break;
    case 4:
      s += (char)g.draw(256);
      break;
    default:
      s += separator(g, false);
    }
  }
  return s;
}
} // namespace tok
