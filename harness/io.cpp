// C27: kinds of the input files, commands.
#include "marco/IO/Command.h"
#include "marco/IO/InputFile.h"
#include "pbt.h"
#include <cstdlib>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace marco::io;

namespace {
std::string quote(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c >= 32 && c < 127)
      r += c;
    else
      snprintf(b, sizeof b, "\\x%02x", c), r += b;
  }
  return r;
}

const std::map<std::string, std::pair<Language, Format>> kinds = {
    {"mo", {Language::Modelica, Format::Source}},
    {"mlir", {Language::MLIR, Format::Source}},
    {"bc", {Language::LLVM_IR, Format::Source}},
    {"ll", {Language::LLVM_IR, Format::Source}},
    {"o", {Language::Unknown, Format::Object}},
};

std::string component(pbt::G &g) {
  static const std::vector<std::string> pool = {"mo", "mlir", "bc", "ll", "o", "MO", "m", "mos", "lll", "bcx", "a", "model", "x y", "-", ""};
  std::string s;
  for (size_t n = g.range(1, 4); n; --n) {
    if (!s.empty() || g.chance(15))
      s += '.';
    s += g.pick(pool);
    if (g.chance(5))
      s += '.';
  }
  return s;
}

struct Scratch {
  std::string path;
  Scratch() {
    char t[] = "/tmp/verif-io-XXXXXX";
    if (!mkdtemp(t))
      abort();
    path = t;
  }
  ~Scratch() {
    for (const char *f : {"in", "out", "err"})
      unlink((path + "/" + f).c_str());
    rmdir(path.c_str());
  }
};

std::string slurp(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}

std::string argument(pbt::G &g) {
  static const std::vector<std::string> pool = {"a", "-f", "--x=y", "*", "$HOME", "a b", "'", "\"", "\\", "\n", "-", "+i=M.x", "a;b", "%s", "\xc3\xa9", "\t"};
  std::string s = g.pick(pool);
  for (size_t n = g.weighted({4, 2, 1, 1}); n; --n)
    s += g.chance(50) ? g.pick(pool) : std::string(1, static_cast<char>(g.range(1, 255)));
  if (g.chance(2))
    s += std::string(g.range(1000, 20000), 'z');
  return s;
}
} // namespace

PBT_PROP("C27", kinds, 20000, 400000, "of a known kind, or with a known extension elsewhere in the path") {
  std::string path;
  if (g.chance(20))
    path = "/";
  for (size_t n = g.weighted({3, 3, 2, 1}); n; --n)
    path += component(g) + "/";
  std::string last = component(g);
  if (last.find('/') != std::string::npos)
    g.discard();
  path += last;
  g.log << "<" << quote(path) << ">";
  size_t dot = last.rfind('.');
  // A name without any extension is of an unknown kind.
  std::string extension = dot == std::string::npos ? "" : last.substr(dot + 1);
  auto it = kinds.find(extension);
  std::pair<Language, Format> expected = it == kinds.end() ? std::make_pair(Language::Unknown, Format::Unknown) : it->second;
  if (it != kinds.end() || path.find(".mo") != std::string::npos || path.find(".o") != std::string::npos)
    g.nontrivial();
  for (int way = 0; way < 2; ++way) {
    InputKind k = way ? InputKind::getFromExtension(extension) : InputKind::getFromFullFileName(path);
    PBT_REQUIRE(g, k.getLanguage() == expected.first && k.getFormat() == expected.second,
                (way ? "from the extension: " : "from the path: ") << int(k.getLanguage()) << " " << int(k.getFormat()));
    PBT_REQUIRE(g, k.isUnknown() == (it == kinds.end()), "");
    InputFile f(path, k);
    InputFile copy = f;
    f = InputFile();
    PBT_REQUIRE(g, f.isEmpty() && f.isFile() && !f.isBuffer(), "an empty file");
    PBT_REQUIRE(g, copy.isFile() && !copy.isBuffer() && copy.isEmpty() == path.empty() && copy.getFile() == path, "");
    PBT_REQUIRE(g, copy.getKind().getLanguage() == expected.first && copy.getKind().getFormat() == expected.second, "");
    auto buffer = llvm::MemoryBuffer::getMemBufferCopy(path);
    InputFile b(buffer.get(), k);
    PBT_REQUIRE(g, b.isBuffer() && !b.isFile() && !b.isEmpty() && b.getBuffer() == buffer.get(), "");
    PBT_REQUIRE(g, b.getKind().getFormat() == expected.second, "");
  }
}

PBT_PROP("C27", commands, 500, 12000, "at least two arguments, appended in different ways") {
  Scratch scratch;
  Command cmd("/bin/sh");
  // What is received: the arguments on the standard output, the input on the
  // standard error.
  // 126 and 127 are how programs that cannot be run are told.
  int code = g.chance(50) ? 0 : g.range(1, 125);
  cmd.appendArg("-c").appendArg(llvm::StringRef("for a; do printf '%s\\0' \"$a\"; done; cat >&2; exit " + std::to_string(code)));
  cmd.appendArg("sh");
  bool in = g.chance(50), err = g.chance(50);
  std::string input = argument(g);
  std::ofstream(scratch.path + "/in", std::ios::binary) << input;
  cmd.setStdinRedirect(in ? scratch.path + "/in" : std::string("/dev/null"));
  cmd.setStdoutRedirect(scratch.path + "/out");
  cmd.setStderrRedirect(err ? scratch.path + "/err" : std::string("/dev/null"));
  std::vector<std::string> expected;
  unsigned ways = 0;
  for (size_t n = g.range(0, 8); n; --n) {
    // Empty arguments are not passed on.
    auto one = [&] {
      std::string s = g.chance(8) ? "" : argument(g);
      g.log << "<" << quote(s) << "> ";
      if (!s.empty())
        expected.push_back(s);
      return s;
    };
    size_t way = g.draw(3);
    ways |= 1 << way;
    if (way == 0) {
      cmd.appendArg(one().c_str());
    } else if (way == 1) {
      // Not terminated.
      std::string s = one();
      std::string longer = s + "tail";
      cmd.appendArg(llvm::StringRef(longer.data(), s.size()));
    } else {
      std::vector<std::string> list;
      for (size_t k = g.range(0, 3); k; --k)
        list.push_back(one());
      std::vector<const char *> raw;
      for (auto &s : list)
        raw.push_back(s.c_str());
      cmd.appendArgs(raw);
    }
  }
  if (expected.size() > 1 && (ways & (ways - 1)))
    g.nontrivial();
  if (g.chance(30)) {
    Command copy = cmd;
    cmd = copy;
  }
  int rc = cmd.exec();
  PBT_REQUIRE(g, rc == code, "exit code " << rc << " instead of " << code);
  std::string out;
  for (auto &s : expected)
    out += s + '\0';
  PBT_REQUIRE(g, slurp(scratch.path + "/out") == out, "received <" << quote(slurp(scratch.path + "/out")) << ">");
  if (err)
    PBT_REQUIRE(g, slurp(scratch.path + "/err") == (in ? input : ""), "standard input <" << quote(slurp(scratch.path + "/err")) << ">");
}
