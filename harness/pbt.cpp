#include "pbt.h"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

static std::set<std::string> knownKeys;

std::vector<Property> &registry() {
  static std::vector<Property> r;
  return r;
}

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static uint64_t hashString(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

static void saveLog(G &g) {
  std::string l = g.log.str();
  uint32_t n = std::min(l.size(), sizeof(g.shared->log));
  memcpy(g.shared->log, l.data(), n);
  g.shared->logSize = n;
}

std::streamsize Log::Buf::xsputn(const char *s, std::streamsize n) {
  auto r = std::stringbuf::xsputn(s, n);
  if (g->streamLog)
    saveLog(*g);
  return r;
}

Log::Buf::int_type Log::Buf::overflow(int_type c) {
  auto r = std::stringbuf::overflow(c);
  if (g->streamLog)
    saveLog(*g);
  return r;
}

uint64_t G::draw(uint64_t n) {
  if (n <= 1)
    n = 1;
  uint32_t i = shared->numChoices;
  uint64_t v;
  if (replaying) {
    v = i < input.size() ? input[i] : 0;
    if (v >= n)
      v %= n;
  } else if (i >= kMaxChoices) {
    v = 0;
  } else {
    v = static_cast<uint64_t>(
        (static_cast<unsigned __int128>(splitmix(rng)) * n) >> 64);
  }
  if (i < kMaxChoices) {
    shared->choices[i] = v;
    shared->numChoices = i + 1;
  }
  return v;
}

bool G::known(const std::string &key) {
  if (knownKeys.count(key)) {
    shared->known = shared->known + 1;
    return true;
  }
  return false;
}

static Shared *newShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared *>(p);
}

static void armCpuLimit(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static std::string describeDeath(int status) {
  std::ostringstream os;
  if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGPROF)
      os << "does not terminate: CPU time limit for one case exceeded";
    else
      os << "crash: killed by signal " << WTERMSIG(status) << " ("
         << strsignal(WTERMSIG(status)) << ")";
  } else if (WEXITSTATUS(status) == 99) {
    os << "memory error reported by the sanitizer";
  } else {
    os << "crash: exit status " << WEXITSTATUS(status);
  }
  return os.str();
}

static bool runBody(const Property &p, G &g) {
  // Returns false if discarded; throws Failure.
  try {
    p.run(g);
    return true;
  } catch (Discard &) {
    return false;
  }
}

static void setMessage(Shared *s, const std::string &m) {
  size_t n = std::min(m.size(), sizeof(s->message) - 1);
  memcpy(s->message, m.data(), n);
  s->message[n] = 0;
}

struct Outcome {
  bool failed = false;
  std::string message;
  std::string log;
  std::vector<uint64_t> choices; // as consumed
};

/// Run one case, given its choices, in a fresh process.
static Outcome runIsolated(const Property &p, const std::vector<uint64_t> &in,
                           bool thorough, int cpuLimit, bool wantLog,
                           const std::string &errFile) {
  static Shared *s = newShared();
  s->numChoices = 0;
  s->state = 0;
  s->message[0] = 0;
  s->logSize = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errFile.empty() ? "/dev/null" : errFile.c_str(),
                  O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    G g;
    g.shared = s;
    g.replaying = true;
    g.streamLog = wantLog;
    g.input = in;
    g.thorough = thorough;
    armCpuLimit(cpuLimit);
    uint32_t st = 1;
    try {
      runBody(p, g);
    } catch (Failure &f) {
      setMessage(s, f.message);
      st = 2;
    }
    armCpuLimit(0);
    if (wantLog)
      saveLog(g);
    s->state = st;
    _exit(0);
  }
  Outcome o;
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (s->state == 2) {
    o.failed = true;
    o.message = s->message;
  } else if (s->state != 1) {
    o.failed = true;
    o.message = describeDeath(status);
  }
  if (wantLog)
    o.log.assign(s->log, s->logSize);
  o.choices.assign(s->choices, s->choices + s->numChoices);
  return o;
}

// A process running many candidates one after another: much faster than one
// process for each. It is replaced when a candidate kills it.
struct Server {
  pid_t pid = -1;
  int to = -1, from = -1;
  Shared *s = newShared();
  uint64_t *input = static_cast<uint64_t *>(
      mmap(nullptr, (kMaxChoices + 1) * sizeof(uint64_t), PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));

  void stop() {
    if (pid < 0)
      return;
    close(to);
    close(from);
    int status;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    pid = -1;
  }

  void start(const Property &p, bool thorough, int cpuLimit) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) {
      perror("pipe");
      exit(3);
    }
    pid = fork();
    if (pid != 0) {
      close(a[0]);
      close(b[1]);
      to = a[1];
      from = b[0];
      return;
    }
    close(a[1]);
    close(b[0]);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 1);
    dup2(nul, 2);
    char c;
    while (read(a[0], &c, 1) == 1) {
      G g;
      g.shared = s;
      g.replaying = true;
      g.thorough = thorough;
      g.input.assign(input + 1, input + 1 + input[0]);
      uint32_t st = 1;
      armCpuLimit(cpuLimit);
      try {
        runBody(p, g);
      } catch (Failure &f) {
        setMessage(s, f.message);
        st = 2;
      }
      armCpuLimit(0);
      s->state = st;
      if (write(b[1], &c, 1) != 1)
        break;
    }
    _exit(0);
  }

  Outcome run(const Property &p, const std::vector<uint64_t> &in, bool thorough,
              int cpuLimit) {
    if (pid < 0)
      start(p, thorough, cpuLimit);
    s->numChoices = 0;
    s->state = 0;
    s->message[0] = 0;
    size_t n = std::min(in.size(), kMaxChoices);
    input[0] = n;
    std::copy(in.begin(), in.begin() + n, input + 1);
    char c = 'r';
    Outcome o;
    bool ok = write(to, &c, 1) == 1;
    if (ok) {
      ssize_t r;
      while ((r = read(from, &c, 1)) < 0 && errno == EINTR) {
      }
      ok = r == 1;
    }
    if (!ok) {
      close(to);
      close(from);
      int status = 0;
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      pid = -1;
      o.failed = true;
      o.message = describeDeath(status);
    } else if (s->state == 2) {
      o.failed = true;
      o.message = s->message;
    }
    o.choices.assign(s->choices, s->choices + s->numChoices);
    return o;
  }
};

static bool simpler(const std::vector<uint64_t> &a,
                    const std::vector<uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

static std::vector<uint64_t> shrink(const Property &p,
                                    std::vector<uint64_t> best, bool thorough,
                                    double deadline, std::string &message) {
  int limit = std::min(p.cpuLimit, 6);
  signal(SIGPIPE, SIG_IGN);
  Server server;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (now() > deadline)
      return false;
    Outcome o = server.run(p, cand, thorough, limit);
    if (!o.failed)
      return false;
    if (simpler(o.choices, cand))
      cand = o.choices;
    if (!simpler(cand, best))
      return false;
    best = cand;
    message = o.message;
    return true;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // Delete chunks.
    for (size_t size = std::max<size_t>(best.size() / 2, 1); size >= 1;
         size /= 2) {
      for (size_t i = best.size(); i-- > 0 && now() < deadline;) {
        if (i + size > best.size())
          continue;
        std::vector<uint64_t> cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + size);
        if (attempt(cand))
          progress = true;
        else if (size > 8)
          i = i >= size / 2 ? i - size / 2 : 0;
      }
      if (size == 1)
        break;
    }
    // Delete one and decrement a previous one (lengths).
    for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
      if (best[i] == 0 || best[i] > 64)
        continue;
      for (size_t size : {1, 2, 3, 4, 5, 6, 8}) {
        bool ok = false;
        for (size_t j = i + 1; j + size <= best.size() && j < i + 40; ++j) {
          std::vector<uint64_t> cand = best;
          cand[i] -= 1;
          cand.erase(cand.begin() + j, cand.begin() + j + size);
          if (attempt(cand)) {
            ok = progress = true;
            break;
          }
          if (now() > deadline)
            break;
        }
        if (ok)
          break;
      }
      if (i > 400)
        break;
    }
    // Lower values.
    for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
      if (best[i] == 0)
        continue;
      std::vector<uint64_t> cand = best;
      cand[i] = 0;
      if (attempt(cand)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && i < best.size() && now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          if (i >= best.size() || best[i] > mid)
            break;
          hi = best[i];
        } else {
          lo = mid;
        }
      }
    }
  }
  server.stop();
  return best;
}

static int retries() {
  const char *e = getenv("PBT_RETRIES");
  return e ? atoi(e) : 1;
}

static std::string jsonEscape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    default:
      if (c < 32 || c >= 127) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else
        r += c;
    }
  }
  return r;
}

struct Stats {
  uint64_t executed = 0, discarded = 0, nontrivialCount = 0, known = 0;
  bool truncated = false;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::vector<std::string> flaky;
};

struct Found {
  bool any = false;
  uint64_t index = 0;
  std::vector<uint64_t> choices;
  std::string message;
};

static Found runProperty(const Property &p, uint64_t count, uint64_t seed,
                         bool thorough, int jobs, double deadline,
                         const std::string &tmpPrefix, Stats &stats,
                         uint64_t first = 0) {
  std::vector<Shared *> sh;
  std::vector<pid_t> pids;
  static std::vector<Shared *> pool;
  while ((int)pool.size() < jobs)
    pool.push_back(newShared());
  for (int w = 0; w < jobs; ++w) {
    Shared *s = pool[w];
    sh.push_back(s);
    s->state = 0;
    s->executed = s->discarded = s->nontrivial = s->known = 0;
    s->numChoices = 0;
    s->caseIndex = 0;
    s->message[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      std::string base = tmpPrefix + ".w" + std::to_string(w);
      int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC,
                    0644);
      dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      std::unordered_set<uint64_t> distinct;
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      uint32_t st = 1;
      for (uint64_t i = first + w; i < count; i += jobs) {
        if (now() > deadline)
          break;
        uint64_t base = seed * 0x9e3779b97f4a7c15ULL ^
                        hashString(p.id + "/" + p.name) ^
                        (i * 0xd1342543de82ef95ULL);
        uint64_t mix = base;
        G g;
        g.rng = splitmix(mix);
        g.shared = s;
        g.thorough = thorough;
        s->caseIndex = i;
        s->numChoices = 0;
        armCpuLimit(p.cpuLimit);
        bool ok;
        try {
          ok = runBody(p, g);
        } catch (Failure &f) {
          setMessage(s, f.message);
          st = 2;
          break;
        }
        s->executed = s->executed + 1;
        if (!ok) {
          s->discarded = s->discarded + 1;
          continue;
        }
        for (auto &l : g.labels)
          labels[l.first] += 1;
        if (g.isNontrivial) {
          s->nontrivial = s->nontrivial + 1;
          std::string l = g.log.str();
          distinct.insert(hashString(l));
          if (samples.size() < 2 && w < 3 && i >= (uint64_t)jobs)
            samples.push_back(l.substr(0, 1500));
        }
      }
      armCpuLimit(0);
      std::ofstream o(base + ".stat", std::ios::binary);
      for (uint64_t h : distinct)
        o << "D " << h << "\n";
      for (auto &l : labels)
        o << "L " << l.second << " " << l.first << "\n";
      for (auto &x : samples)
        o << "S " << jsonEscape(x) << "\n";
      o.close();
      s->state = st;
      _exit(0);
    }
    pids.push_back(pid);
  }
  Found found;
  int alive = jobs;
  bool killed = false;
  while (alive > 0) {
    int status;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) {
      if (errno == EINTR)
        continue;
      break;
    }
    int w = -1;
    for (int k = 0; k < jobs; ++k)
      if (pids[k] == pid)
        w = k;
    if (w < 0)
      continue;
    --alive;
    Shared *s = sh[w];
    if (s->state != 1 && !(killed && s->state == 0 && WIFSIGNALED(status) &&
                           WTERMSIG(status) == SIGKILL)) {
      std::string m = s->state == 2 ? std::string(s->message)
                                    : describeDeath(status);
      if (!found.any || s->caseIndex < found.index) {
        found.any = true;
        found.index = s->caseIndex;
        found.choices.assign(s->choices, s->choices + s->numChoices);
        found.message = m;
      }
      if (!killed) {
        killed = true;
        for (int k = 0; k < jobs; ++k)
          if (k != w)
            kill(pids[k], SIGKILL);
      }
    }
  }
  for (int w = 0; w < jobs; ++w) {
    stats.executed += sh[w]->executed;
    stats.discarded += sh[w]->discarded;
    stats.nontrivialCount += sh[w]->nontrivial;
    stats.known += sh[w]->known;
    std::string base = tmpPrefix + ".w" + std::to_string(w);
    std::ifstream in(base + ".stat", std::ios::binary);
    std::string line;
    while (std::getline(in, line)) {
      if (line.size() < 2)
        continue;
      if (line[0] == 'D')
        stats.distinct.insert(strtoull(line.c_str() + 2, nullptr, 10));
      else if (line[0] == 'L') {
        char *e;
        uint64_t n = strtoull(line.c_str() + 2, &e, 10);
        stats.labels[e + 1] += n;
      } else if (line[0] == 'S')
        stats.samples.push_back(line.substr(2));
    }
    in.close();
    unlink((base + ".stat").c_str());
    unlink((base + ".err").c_str());
  }
  if (!found.any && stats.executed + first < count)
    stats.truncated = true;
  return found;
}

static std::string joinChoices(const std::vector<uint64_t> &c) {
  std::string s;
  for (size_t i = 0; i < c.size(); ++i)
    s += (i ? "," : "") + std::to_string(c[i]);
  return s;
}

static int replay(const std::string &file) {
  std::ifstream in(file);
  std::string line, name, choices;
  bool thorough = false;
  while (std::getline(in, line)) {
    if (line == "---")
      break;
    if (line.rfind("check=", 0) == 0)
      name = line.substr(6);
    else if (line.rfind("choices=", 0) == 0)
      choices = line.substr(8);
    else if (line.rfind("tier=", 0) == 0)
      thorough = line.substr(5) == "thorough";
  }
  std::vector<uint64_t> c;
  std::stringstream ss(choices);
  std::string t;
  while (std::getline(ss, t, ','))
    c.push_back(strtoull(t.c_str(), nullptr, 10));
  for (const Property &p : registry()) {
    if (p.name != name)
      continue;
    std::string err = file + ".stderr.tmp";
    Outcome o = runIsolated(p, c, thorough, p.cpuLimit, true, err);
    for (int i = 1; i < retries() && !o.failed; ++i)
      o = runIsolated(p, c, thorough, p.cpuLimit, true, err);
    std::cout << o.log << "\n";
    std::ifstream e(err);
    std::cout << e.rdbuf();
    unlink(err.c_str());
    if (o.failed) {
      std::cout << "FAIL " << o.message << std::endl;
      return 1;
    }
    std::cout << "PASS" << std::endl;
    return 0;
  }
  std::cerr << "unknown check " << name << "\n";
  return 3;
}

int main(int argc, char **argv) {
  std::string id, tier = "quick", evidence, replayDir = ".", replayFile, only,
              tmp = "/tmp/pbt";
  uint64_t seed = 1;
  int jobs = 8;
  double scale = 1.0, budget = 0, buildSeconds = 0;
  std::vector<std::string> assumptions;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") id = next();
    else if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay-dir") replayDir = next();
    else if (a == "--replay") replayFile = next();
    else if (a == "--only") only = next();
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--build-seconds") buildSeconds = atof(next().c_str());
    else if (a == "--tmp") tmp = next();
    else if (a == "--known") knownKeys.insert(next());
    else if (a == "--assume") assumptions.push_back(next());
    else {
      std::cerr << "unknown option " << a << "\n";
      return 3;
    }
  }
  if (!replayFile.empty())
    return replay(replayFile);
  bool thorough = tier == "thorough";
  if (budget <= 0)
    budget = thorough ? 3000 : 420;
  double start = now();
  double deadline = start + budget;

  std::vector<const Property *> todo;
  for (const Property &p : registry())
    if (p.id == id && (only.empty() || p.name == only))
      todo.push_back(&p);
  if (todo.empty()) {
    std::cerr << "no check for " << id << "\n";
    return 3;
  }
  std::vector<std::pair<const Property *, Stats>> all;
  int violations = 0;
  std::string violationLine;
  for (size_t k = 0; k < todo.size() && violations == 0; ++k) {
    const Property &p = *todo[k];
    uint64_t count = static_cast<uint64_t>((thorough ? p.thorough : p.quick) *
                                           scale);
    if (count == 0)
      count = 1;
    // Share of the remaining time.
    double share = now() + (deadline - now()) / (todo.size() - k);
    Stats stats;
    double t0 = now();
    uint64_t first = 0;
    for (int round = 0; round < 4; ++round) {
      Found f = runProperty(p, count, seed, thorough, jobs, share,
                            tmp + "." + p.name, stats, first);
      if (!f.any)
        break;
      // Confirm before shrinking.
      auto failsThrice = [&](const std::vector<uint64_t> &c,
                             std::string &m) {
        // Failures depending on the schedule of the threads.
        for (int i = 0; retries() > 1; ++i) {
          Outcome o = runIsolated(p, c, thorough, p.cpuLimit, false, "");
          if (o.failed)
            m = o.message;
          if (o.failed || i == retries())
            return o.failed;
        }
        for (int i = 0; i < 3; ++i) {
          Outcome o = runIsolated(p, c, thorough, p.cpuLimit, false, "");
          if (!o.failed)
            return false;
          m = o.message;
        }
        return true;
      };
      std::string m = f.message;
      std::cerr << p.name << ": case " << f.index << " fails: " << m
                << "; confirming and shrinking\n";
      if (!failsThrice(f.choices, m)) {
        stats.flaky.push_back("case " + std::to_string(f.index) + ": " +
                              f.message);
        first = f.index + 1; // resume behind it
        continue;
      }
      std::vector<uint64_t> small = shrink(p, f.choices, thorough,
                                           now() + (thorough ? 180 : 60), m);
      if (!failsThrice(small, m)) {
        small = f.choices;
        m = f.message;
      }
      std::string err = tmp + "." + p.name + ".stderr";
      Outcome o = runIsolated(p, small, thorough, p.cpuLimit, true, err);
      std::string path = replayDir + "/" + id + "-" + p.name + ".replay";
      std::ofstream out(path);
      out << "property=" << id << "\ncheck=" << p.name << "\ntier=" << tier
          << "\nseed=" << seed << "\ncase=" << f.index << "\nmessage="
          << o.message << "\nchoices=" << joinChoices(small) << "\n---\n"
          << o.log << "\n---\n";
      std::ifstream e(err);
      std::string line;
      for (int n = 0; n < 60 && std::getline(e, line); ++n)
        out << line << "\n";
      out.close();
      unlink(err.c_str());
      std::cout << "failure in " << p.name << ": " << o.message << "\n"
                << o.log << "\n";
      violationLine = "VIOLATION property=" + id + " replay=" + path;
      ++violations;
      break;
    }
    std::cerr << p.name << ": " << stats.executed << " cases ("
              << stats.distinct.size() << " distinct non-trivial, "
              << stats.discarded << " discarded, " << stats.known
              << " excluded as known) in " << now() - t0 << " s"
              << (stats.truncated ? " TRUNCATED" : "") << "\n";
    for (auto &l : stats.labels)
      std::cerr << "    " << l.first << ": " << l.second << "\n";
    for (auto &l : stats.flaky)
      std::cerr << "    not reproduced: " << l << "\n";
    all.emplace_back(&p, std::move(stats));
  }
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    uint64_t ev = 0, dn = 0;
    std::string rule;
    for (auto &a : all) {
      ev += a.second.executed;
      dn += a.second.distinct.size();
      rule += (rule.empty() ? "" : " | ") + a.first->name + ": " +
              a.first->rule;
    }
    o << "{\"property\": \"" << id << "\", \"tier\": \"" << tier
      << "\", \"seed\": " << seed
      << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << ev
      << ", \"distinct_nontrivial\": " << dn << ", \"rule\": \""
      << jsonEscape(rule) << "\", \"samples\": [";
    bool firstItem = true;
    for (auto &a : all) {
      size_t n = 0;
      for (auto &s : a.second.samples) {
        if (n++ >= 2)
          break;
        o << (firstItem ? "" : ", ") << "\"" << jsonEscape(a.first->name)
          << ": " << s << "\"";
        firstItem = false;
      }
    }
    o << "], \"checks\": {";
    firstItem = true;
    for (auto &a : all) {
      const Stats &s = a.second;
      o << (firstItem ? "" : ", ") << "\"" << a.first->name
        << "\": {\"cases\": " << s.executed << ", \"nontrivial\": "
        << s.nontrivialCount << ", \"distinct_nontrivial\": "
        << s.distinct.size() << ", \"discarded\": " << s.discarded
        << ", \"excluded_known\": " << s.known << ", \"truncated\": "
        << (s.truncated ? "true" : "false") << ", \"not_reproduced\": "
        << s.flaky.size() << ", \"classes\": {";
      bool f2 = true;
      for (auto &l : s.labels) {
        o << (f2 ? "" : ", ") << "\"" << jsonEscape(l.first)
          << "\": " << l.second;
        f2 = false;
      }
      o << "}}";
      firstItem = false;
    }
    o << "}, \"build_s\": " << buildSeconds << "}, \"assumptions\": [";
    firstItem = true;
    for (auto &a : assumptions) {
      o << (firstItem ? "" : ", ") << "\"" << jsonEscape(a) << "\"";
      firstItem = false;
    }
    o << "], \"wall_s\": " << (now() - start + buildSeconds)
      << ", \"violations\": " << violations << "}\n";
  }
  if (violations) {
    std::cout << violationLine << std::endl;
    return 1;
  }
  std::cout << "PASS property=" << id << std::endl;
  return 0;
}

} // namespace pbt

int main(int argc, char **argv) { return pbt::main(argc, argv); }
