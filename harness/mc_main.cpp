// Explorer: see mc.hpp
#include "mc.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
int __sanitizer_get_ownership(const volatile void*);
void __sanitizer_set_death_callback(void (*)(void));
}
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=0:hard_rss_limit_mb=2500:"
         "detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=16:"
         "handle_abort=1:symbolize=0:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:max_allocation_size_mb=1024:"
         "detect_container_overflow=1:print_legend=0";
}
#endif

namespace mc {

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}

static std::atomic<long> g_live(0);
static void onMalloc(const volatile void*, size_t) {
  g_live.fetch_add(1, std::memory_order_relaxed);
}
static void onFree(const volatile void* p) {
  if (p) {
    g_live.fetch_sub(1, std::memory_order_relaxed);
  }
}
Live::Live() : before(g_live.load()) {}
long Live::blocks() const {
  return g_live.load() - before;
}
bool isLiveBlock(const void* p) {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_ownership(p);
#else
  return p != nullptr;
#endif
}

static const int MAXPATH = 400;
static const int MAXVIO = 4;
static const int MAXHISTORY = 64;

struct VioRec {
  int n;
  int path[MAXPATH];
  char message[1024];
};

struct Shm {
  std::atomic<std::uint64_t> execs, counted, nodes, steps, checks, pruned, known;
  std::atomic<int> n;
  int path[MAXPATH];
  int arity[MAXPATH];
  std::atomic<int> done; // 1 = exhausted, 2 = stopped by cap, 3 = stopped after a violation
  std::atomic<int> stop;
  int nvio;
  VioRec vio[MAXVIO];
  std::uint64_t perScenario[256];
  std::uint64_t maxDepth;
  std::uint64_t replayChecked, replayDiverged;
  // The last executions of the worker, for failures which depend on earlier ones
  std::uint64_t ringCount;
  int ringN[MAXHISTORY];
  int ring[MAXHISTORY][MAXPATH];
};

static Shm* g_shm = nullptr;
static int g_worker = 0;
static int g_workers = 1;
static std::unordered_set<std::uint64_t>* g_states = nullptr;
static std::unordered_set<std::uint64_t>* g_outcomes = nullptr;
static const std::size_t SETCAP = 2000000;

int Ctx::pick(int n) {
  if (n <= 0) {
    std::fprintf(stderr, "mc: pick(%d)\n", n);
    std::_Exit(97);
  }
  if (depth < path.size()) {
    if (arity[depth] == -1) {
      arity[depth] = n;
    } else if (arity[depth] != n) {
      std::fprintf(stderr, "mc: divergence while replaying a prefix at depth %zu (%d vs %d)\n", depth, arity[depth], n);
      std::_Exit(98);
    }
    if (path[depth] >= n) {
      std::fprintf(stderr, "mc: out-of-range choice while replaying\n");
      std::_Exit(98);
    }
  } else {
    path.push_back(0);
    arity.push_back(n);
    if (path.size() > (std::size_t)MAXPATH) {
      std::fprintf(stderr, "mc: path too long\n");
      std::_Exit(97);
    }
    if (g_shm) {
      g_shm->path[depth] = 0;
      g_shm->arity[depth] = n;
      g_shm->n.store(int(depth + 1), std::memory_order_release);
    }
  }
  return path[depth++];
}

void Ctx::shard() {
  if (sharded) {
    return;
  }
  sharded = true;
  shardDepth = depth;
  if (replaying) {
    return;
  }
  std::uint64_t h = 99;
  for (std::size_t i = 0; i < depth; ++i) {
    h = mix(h, path[i]);
  }
  if (int(h % g_workers) != g_worker) {
    throw Skip();
  }
}

void Ctx::state(std::uint64_t h) {
  if (g_states && g_states->size() < SETCAP) {
    g_states->insert(h);
  }
}

enum class End { Ok, Skip, Prune, Violation };

// Run one execution along c.path (then first alternatives)
static End execute(Ctx& c, std::string& message) {
  c.depth = 0;
  c.sharded = false;
  c.shardDepth = 0;
  c.notes.clear();
  c.path.reserve(MAXPATH); // No net allocation by the engine during the execution (see Live)
  c.arity.reserve(MAXPATH);
  if (c.verbose) {
    c.notes.reserve(1 << 16);
  }
  c.outcomeHash = 0;
  c.hasOutcome = false;
  try {
    const int s = c.pick(int(scenarios().size()));
    if (c.verbose) {
      c.notes += scenarios()[s].name;
      c.notes += ": ";
    }
    scenarios()[s].run(c);
    return End::Ok;
  } catch (const Skip&) {
    return End::Skip;
  } catch (const Prune&) {
    return End::Prune;
  } catch (const Violation& v) {
    message = v.message;
    return End::Violation;
  } catch (const std::exception& e) {
    message = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    return End::Violation;
  } catch (...) {
    message = "unexpected exception";
    return End::Violation;
  }
}

static bool advance(Ctx& c) {
  c.path.resize(c.depth ? std::min(c.depth, c.path.size()) : c.path.size());
  c.arity.resize(c.path.size());
  while (!c.path.empty() && c.path.back() + 1 >= c.arity.back()) {
    c.path.pop_back();
    c.arity.pop_back();
  }
  if (c.path.empty()) {
    return false;
  }
  ++c.path.back();
  return true;
}

static void publish(const Ctx& c) {
  for (std::size_t i = 0; i < c.path.size(); ++i) {
    g_shm->path[i] = c.path[i];
    g_shm->arity[i] = c.arity[i];
  }
  g_shm->n.store(int(c.path.size()), std::memory_order_release);
}

struct Config {
  bool thorough = false;
  int workers = 8;
  std::string tmp;
  std::string out;
  std::string only;
  double limit = 1e9;
  double hang = 15;
  std::vector<std::string> known;
};
static Config cfg;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static bool isKnown(const std::string& text, int* which = nullptr) {
  for (std::size_t i = 0; i < cfg.known.size(); ++i) {
    if (text.find(cfg.known[i]) != std::string::npos) {
      if (which) {
        *which = int(i);
      }
      return true;
    }
  }
  return false;
}

static void jsonEscape(std::ostream& os, const std::string& s) {
  os << '"';
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      os << '\\' << ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      os << b;
    } else {
      os << ch;
    }
  }
  os << '"';
}

// mode: 0 = from the root, 1 = resume at the published path, 2 = resume after the published path
static void workerMain(int mode) {
  g_states = new std::unordered_set<std::uint64_t>();
  g_outcomes = new std::unordered_set<std::uint64_t>();
  {
    const std::string base = cfg.tmp + "/w" + std::to_string(g_worker);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    int fe = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fe, 2);
  }
  std::ofstream samples(cfg.tmp + "/w" + std::to_string(g_worker) + ".samples", std::ios::app);
  Ctx c;
  c.m_thorough = cfg.thorough;
  if (mode) {
    const int n = g_shm->n.load();
    c.path.assign(g_shm->path, g_shm->path + n);
    c.arity.assign(g_shm->arity, g_shm->arity + n);
    c.depth = c.path.size();
    if (mode == 2 && !advance(c)) {
      g_shm->done = 1;
      _exit(0);
    }
  }
  std::size_t common = c.path.empty() ? 0 : c.path.size() - 1; // prefix shared with the previous execution
  std::uint64_t nextSample = 1;
  std::uint64_t sampled = 0;
  std::vector<std::uint64_t> localPerScenario(256, 0);
  std::vector<std::uint64_t> recheck;
  int status = 1;
  std::string message;
  std::uint64_t mine = 0;
  for (;;) {
    publish(c);
    const auto steps0 = c.steps, checks0 = c.checks;
    auto end = execute(c, message);
    g_shm->execs.fetch_add(1, std::memory_order_relaxed);
    if (end == End::Ok || end == End::Prune) {
      const int slot = int(g_shm->ringCount % MAXHISTORY);
      g_shm->ringN[slot] = int(std::min(c.depth, c.path.size()));
      std::copy_n(c.path.begin(), g_shm->ringN[slot], g_shm->ring[slot]);
      ++g_shm->ringCount;
    }
    const bool owner = c.sharded || g_worker == 0;
    const int sc = c.path.empty() ? 0 : c.path[0];
    if (end != End::Skip && owner) {
      std::size_t from = std::max(common, g_worker == 0 ? std::size_t(0) : c.shardDepth);
      if (c.depth > from) {
        g_shm->nodes.fetch_add(c.depth - from, std::memory_order_relaxed);
      }
      g_shm->maxDepth = std::max<std::uint64_t>(g_shm->maxDepth, c.depth);
      g_shm->steps.fetch_add(c.steps - steps0, std::memory_order_relaxed);
      g_shm->checks.fetch_add(c.checks - checks0, std::memory_order_relaxed);
    }
    if (end == End::Prune && owner) {
      g_shm->pruned.fetch_add(1, std::memory_order_relaxed);
    }
    if (end == End::Ok && owner) {
      g_shm->counted.fetch_add(1, std::memory_order_relaxed);
      if (sc < 256) {
        g_shm->perScenario[sc]++;
      }
      ++mine;
      if (c.hasOutcome && g_outcomes->size() < SETCAP) {
        g_outcomes->insert(mix(c.outcomeHash, sc));
      }
      // Samples, and determinism check: replay the same path and compare
      if ((sc < 256 && localPerScenario[sc]++ == 0) || mine == nextSample) {
        if (mine == nextSample) {
          nextSample = nextSample * 4;
        }
        const auto h = c.outcomeHash;
        const auto p = c.path;
        c.verbose = true;
        c.replaying = true;
        std::string m2;
        auto e2 = execute(c, m2);
        c.verbose = false;
        c.replaying = false;
        ++g_shm->replayChecked;
        if (e2 != End::Ok || c.outcomeHash != h || c.path != p) {
          ++g_shm->replayDiverged;
        }
        if (++sampled < 400) {
          samples << c.notes.substr(0, 600) << "\n";
        }
      }
    }
    if (end == End::Violation && owner) {
      Ctx v;
      v.m_thorough = cfg.thorough;
      v.path = c.path;
      v.path.resize(c.depth);
      v.arity.assign(v.path.size(), -1);
      v.verbose = true;
      v.replaying = true;
      std::string m2;
      execute(v, m2);
      if (isKnown(v.notes + "|" + message)) {
        g_shm->known.fetch_add(1);
        samples << "KNOWN " << v.notes.substr(0, 600) << "|" << message.substr(0, 300) << "\n";
      } else {
        auto& r = g_shm->vio[g_shm->nvio];
        r.n = int(c.depth);
        std::copy_n(c.path.begin(), c.depth, r.path);
        std::snprintf(r.message, sizeof r.message, "%s", message.c_str());
        ++g_shm->nvio;
        status = 3;
        break;
      }
    }
    if (g_shm->stop.load(std::memory_order_relaxed)) {
      status = 2;
      break;
    }
    if (!advance(c)) {
      break;
    }
    common = c.path.size() - 1;
  }
  samples.close();
  for (int k = 0; k < 2; ++k) {
    std::ofstream f(cfg.tmp + "/w" + std::to_string(g_worker) + (k ? ".outcomes" : ".states"), std::ios::binary | std::ios::app);
    for (auto h : *(k ? g_outcomes : g_states)) {
      f.write(reinterpret_cast<const char*>(&h), sizeof h);
    }
  }
  g_shm->done = status;
  _exit(0);
}

struct ReplayResult {
  int kind = -1; // 0 ok, 1 violation, 2 crash, 3 hang
  std::string text;
  std::string notes;
};

using Paths = std::vector<std::vector<int>>;

// Run one path in a process of its own, alone or after earlier executions
static ReplayResult replayIsolated(const std::vector<int>& path, double limit, const Paths& history = {}) {
  ReplayResult r;
  int fds[2];
  if (pipe(fds)) {
    return r;
  }
  const std::string errPath = cfg.tmp + "/replay.err";
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    int fe = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fe, 2);
    g_shm = nullptr;
    g_states = nullptr;
    for (const auto& h : history) {
      Ctx e;
      e.m_thorough = cfg.thorough;
      e.replaying = true;
      e.path = h;
      e.arity.assign(h.size(), -1);
      std::string ignored;
      execute(e, ignored);
    }
    Ctx c;
    c.m_thorough = cfg.thorough;
    c.verbose = true;
    c.replaying = true;
    c.path = path;
    c.arity.assign(path.size(), -1);
    // Make notes survive a crash: written as they are produced is not possible; run in two phases through a file
    static Ctx* pc = &c;
    static int out = fds[1];
    auto dump = []() {
      const std::string s = pc->notes;
      const auto w = write(out, s.data(), std::min<std::size_t>(s.size(), 60000));
      (void)w;
    };
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(+[]() {
      const std::string& s = pc->notes;
      const auto w = write(out, s.data(), std::min<std::size_t>(s.size(), 60000));
      (void)w;
    });
#endif
    std::string m;
    const auto e = execute(c, m);
    dump();
    const std::string sep = "\x01";
    auto w = write(out, sep.data(), 1);
    w = write(out, m.data(), m.size());
    (void)w;
    _exit(e == End::Violation ? 1 : 0);
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  std::string buf;
  const double t0 = now();
  int st = 0;
  bool killed = false;
  for (;;) {
    char b[4096];
    ssize_t k;
    while ((k = read(fds[0], b, sizeof b)) > 0) {
      buf.append(b, k);
    }
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) {
      while ((k = read(fds[0], b, sizeof b)) > 0) {
        buf.append(b, k);
      }
      break;
    }
    if (now() - t0 > limit && !killed) {
      kill(pid, SIGKILL);
      killed = true;
    }
    usleep(5000);
  }
  close(fds[0]);
  const auto p = buf.find('\x01');
  r.notes = buf.substr(0, p);
  if (p != std::string::npos) {
    r.text = buf.substr(p + 1);
  }
  if (killed) {
    r.kind = 3;
    r.text = "does not terminate (no end after " + std::to_string(int(limit)) + " s alone)";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r.kind = 0;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && p != std::string::npos) {
    r.kind = 1;
  } else {
    r.kind = 2;
    std::ifstream f(errPath);
    std::string line, first;
    while (std::getline(f, line)) {
      if (line.find("ERROR") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
          line.find("what()") != std::string::npos || line.find("mc:") != std::string::npos) {
        first += line.substr(0, 200) + " | ";
      }
    }
    // Addresses vary: strip hexadecimal numbers and process ids
    std::string clean;
    for (std::size_t i = 0; i < first.size(); ++i) {
      if (first.compare(i, 2, "0x") == 0) {
        clean += "0x?";
        i += 2;
        while (i < first.size() && std::isxdigit((unsigned char)first[i])) {
          ++i;
        }
        --i;
      } else if (first.compare(i, 2, "==") == 0) {
        std::size_t j = first.find("==", i + 2);
        i = j == std::string::npos ? i : j + 1;
      } else {
        clean += first[i];
      }
    }
    if (WIFSIGNALED(st)) {
      r.text = "crash: signal " + std::to_string(WTERMSIG(st)) + " " + clean;
    } else {
      r.text = "crash: exit " + std::to_string(WEXITSTATUS(st)) + " " + clean;
    }
  }
  return r;
}

static Paths lastExecutions(const Shm& s, std::size_t count) {
  Paths out;
  const std::uint64_t available = std::min<std::uint64_t>(s.ringCount, MAXHISTORY);
  for (std::uint64_t i = std::min<std::uint64_t>(count, available); i > 0; --i) {
    const int slot = int((s.ringCount - i) % MAXHISTORY);
    out.emplace_back(s.ring[slot], s.ring[slot] + s.ringN[slot]);
  }
  return out;
}

// Explore the share of a worker again, in a process of its own, until the first failure
static ReplayResult replayWorker(int worker, double limit, std::vector<int>& path) {
  ReplayResult r;
  r.kind = 0;
  Shm* s = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(static_cast<void*>(s), 0, sizeof(Shm));
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    g_worker = worker;
    g_shm = s;
    cfg.tmp += "/again";
    mkdir(cfg.tmp.c_str(), 0755);
    workerMain(0);
    _exit(0);
  }
  const double t0 = now();
  double lastT = t0;
  std::uint64_t last = 0;
  int st = 0;
  for (;;) {
    usleep(5000);
    if (waitpid(pid, &st, WNOHANG) == pid) {
      break;
    }
    if (s->execs.load() != last) {
      last = s->execs.load();
      lastT = now();
    }
    const bool hung = now() - lastT > 60;
    if (hung || now() - t0 > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (hung) {
        r.kind = 3;
        r.text = "does not terminate after the executions which precede it";
      }
      path.assign(s->path, s->path + s->n.load());
      munmap(s, sizeof(Shm));
      return r;
    }
  }
  if (s->nvio) {
    r.kind = 1;
    path.assign(s->vio[0].path, s->vio[0].path + s->vio[0].n);
    r.text = s->vio[0].message;
  } else if (!s->done.load()) {
    r.kind = 2;
    path.assign(s->path, s->path + s->n.load());
    r.text = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit " + std::to_string(WEXITSTATUS(st));
  }
  munmap(s, sizeof(Shm));
  return r;
}

static std::uint64_t mergeSet(const std::string& ext) {
  std::unordered_set<std::uint64_t> all;
  for (int w = 0; w < cfg.workers; ++w) {
    std::ifstream f(cfg.tmp + "/w" + std::to_string(w) + ext, std::ios::binary);
    std::uint64_t h;
    while (f.read(reinterpret_cast<char*>(&h), sizeof h)) {
      all.insert(h);
    }
  }
  return all.size();
}

static std::vector<int> parsePath(const std::string& s) {
  std::vector<int> p;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) {
    p.push_back(std::atoi(t.c_str()));
  }
  return p;
}

static int mainImpl(int argc, char** argv) {
  std::string replay;
  int again = -1;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() {
      return std::string(++i < argc ? argv[i] : "");
    };
    if (a == "--tier") {
      cfg.thorough = next() == "thorough";
    } else if (a == "--workers") {
      cfg.workers = std::max(1, std::atoi(next().c_str()));
    } else if (a == "--tmp") {
      cfg.tmp = next();
    } else if (a == "--out") {
      cfg.out = next();
    } else if (a == "--only") {
      cfg.only = next();
    } else if (a == "--limit") {
      cfg.limit = std::atof(next().c_str());
    } else if (a == "--hang") {
      cfg.hang = std::atof(next().c_str());
    } else if (a == "--known") {
      cfg.known.push_back(next());
    } else if (a == "--replay") {
      replay = next();
    } else if (a == "--again") {
      again = std::atoi(next().c_str());
    }
  }
  if (cfg.tmp.empty()) {
    cfg.tmp = ".";
  }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  auto& sc = scenarios();
  std::stable_sort(sc.begin(), sc.end(), [](const Scenario& a, const Scenario& b) {
    return std::strcmp(a.name, b.name) < 0;
  });
  for (std::size_t i = 1; i < sc.size(); ++i) {
    if (std::strcmp(sc[i - 1].name, sc[i].name) == 0) { // Probably the same symbol in two files
      std::fprintf(stderr, "mc: scenario %s is defined twice\n", sc[i].name);
      return 97;
    }
  }
  if (!cfg.only.empty()) {
    std::vector<Scenario> kept;
    for (const auto& s : sc) {
      if (std::string(s.name).find(cfg.only) != std::string::npos) {
        kept.push_back(s);
      }
    }
    sc = kept;
  }
  if (sc.empty() || sc.size() > 250) {
    std::fprintf(stderr, "mc: %zu scenarios\n", sc.size());
    return 97;
  }

  if (again >= 0) { // Failure which depends on everything the worker did before
    g_workers = cfg.workers;
    std::vector<int> path;
    auto r = replayWorker(again, 3000, path);
    std::printf("kind=%d\nmessage: %s\n", r.kind, r.text.c_str());
    return r.kind == 0 ? 0 : 1;
  }
  if (!replay.empty()) {
    Paths before;
    std::string all = replay;
    for (std::size_t at = all.find(';'); at != std::string::npos; at = all.find(';')) {
      before.push_back(parsePath(all.substr(0, at)));
      all = all.substr(at + 1);
    }
    auto r = replayIsolated(parsePath(all), 60, before);
    std::printf("kind=%d\nnotes: %s\nmessage: %s\n", r.kind, r.notes.c_str(), r.text.c_str());
    return r.kind == 0 ? 0 : 1;
  }

  const double t0 = now();
  const int W = cfg.workers;
  g_workers = W;
  Shm* shm = static_cast<Shm*>(
      mmap(nullptr, sizeof(Shm) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(static_cast<void*>(shm), 0, sizeof(Shm) * W);
  std::vector<pid_t> pids(W, 0);
  std::vector<std::uint64_t> last(W, 0);
  std::vector<double> lastT(W, t0);
  auto spawn = [&](int w, int mode) {
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      g_worker = w;
      g_shm = shm + w;
      workerMain(mode);
      _exit(0);
    }
    pids[w] = pid;
    lastT[w] = now();
    last[w] = shm[w].execs.load();
  };
  for (int w = 0; w < W; ++w) {
    spawn(w, 0);
  }

  struct Vio {
    std::vector<int> path;
    std::string message, notes;
    int kind;
    int worker;
    Paths history;
    bool whole;
  };
  std::vector<Vio> vios;
  std::vector<std::string> knownSeen;
  int running = W;
  bool capped = false;
  int crashes = 0;
  int unreproduced = 0;
  std::string unreproducedText;
  // Look for a failure with the executions which preceded it in the same process (state kept by the library)
  auto withHistory = [&](int w, std::vector<int>& path, Paths& history, bool& whole) {
    for (std::size_t k = 1; k <= std::size_t(MAXHISTORY); k *= 2) {
      history = lastExecutions(shm[w], k);
      auto rr = replayIsolated(path, 60, history);
      if (rr.kind > 0) {
        auto again = replayIsolated(path, 60, history);
        if (again.kind > 0) {
          rr.notes += " [after the " + std::to_string(history.size()) + " previous executions in the same process]";
          return rr;
        }
      }
      if (history.size() < k) {
        break;
      }
    }
    history.clear();
    auto p = path;
    auto rr = replayWorker(w, 2 * (now() - t0) + 60, p);
    if (rr.kind > 0) {
      whole = true;
      path = p;
      rr.notes = "[after all the previous executions of worker " + std::to_string(w) + " in the same process]";
    }
    return rr;
  };
  while (running > 0) {
    usleep(20000);
    for (int w = 0; w < W; ++w) {
      if (!pids[w]) {
        continue;
      }
      int st = 0;
      const pid_t r = waitpid(pids[w], &st, WNOHANG);
      const bool dead = r == pids[w];
      bool hung = false;
      if (!dead) {
        const auto e = shm[w].execs.load();
        if (e != last[w]) {
          last[w] = e;
          lastT[w] = now();
        } else if (now() - lastT[w] > cfg.hang) {
          hung = true;
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
        }
      }
      if (!dead && !hung) {
        continue;
      }
      pids[w] = 0;
      if (dead && shm[w].done.load()) {
        --running;
        continue;
      }
      // Crash or hang on the published path: replay it alone to decide
      const int n = shm[w].n.load();
      std::vector<int> p(shm[w].path, shm[w].path + n);
      auto rr = replayIsolated(p, 60);
      Paths history;
      bool whole = false;
      if (rr.kind == 0 && !hung && unreproduced < 2) {
        rr = withHistory(w, p, history, whole);
      }
      if (rr.kind == 0) {
        ++unreproduced;
        if (unreproduced > 6) {
          unreproducedText = rr.notes;
          --running;
          shm[w].done = 2;
          capped = true;
        } else {
          spawn(w, 1);
        }
        continue;
      }
      if (isKnown(rr.notes + "|" + rr.text)) {
        knownSeen.push_back(rr.notes + "|" + rr.text);
        if (++crashes < 200) {
          spawn(w, 2);
        } else {
          --running;
          capped = true;
        }
        continue;
      }
      vios.push_back({p, rr.text, rr.notes, rr.kind, w, history, whole});
      --running;
      // One definite violation is enough: stop everybody
      for (int k = 0; k < W; ++k) {
        shm[k].stop = 1;
      }
    }
    bool any = !vios.empty();
    for (int w = 0; w < W; ++w) {
      any = any || shm[w].nvio > 0;
    }
    if (any || now() - t0 > cfg.limit) {
      if (!any) {
        capped = true;
      }
      for (int k = 0; k < W; ++k) {
        shm[k].stop = 1;
      }
    }
  }
  for (int w = 0; w < W; ++w) {
    for (int k = 0; k < shm[w].nvio; ++k) {
      auto& r = shm[w].vio[k];
      vios.push_back({std::vector<int>(r.path, r.path + r.n), r.message, "", 1, w, {}, false});
    }
  }
  std::sort(vios.begin(), vios.end(), [](const Vio& a, const Vio& b) {
    return a.path < b.path;
  });

  // Confirm violations: replay each alone, twice
  std::vector<Vio> confirmed;
  for (auto& v : vios) {
    if (v.kind == 3 || v.whole || !v.history.empty()) { // already confirmed
      confirmed.push_back(v);
      continue;
    }
    int hits = 0;
    ReplayResult last2;
    for (int k = 0; k < 4 && hits < 2; ++k) {
      auto rr = replayIsolated(v.path, 60);
      if (rr.kind > 0) {
        ++hits;
        last2 = rr;
      }
    }
    if (hits > 0) {
      v.notes = last2.notes;
      v.message = last2.text;
      v.kind = last2.kind;
      confirmed.push_back(v);
    } else {
      auto rr = withHistory(v.worker, v.path, v.history, v.whole);
      if (rr.kind > 0) {
        v.notes = rr.notes;
        v.message = rr.text;
        v.kind = rr.kind;
        confirmed.push_back(v);
      } else {
        ++unreproduced;
        unreproducedText = v.message;
      }
    }
  }

  Shm tot;
  std::memset(static_cast<void*>(&tot), 0, sizeof tot);
  bool exhausted = !capped;
  std::uint64_t execs = 0, counted = 0, nodes = 0, steps = 0, checks = 0, pruned = 0, known = 0, maxDepth = 0, rc = 0, rd = 0;
  std::map<std::string, std::uint64_t> per;
  for (int w = 0; w < W; ++w) {
    execs += shm[w].execs;
    counted += shm[w].counted;
    nodes += shm[w].nodes;
    steps += shm[w].steps;
    checks += shm[w].checks;
    pruned += shm[w].pruned;
    known += shm[w].known;
    rc += shm[w].replayChecked;
    rd += shm[w].replayDiverged;
    maxDepth = std::max(maxDepth, shm[w].maxDepth);
    exhausted = exhausted && shm[w].done.load() == 1;
    for (std::size_t i = 0; i < sc.size(); ++i) {
      per[sc[i].name] += shm[w].perScenario[i];
    }
  }
  std::vector<std::string> samples;
  for (int w = 0; w < W; ++w) {
    std::ifstream f(cfg.tmp + "/w" + std::to_string(w) + ".samples");
    std::string line;
    while (std::getline(f, line)) {
      if (line.compare(0, 6, "KNOWN ") == 0) {
        knownSeen.push_back(line.substr(6));
      } else {
        samples.push_back(line);
      }
    }
  }
  // At most a few samples per scenario
  std::map<std::string, int> seen;
  std::vector<std::string> kept;
  for (const auto& s : samples) {
    const auto key = s.substr(0, s.find(": "));
    if (seen[key]++ < 2 && kept.size() < 40) {
      kept.push_back(s);
    }
  }
  std::ofstream o(cfg.out);
  o << "{\"executions\": " << counted << ", \"runs\": " << execs << ", \"nodes\": " << nodes << ", \"steps\": " << steps
    << ", \"checks\": " << checks << ", \"pruned\": " << pruned << ", \"max_depth\": " << maxDepth
    << ", \"distinct_outcomes\": " << mergeSet(".outcomes") << ", \"distinct_model_states\": " << mergeSet(".states")
    << ", \"replayed_twice\": " << rc << ", \"replay_diverged\": " << rd << ", \"exhausted\": " << (exhausted ? "true" : "false")
    << ", \"capped\": " << (capped ? "true" : "false") << ", \"known_hits\": " << known
    << ", \"unreproduced\": " << unreproduced << ", \"unreproduced_text\": ";
  jsonEscape(o, unreproducedText);
  o << ", \"wall_s\": " << (now() - t0) << ", \"per_scenario\": {";
  bool first = true;
  for (const auto& k : per) {
    o << (first ? "" : ", ");
    first = false;
    jsonEscape(o, k.first);
    o << ": " << k.second;
  }
  o << "}, \"known_seen\": [";
  for (std::size_t i = 0; i < knownSeen.size(); ++i) {
    o << (i ? ", " : "");
    jsonEscape(o, knownSeen[i]);
  }
  o << "], \"samples\": [";
  for (std::size_t i = 0; i < kept.size(); ++i) {
    o << (i ? ", " : "");
    jsonEscape(o, kept[i]);
  }
  o << "], \"violations\": [";
  for (std::size_t i = 0; i < confirmed.size(); ++i) {
    o << (i ? ", " : "") << "{\"worker\": " << (confirmed[i].whole ? confirmed[i].worker : -1) << ", \"workers\": " << W
      << ", \"path\": \"";
    for (const auto& h : confirmed[i].history) {
      for (std::size_t j = 0; j < h.size(); ++j) {
        o << (j ? "," : "") << h[j];
      }
      o << ";";
    }
    for (std::size_t j = 0; j < confirmed[i].path.size(); ++j) {
      o << (j ? "," : "") << confirmed[i].path[j];
    }
    o << "\", \"kind\": " << confirmed[i].kind << ", \"message\": ";
    jsonEscape(o, confirmed[i].message);
    o << ", \"notes\": ";
    jsonEscape(o, confirmed[i].notes);
    o << "}";
  }
  o << "]}\n";
  o.close();
  return confirmed.empty() ? (unreproduced && !unreproducedText.empty() ? 3 : 0) : 1;
}

} // namespace mc

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv);
}
