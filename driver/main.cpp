#include "driver.h"

int g_out = 3;
thread_local World *W = nullptr;
std::map<std::string, Op> OPS;

// ---------------------------------------------------------------------------
// Virtual environment: rand, srand, time, clocks
// ---------------------------------------------------------------------------
std::deque<int> g_randQueue;
std::atomic<unsigned long long> g_randState(12345);
std::atomic<unsigned long long> g_randCalls(0), g_srandCalls(0);
std::atomic<bool> g_virtualClock(false), g_virtualTime(false);
std::atomic<long long> g_clockNs(0), g_clockCalls(0), g_time(0);

extern "C" int rand() {
  g_randCalls.fetch_add(1, std::memory_order_relaxed); // (relaxed: no order between threads is made here, so that races stay visible)
  if (!g_randQueue.empty()) {
    int r = g_randQueue.front();
    g_randQueue.pop_front();
    return r;
  }
  // splitmix
  unsigned long long z = g_randState.fetch_add(0x9E3779B97F4A7C15ULL, std::memory_order_relaxed) + 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return (int) ((z ^ (z >> 31)) & 0x7fffffff);
}

extern "C" void srand(unsigned int s) {
  g_srandCalls.fetch_add(1, std::memory_order_relaxed);
  g_randState.store(s, std::memory_order_relaxed);
}

extern "C" time_t time(time_t *t) {
  time_t r;
  if (g_virtualTime.load(std::memory_order_relaxed)) {
    r = (time_t) g_time.load(std::memory_order_relaxed);
  } else {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (t) *t = r;
  return r;
}

void Env::save() {
  randQueue = g_randQueue;
  randState = g_randState;
  randCalls = g_randCalls;
  srandCalls = g_srandCalls;
  virtualClock = g_virtualClock;
  virtualTime = g_virtualTime;
  clockNs = g_clockNs;
  time = g_time;
  if (modulus) field.save();
}

void Env::restore() const {
  g_randQueue = randQueue;
  g_randState = randState;
  g_randCalls = randCalls;
  g_srandCalls = srandCalls;
  g_virtualClock = virtualClock;
  g_virtualTime = virtualTime;
  g_clockNs = clockNs;
  g_time = time;
  if (modulus) field.restore();
}

static long long realNs(clockid_t c) {
  struct timespec ts;
  clock_gettime(c, &ts);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  g_clockCalls.fetch_add(1, std::memory_order_relaxed);
  return time_point(duration_cast<system_clock::duration>(nanoseconds(g_virtualClock.load(std::memory_order_relaxed) ? g_clockNs.load(std::memory_order_relaxed) : realNs(CLOCK_REALTIME))));
}
steady_clock::time_point steady_clock::now() noexcept {
  g_clockCalls.fetch_add(1, std::memory_order_relaxed);
  return time_point(duration_cast<steady_clock::duration>(nanoseconds(g_virtualClock.load(std::memory_order_relaxed) ? g_clockNs.load(std::memory_order_relaxed) : realNs(CLOCK_MONOTONIC))));
}
}
}
}

// ---------------------------------------------------------------------------
// Allocations that fail: the driver is linked with --wrap for operator new and
// operator new[], whose calls (of the library's objects and of the templates
// instantiated here) are counted, and made to fail from a given one on.
// ---------------------------------------------------------------------------
extern "C" void *__real__Znwm(size_t);
extern "C" void *__real__Znam(size_t);
extern "C" void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
extern "C" void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
namespace {
struct Failing {
  bool armed = false, counting = false, arrays = false, lasting = false;
  unsigned long long ppm = 0, at = 0, *seen = nullptr;
  unsigned long long n = 0, hits = 0;
} g_fail;

bool failsNow(bool array) {
  if (!g_fail.armed || (g_fail.arrays && !array)) return false;
  g_fail.n++;
  if (g_fail.counting) {
    *g_fail.seen = g_fail.n;
    return false;
  }
  if (g_fail.lasting ? g_fail.n < g_fail.at : g_fail.n != g_fail.at) return false;
  g_fail.hits++;
  return true;
}
}
extern "C" void *__wrap__Znwm(size_t n) {
  if (failsNow(false)) throw std::bad_alloc();
  return __real__Znwm(n);
}
extern "C" void *__wrap__Znam(size_t n) {
  if (failsNow(true)) throw std::bad_alloc();
  return __real__Znam(n);
}

extern "C" void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { return failsNow(false) ? nullptr : __real__ZnwmRKSt9nothrow_t(n, t); }
extern "C" void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { return failsNow(true) ? nullptr : __real__ZnamRKSt9nothrow_t(n, t); }

template <class M> static void destroyAll(M &m) {
  for (auto &i : m) {
    auto *x = i.second;
    i.second = nullptr;
    delete x;
  }
  m.clear();
}

static void defineEnvOps() {
  // which of the allocations of the next operation fails (in millionths of them), of which kind, only that one or all from that on
  OPS["failnew"] = [](Reader &r) {
    g_fail = Failing();
    g_fail.ppm = r.u() + 1;
    g_fail.arrays = r.s() == "arrays";
    g_fail.lasting = r.s() == "lasting";
    return std::string();
  };
  OPS["destroy"] = [](Reader &) {
    W->clients.clear();
    destroyAll(W->parties);
    destroyAll(W->hbs);
    destroyAll(W->hbss);
    destroyAll(W->pprfs);
    destroyAll(W->prfs);
    destroyAll(W->polys);
    destroyAll(W->strints);
    destroyAll(W->bms);
    destroyAll(W->exs);
    destroyAll(W->shaStr);
    destroyAll(W->shaByte);
    destroyAll(W->algs);
    return std::string();
  };
  // ---- environment
  OPS["modulus"] = [](Reader &r) { ZZ_p::init(r.zz()); W->env.modulus = true; return std::string(); };
  OPS["seedntl"] = [](Reader &r) { SetSeed(r.zz()); return std::string(); };
  OPS["seedrand"] = [](Reader &r) { g_randState = r.u(); return std::string(); };
  OPS["randq"] = [](Reader &r) { while (r.more()) g_randQueue.push_back((int) r.ll()); return std::string(); };
  OPS["randcalls"] = [](Reader &) { return std::to_string(g_randCalls.load()); };
  OPS["settime"] = [](Reader &r) { g_virtualTime = true; g_time = r.ll(); return std::string(); };
  OPS["clock"] = [](Reader &r) { g_virtualClock = true; g_clockNs = r.ll(); return std::string(); };
  OPS["tick"] = [](Reader &r) { g_clockNs += r.ll(); return std::string(); };
  OPS["trace"] = [](Reader &r) { W->tracing = r.u() != 0; W->dumpMatrices = r.more() && r.u() != 0; return std::string(); };
  OPS["live"] = [](Reader &) -> std::string {
#ifdef HAVE_LIVE
    return std::to_string(__sanitizer_get_current_allocated_bytes());
#else
    return "0";
#endif
  };
  OPS["pid"] = [](Reader &) { return std::to_string(getpid()); };
  OPS["echo"] = [](Reader &r) { return r.s(); };
  OPS["rndbits"] = [](Reader &r) { return strZZ(RandomBits_ZZ((long) r.u())); };
}

// ---------------------------------------------------------------------------
struct Line { size_t no; Tokens t; };

static void runLines(const std::vector<Line> &lines, size_t from, size_t to);

static std::string tname(const std::exception &e) {
  const std::type_info &t = typeid(e);
  if (t == typeid(ProtocolException)) return "ProtocolException";
  if (t == typeid(OutOfBoundException)) return "OutOfBoundException";
  if (t == typeid(Exception)) return "Exception";
  if (dynamic_cast<const std::logic_error *>(&e) && std::string(e.what()).compare(0, 7, "script:") == 0) return "SCRIPT";
  return std::string("std:") + t.name();
}

struct Armed {
  bool is;
  Armed() : is(g_fail.ppm != 0) { if (is) g_fail.armed = true; }
  void off() { if (is) g_fail.armed = false; }
  ~Armed() { off(); }
};

static bool runLine(const Line &l) {
  std::string no = std::to_string(l.no);
  auto i = OPS.find(l.t[0]);
  if (i == OPS.end()) {
    W->out.line("X " + no + " SCRIPT " + hexOf("unknown op " + l.t[0]));
    return false;
  }
  if (W->flushes) W->out.flush();
  try {
    Reader r(l.t, 1);
    Armed armed;
    std::string s = i->second(r);
    armed.off();
    if (!s.empty()) W->out.line("R " + no + " " + s);
    else W->out.line("R " + no);
    return true;
  } catch (std::exception &e) {
    W->out.line("X " + no + " " + tname(e) + " " + hexOf(std::string(e.what())));
  } catch (...) {
    W->out.line("X " + no + " unknown x");
  }
  return false;
}

// The operation once in a process of its own, to count its allocations; then here, with the failure.
static bool runFailing(const Line &l) {
  void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_fail.seen = (unsigned long long *) m;
  W->out.flush();
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    dup2(null, g_out);
    g_fail.counting = true;
    runLine(l);
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  unsigned long long n = *g_fail.seen;
  munmap(m, 4096);
  g_fail.at = n == 0 ? 0 : 1 + (g_fail.ppm - 1) * n / 1000000;
  g_fail.lasting = g_fail.lasting && n > 0;
  W->out.line("V fail " + std::to_string(l.no) + " " + std::to_string(g_fail.at) + " " + std::to_string(n));
  bool normal = runLine(l);
  g_fail = Failing();
  return normal;
}

static std::string endOf(int status) {
  if (WIFEXITED(status)) return "exit " + std::to_string(WEXITSTATUS(status));
  if (WIFSIGNALED(status)) return "signal " + std::to_string(WTERMSIG(status));
  return "other " + std::to_string(status);
}

static std::string tailOf(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  off_t from = 0;
  size_t len = (size_t) n;
  std::string s;
  if (len > 9000) len = 9000; // the beginning of a sanitizer report matters
  // find the report, if any
  std::string all((size_t) n, '\0');
  if (n > 0 && pread(fd, &all[0], (size_t) n, 0) != n) return "?";
  size_t p = all.find("==ERROR");
  if (p == std::string::npos) p = all.find("WARNING: ThreadSanitizer");
  if (p == std::string::npos) p = all.find("runtime error");
  if (p == std::string::npos) p = all.size() > len ? all.size() - len : 0;
  else { p = p > 120 ? p - 120 : 0; }
  (void) from;
  return all.substr(p, 9000);
}

static std::map<std::string, World *> worlds;

static void runLines(const std::vector<Line> &lines, size_t from, size_t to) {
  for (size_t i = from; i < to; i++) {
    const Line &l = lines[i];
    if (l.t[0] == "fork") {
      size_t e = i + 1;
      while (lines[e].t[0] != "endfork") e++;
      W->out.flush();
      std::cout.flush();
      int err = memfd_create("err", 0);
      int outf = memfd_create("out", 0);
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); // (not to outlive its case)
        dup2(err, 2);
        dup2(outf, 1);
        runLines(lines, i + 1, e);
        W->out.line("F"); // reached the end of the block
        W->out.flush();
        _exit(0);
      }
      int status = 0;
      waitpid(pid, &status, 0);
      off_t n = lseek(err, 0, SEEK_END);
      W->out.line("R " + std::to_string(l.no) + " " + endOf(status) + " " + hexOf(n > 0 ? tailOf(err) : std::string()));
      close(err);
      close(outf);
      i = e;
    } else if (l.t[0] == "world") {
      // another history goes on: its objects, field, clock and generator
      if (worlds.empty()) worlds["0"] = W;
      World *&w = worlds[l.t[1]];
      if (w == nullptr) w = new World();
      W->out.flush();
      W->env.save();
      W = w;
      W->env.restore();
    } else if (l.t[0] == "thread") {
      // consecutive blocks: one thread each, with a world of its own
      std::vector<std::pair<size_t, size_t>> blocks;
      while (i < to && lines[i].t[0] == "thread") {
        size_t e = i + 1;
        while (lines[e].t[0] != "endthread") e++;
        blocks.push_back({i + 1, e});
        i = e + 1;
      }
      i--;
      std::vector<World *> ws;
      std::vector<std::thread> ts;
      std::atomic<size_t> ready(0);
      for (auto &b : blocks) {
        World *w = new World();
        w->flushes = false;
        w->out.keeps = true;
        ws.push_back(w);
        ts.emplace_back([&lines, b, w, &ready, &blocks]() {
          W = w;
          ready++;
          while (ready < blocks.size()) std::this_thread::yield();
          std::vector<Line> const &ls = lines;
          for (size_t k = b.first; k < b.second; k++) runLine(ls[k]);
        });
      }
      for (auto &t : ts) t.join();
      for (size_t k = 0; k < ws.size(); k++) {
        W->out.line("V thread " + std::to_string(k));
        W->out.buf += ws[k]->out.buf;
        ws[k]->out.buf.clear();
      }
    } else {
      runLine(l);
      // (only if the operation ends normally, what follows it has a meaning)
      if (l.t[0] == "failnew" && i + 1 < to && !runFailing(lines[++i])) {
        if (i + 1 < to && lines[i + 1].t[0] == "again") {
          Line a = lines[++i];
          a.t.erase(a.t.begin());
          runLine(a);
        }
        while (i + 1 < to && lines[i + 1].t[0] != "destroy") i++;
      } else if (l.t[0] == "failnew" && i + 1 < to && lines[i + 1].t[0] == "again") {
        i++;
      }
    }
  }
}

// what grows without an end is stopped before it exhausts the machine
static void limitMemory() {
  std::ifstream f("/proc/self/status");
  std::string w;
  while (f >> w) {
    if (w == "VmData:") {
      rlim_t kb = 0;
      f >> kb;
      struct rlimit rl = {(kb << 10) + ((rlim_t) 4 << 30), RLIM_INFINITY};
      setrlimit(RLIMIT_DATA, &rl);
      return;
    }
  }
}

int main(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); // (not to outlive who asked)
  defineEnvOps();
  defineHashOps();
  defineMiscOps();
  definePrfOps();
  defineBmOps();
  definePartyOps();
  bool nofork = argc > 1 && std::string(argv[1]) == "--nofork";
  unsigned cpuLimit = getenv("DRV_CPU") ? (unsigned) atoi(getenv("DRV_CPU")) : 120;
  // read the whole script
  std::vector<std::pair<std::string, std::vector<Line>>> cases;
  std::string text;
  bool in = false;
  while (std::getline(std::cin, text)) {
    Tokens t;
    size_t p = 0;
    while (p < text.size()) {
      size_t q = text.find(' ', p);
      if (q == std::string::npos) q = text.size();
      if (q > p) t.push_back(text.substr(p, q - p));
      p = q + 1;
    }
    if (t.empty()) continue;
    if (t[0] == "case") {
      cases.push_back({t[1], {}});
      in = true;
    } else if (t[0] == "endcase") {
      in = false;
    } else if (in) {
      cases.back().second.push_back({cases.back().second.size(), t});
    }
  }
  Out top;
  for (auto &c : cases) {
    top.line("B " + c.first);
    top.flush();
    if (nofork) {
      W = new World();
      runLines(c.second, 0, c.second.size());
      W->out.line("D");
      W->out.flush();
      top.line("E " + c.first + " exit 0 x");
      top.flush();
      continue;
    }
    int err = memfd_create("err", 0);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(err, 2);
      struct rlimit rl = {cpuLimit, cpuLimit + 5};
      setrlimit(RLIMIT_CPU, &rl);
      alarm(cpuLimit * 2 + 20);
      limitMemory();
      W = new World();
      runLines(c.second, 0, c.second.size());
      W->out.line("D");
      W->out.flush();
      if (getenv("DRV_EXIT")) exit(0); // (for the tools that report at the exit)
      _exit(0);
    }
    int status = 0;
    struct rusage used;
    memset(&used, 0, sizeof used);
    wait4(pid, &status, 0, &used);
    std::string tail;
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) tail = tailOf(err);
    close(err);
    top.line("E " + c.first + " " + endOf(status) + " " + hexOf(tail) + " " +
             std::to_string((used.ru_utime.tv_sec + used.ru_stime.tv_sec) * 1000 + (used.ru_utime.tv_usec + used.ru_stime.tv_usec) / 1000) + " " + std::to_string(used.ru_maxrss / 1024));
    top.flush();
    // (whoever asked decides about the others)
    if (getenv("DRV_STOP") && WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGALRM)) break;
  }
  return 0;
}
