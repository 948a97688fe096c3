// P43: an operation which is held up holds up no other. The library is compiled with a hook at every branch: a thread is stopped there, or in one of
// the functions it was given, in the middle of an operation, for as long as others need to complete theirs; the same in a process forked meanwhile.
#define MON_NESTED 1
#include <atomic>
#include <dirent.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <time.h>
#include "parallel.cpp"
#include <sys/wait.h>
#include <signal.h>
#include <chrono>
#include <condition_variable>
#include "capture.hpp"
#include "logref.hpp"
#include "rcutils/logging_macros.h"

struct Hold
{
  uint64_t branches = 0, calls = 0;                                // seen so far
  uint64_t at_branch = UINT64_MAX, at_call = UINT64_MAX;           // where to stop
  uintptr_t at_site = 0;                                           // or at the n-th time one place is passed
  uint64_t at_pass = 0;
  std::map<uintptr_t, uint64_t> * sites = nullptr;                 // places passed, if they are to be counted
  std::mutex m;
  std::condition_variable cv;
  bool inside = false, release = false, finished = false;
  const char * where = nullptr;
  void stop(const char * w)
  {
    int e = errno;
    std::unique_lock<std::mutex> l(m);
    inside = true;
    where = w;
    cv.notify_all();
    cv.wait(l, [&] {return release;});
    errno = e;
  }
  void end()
  {
    std::lock_guard<std::mutex> l(m);
    finished = true;
    cv.notify_all();
  }
  // true: it is held
  bool wait()
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] {return inside || finished;});
    return inside;
  }
  void let_go()
  {
    std::lock_guard<std::mutex> l(m);
    release = true;
    cv.notify_all();
  }
};
static thread_local Hold * tl_hold = nullptr;
void nested_hook(const char * where)
{
  Hold * h = tl_hold;
  if (h && h->calls++ == h->at_call) {h->stop(where);}
}
static void pass(void * pc)
{
  Hold * h = tl_hold;
  if (!h) {return;}
  uintptr_t at = reinterpret_cast<uintptr_t>(pc);
  if (h->sites) {++(*h->sites)[at];}
  if (h->branches++ == h->at_branch || (at == h->at_site && h->at_pass-- == 0)) {h->at_site = 0; h->stop("the library");}
}
#define PASS pass(__builtin_return_address(0))
// where the library's code lies: only it has these
static std::atomic<uintptr_t> g_first{UINTPTR_MAX}, g_last{0};
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *)
{
  uintptr_t at = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  if (at < g_first.load(std::memory_order_relaxed)) {g_first.store(at, std::memory_order_relaxed);}
  if (at > g_last.load(std::memory_order_relaxed)) {g_last.store(at, std::memory_order_relaxed);}
  PASS;
}
// before every load and store as well
extern "C" {
void __sanitizer_cov_load1(void *) {PASS;}
void __sanitizer_cov_load2(void *) {PASS;}
void __sanitizer_cov_load4(void *) {PASS;}
void __sanitizer_cov_load8(void *) {PASS;}
void __sanitizer_cov_load16(void *) {PASS;}
void __sanitizer_cov_store1(void *) {PASS;}
void __sanitizer_cov_store2(void *) {PASS;}
void __sanitizer_cov_store4(void *) {PASS;}
void __sanitizer_cov_store8(void *) {PASS;}
void __sanitizer_cov_store16(void *) {PASS;}
}
// and before every call of the C library that may be the only thing between two locks
static thread_local bool tl_in_pass = false;
static void pass_call(void * pc)
{
  uintptr_t at = reinterpret_cast<uintptr_t>(pc);
  if (!tl_hold || tl_in_pass || at < g_first.load(std::memory_order_relaxed) || at > g_last.load(std::memory_order_relaxed)) {return;}
  tl_in_pass = true;
  pass(pc);
  tl_in_pass = false;
}
#define BEFORE(R, f, P, A) extern "C" R __real_ ## f P; extern "C" R __wrap_ ## f P {pass_call(__builtin_return_address(0)); return __real_ ## f A;}
BEFORE(void *, __asan_memcpy, (void * d, const void * s, size_t n), (d, s, n))
BEFORE(void *, __asan_memmove, (void * d, const void * s, size_t n), (d, s, n))
BEFORE(void *, __asan_memset, (void * d, int c, size_t n), (d, c, n))
BEFORE(void *, memchr, (const void * d, int c, size_t n), (d, c, n))
BEFORE(size_t, strlen, (const char * s), (s))
BEFORE(int, strcmp, (const char * a, const char * b), (a, b))
BEFORE(int, strncmp, (const char * a, const char * b, size_t n), (a, b, n))
BEFORE(int, vsnprintf, (char * d, size_t n, const char * f, va_list a), (d, n, f, a))
BEFORE(void, qsort, (void * p, size_t n, size_t m, int (* c)(const void *, const void *)), (p, n, m, c))
BEFORE(char *, getenv, (const char * n), (n))
BEFORE(struct tm *, localtime_r, (const time_t * t, struct tm * r), (t, r))
BEFORE(int, stat, (const char * n, struct stat * r), (n, r))
BEFORE(int, lstat, (const char * n, struct stat * r), (n, r))
BEFORE(DIR *, opendir, (const char * n), (n))
BEFORE(struct dirent *, readdir, (DIR * d), (d))
BEFORE(int, closedir, (DIR * d), (d))

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t * start, uint32_t * stop)
{
  for (uint32_t n = 0; start < stop; ++start) {*start = ++n;}
}

static bool g_stuck = false;       // once is enough: waiting takes time
static const int PATIENCE = 40;    // seconds

// operations to be completed by other threads; false: they do not come to an end
struct Others
{
  std::mutex m;
  std::condition_variable cv;
  unsigned running = 0;
  std::vector<std::thread> ts;
  template<class F> void start(F f)
  {
    {std::lock_guard<std::mutex> l(m); running++;}
    ts.emplace_back([this, f] {
        f();
        std::lock_guard<std::mutex> l(m);
        running--;
        cv.notify_all();
      });
  }
  bool wait()
  {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] {return running == 0;});
  }
  void join() {for (auto & t : ts) {if (t.joinable()) {t.join();}}}
};

// a child process of the moment; 0: it did well, -1: it does not come to an end
template<class F> static int child(F f)
{
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) {return 0;}
  if (p == 0) {
    signal(SIGALRM, SIG_DFL);
    alarm(PATIENCE);
    _exit(f());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) {return WEXITSTATUS(st);}
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? -1 : 200;
}

// ------------------------------------------------------------------ operations on objects of their own
static std::string run_task(unsigned kind, uint64_t seed, unsigned me, long & live)
{
  T t(seed, me);
  TASKS[kind].fn(t);
  live = t.own.live;
  return std::move(t.out);
}
struct Alone {std::string out; uint64_t branches, calls; std::vector<std::pair<uintptr_t, uint64_t>> sites;};
static std::map<std::pair<unsigned, uint64_t>, Alone> g_alone;
static const unsigned SEEDS = 30;
static void setup_alone()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  setup();
  for (int again = 0; again < 2; ++again) {      // the second time, counted
    for (unsigned k = 0; k < NT; ++k) {
      for (uint64_t s = 1; s <= SEEDS; ++s) {
        Hold h;
        std::map<uintptr_t, uint64_t> sites;
        h.sites = &sites;
        tl_hold = &h;
        long live = 0;
        std::string out = run_task(k, s, k, live);
        tl_hold = nullptr;
        if (live) {fail("holdup.leak", fmt("%s leaves %ld blocks", TASKS[k].name, live));}
        g_alone[{k, s}] = Alone{out, h.branches, h.calls, {sites.begin(), sites.end()}};
      }
    }
  }
}

static void hold(Case & c)
{
  setup_alone();
  if (g_stuck) {return;}
  Rng & g = c.rng;
  unsigned kind = static_cast<unsigned>(c.idx % NT);
  static std::set<uintptr_t> sites;
  for (unsigned round = 0; round < 5 && !g_stuck; ++round) {
    // one to three held up, mostly in the same kind of operation
    unsigned n = 1 + static_cast<unsigned>(g.below(3));
    std::vector<std::unique_ptr<Hold>> hs;
    std::vector<unsigned> ak(n);
    std::vector<uint64_t> as(n);
    std::vector<std::string> got(n);
    std::vector<long> live(n, 0);
    std::vector<std::thread> ts;
    unsigned held = 0;
    for (unsigned i = 0; i < n; ++i) {
      ak[i] = i == 0 || g.chance(1, 2) ? kind : static_cast<unsigned>(g.below(NT));
      as[i] = 1 + g.below(SEEDS);
      const Alone & a = g_alone[{ak[i], as[i]}];
      hs.emplace_back(new Hold);
      switch (a.branches ? g.below(6) : 5) {
        case 0: hs[i]->at_branch = g.below(a.branches); break;
        case 4: case 5: hs[i]->at_call = g.below(a.calls); break;
        default: {auto & at = g.pick(a.sites); hs[i]->at_site = at.first; hs[i]->at_pass = g.below(at.second); if (sites.insert(at.first).second) {count("places of the library stopped at");} break;}
      }
    }
    for (unsigned i = 0; i < n; ++i) {
      ts.emplace_back([&, i] {
          tl_hold = hs[i].get();
          got[i] = run_task(ak[i], as[i], ak[i], live[i]);
          tl_hold = nullptr;
          hs[i]->end();
        });
      // each is held before the next one starts: the others have to get that far, too
      Hold & h = *hs[i];
      std::unique_lock<std::mutex> l(h.m);
      if (!h.cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] {return h.inside || h.finished;})) {
        g_stuck = true;
        break;
      }
      if (h.inside) {held++; count(std::string("held in ") + (strcmp(h.where, "the library") ? "a callback" : "the library")); count(fmt("held.%s", TASKS[ak[i]].name));}
    }
    std::string key, msg;
    auto places = [&] {
        std::string s;
        for (unsigned i = 0; i < hs.size(); ++i) {
          s += fmt("%s%s held in %s", i ? ", " : "", TASKS[ak[i]].name, hs[i]->where ? hs[i]->where : "-");
          if (hs[i]->at_site || hs[i]->at_pass) {s += " at one place";}
          if (hs[i]->at_branch != UINT64_MAX) {s += fmt(" at branch %" PRIu64 " of %" PRIu64, hs[i]->at_branch, g_alone[{ak[i], as[i]}].branches);}
        }
        return s;
      };
    if (g_stuck) {
      key = fmt("holdup.%s", TASKS[ak[ts.size() - 1]].name);
      msg = fmt("%s does not end; %s", TASKS[ak[ts.size() - 1]].name, places().c_str());
    } else {
      // others do their work
      unsigned others = 1 + static_cast<unsigned>(g.below(2)), steps = 2 + static_cast<unsigned>(g.below(4));
      struct Done {unsigned k; uint64_t s; std::string out; long live; bool ended;};
      std::vector<std::vector<Done>> work(others, std::vector<Done>(steps));
      Others o;
      for (auto & w : work) {
        for (auto & d : w) {d = Done{g.chance(1, 2) ? kind : static_cast<unsigned>(g.below(NT)), 1 + g.below(SEEDS), "", 0, false};}
      }
      for (unsigned b = 0; b < others; ++b) {
        o.start([&work, b] {for (auto & d : work[b]) {d.out = run_task(d.k, d.s, d.k, d.live); d.ended = true;}});
      }
      bool ended = o.wait();
      if (!ended) {
        g_stuck = true;
        key = "holdup.others";
        msg = fmt("other threads do not get on (%s)", places().c_str());
      }
      // and a process forked meanwhile
      if (ended && g.chance(1, 4)) {
        unsigned k2 = g.chance(2, 3) ? kind : static_cast<unsigned>(g.below(NT));
        uint64_t s2 = 1 + g.below(SEEDS);
        const std::string & want = g_alone[{k2, s2}].out;
        int r = child([&] {
              long l2 = 0;
              std::string out = run_task(k2, s2, k2, l2);
              return out == want && l2 == 0 ? 0 : 1;
            });
        if (r != 0) {
          g_stuck = r == -1;
          key = "holdup.fork";
          msg = fmt("%s in a process forked meanwhile %s (%s)", TASKS[k2].name, r == -1 ? "does not end" : r == 1 ? "gives something else" : "crashes", places().c_str());
        }
        count("forked");
      }
      for (auto & h : hs) {h->let_go();}
      o.join();
      for (auto & w : work) {
        for (auto & d : w) {
          if (key.empty() && (d.out != g_alone[{d.k, d.s}].out || d.live)) {
            key = fmt("holdup.%s", TASKS[d.k].name);
            msg = fmt("%s gives %s, alone %s (%ld blocks left; %s)", TASKS[d.k].name, show(d.out).c_str(), show(g_alone[{d.k, d.s}].out).c_str(), d.live, places().c_str());
          }
          count("completed meanwhile");
        }
      }
    }
    for (auto & h : hs) {h->let_go();}
    for (auto & t : ts) {t.join();}
    for (unsigned i = 0; i < ts.size() && key.empty(); ++i) {
      if (got[i] != g_alone[{ak[i], as[i]}].out || live[i]) {
        key = fmt("holdup.%s", TASKS[ak[i]].name);
        msg = fmt("%s gives %s after being held up, alone %s (%ld blocks left; %s)", TASKS[ak[i]].name, show(got[i]).c_str(), show(g_alone[{ak[i], as[i]}].out).c_str(), live[i], places().c_str());
      }
    }
    MON_CHECK(key.empty(), key, "%s", msg.c_str());
    c.mix(kind); c.mix(held);
    for (auto & h : hs) {c.mix(h->at_branch); c.mix(h->at_call); c.mix(h->at_pass);}
    if (held) {c.interesting();}
    if (round == 0) {c.sample(places());}
  }
}

// ------------------------------------------------------------------ logging
// An allocator any thread may use.
static std::atomic<long> g_live{0};
static void * l_al(size_t n, void *) {nested_hook("the logging allocator"); void * p = malloc(n ? n : 1); if (p) {g_live.fetch_add(1, std::memory_order_relaxed);} return p;}
static void l_de(void * p, void *) {nested_hook("the logging allocator"); if (p) {g_live.fetch_sub(1, std::memory_order_relaxed);} free(p);}
static void * l_re(void * p, size_t n, void *) {nested_hook("the logging allocator"); void * q = realloc(p, n ? n : 1); if (q && !p) {g_live.fetch_add(1, std::memory_order_relaxed);} return q;}
static void * l_ca(size_t n, size_t m, void *) {nested_hook("the logging allocator"); void * p = calloc(n ? n : 1, m ? m : 1); if (p) {g_live.fetch_add(1, std::memory_order_relaxed);} return p;}

struct Sent {std::string name, text; int sev; size_t line; unsigned way; bool enabled;};
struct Seen {std::string name, text; int sev; size_t line; bool operator<(const Seen & o) const {return text < o.text;}};
static std::mutex g_seen_m;
static std::vector<Seen> g_seen;
static bool g_console = false;
static void handler(const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t ts, const char * f, va_list * args)
{
  nested_hook("an output handler");
  if (g_console) {rcutils_logging_console_output_handler(l, sev, name, ts, f, args); return;}
  va_list a;
  va_copy(a, *args);
  char b[3000];
  int n = vsnprintf(b, sizeof(b), f, a);
  va_end(a);
  nested_hook("an output handler");
  std::lock_guard<std::mutex> g(g_seen_m);
  g_seen.push_back({name, std::string(b, n > 0 ? static_cast<size_t>(n) : 0), sev, l ? l->line_number : 0});
}
static bool condition() {nested_hook("a condition"); return true;}
static const char * argument(const char * s) {nested_hook("an argument"); return s;}
static rcutils_ret_t clock_now(rcutils_time_point_value_t * t)
{
  static std::atomic<int64_t> now{0};
  nested_hook("a clock");
  *t = now.fetch_add(1000000000000, std::memory_order_relaxed);
  return RCUTILS_RET_OK;
}
static void send(const Sent & s)
{
  rcutils_log_location_t loc = {"f", "file", s.line};
  switch (s.way) {
    case 0: rcutils_log(&loc, s.sev, s.name.c_str(), "%s", s.text.c_str()); break;
    case 1: rcutils_log_internal(&loc, s.sev, s.name.c_str(), "%s", s.text.c_str()); break;
    case 2: RCUTILS_LOG_COND_NAMED(s.sev, RCUTILS_LOG_CONDITION_EMPTY, RCUTILS_LOG_CONDITION_EMPTY, s.name.c_str(), "%s", argument(s.text.c_str())); break;
    case 3: RCUTILS_LOG_ERROR_FUNCTION_NAMED(&condition, s.name.c_str(), "%s", argument(s.text.c_str())); break;
    default: RCUTILS_LOG_ERROR_THROTTLE_NAMED(clock_now, 1, s.name.c_str(), "%s", argument(s.text.c_str())); break;
  }
}
static const char * const NAMES[] = {"h", "h.a", "h.a.b", "h.a.b.c", "i", "i.j", "k"};

static void logging(Case & c)
{
  if (g_stuck) {return;}
  Rng & g = c.rng;
  (void)!rcutils_logging_shutdown();
  rcutils_allocator_t a = {l_al, l_de, l_re, l_ca, nullptr};
  long before = g_live;
  g_console = g.chance(1, 2);
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "{name} {message}", 1);
  setenv("RCUTILS_COLORIZED_OUTPUT", g.chance(1, 2) ? "1" : "0", 1);
  setenv("RCUTILS_LOGGING_USE_STDOUT", "0", 1);
  setenv("RCUTILS_LOGGING_BUFFERED_STREAM", "1", 1);
  MON_CHECK(rcutils_logging_initialize_with_allocator(a) == RCUTILS_RET_OK, "holdup.setup", "logging does not initialize");
  rcutils_logging_set_output_handler(handler);
  std::map<std::string, int> levels;
  for (uint64_t n = g.below(4); n; --n) {
    const char * name = NAMES[g.below(7)];
    levels[name] = static_cast<int>(10 * (1 + g.below(5)));
    MON_CHECK(rcutils_logging_set_logger_level(name, levels[name]) == RCUTILS_RET_OK, "holdup.setup", "level");
  }
  auto effective = [&](std::string n) {
      for (;;) {
        auto i = levels.find(n);
        if (i != levels.end()) {return i->second;}
        size_t p = n.rfind('.');
        if (p == std::string::npos) {return 20;}
        n.resize(p);
      }
    };
  unsigned serial = 0;
  // throttled call sites compare times: one thread at a time uses them
  auto make = [&](bool throttled = false) {
      Sent s;
      s.name = NAMES[g.below(7)];
      s.way = static_cast<unsigned>(g.below(throttled ? 5 : 4));
      s.sev = s.way >= 3 ? 40 : static_cast<int>(10 * (1 + g.below(5)));
      s.line = 1 + serial;
      s.text = fmt("%u:", serial++) + g.str(g.chance(1, 3) ? 1000 + g.below(1500) : g.below(60), "xyz ") + ";";
      s.enabled = s.way == 1 || s.sev >= effective(s.name);
      return s;
    };
  // the places logging passes
  std::map<uintptr_t, uint64_t> counts;
  {
    std::string text;
    Capture cap(stderr, 2);
    for (unsigned w = 0; w < 10; ++w) {
      Sent s{NAMES[w % 7], std::string(w == 9 ? 1500 : 20, 'x'), 50, 1, w % 5, true};
      Hold h;
      std::map<uintptr_t, uint64_t> one;
      h.sites = &one;
      tl_hold = &h;
      send(s);
      tl_hold = nullptr;
      for (auto & p : one) {counts[p.first] = std::max(counts[p.first], p.second);}
    }
    text = cap.stop();
  }
  std::vector<std::pair<uintptr_t, uint64_t>> passed(counts.begin(), counts.end());
  for (unsigned round = 0; round < 6 && !g_stuck; ++round) {
    std::vector<Sent> sent;
    std::vector<std::unique_ptr<Hold>> hs;
    std::vector<std::thread> ts;
    unsigned n = 1 + static_cast<unsigned>(g.below(2));
    sent.reserve(40);
    g_seen.clear();
    std::unique_ptr<Capture> cap(g_console ? new Capture(stderr, 2) : nullptr);
    std::string key, msg;
    for (unsigned i = 0; i < n && key.empty(); ++i) {
      sent.push_back(make(i == 0));
      const Sent & s = sent.back();
      hs.emplace_back(new Hold);
      Hold & h = *hs.back();
      if (g.chance(1, 3)) {h.at_call = g.below(5);} else if (g.chance(1, 3)) {h.at_branch = g.below(300);} else {
        auto & at = g.pick(passed);
        h.at_site = at.first;
        h.at_pass = g.below(g.chance(1, 2) ? at.second : 1 + at.second / 8);
      }
      ts.emplace_back([&h, &s] {tl_hold = &h; send(s); tl_hold = nullptr; h.end();});
      std::unique_lock<std::mutex> l(h.m);
      if (!h.cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] {return h.inside || h.finished;})) {g_stuck = true; key = "holdup.record"; msg = "a record logged while others are held up";}
      if (h.inside) {count(fmt("logging held in %s", h.where));}
    }
    if (key.empty()) {
      Others o;
      std::vector<std::vector<Sent>> more(1 + g.below(2));
      for (auto & m : more) {for (uint64_t k = 1 + g.below(5); k; --k) {m.push_back(make(&m == &more[0]));}}
      for (auto & m : more) {o.start([&m] {for (auto & s : m) {send(s);}});}
      if (!o.wait()) {g_stuck = true; key = "holdup.records"; msg = "records of other threads";}
      for (auto & m : more) {for (auto & s : m) {sent.push_back(s);}}
      if (key.empty() && g.chance(1, 4)) {
        // the child counts what it delivers itself
        std::vector<Sent> mine;
        for (int k = 0; k < 3; ++k) {mine.push_back(make());}
        g_seen_m.lock();       // nobody is in there when the process is copied
        g_seen_m.unlock();
        int r = child([&] {
              g_console = false;
              g_seen.clear();
              size_t want = 0;
              for (auto & s : mine) {want += s.enabled; send(s);}
              return g_seen.size() == want ? 0 : 1;
            });
        if (r != 0) {
          g_stuck = r == -1;
          key = "holdup.fork-log";
          msg = fmt("logging in a process forked meanwhile %s", r == -1 ? "does not end" : r == 1 ? "delivers another number of records" : "crashes");
        }
        count("forked and logged");
      }
      for (auto & h : hs) {h->let_go();}
      o.join();
    }
    for (auto & h : hs) {h->let_go();}
    for (auto & t : ts) {t.join();}
    std::string text = cap ? cap->stop() : "";
    cap.reset();
    std::string places;
    for (auto & h : hs) {places += fmt("; held in %s at branch %" PRId64, h->where ? h->where : "-", static_cast<int64_t>(h->at_branch));}
    MON_CHECK(key.empty(), key, "%s: no end%s", msg.c_str(), places.c_str());
    size_t enabled = 0;
    for (auto & s : sent) {
      enabled += s.enabled;
      if (g_console) {
        std::string want = s.name + " " + s.text;
        size_t p = text.find(want), q = p == std::string::npos ? p : text.find(want, p + 1);
        MON_CHECK((p != std::string::npos) == s.enabled && q == std::string::npos, "holdup.line", "%s is printed %d times, enabled %d%s: %s", show(want).c_str(), (p != std::string::npos) + (q != std::string::npos),
          s.enabled, places.c_str(), show(text).c_str());
      } else {
        unsigned times = 0;
        bool right = true;
        for (auto & e : g_seen) {
          if (e.text == s.text) {
            times++;
            right = e.name == s.name && e.sev == s.sev && (s.way >= 2 || e.line == s.line);
          }
        }
        MON_CHECK(times == s.enabled && right, "holdup.delivery", "%s is delivered %u times, enabled %d, right %d%s", show(s.text).c_str(), times, s.enabled, right, places.c_str());
      }
    }
    size_t lines = static_cast<size_t>(std::count(text.begin(), text.end(), '\n'));
    MON_CHECK((g_console ? lines : g_seen.size()) == enabled, "holdup.delivery", "%zu records delivered instead of %zu%s", g_console ? lines : g_seen.size(), enabled, places.c_str());
    count("records", sent.size());
    c.mix(enabled);
    for (auto & h : hs) {c.mix(h->at_branch); c.mix(h->at_call); if (h->where) {c.interesting();}}
  }
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "holdup.shutdown", "shutdown");
  MON_CHECK(g_live == before, "holdup.leak", "%ld blocks of the logging allocator are left", g_live - before);
}

static void reg()
{
  section("hold", 900, 30000, hold);
  section("hold-logging", 400, 15000, logging);
}
MON_MAIN(reg)
