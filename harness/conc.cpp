// P25: concurrent logging.  P26: the fault injection counter, alone and under concurrency.
#include <cstdarg>
#include <thread>

#include "capture.hpp"
#include "logref.hpp"
#include "mon.hpp"
#include "rcutils/logging.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"

using namespace mon;
using logref::Record;

namespace
{
// Threads that start together.
struct Gate
{
  std::atomic<unsigned> waiting{0};
  unsigned n;
  explicit Gate(unsigned k) : n(k) {}
  void pass() {waiting.fetch_add(1); while (waiting.load() < n) {std::this_thread::yield();}}
};

struct Sent
{
  Record r;
  rcutils_log_location_t loc;
  bool enabled = false;
};

struct Got
{
  const rcutils_log_location_t * loc;
  int severity;
  std::string name, msg, line;
  int64_t t;
};

thread_local std::vector<Got> * tl_got = nullptr;
std::atomic<uint64_t> delivered{0}, stray{0};

void recorder(const rcutils_log_location_t * location, int severity, const char * name, rcutils_time_point_value_t t, const char * format, va_list * args)
{
  delivered.fetch_add(1, std::memory_order_relaxed);
  if (!tl_got) {stray.fetch_add(1); return;}
  Got g;
  g.loc = location;
  g.severity = severity;
  g.name = name ? name : "NULL";
  g.t = t;
  char b[6000];
  va_list ap;
  va_copy(ap, *args);
  vsnprintf(b, sizeof(b), format, ap);
  va_end(ap);
  g.msg = b;
  char small[64] = "";
  rcutils_char_array_t out = rcutils_get_zero_initialized_char_array();
  out.buffer = small;
  out.buffer_capacity = sizeof(small);
  out.allocator = rcutils_get_default_allocator();
  if (rcutils_logging_format_message(location, severity, g.name.c_str(), t, b, &out) == RCUTILS_RET_OK) {g.line = out.buffer;}
  if (rcutils_char_array_fini(&out) != RCUTILS_RET_OK) {stray.fetch_add(1);}
  tl_got->push_back(g);
}

const char FORMAT[] = "{time_as_nanoseconds} {date_time_with_ms} [{severity}] [{name}] [{function_name}@{file_name}:{line_number}] {time}\\t{message}";

void quiet_env()
{
  for (const char * v : {"RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT", "RCUTILS_CONSOLE_OUTPUT_FORMAT",
      "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", "RCUTILS_LOGGING_USE_STDOUT"}) {unsetenv(v);}
  setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", FORMAT, 1);
}

const int SEV[] = {RCUTILS_LOG_SEVERITY_DEBUG, RCUTILS_LOG_SEVERITY_INFO, RCUTILS_LOG_SEVERITY_WARN, RCUTILS_LOG_SEVERITY_ERROR, RCUTILS_LOG_SEVERITY_FATAL};

// What each thread will log; levels are set before the threads start and looked up once by the main thread.
struct Plan
{
  std::vector<std::vector<Sent>> t;
  uint64_t enabled = 0, disabled = 0;
};
void fill(Plan & p, Rng & g, unsigned threads, unsigned each, const std::vector<std::string> & names)
{
  p.t.resize(threads);
  for (unsigned i = 0; i < threads; ++i) {
    for (unsigned k = 0; k < each; ++k) {
      Sent s;
      s.r.severity = SEV[g.below(5)];
      s.r.name = g.pick(names);
      s.r.function = fmt("function_%u", i);
      s.r.file = fmt("file_%u.c", i);
      s.r.line = 1000 * i + k;
      char fill = static_cast<char>('a' + (i * 7 + k) % 26);
      size_t n = g.chance(1, 8) ? g.range(900, 1100) : g.chance(1, 12) ? g.range(1500, 4000) : g.below(60);
      s.r.msg = fmt("<%u:%u:", i, k) + std::string(n, fill) + ">";
      s.r.t = static_cast<int64_t>(g.below(uint64_t(1) << 62));
      s.r.has_location = true;
      s.enabled = rcutils_logging_logger_is_enabled_for(s.r.name.c_str(), s.r.severity);
      (s.enabled ? p.enabled : p.disabled)++;
      p.t[i].push_back(s);
    }
    for (auto & s : p.t[i]) {
      s.loc.function_name = s.r.function.c_str();
      s.loc.file_name = s.r.file.c_str();
      s.loc.line_number = s.r.line;
    }
  }
}

std::vector<std::string> levels(Rng & g)
{
  std::vector<std::string> names = {"a", "a.b", "a.b.c", "x", "x.y.z", "", "long." + std::string(200, 'n'), "other"};
  rcutils_logging_set_default_logger_level(SEV[g.below(4)]);
  if (g.chance(1, 3)) {count("conc.no-levels"); return names;}
  unsigned n = static_cast<unsigned>(g.range(1, 4));
  for (unsigned i = 0; i < n; ++i) {
    std::string s = g.pick(names);
    MON_CHECK(rcutils_logging_set_logger_level(s.c_str(), SEV[g.below(5)]) == RCUTILS_RET_OK, "conc.level", "cannot set a level");
  }
  count("conc.levels");
  return names;     // fill() looks all of them up before the threads start
}

void emit(const Sent & s, unsigned k)
{
  const char * n = s.r.name.c_str();
  if (k % 3 == 0) {
    rcutils_log(&s.loc, s.r.severity, n, "%s", s.r.msg.c_str());
  } else if (k % 3 == 1) {
    // split into several arguments
    size_t c = s.r.msg.find(':', 1);
    unsigned i = static_cast<unsigned>(atoi(s.r.msg.c_str() + 1));
    rcutils_log(&s.loc, s.r.severity, n, "<%u%s", i, s.r.msg.c_str() + c);
  } else {
    rcutils_log(&s.loc, s.r.severity, n, "%.*s%c", static_cast<int>(s.r.msg.size() - 1), s.r.msg.c_str(), '>');
  }
}

struct Logging
{
  Logging()
  {
    quiet_env();
    if (g_rcutils_logging_initialized) {(void)!rcutils_logging_shutdown();}
    if (rcutils_logging_initialize() != RCUTILS_RET_OK) {fail("conc.init", "initialization failed");}
  }
  ~Logging() {if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {note("conc.shutdown", "shutdown failed");}}
};

void conc_record(Case & c)
{
  Rng & g = c.rng;
  Logging l;
  auto names = levels(g);
  rcutils_logging_set_output_handler(recorder);
  unsigned T = static_cast<unsigned>(g.range(2, 6)), each = static_cast<unsigned>(g.range(10, 60));
  Plan p;
  fill(p, g, T, each, names);
  std::vector<std::vector<Got>> got(T);
  std::vector<std::string> bad(T);
  delivered = 0;
  stray = 0;
  Gate gate(T);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < T; ++i) {
    th.emplace_back([&, i]() {
        tl_got = &got[i];
        gate.pass();
        for (unsigned k = 0; k < p.t[i].size(); ++k) {
          if (k % 5 == 4) {
            std::string m = fmt("error %u of thread %u", k, i);
            RCUTILS_SET_ERROR_MSG(m.c_str());
            emit(p.t[i][k], k);
            std::string e = rcutils_get_error_string().str;
            if (e.compare(0, m.size() + 1, m + ",") != 0) {bad[i] = "the error state of thread is " + show(e);}
            rcutils_reset_error();
          } else {emit(p.t[i][k], k);}
        }
        rcutils_reset_error();
        tl_got = nullptr;
      });
  }
  for (auto & t : th) {t.join();}
  rcutils_logging_set_output_handler(rcutils_logging_console_output_handler);
  MON_CHECK(stray == 0, "conc.stray", "records delivered in a thread that did not log them, or leftovers");
  MON_CHECK(delivered == p.enabled, "conc.count", "%" PRIu64 " records delivered, %" PRIu64 " were enabled", delivered.load(), p.enabled);
  uint64_t switches = 0;
  int64_t last = -1;
  std::vector<std::pair<int64_t, unsigned>> order;
  for (unsigned i = 0; i < T; ++i) {
    MON_CHECK(bad[i].empty(), "conc.error-state", "%s", bad[i].c_str());
    size_t at = 0;
    for (auto & s : p.t[i]) {
      if (!s.enabled) {continue;}
      MON_CHECK(at < got[i].size(), "conc.lost", "thread %u: a record was lost", i);
      Got & x = got[i][at++];
      MON_CHECK(x.loc == &s.loc && x.severity == s.r.severity && x.name == s.r.name && x.msg == s.r.msg, "conc.content",
        "thread %u: severity %d, name %s, %s; should be severity %d, name %s, %s", i, x.severity, show(x.name, 30).c_str(), show(x.msg, 60).c_str(),
        s.r.severity, show(s.r.name, 30).c_str(), show(s.r.msg, 60).c_str());
      Record r = s.r;
      r.t = x.t;
      MON_CHECK(x.line == logref::render(FORMAT, r), "conc.format", "formatted as %s, should be %s", show(x.line).c_str(), show(logref::render(FORMAT, r)).c_str());
      order.push_back({x.t, i});
    }
    MON_CHECK(at == got[i].size(), "conc.duplicate", "thread %u: %zu records, should be %zu", i, got[i].size(), at);
  }
  std::sort(order.begin(), order.end());
  uint64_t ih = 7;
  for (auto & o : order) {
    if (last >= 0 && last != static_cast<int64_t>(o.second)) {++switches;}
    last = o.second;
    ih = mix64(ih ^ o.second);
  }
  c.mix(ih);
  count("conc.records", p.enabled);
  count("conc.disabled", p.disabled);
  count("conc.switches", switches);
  if (switches > T) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u threads, %" PRIu64 " records, %" PRIu64 " disabled, %" PRIu64 " switches between threads", T, p.enabled, p.disabled, switches));}
}

__attribute__((format(printf, 5, 6)))
void direct(const rcutils_log_location_t * loc, int severity, const char * name, int64_t t, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_logging_console_output_handler(loc, severity, name, t, f, &ap);
  va_end(ap);
}

void conc_console(Case & c)
{
  Rng & g = c.rng;
  std::string text;
  Plan p;
  unsigned T = static_cast<unsigned>(g.range(2, 6)), each = static_cast<unsigned>(g.range(10, 60));
  bool own_time = g.chance(1, 2);
  {
    quiet_env();
    if (g_rcutils_logging_initialized) {(void)!rcutils_logging_shutdown();}
    bool err = g.chance(1, 2);
    setenv("RCUTILS_LOGGING_USE_STDOUT", err ? "0" : "1", 1);
    if (g.chance(1, 3)) {setenv("RCUTILS_LOGGING_BUFFERED_STREAM", g.chance(1, 2) ? "1" : "0", 1);}
    if (rcutils_logging_initialize() != RCUTILS_RET_OK) {fail("conc.init", "initialization failed");}
    struct Down {~Down() {(void)!rcutils_logging_shutdown();}} down;
    auto names = levels(g);
    fill(p, g, T, each, names);
    Gate gate(T);
    bool hostile = !err && g.chance(1, 3);     // records that cannot be formatted; the reports on them go to stderr
    std::unique_ptr<Capture> reports;
    if (hostile) {reports.reset(new Capture(stderr, 2)); count("console.hostile");}
    Capture cap(err ? stderr : stdout, err ? 2 : 1);
    std::vector<std::thread> th;
    for (unsigned i = 0; i < T; ++i) {
      th.emplace_back([&, i]() {
          gate.pass();
          for (unsigned k = 0; k < p.t[i].size(); ++k) {
            Sent & s = p.t[i][k];
            if (hostile && k % 4 == i % 4) {
              direct(&s.loc, s.r.severity, s.r.name.c_str(), s.r.t, "%s%lc", "not a character: ", static_cast<wint_t>(0xd800));
              rcutils_reset_error();
            }
            if (own_time) {
              s.enabled = true;
              direct(&s.loc, s.r.severity, s.r.name.c_str(), s.r.t, "%s", s.r.msg.c_str());
            } else {emit(s, k);}
          }
        });
    }
    for (auto & t : th) {t.join();}
    text = cap.stop();
    if (reports) {MON_CHECK(!reports->stop().empty(), "conc.unreported", "records were lost without a word");}
  }
  // every line belongs to one thread and is the next one of that thread
  std::vector<size_t> at(T, 0);
  uint64_t lines = 0, switches = 0, ih = 7;
  int64_t last = -1;
  for (size_t i = 0; i < text.size(); ) {
    size_t e = text.find('\n', i);
    std::string line = text.substr(i, e == std::string::npos ? e : e - i);
    i = e == std::string::npos ? text.size() : e + 1;
    MON_CHECK(e != std::string::npos, "conc.torn", "the last line is incomplete: %s", show(line).c_str());
    size_t m = line.find("\t<");
    MON_CHECK(m != std::string::npos, "conc.torn", "not a line: %s", show(line).c_str());
    unsigned t = static_cast<unsigned>(atoi(line.c_str() + m + 2));
    MON_CHECK(t < T, "conc.torn", "not a line: %s", show(line).c_str());
    while (at[t] < p.t[t].size() && !p.t[t][at[t]].enabled) {++at[t];}
    MON_CHECK(at[t] < p.t[t].size(), "conc.duplicate", "one line too many of thread %u: %s", t, show(line).c_str());
    Record r = p.t[t][at[t]++].r;
    if (!own_time) {r.t = strtoll(line.c_str(), nullptr, 10);}
    std::string exp = logref::render(FORMAT, r);
    MON_CHECK(line == exp, "conc.line", "the line is %s, should be %s", show(line).c_str(), show(exp).c_str());
    ++lines;
    if (last >= 0 && last != t) {++switches;}
    last = t;
    ih = mix64(ih ^ t);
  }
  uint64_t want = 0;
  for (auto & v : p.t) {for (auto & s : v) {want += s.enabled;}}
  MON_CHECK(lines == want, "conc.lost", "%" PRIu64 " lines, should be %" PRIu64, lines, want);
  c.mix(ih);
  count("console.lines", lines);
  count("console.switches", switches);
  count(own_time ? "console.direct" : "console.logged");
  if (switches > T) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u threads, %" PRIu64 " lines, %" PRIu64 " switches between threads", T, lines, switches));}
}

// Names the logging system has not seen yet, while some level is set.
void conc_uncached(Case & c)
{
  Rng & g = c.rng;
  Logging l;
  rcutils_logging_set_output_handler(recorder);
  MON_CHECK(rcutils_logging_set_logger_level("root", RCUTILS_LOG_SEVERITY_WARN) == RCUTILS_RET_OK, "conc.level", "cannot set a level");
  unsigned T = static_cast<unsigned>(g.range(2, 4));
  delivered = 0;
  Gate gate(T);
  std::vector<std::vector<Got>> got(T);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < T; ++i) {
    th.emplace_back([&, i]() {
        tl_got = &got[i];
        gate.pass();
        for (unsigned k = 0; k < 30; ++k) {
          std::string n = fmt("root.t%u.n%u", i, k);
          rcutils_log(nullptr, k % 2 ? RCUTILS_LOG_SEVERITY_ERROR : RCUTILS_LOG_SEVERITY_INFO, n.c_str(), "x");
        }
        tl_got = nullptr;
      });
  }
  for (auto & t : th) {t.join();}
  MON_CHECK(delivered == 15 * T, "conc.count", "%" PRIu64 " records delivered, should be %u", delivered.load(), 15 * T);
  count("conc.uncached");
  c.mix(T);
  c.interesting();
}

// ---------------------------------------------------------------- P26
// A point of the library: true when it failed.
bool api_point(unsigned how)
{
  switch (how % 3) {
    case 0: {
        auto a = rcutils_get_default_allocator();
        void * p = a.allocate(8, a.state);
        a.deallocate(p, a.state);
        return p == nullptr;
      }
    case 1: {
        auto a = rcutils_get_default_allocator();
        void * p = a.zero_allocate(2, 8, a.state);
        a.deallocate(p, a.state);
        return p == nullptr;
      }
    default: {
        auto a = rcutils_get_default_allocator();
        void * p = a.reallocate(nullptr, 8, a.state);
        a.deallocate(p, a.state);
        return p == nullptr;
      }
  }
}

struct Silent      // the injected points print
{
  int saved;
  Silent()
  {
    fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Silent() {fflush(stdout); dup2(saved, 1); close(saved);}
};

int64_t some_count(Rng & g)
{
  switch (g.below(8)) {
    case 0: return -1;
    case 1: return -static_cast<int64_t>(g.below(100));
    case 2: return INT64_MIN;
    case 3: return INT64_MAX;
    case 4: return (int64_t(1) << 32) + static_cast<int64_t>(g.below(3)) - 1;
    case 5: return int64_t(1) << g.below(62);
    default: return static_cast<int64_t>(g.below(12));
  }
}

void fault_history(Case & c)
{
  Rng & g = c.rng;
  Silent q;
  int64_t m = -1;
  rcutils_fault_injection_set_count(-1);
  unsigned steps = static_cast<unsigned>(g.range(10, 80)), fired = 0;
  for (unsigned i = 0; i < steps; ++i) {
    switch (g.below(8)) {
      case 0: m = some_count(g); rcutils_fault_injection_set_count(m); tr(fmt("set %" PRId64, m)); break;
      case 1: case 2: case 3: {
          bool f = api_point(static_cast<unsigned>(g.next()));
          tr(fmt("point: %d", f));
          MON_CHECK(f == (m == 0), "fault.point", "failed: %d with %" PRId64 " points left", f, m);
          fired += f;
          if (m >= 0) {--m;}
          break;
        }
      case 4: {
          int64_t r = _rcutils_fault_injection_maybe_fail();
          if (m >= 0) {
            MON_CHECK(r == m, "fault.test", "%" PRId64 ", should be %" PRId64, r, m);
            --m;
          } else {MON_CHECK(r < 0, "fault.test", "%" PRId64 " while disabled", r);}
          break;
        }
      case 5: {
          // pausing in the middle
          bool any = false;
          unsigned k = static_cast<unsigned>(g.below(5));
          RCUTILS_NO_FAULT_INJECTION({for (unsigned j = 0; j < k; ++j) {any |= api_point(j);}});
          MON_CHECK(!any, "fault.paused", "a point failed while paused");
          break;
        }
      case 6: {
          // a whole test loop: each point fails once, in order, then one run without
          unsigned k = static_cast<unsigned>(g.below(8)), runs = 0;
          bool ok = true;
          RCUTILS_FAULT_INJECTION_TEST({
            int at = -1;
            for (unsigned j = 0; j < k; ++j) {if (api_point(j)) {if (at >= 0) {ok = false;} at = static_cast<int>(j);}}
            if (at != (runs < k ? static_cast<int>(runs) : -1)) {ok = false;}
            ++runs;
            if (runs > 100) {fail("fault.loop", "the loop does not end");}
          });
          MON_CHECK(ok && runs == k + 1, "fault.loop", "%u points: %u runs, each with its own failure: %d", k, runs, ok);
          m = -1;
          count("fault.loops");
          break;
        }
      default: break;
    }
    int64_t r = rcutils_fault_injection_get_count();
    MON_CHECK(m >= 0 ? r == m : r < 0, "fault.count", "count is %" PRId64 ", should be %" PRId64, r, m);
    MON_CHECK(rcutils_fault_injection_is_test_complete() == (m >= 0), "fault.complete", "complete is wrong with %" PRId64 " points left", m);
  }
  rcutils_fault_injection_set_count(-1);
  count("fault.fired", fired);
  c.mix(g.next());
  if (fired) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps, %u points failed", steps, fired));}
}

void fault_threads(Case & c)
{
  Rng & g = c.rng;
  Silent q;
  unsigned T = static_cast<unsigned>(g.range(2, 7)), K = static_cast<unsigned>(g.range(20, 400));
  uint64_t total = uint64_t(T) * K;
  int64_t n = g.chance(1, 6) ? static_cast<int64_t>(total + g.below(5)) : g.chance(1, 4) ? static_cast<int64_t>(g.below(4)) :
    static_cast<int64_t>(g.below(total));
  unsigned resets = g.chance(1, 3) ? static_cast<unsigned>(g.range(1, 6)) : 0;
  bool reader = g.chance(1, 2);
  std::vector<std::vector<int64_t>> out(T);
  std::vector<uint64_t> hits(T, 0);
  std::vector<int64_t> sets = {n};
  for (unsigned i = 0; i < resets; ++i) {sets.push_back(static_cast<int64_t>(g.below(total)));}
  rcutils_fault_injection_set_count(n);
  Gate gate(T + (reader ? 1 : 0) + (resets ? 1 : 0));
  std::string bad;
  std::atomic<bool> stop{false};
  std::vector<std::thread> th;
  bool api = g.chance(1, 3);
  for (unsigned i = 0; i < T; ++i) {
    th.emplace_back([&, i]() {
        gate.pass();
        for (unsigned k = 0; k < K; ++k) {
          if (api) {hits[i] += api_point(k);} else {out[i].push_back(_rcutils_fault_injection_maybe_fail());}
        }
      });
  }
  if (resets) {
    th.emplace_back([&]() {
        gate.pass();
        for (unsigned i = 1; i < sets.size(); ++i) {
          for (unsigned k = 0; k < 20 * i; ++k) {std::this_thread::yield();}
          rcutils_fault_injection_set_count(sets[i]);
        }
      });
  }
  std::thread rd;
  if (reader) {
    rd = std::thread([&]() {
          gate.pass();
          int64_t last = INT64_MAX;
          while (!stop.load()) {
            int64_t v = rcutils_fault_injection_get_count();
            if (!resets && v > last && bad.empty()) {bad = fmt("%" PRId64 " after %" PRId64, v, last);}
            if (v < -1 && bad.empty()) {bad = fmt("%" PRId64, v);}
            last = v;
          }
        });
  }
  for (auto & t : th) {t.join();}
  stop = true;
  if (reader) {rd.join();}
  MON_CHECK(bad.empty(), "fault.read", "a reader saw %s", bad.c_str());
  int64_t fin = rcutils_fault_injection_get_count();
  uint64_t zeros = 0;
  std::vector<int64_t> sorted_sets = sets;
  std::sort(sorted_sets.begin(), sorted_sets.end());
  if (api) {
    for (auto h : hits) {zeros += h;}
  } else {
    std::map<int64_t, uint64_t> seen;
    uint64_t ih = 7, runs = 0;
    for (auto & o : out) {
      int64_t last = INT64_MAX;
      for (int64_t v : o) {
        MON_CHECK(resets || v < last || v == -1, "fault.order", "a thread saw %" PRId64 " after %" PRId64, v, last);
        if (v != last - 1) {++runs;}
        last = v;
        if (v >= 0) {seen[v]++;}
        ih = mix64(ih ^ static_cast<uint64_t>(v));
      }
    }
    c.mix(ih);
    count("fault.switches", runs);
    for (auto & s : seen) {
      uint64_t could = static_cast<uint64_t>(sorted_sets.end() - std::lower_bound(sorted_sets.begin(), sorted_sets.end(), s.first));
      MON_CHECK(s.second <= could, "fault.twice", "count %" PRId64 " was consumed %" PRIu64 " times, set %" PRIu64 " times", s.first, s.second, could);
    }
    zeros = seen.count(0) ? seen[0] : 0;
    if (!resets) {
      // every value from n down, each once, with nothing lost
      for (int64_t v = n; v >= 0 && v > n - static_cast<int64_t>(total); --v) {
        MON_CHECK(seen.count(v) && seen[v] == 1, "fault.lost", "count %" PRId64 " was never consumed (%" PRId64 " at the start, %" PRIu64 " points)", v, n, total);
      }
    }
  }
  if (!resets) {
    MON_CHECK(zeros == (static_cast<uint64_t>(n) < total ? 1u : 0u), "fault.once", "%" PRIu64 " failures with %" PRId64 " set and %" PRIu64 " points", zeros, n, total);
    int64_t exp = static_cast<uint64_t>(n) < total ? -1 : n - static_cast<int64_t>(total);
    MON_CHECK(fin == exp, "fault.final", "%" PRId64 " left, should be %" PRId64, fin, exp);
  } else {
    MON_CHECK(zeros <= sets.size(), "fault.once", "%" PRIu64 " failures after %zu settings", zeros, sets.size());
    MON_CHECK(fin >= -1 && fin <= sorted_sets.back(), "fault.final", "%" PRId64 " left", fin);
    count("fault.with-resets");
  }
  rcutils_fault_injection_set_count(-1);
  count("fault.points", total);
  count("fault.concurrent-failures", zeros);
  if (api) {count("fault.api");}
  c.mix(static_cast<uint64_t>(n)); c.mix(total);
  c.interesting();
  if (c.want_sample()) {c.sample(fmt("%u threads, %u points each, count %" PRId64 ", %u resets: %" PRIu64 " failures", T, K, n, resets, zeros));}
}

void reg()
{
  {Capture once(stderr, 2);}
  section("conc-record", 500, 12000, conc_record);
  section("conc-console", 500, 12000, conc_console);
  section("conc-uncached", 150, 3000, conc_uncached);
  section("fault-history", 6000, 120000, fault_history);
  section("fault-threads", 1500, 40000, fault_threads);
}
}  // namespace
MON_MAIN(reg)
