// P20: effective levels.  P21: delivery to the output handler.  P22: console format.  P23: configuration cycles.
// Linked with --wrap=clock_gettime: the clock can be fixed.
#include <fcntl.h>
#include <pty.h>
#include <signal.h>
#include <stdio_ext.h>
#include <time.h>

#include "capture.hpp"
#include "logref.hpp"
#include "mon.hpp"
#include "rcutils/logging.h"
using namespace mon;

static bool clock_fixed = false;
static int64_t clock_value = 0;
extern "C" int __real_clock_gettime(clockid_t id, struct timespec * ts);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (clock_fixed && id == CLOCK_REALTIME) {
    ts->tv_sec = clock_value / 1000000000;
    ts->tv_nsec = clock_value % 1000000000;
    return 0;
  }
  return __real_clock_gettime(id, ts);
}

namespace
{
const int SEV[] = {10, 20, 30, 40, 50};

void clear_env()
{
  unsetenv("RCUTILS_LOGGING_USE_STDOUT");
  unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM");
  unsetenv("RCUTILS_COLORIZED_OUTPUT");
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  unsetenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");
}

struct LoggingSession
{
  CkAlloc A;
  explicit LoggingSession(const char * n) : A(n)
  {
    if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {fail("log.shutdown", "shutdown failed");}
    if (rcutils_logging_initialize_with_allocator(A.get()) != RCUTILS_RET_OK) {
      fail("log.init", std::string("initialization failed: ") + rcutils_get_error_string().str);
    }
  }
  void end()
  {
    MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "shutdown failed");
    check_empty(A, "logging shutdown");
  }
  ~LoggingSession() {(void)!rcutils_logging_shutdown();}
};

// ---------------------------------------------------------------- P20
std::string gen_name(Rng & g)
{
  static const std::vector<std::string> part = {"a", "b", "ab", "", "a", "b", "c", "aa", "abc"};
  std::string n;
  if (g.chance(1, 20)) {return "";}
  uint64_t k = g.range(1, 5);
  for (uint64_t i = 0; i < k; ++i) {
    if (i) {n += '.';}
    n += g.pick(part);
  }
  if (g.chance(1, 30)) {n += std::string(g.range(100, 3000), 'x');}
  if (g.chance(1, 30)) {n = std::string(g.range(1, 200), 'y') + "." + n;}
  if (g.chance(1, 20)) {for (uint64_t d = g.range(10, 300); d > 0; --d) {n += g.chance(1, 12) ? "." : ".b";}}
  return n;
}

struct Levels
{
  std::map<std::string, int> set;    // non-zero levels
  int def = RCUTILS_LOG_SEVERITY_INFO;
  int own(const std::string & n) const
  {
    if (n.empty()) {return def;}
    auto it = set.find(n);
    return it == set.end() ? 0 : it->second;
  }
  int effective(std::string n) const
  {
    for (;;) {
      if (n.empty()) {return def;}
      auto it = set.find(n);
      if (it != set.end()) {return it->second;}
      size_t p = n.rfind('.');
      if (p == std::string::npos) {return def;}
      n.resize(p);
    }
  }
};

void levels(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  LoggingSession s("levels");
  Levels m;
  unsigned steps = static_cast<unsigned>(g.range(5, c.thorough ? 200 : 70));
  bool inherited = false, unset_seen = false;
  std::vector<std::string> names;
  for (int i = 0; i < 12; ++i) {names.push_back(gen_name(g));}
  auto name = [&]() {return g.chance(4, 5) ? g.pick(names) : gen_name(g);};
  auto check_one = [&](const std::string & n) {
      Exact e(n);
      int got = rcutils_logging_get_logger_effective_level(e), want = m.effective(n);
      MON_CHECK(got == want, "levels.effective", "effective level of %s is %d, should be %d", show(n).c_str(), got, want);
      if (m.own(n) == 0 && want != m.def) {inherited = true; count("levels.inherited");}
    };
  for (unsigned i = 0; i < steps; ++i) {
    std::string n = name();
    Exact e(n);
    switch (g.below(12)) {
      case 0: case 1: case 2: case 3: {
          int l = g.chance(1, 4) ? 0 : SEV[g.below(5)];
          tr(fmt("set %s %d", show(n).c_str(), l));
          c.mix(n); c.mix(static_cast<uint64_t>(l));
          rcutils_ret_t r = rcutils_logging_set_logger_level(e, l);
          MON_CHECK(r == RCUTILS_RET_OK, "levels.set", "setting %s to %d returned %d", show(n).c_str(), l, r);
          if (n.empty()) {m.def = l;} else if (l) {m.set[n] = l;} else {unset_seen |= m.set.erase(n) > 0;}
          break;
        }
      case 4: {
          static const int bad[] = {-1, 1, 5, 9, 11, 19, 21, 49, 51, 60, 100, INT32_MAX, INT32_MIN, -10};
          int l = bad[g.below(sizeof(bad) / sizeof(bad[0]))];
          tr(fmt("set %s %d (invalid)", show(n).c_str(), l));
          rcutils_ret_t r = rcutils_logging_set_logger_level(g.chance(1, 6) ? nullptr : e.p, l);
          MON_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "levels.invalid", "level %d was accepted (%d)", l, r);
          MON_CHECK(rcutils_error_is_set(), "levels.invalid-msg", "no error message for an invalid level");
          rcutils_reset_error();
          count("levels.rejected");
          break;
        }
      case 5: {
          int l = g.chance(1, 3) ? 0 : SEV[g.below(5)];
          tr(fmt("default %d", l));
          c.mix(static_cast<uint64_t>(l) + 100);
          rcutils_logging_set_default_logger_level(l);
          m.def = l ? l : static_cast<int>(RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL);
          break;
        }
      case 6: {
          MON_CHECK(rcutils_logging_get_logger_level(e) == m.own(n), "levels.own", "level of %s is %d, set was %d", show(n).c_str(),
            rcutils_logging_get_logger_level(e), m.own(n));
          rcutils_reset_error();
          // length-delimited: a prefix, without terminator
          size_t k = g.below(n.size() + 1);
          Exact p(n.substr(0, k), false);
          int got = rcutils_logging_get_logger_leveln(p.p, k);
          MON_CHECK(got == m.own(n.substr(0, k)), "levels.own", "level of the first %zu characters of %s is %d, set was %d", k,
            show(n).c_str(), got, m.own(n.substr(0, k)));
          rcutils_reset_error();
          break;
        }
      case 7: {
          int sev = g.chance(1, 3) ? static_cast<int>(g.below(61)) : SEV[g.below(5)];
          bool nullname = g.chance(1, 8);
          bool got = rcutils_logging_logger_is_enabled_for(nullname ? nullptr : e.p, sev);
          int eff = nullname ? m.def : m.effective(n);
          MON_CHECK(got == (sev >= eff), "levels.enabled", "%s is %senabled for %d, effective level is %d",
            nullname ? "NULL" : show(n).c_str(), got ? "" : "not ", sev, eff);
          count(got ? "levels.enabled" : "levels.disabled");
          break;
        }
      case 8: {
          MON_CHECK(rcutils_logging_get_default_logger_level() == m.def, "levels.default", "default level is %d, should be %d",
            rcutils_logging_get_default_logger_level(), m.def);
          MON_CHECK(rcutils_logging_get_logger_level(nullptr) == -1 && rcutils_logging_get_logger_leveln(nullptr, 3) == -1 &&
            rcutils_logging_get_logger_effective_level(nullptr) == -1, "levels.null", "NULL name accepted");
          break;
        }
      default: check_one(n); break;
    }
    if (g.chance(1, 60)) {
      s.end();
      rcutils_ret_t r = rcutils_logging_initialize_with_allocator(s.A.get());
      MON_CHECK(r == RCUTILS_RET_OK, "log.init", "initialization again failed");
      m = Levels();
      tr("shutdown+init");
      count("levels.restarts");
    }
  }
  for (auto & n : names) {
    check_one(n);
    Exact e(n);
    MON_CHECK(rcutils_logging_get_logger_level(e) == m.own(n), "levels.own", "finally the level of %s is %d, set was %d", show(n).c_str(),
      rcutils_logging_get_logger_level(e), m.own(n));
    rcutils_reset_error();
  }
  if (unset_seen) {count("levels.unset");}
  if (inherited) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps, %zu loggers set, default %d", steps, m.set.size(), m.def));}
  s.end();
}

void level_names(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("names");
  static const std::vector<std::string> good = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
  size_t k = g.below(good.size());
  std::string s = good[k];
  bool ok = true;
  if (g.chance(1, 2)) {
    ok = false;
    switch (g.below(6)) {
      case 0: s += g.chance(1, 2) ? " " : "s"; break;
      case 1: s = s.substr(0, s.size() - 1); break;
      case 2: s = g.cstr(g.below(9)); break;
      case 3: s[g.below(s.size())] = static_cast<char>(1 + g.below(255)); break;
      case 4: s = " " + s; break;
      default: s = g.chance(1, 2) ? "" : std::string(g.range(1, 3000), 'D'); break;
    }
  }
  for (auto & ch : s) {if (g.chance(1, 2)) {ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);}}
  std::string up = s;
  for (auto & ch : up) {ch = static_cast<char>(ch >= 'a' && ch <= 'z' ? ch - 32 : ch);}
  int want = -77;
  ok = false;
  for (size_t i = 0; i < good.size(); ++i) {if (good[i] == up) {ok = true; want = static_cast<int>(i) * 10;}}
  int got = -77;
  Exact e(s);
  c.mix(s);
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(e, A.get(), &got);
  MON_CHECK(r == (ok ? RCUTILS_RET_OK : RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID), "levels.names", "%s -> %d", show(s).c_str(), r);
  MON_CHECK(got == want, "levels.names", "%s -> level %d, expected %d", show(s).c_str(), got, want);
  MON_CHECK(s == e.p, "levels.names", "input changed");
  count(ok ? "levels.named" : "levels.unnamed");
  check_empty(A, "severity from string");
  c.interesting();
  for (size_t i = 0; i <= 50; ++i) {
    const char * n = g_rcutils_log_severity_names[i];
    MON_CHECK(i % 10 ? n == nullptr : n && good[i / 10] == n, "levels.table", "severity name table entry %zu", i);
  }
}

// ---------------------------------------------------------------- P21
struct Delivery
{
  int handler;
  const rcutils_log_location_t * loc;
  int severity;
  std::string name, format, text;
  int64_t t;
};
std::vector<Delivery> delivered;
int nested = 0;
// what the next call of a handler does to the handlers: -1 nothing, otherwise installs that one
int switch_to = -1;
extern rcutils_logging_output_handler_t all_handlers[3];

void handle(int which, const rcutils_log_location_t * loc, int severity, const char * name, rcutils_time_point_value_t t,
  const char * format, va_list * args)
{
  Delivery d;
  d.handler = which;
  d.loc = loc;
  d.severity = severity;
  d.name = name ? name : "(NULL)";
  d.format = format;
  d.t = t;
  va_list copy;
  va_copy(copy, *args);
  std::vector<char> buf(20000);
  vsnprintf(buf.data(), buf.size(), format, copy);
  va_end(copy);
  d.text = buf.data();
  delivered.push_back(d);
  if (switch_to >= 0) {
    rcutils_logging_set_output_handler(all_handlers[switch_to]);
    switch_to = -1;
  }
  if (nested > 0) {
    --nested;
    rcutils_log(nullptr, 50, "nested", "inner %d", nested);
  }
}
void h1(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {handle(1, l, s, n, t, f, a);}
void h2(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {handle(2, l, s, n, t, f, a);}
rcutils_logging_output_handler_t all_handlers[3] = {nullptr, h1, h2};

int64_t now()
{
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  return static_cast<int64_t>(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}

void delivery(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  LoggingSession s("delivery");
  Levels m;
  int cur = 0;    // 0: console, never used for logging here
  rcutils_logging_output_handler_t * hs = all_handlers;
  unsigned steps = static_cast<unsigned>(g.range(5, 50));
  unsigned got = 0, suppressed = 0;
  MON_CHECK(rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, "deliver.default-handler",
    "the handler after initialization is not the console handler");
  auto install = [&](int k) {
      cur = k;
      rcutils_logging_set_output_handler(hs[k]);
      MON_CHECK(rcutils_logging_get_output_handler() == hs[k], "deliver.handler", "the handler read back is not the one set");
      tr(fmt("handler %d", k));
    };
  install(static_cast<int>(g.range(1, 2)));
  int timing = static_cast<int>(g.below(3));      // 0: the real clock, 1: a clock that stands still, 2: one that is set back and forth
  struct Unfix {~Unfix() {clock_fixed = false;}} unfix;
  clock_value = 1700000000000000000 + static_cast<int64_t>(g.below(1000000000));
  clock_fixed = timing != 0;
  c.mix(static_cast<uint64_t>(timing));
  static rcutils_log_location_t statement = {"fn", "file.c", 77};
  std::vector<std::string> names;
  for (int i = 0; i < 5; ++i) {names.push_back(gen_name(g));}
  for (unsigned i = 0; i < steps; ++i) {
    std::string n = g.pick(names);
    Exact e(n);
    switch (g.below(9)) {
      case 0: install(static_cast<int>(g.below(3))); break;
      case 1: case 2: {
          int l = g.chance(1, 4) ? 0 : SEV[g.below(5)];
          MON_CHECK(rcutils_logging_set_logger_level(e, l) == RCUTILS_RET_OK, "levels.set", "set failed");
          if (n.empty()) {m.def = l;} else if (l) {m.set[n] = l;} else {m.set.erase(n);}
          tr(fmt("set %s %d", show(n).c_str(), l));
          break;
        }
      default: {
          int sev = g.chance(1, 8) ? static_cast<int>(g.below(70)) : SEV[g.below(5)];
          bool nullname = g.chance(1, 8), nullloc = g.chance(1, 8), internal = g.chance(1, 8);
          rcutils_log_location_t own = {"fn", "file.c", g.below(100)};
          rcutils_log_location_t & loc = g.chance(1, 2) ? statement : own;     // the same statement again, or another one
          const rcutils_log_location_t * lp = nullloc ? nullptr : &loc;
          if (timing == 2 && g.chance(1, 2)) {
            int64_t v = g.chance(1, 4) ? static_cast<int64_t>(g.below(5000000000)) : clock_value + static_cast<int64_t>(g.below(4000000000)) - 2000000000;
            if (v < clock_value) {count("deliver.clock-set-back");}
            clock_value = v < 0 ? 0 : v;
          }
          if (timing == 1) {count("deliver.clock-still");}
          const char * np = nullname ? nullptr : e.p;
          std::string a = logref::gen_text(g), want, fmtused;
          int64_t x = static_cast<int64_t>(g.next());
          double d = static_cast<double>(g.below(1000)) / 8;
          int form = static_cast<int>(g.below(4));
          delivered.clear();
          nested = cur && g.chance(1, 10) ? static_cast<int>(g.range(1, 3)) : 0;
          int inner = nested, to = cur && g.chance(1, 8) ? static_cast<int>(g.below(3)) : -1;
          switch_to = to;
          auto fn = internal ? rcutils_log_internal : rcutils_log;
          int64_t t0 = now();
          switch (form) {
            case 0: fn(lp, sev, np, "plain text 100%%"); want = "plain text 100%"; fmtused = "plain text 100%%"; break;
            case 1: fn(lp, sev, np, "%s", a.c_str()); want = a; fmtused = "%s"; break;
            case 2: fn(lp, sev, np, "<%s|%" PRId64 "|%.3f|%c>", a.c_str(), x, d, 'q');
              want = "<" + a + "|" + std::to_string(x) + fmt("|%.3f|q>", d);
              fmtused = "<%s|%" PRId64 "|%.3f|%c>";
              break;
            default: fn(lp, sev, np, "%d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %s", 1, 2, 3, 4, 5, 6, 7, 1., 2., 3., 4., 5., 6.,
                7., 8., 9., a.c_str());
              want = fmt("%d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f ", 1, 2, 3, 4, 5, 6, 7, 1., 2., 3., 4., 5., 6., 7., 8., 9.) + a;
              fmtused = "%d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %s";
              break;
          }
          int64_t t1 = now();
          bool enabled = internal || sev >= (nullname ? m.def : m.effective(n));
          int was = cur;
          switch_to = -1;
          if (!enabled || !cur) {
            inner = 0;
          } else if (to >= 0) {
            // the first thing the handler does is to install another one, which gets all but this very record
            cur = to;
            if (!cur) {inner = 0;}
            count("deliver.switched-within");
            MON_CHECK(rcutils_logging_get_output_handler() == hs[cur], "deliver.handler", "the handler read back is not the one a handler has set");
          }
          bool nested_enabled = 50 >= m.effective("nested");
          tr(fmt("log %s sev %d form %d%s", nullname ? "NULL" : show(n).c_str(), sev, form, enabled ? "" : " (disabled)"));
          size_t expect = enabled && was ? 1 + (nested_enabled ? static_cast<size_t>(inner) : 0) : 0;
          MON_CHECK(delivered.size() == expect, "deliver.count", "a call with severity %d to %s (effective level %d, handler %d) was delivered %zu times",
            sev, nullname ? "NULL" : show(n).c_str(), nullname ? m.def : m.effective(n), was, delivered.size());
          if (expect) {
            auto & r = delivered[0];
            MON_CHECK(r.handler == was, "deliver.handler", "delivered to handler %d instead of %d", r.handler, was);
            MON_CHECK(r.loc == lp && r.severity == sev, "deliver.content", "location or severity changed");
            MON_CHECK(nullloc || (loc.line_number == r.loc->line_number && std::string("fn") == r.loc->function_name), "deliver.content", "location content");
            MON_CHECK(r.name == (nullname ? "" : n), "deliver.name", "logger name delivered as %s", show(r.name).c_str());
            MON_CHECK(r.format == fmtused && r.text == want, "deliver.args", "format or arguments changed: %s instead of %s",
              show(r.text).c_str(), show(want).c_str());
            MON_CHECK(r.t >= t0 && r.t <= t1, "deliver.time", "timestamp %" PRId64 " is outside the call [%" PRId64 ", %" PRId64 "]", r.t, t0, t1);
            ++got;
            for (int k = 1; k < static_cast<int>(expect); ++k) {
              MON_CHECK(delivered[static_cast<size_t>(k)].name == "nested" &&
                delivered[static_cast<size_t>(k)].text == fmt("inner %d", inner - k), "deliver.nested", "nested call delivered as %s",
                delivered[static_cast<size_t>(k)].text.c_str());
              MON_CHECK(delivered[static_cast<size_t>(k)].handler == cur, "deliver.handler", "nested call delivered to handler %d instead of %d",
                delivered[static_cast<size_t>(k)].handler, cur);
              count("deliver.nested");
            }
          } else {
            ++suppressed;
          }
          c.mix(static_cast<uint64_t>(sev) * 8 + static_cast<uint64_t>(form));
          c.mix(n);
          break;
        }
    }
  }
  count("deliver.delivered", got);
  count("deliver.suppressed", suppressed);
  if (got && suppressed) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps: %u delivered, %u suppressed", steps, got, suppressed));}
  // without initialization: the first use initializes and delivers to the handler installed then
  s.end();
  rcutils_logging_set_output_handler(h1);
  delivered.clear();
  nested = 0;
  rcutils_log(nullptr, 40, "auto", "%d", 5);
  MON_CHECK(delivered.size() == 1 && delivered[0].text == "5", "deliver.autoinit", "a call after automatic initialization was delivered %zu times", delivered.size());
  rcutils_log(nullptr, 10, "auto", "%d", 5);
  MON_CHECK(delivered.size() == 1, "deliver.autoinit", "a disabled call was delivered after automatic initialization");
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "shutdown failed");
}

// ---------------------------------------------------------------- P22
logref::Record gen_record(Rng & g)
{
  logref::Record r;
  r.has_location = !g.chance(1, 8);
  r.function = g.chance(1, 4) ? logref::gen_text(g) : "func";
  r.file = g.chance(1, 4) ? logref::gen_text(g) : "dir/file.cpp";
  r.name = logref::gen_text(g, true);
  r.msg = logref::gen_text(g);
  r.line = g.chance(1, 6) ? g.next() : g.below(5000);
  r.severity = SEV[g.below(5)];
  r.t = g.chance(1, 5) ? static_cast<int64_t>(g.next() >> 1) : 1700000000000000000 + static_cast<int64_t>(g.below(100000000000ull));
  if (g.chance(1, 10)) {r.t = static_cast<int64_t>(g.below(5000000000ull));}
  return r;
}

std::string env_format(const std::string & f)
{
  if (f.empty()) {unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");} else {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", f.c_str(), 1);}
  return f;
}

void tally_format(const std::string & f)
{
  if (f.find('\\') != std::string::npos) {count("format.escapes");}
  if (f.size() > 2047) {count("format.overlong");}
  if (static_cast<size_t>(std::count(f.begin(), f.end(), '{')) > 1024) {count("format.many-parts");}
  if (!f.empty() && f.back() == '\\') {count("format.trailing-backslash");}
  if (f.find("\\q") != std::string::npos) {count("format.unknown-escape");}
}

void format(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  std::string f = env_format(logref::gen_format(g));
  c.mix(f);
  tally_format(f);
  LoggingSession s("format");
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");     // read at initialization only
  for (int k = 0; k < 3; ++k) {
    logref::Record r = gen_record(g);
    rcutils_log_location_t loc = {r.function.c_str(), r.file.c_str(), r.line};
    std::string before = g.chance(1, 3) ? g.str(g.below(40), "xyz") : "";
    char store[64];
    rcutils_char_array_t out = rcutils_get_zero_initialized_char_array();
    bool borrowed = g.chance(1, 3);
    if (borrowed) {
      out.buffer = store;
      out.buffer_capacity = sizeof(store);
      out.buffer_length = 0;
      out.owns_buffer = false;
      out.allocator = s.A.get();
      store[0] = 0;
    } else {
      auto al = s.A.get();
      MON_CHECK(rcutils_char_array_init(&out, g.below(100), &al) == RCUTILS_RET_OK, "format.init", "char array init failed");
    }
    if (!before.empty() || out.buffer_capacity == 0) {MON_CHECK(rcutils_char_array_strcpy(&out, before.c_str()) == RCUTILS_RET_OK, "format.init", "strcpy");}
    std::string want = before + logref::render(f, r);
    rcutils_ret_t ret = rcutils_logging_format_message(r.has_location ? &loc : nullptr, r.severity, r.name.c_str(), r.t, r.msg.c_str(), &out);
    MON_CHECK(ret == RCUTILS_RET_OK, "format.ret", "formatting with %s returned %d", show(f).c_str(), ret);
    std::string got = out.buffer ? out.buffer : "";
    size_t p = 0;
    while (p < got.size() && p < want.size() && got[p] == want[p]) {++p;}
    MON_CHECK(got == want, "format.text", "format %s: differs at %zu: ...%s, expected ...%s (lengths %zu, %zu)", show(f, 400).c_str(), p,
      show(got.substr(p), 60).c_str(), show(want.substr(p), 60).c_str(), got.size(), want.size());
    MON_CHECK(rcutils_char_array_fini(&out) == RCUTILS_RET_OK, "format.fini", "fini failed");
    c.mix(want);
    if (want.size() > 1023) {count("format.long");}
    count("format.rendered");
  }
  if (f.find('{') != std::string::npos) {c.interesting();}
  if (c.want_sample()) {c.sample("format " + show(f));}
  s.end();
}

// the streams as a fresh process has them
void fresh_streams()
{
  static char stdout_buffer[BUFSIZ];
  fflush(stdout);
  setvbuf(stdout, stdout_buffer, _IOFBF, sizeof(stdout_buffer));
  fflush(stderr);
  setvbuf(stderr, nullptr, _IONBF, 0);
}
char buffering(FILE * f) {return __flbf(f) ? 'l' : __fbufsize(f) <= 1 ? 'n' : 'f';}

void console(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  std::string f = env_format(logref::gen_format(g));
  c.mix(f);
  bool use_stdout = g.chance(1, 2), buffered_set = g.chance(1, 2), buffered = g.chance(1, 2);
  int color = static_cast<int>(g.below(3));     // 2: automatic
  bool tty = g.chance(1, 6);
  if (use_stdout || g.chance(1, 2)) {setenv("RCUTILS_LOGGING_USE_STDOUT", use_stdout ? "1" : "0", 1);}
  if (buffered_set) {setenv("RCUTILS_LOGGING_BUFFERED_STREAM", buffered ? "1" : "0", 1);}
  if (color < 2) {setenv("RCUTILS_COLORIZED_OUTPUT", color ? "1" : "0", 1);} else if (g.chance(1, 2)) {setenv("RCUTILS_COLORIZED_OUTPUT", "", 1);}
  FILE * stream = use_stdout ? stdout : stderr;
  int fd = use_stdout ? 1 : 2;
  int master = -1, slave = -1;
  if (tty) {
    struct termios tio;
    memset(&tio, 0, sizeof(tio));
    cfmakeraw(&tio);
    if (openpty(&master, &slave, nullptr, &tio, nullptr) != 0) {tty = false; count("console.no-pty");}
  }
  fresh_streams();
  LoggingSession s("console");
  bool lbf = __flbf(stream) != 0, ubf = !lbf && __fbufsize(stream) <= 1;
  MON_CHECK(buffered_set ? (buffered ? lbf : ubf) : (use_stdout ? !lbf && !ubf : ubf), "console.mode",
    "%s is %s buffered with the variable %s", use_stdout ? "stdout" : "stderr", lbf ? "line" : ubf ? "not" : "fully",
    buffered_set ? buffered ? "1" : "0" : "unset");
  count(lbf ? "console.line-buffered" : ubf ? "console.unbuffered" : "console.fully-buffered");
  unsigned n = static_cast<unsigned>(g.range(1, 4));
  for (unsigned k = 0; k < n; ++k) {
    logref::Record r = gen_record(g);
    if (tty) {      // stay below the terminal's buffer
      if (r.msg.size() > 500) {r.msg.resize(500);}
      if (r.name.size() > 100) {r.name.resize(100);}
      r.file = "f";
      r.function = "g";
    }
    rcutils_log_location_t loc = {r.function.c_str(), r.file.c_str(), r.line};
    std::string want = logref::render(f, r);
    if (tty && want.size() > 3500) {continue;}
    if (color == 1 || (color == 2 && tty)) {want = logref::color(r.severity) + want + "\033[0m";}
    want += "\n";
    std::string other_text, text;
    bool immediate = false;
    {
      clock_fixed = true;
      clock_value = r.t;
      Capture other(use_stdout ? stderr : stdout, use_stdout ? 2 : 1);
      Capture cap(stream, fd);
      int memfd = cap.mem;
      if (tty) {dup2(slave, fd);}
      rcutils_log(r.has_location ? &loc : nullptr, 50 > r.severity ? r.severity : 50, r.name.c_str(), "%s", r.msg.c_str());
      // nothing may be delivered below the default level: go around the level check
      if (r.severity < 20) {rcutils_log_internal(r.has_location ? &loc : nullptr, r.severity, r.name.c_str(), "%s", r.msg.c_str());}
      struct stat st;
      immediate = !tty && fstat(memfd, &st) == 0 && static_cast<size_t>(st.st_size) == want.size();
      fflush(stream);
      if (tty) {
        char buf[8192];
        int fl = fcntl(master, F_GETFL);
        fcntl(master, F_SETFL, fl | O_NONBLOCK);
        for (int tries = 0; tries < 50 && text.size() < want.size(); ) {
          ssize_t m = read(master, buf, sizeof(buf));
          if (m > 0) {text.append(buf, static_cast<size_t>(m));} else {++tries; usleep(500);}
        }
        cap.stop();
        count("console.tty");
      } else {
        text = cap.stop();
      }
      other_text = other.stop();
      clock_fixed = false;
    }
    size_t p = 0;
    while (p < text.size() && p < want.size() && text[p] == want[p]) {++p;}
    MON_CHECK(text == want, "console.text", "format %s, color %d, tty %d, stdout %d: the stream received %zu bytes, expected %zu; at %zu: ...%s, expected ...%s",
      show(f, 300).c_str(), color, tty, use_stdout, text.size(), want.size(), p, show(text.substr(p), 60).c_str(), show(want.substr(p), 60).c_str());
    MON_CHECK(other_text.empty(), "console.other-stream", "the other stream received %s", show(other_text).c_str());
    // (glibc applies line buffering to a stream that was fully buffered from the next flush on)
    if ((buffered_set && (k > 0 || !buffered)) || !use_stdout) {
      MON_CHECK(tty || immediate, "console.buffering", "the line was not written before the call returned (stdout %d, buffered %s)", use_stdout,
        buffered_set ? buffered ? "1" : "0" : "unset");
      if (!tty) {count("console.immediate");}
    }
    if (want.size() > 1100) {count("console.long");}
    count(use_stdout ? "console.stdout" : "console.stderr");
    if (color == 1) {count("console.colored");}
    c.mix(want);
  }
  c.interesting();
  if (c.want_sample()) {c.sample(fmt("format %s color %d tty %d stdout %d", show(f).c_str(), color, tty, use_stdout));}
  if (master >= 0) {close(master); close(slave);}
  s.end();
  clear_env();
}

// severities that are not levels produce no line, and nothing is written by an uninitialized console handler
void call_console(const rcutils_log_location_t * loc, int severity, const char * name, int64_t t, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  rcutils_logging_console_output_handler(loc, severity, name, t, format, &args);
  va_end(args);
}

void console_odd(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);
  {
    LoggingSession s("odd");
    int sev;
    do {sev = g.chance(1, 2) ? static_cast<int>(g.below(80)) - 10 : static_cast<int>(g.next());} while (sev >= 10 && sev <= 50 && sev % 10 == 0);
    c.mix(static_cast<uint64_t>(sev));
    Capture cap(stdout, 1), err(stderr, 2);
    rcutils_log(nullptr, sev, "n", "m");
    rcutils_log_internal(nullptr, sev, "n", "m");
    call_console(nullptr, sev, "n", 5, "m %d", 1);
    std::string e = err.stop(), o = cap.stop();
    MON_CHECK(o.empty(), "console.bad-severity", "severity %d produced %s", sev, show(o).c_str());
    MON_CHECK(!e.empty(), "console.bad-severity", "severity %d produced no complaint", sev);
    // a user's handler formats whatever it is given
    rcutils_char_array_t out = rcutils_get_zero_initialized_char_array();
    auto al = s.A.get();
    MON_CHECK(rcutils_char_array_init(&out, 10, &al) == RCUTILS_RET_OK, "format.init", "init");
    {
      Capture err2(stderr, 2);
      rcutils_ret_t ret = rcutils_logging_format_message(nullptr, sev, nullptr, 5, "m", &out);
      err2.stop();
      MON_CHECK(sev == 0 || ret != RCUTILS_RET_OK, "format.bad-severity", "severity %d was formatted as %s", sev, out.buffer);
    }
    rcutils_reset_error();
    MON_CHECK(rcutils_char_array_fini(&out) == RCUTILS_RET_OK, "format.fini", "fini");
    s.end();
  }
  Capture cap(stdout, 1), err(stderr, 2);
  call_console(nullptr, 40, "n", 5, "m %d", 1);
  std::string e = err.stop(), o = cap.stop();
  MON_CHECK(o.empty(), "console.uninitialized", "an uninitialized console handler produced %s", show(o).c_str());
  clear_env();
  count("console.odd");
  c.interesting();
}

// Output which cannot be written: the call returns, nothing is leaked, and once the stream works again lines are whole.
void console_broken(Case & c)
{
  Rng & g = c.rng;
  clear_env();
  std::string f = env_format(logref::gen_format(g));
  c.mix(f);
  bool use_stdout = g.chance(1, 2);
  int mode = static_cast<int>(g.below(3));      // not set, unbuffered, line buffered
  bool color = g.chance(1, 3);
  if (use_stdout) {setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);}
  if (mode) {setenv("RCUTILS_LOGGING_BUFFERED_STREAM", mode == 2 ? "1" : "0", 1);}
  setenv("RCUTILS_COLORIZED_OUTPUT", color ? "1" : "0", 1);
  FILE * stream = use_stdout ? stdout : stderr;
  int fd = use_stdout ? 1 : 2;
  fresh_streams();
  LoggingSession s("broken");
  signal(SIGPIPE, SIG_IGN);
  for (unsigned round = 0, rounds = static_cast<unsigned>(g.range(1, 3)); round < rounds; ++round) {
    unsigned how = static_cast<unsigned>(g.below(4));
    size_t blocks = s.A.live_blocks;
    {
      Capture other(use_stdout ? stderr : stdout, use_stdout ? 2 : 1);
      Capture cap(stream, fd);
      int bad = -1, p[2] = {-1, -1};
      if (how == 0) {bad = open("/dev/full", O_WRONLY);
      } else if (how == 1) {
        if (pipe(p) == 0) {close(p[0]); bad = p[1];}
      } else if (how == 2) {bad = open("/dev/null", O_RDONLY);}
      if (bad >= 0) {dup2(bad, fd); close(bad);} else {close(fd);}
      for (unsigned k = 0, n = static_cast<unsigned>(g.range(1, 6)); k < n; ++k) {
        logref::Record r = gen_record(g);
        rcutils_log_location_t loc = {r.function.c_str(), r.file.c_str(), r.line};
        clock_fixed = true;
        clock_value = r.t;
        rcutils_log(r.has_location ? &loc : nullptr, std::max(20, r.severity), r.name.c_str(), "%s", r.msg.c_str());
        count("console.unwritable");
      }
      fflush(stream);
      // whatever did not get out does not count
      __fpurge(stream);
      clearerr(stream);
      cap.stop();
      other.stop();
    }
    clock_fixed = false;
    MON_CHECK(s.A.live_blocks == blocks, "console.unwritable", "%zu blocks before, %zu after messages which could not be written", blocks, s.A.live_blocks);
    logref::Record r = gen_record(g);
    r.severity = std::max(20, r.severity);
    rcutils_log_location_t loc = {r.function.c_str(), r.file.c_str(), r.line};
    std::string want = logref::render(f, r);
    if (color) {want = logref::color(r.severity) + want + "\033[0m";}
    want += "\n";
    clock_fixed = true;
    clock_value = r.t;
    Capture cap(stream, fd);
    rcutils_log(r.has_location ? &loc : nullptr, r.severity, r.name.c_str(), "%s", r.msg.c_str());
    std::string text = cap.stop();
    clock_fixed = false;
    MON_CHECK(text == want, "console.recovered", "after the output was broken (%u): %s instead of %s", how, show(text).c_str(), show(want).c_str());
    count("console.recovered");
  }
  s.end();
  clear_env();
  c.interesting();
}

// ---------------------------------------------------------------- P23
void cycles(Case & c)
{
  Rng & g = c.rng;
  (void)!rcutils_logging_shutdown();
  rcutils_reset_error();
  unsigned n = static_cast<unsigned>(g.range(2, 7));
  unsigned bad = 0, good = 0;
  static const char * const vars[] = {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT"};
  static const std::vector<std::string> wrong = {"2", "true", "00", " 1", "1 ", "01", "-1", "yes", "0x1", "on", "\xff", "10"};
  for (unsigned k = 0; k < n; ++k) {
    clear_env();
    CkAlloc A("cycle");
    struct Guard {~Guard() {(void)!rcutils_logging_shutdown(); clock_fixed = false;}} guard;
    std::string val[3];
    bool valid = true;
    for (int v = 0; v < 3; ++v) {
      switch (g.below(8)) {
        case 0: case 1: break;
        case 2: setenv(vars[v], "", 1); break;
        case 3: case 4: val[v] = "0"; break;
        case 5: case 6: val[v] = "1"; break;
        default:
          val[v] = g.chance(1, 8) ? std::string(g.range(200, 3000), '1') : g.pick(wrong);
          valid = false;
          break;
      }
      if (!val[v].empty()) {setenv(vars[v], val[v].c_str(), 1);}
    }
    std::string f = env_format(g.chance(1, 3) ? "" : logref::gen_format(g));
    bool note = g.chance(1, 6);
    if (note) {setenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", g.chance(1, 2) ? "1" : "0", 1);}
    for (int v = 0; v < 3; ++v) {c.mix(val[v]);}
    c.mix(f);
    tr(fmt("init stdout=%s buffered=%s color=%s format=%s", val[0].c_str(), val[1].c_str(), val[2].c_str(), show(f, 60).c_str()));
    if (g.chance(1, 10)) {
      rcutils_allocator_t none = g.chance(1, 2) ? rcutils_get_zero_initialized_allocator() : A.get();
      none.zero_allocate = nullptr;
      MON_CHECK(rcutils_logging_initialize_with_allocator(none) == RCUTILS_RET_INVALID_ARGUMENT, "cycle.allocator", "an invalid allocator was accepted");
      MON_CHECK(!g_rcutils_logging_initialized, "cycle.allocator", "initialized with an invalid allocator");
      rcutils_reset_error();
      count("cycle.invalid-allocator");
    }
    if (g.chance(1, 4)) {
      // an attempt without memory, with or without a shutdown after it
      Capture e2(stderr, 2);
      A.arm(1 + g.below(3), true);
      rcutils_ret_t r = rcutils_logging_initialize_with_allocator(A.get());
      A.disarm();
      e2.stop();
      if (r != RCUTILS_RET_OK) {
        MON_CHECK(!g_rcutils_logging_initialized, "cycle.half", "initialized after a failed initialization");
        MON_CHECK(rcutils_error_is_set(), "cycle.no-message", "initialization failed without an error message");
        rcutils_reset_error();
        check_empty(A, "failed initialization");
        count("cycle.no-memory");
      }
      if (r == RCUTILS_RET_OK || g.chance(1, 2)) {MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "shutdown failed");}
      rcutils_reset_error();
    }
    fresh_streams();
    Capture err(stderr, 2);
    rcutils_ret_t r = rcutils_logging_initialize_with_allocator(A.get());
    std::string e = err.stop();
    if (!valid) {
      ++bad;
      MON_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "cycle.bad-accepted", "stdout=%s buffered=%s color=%s: initialization returned %d", show(val[0]).c_str(),
        show(val[1]).c_str(), show(val[2]).c_str(), r);
      MON_CHECK(rcutils_error_is_set(), "cycle.no-message", "initialization failed without an error message");
      rcutils_reset_error();
      MON_CHECK(!g_rcutils_logging_initialized, "cycle.half", "initialized after a failed initialization");
      // whatever state that is, using it is harmless and a shutdown clears it
      if (g.chance(1, 2)) {
        Capture e2(stderr, 2), o2(stdout, 1);
        (void)rcutils_logging_logger_is_enabled_for("x", 30);
        rcutils_log(nullptr, 30, "x", "m");
        (void)rcutils_logging_get_logger_level("x");
        (void)!rcutils_logging_set_logger_level("x", 10);
        o2.stop();
        e2.stop();
        rcutils_reset_error();
      }
      MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "shutdown after a failed initialization failed");
      MON_CHECK(!g_rcutils_logging_initialized, "cycle.half", "still initialized after a failed initialization and shutdown");
      rcutils_reset_error();
      check_empty(A, "failed initialization");
      continue;
    }
    ++good;
    MON_CHECK(r == RCUTILS_RET_OK && g_rcutils_logging_initialized, "cycle.init", "stdout=%s buffered=%s color=%s: initialization returned %d (%s)",
      show(val[0]).c_str(), show(val[1]).c_str(), show(val[2]).c_str(), r, rcutils_get_error_string().str);
    MON_CHECK(note == (e.find("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED") != std::string::npos), "cycle.note", "the retired variable is %sset: %s",
      note ? "" : "not ", show(e).c_str());
    bool to_out = val[0] == "1";
    char mode = buffering(to_out ? stdout : stderr), other = buffering(to_out ? stderr : stdout);
    MON_CHECK(mode == (val[1] == "1" ? 'l' : val[1] == "0" ? 'n' : to_out ? 'f' : 'n'), "cycle.mode", "buffering of the stream is %c (stdout=%s buffered=%s)",
      mode, val[0].c_str(), val[1].c_str());
    MON_CHECK(other == (to_out ? 'n' : 'f'), "cycle.other-mode", "buffering of the stream not used became %c (stdout=%s buffered=%s)", other, val[0].c_str(),
      val[1].c_str());
    count(std::string("cycle.mode-") + mode);
    // a second initialization changes nothing, whatever it is given
    if (g.chance(1, 2)) {
      setenv(vars[g.below(3)], g.chance(1, 2) ? "1" : "junk", 1);
      setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "changed {name}", 1);
      size_t blocks = A.live_blocks;
      CkAlloc B("second");
      MON_CHECK(rcutils_logging_initialize_with_allocator(B.get()) == RCUTILS_RET_OK, "cycle.twice", "second initialization failed");
      MON_CHECK(rcutils_logging_initialize() == RCUTILS_RET_OK, "cycle.twice", "third initialization failed");
      MON_CHECK(A.live_blocks == blocks && B.calls == 0, "cycle.twice", "second initialization allocated");
      count("cycle.twice");
    }
    // fresh state
    MON_CHECK(rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO, "cycle.stale-default", "default level after initialization is %d",
      rcutils_logging_get_default_logger_level());
    MON_CHECK(rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, "cycle.stale-handler", "handler of an earlier cycle");
    for (const char * nm : {"a", "a.b", "b", "a.b.c"}) {
      MON_CHECK(rcutils_logging_get_logger_level(nm) == 0 && rcutils_logging_get_logger_effective_level(nm) == RCUTILS_LOG_SEVERITY_INFO,
        "cycle.stale-level", "logger %s has a level after initialization", nm);
      rcutils_reset_error();
    }
    // output as configured
    {
      logref::Record rec = gen_record(g);
      rcutils_log_location_t loc = {rec.function.c_str(), rec.file.c_str(), rec.line};
      std::string want = logref::render(f, rec);
      if (val[2] == "1") {want = logref::color(rec.severity) + want + "\033[0m";}
      want += "\n";
      clock_fixed = true;
      clock_value = rec.t;
      Capture e2(stderr, 2), o2(stdout, 1);
      rcutils_log_internal(rec.has_location ? &loc : nullptr, rec.severity, rec.name.c_str(), "%s", rec.msg.c_str());
      clock_fixed = false;
      std::string o = o2.stop(), ee = e2.stop();
      MON_CHECK((val[0] == "1" ? o : ee) == want && (val[0] == "1" ? ee : o).empty(), "cycle.output",
        "stdout=%s color=%s format %s: stdout %s, stderr %s, expected %s", val[0].c_str(), val[2].c_str(), show(f).c_str(), show(o).c_str(),
        show(ee).c_str(), show(want).c_str());
    }
    // leave a mess
    for (uint64_t i = g.below(12); i > 0; --i) {
      (void)!rcutils_logging_set_logger_level(g.chance(1, 2) ? "a" : g.chance(1, 2) ? "a.b" : gen_name(g).c_str(), SEV[g.below(5)]);
      rcutils_reset_error();
    }
    if (g.chance(1, 2)) {rcutils_logging_set_default_logger_level(SEV[g.below(5)]);}
    if (g.chance(1, 2)) {rcutils_logging_set_output_handler(g.chance(1, 2) ? h1 : nullptr);}
    MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "shutdown failed");
    MON_CHECK(!g_rcutils_logging_initialized, "log.shutdown", "initialized after shutdown");
    check_empty(A, "shutdown");
    A.closed = true;
    if (g.chance(1, 2)) {
      MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "log.shutdown", "second shutdown failed");
      count("cycle.shutdown-twice");
    }
    raise();
  }
  count("cycle.good", good);
  count("cycle.bad", bad);
  if (good > 1 || bad) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u cycles, %u of them with invalid settings", n, bad));}
  clear_env();
}

void reg()
{
  setenv("TZ", "Asia/Kolkata", 1);
  tzset();
  section("levels", 16000, 300000, levels);
  section("level-names", 6000, 100000, level_names);
  section("delivery", 8000, 160000, delivery);
  section("format", 9000, 200000, format);
  section("console", 6000, 120000, console);
  section("console-odd", 800, 8000, console_odd);
  section("console-broken", 2000, 30000, console_broken);
  section("cycles", 6000, 120000, cycles);
}
}  // namespace
MON_MAIN(reg)
