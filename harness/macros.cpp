// P24: the conditional logging macros, compiled as C and C++ at every compile-time minimum severity.
#include <dlfcn.h>

#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/logging.h"
#include "aux/macro_sites.h"

using namespace mon;

namespace
{
const int SEV[5] = {10, 20, 30, 40, 50};

std::string aux()
{
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
  std::string e(b, n > 0 ? static_cast<size_t>(n) : 0);
  return e.substr(0, e.rfind('/')) + "/aux";
}

int64_t clock_value = 0;
bool clock_fails = false;
unsigned clock_reads = 0;

struct Got
{
  int severity;
  std::string name, text, function, file;
  size_t line;
};
std::vector<Got> got;

void recorder(const rcutils_log_location_t * location, int severity, const char * name, rcutils_time_point_value_t, const char * format, va_list * args)
{
  Got g;
  g.severity = severity;
  g.name = name ? name : "NULL";
  if (!location) {note("macro.location", "no location given");} else {
    g.function = location->function_name ? location->function_name : "NULL";
    g.file = location->file_name ? location->file_name : "NULL";
    g.line = location->line_number;
  }
  char b[2000];
  va_list ap;
  va_copy(ap, *args);
  vsnprintf(b, sizeof(b), format, ap);
  va_end(ap);
  g.text = b;
  got.push_back(g);
}
}  // namespace

extern "C" {
struct site_pass * mon_current_pass = nullptr;
int mon_argument(struct site_pass * x) {x->arguments++; return x->number;}
bool mon_condition(struct site_pass * x) {x->conditions++; return x->condition;}
bool mon_filter(void) {mon_current_pass->conditions++; return mon_current_pass->condition;}
int mon_clock(int64_t * t)
{
  clock_reads++;
  if (clock_fails) {return RCUTILS_RET_ERROR;}
  *t = clock_value;
  return RCUTILS_RET_OK;
}
}

namespace
{
// The libraries of call sites, fresh in every case.
struct Sites
{
  void * h;
  const struct site * s;
  size_t n = 0;
  std::string path;
  Sites(const char * language, int min)
  {
    path = aux() + "/sites_" + language + std::to_string(min) + ".so";
    h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {fprintf(stderr, "HARNESS-ERROR %s\n", dlerror()); _exit(96);}
    s = reinterpret_cast<mon_sites_t>(dlsym(h, "mon_sites"))(&n);
  }
  ~Sites()
  {
    dlclose(h);
    void * again = dlopen(path.c_str(), RTLD_NOW | RTLD_NOLOAD);
    if (again) {fprintf(stderr, "HARNESS-ERROR call sites stay loaded\n"); _exit(96);}
  }
};

struct State        // what the harness knows of a call site
{
  unsigned logged = 0, passes = 0;
  bool once_used = false, skipped = false;
  // the earliest and latest times the interval may have begun; none: never
  bool begun = false, unsure = false;
  int64_t since = 0;
};

std::map<std::string, int> levels;
int default_level;
bool enabled(const char * name, int severity)
{
  if (!name) {return severity >= default_level;}
  std::string n = name;
  while (true) {
    auto it = levels.find(n);
    if (it != levels.end()) {return severity >= it->second;}
    size_t p = n.rfind('.');
    if (p == std::string::npos) {return severity >= default_level;}
    n.resize(p);
  }
}

void macros(Case & c)
{
  Rng & g = c.rng;
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "macro.shutdown", "cannot shut down");
  levels.clear();
  default_level = RCUTILS_LOG_SEVERITY_INFO;
  int min = g.chance(1, 2) ? 0 : static_cast<int>(g.below(6));
  const char * language = g.chance(1, 2) ? "c" : "cpp";
  Sites lib(language, min);
  c.mix(language);
  c.mix(static_cast<uint64_t>(min));
  // a few call sites, passed again and again
  std::vector<size_t> chosen;
  std::map<size_t, State> state;
  for (size_t k = g.range(1, 6); k--; ) {
    size_t i = g.below(lib.n);
    if (g.chance(1, 2)) {       // the throttled ones are many
      for (unsigned t = 0; t < 4 && (lib.s[i].features & F_THROTTLE); ++t) {i = g.below(lib.n);}
    }
    chosen.push_back(i);
  }
  std::vector<const char *> names = {"a", "a.b", "a.b.c", "ab", "", nullptr};
  clock_fails = false;
  switch (g.below(5)) {
    case 0: clock_value = 0; break;
    case 1: clock_value = static_cast<int64_t>(g.below(3000000)); break;
    case 2: clock_value = -static_cast<int64_t>(g.below(int64_t(1) << 60)); break;
    case 3: clock_value = static_cast<int64_t>(g.below(int64_t(1) << 60)); break;
    default: clock_value = 1700000000000000000 + static_cast<int64_t>(g.below(1000000000)); break;
  }
  bool started = false;
  unsigned n = static_cast<unsigned>(g.range(2, 80));
  bool lots = g.chance(1, 80);      // passes beyond the range of small counters
  if (lots) {
    n = static_cast<unsigned>(g.chance(1, 6) ? g.range(66000, 67000) : g.range(300, 1200));
    chosen.resize(1);
    count("macro.many-passes");
  }
  unsigned fired = 0, held = 0;
  auto start = [&]() {
      rcutils_logging_set_output_handler(recorder);
      started = true;
    };
  if (g.chance(3, 4)) {
    MON_CHECK(rcutils_logging_initialize() == RCUTILS_RET_OK, "macro.initialize", "cannot initialize");
    start();
  }
  for (unsigned k = 0; k < n; ++k) {
    size_t i = g.pick(chosen);
    const struct site & s = lib.s[i];
    State & st = state[i];
    bool off = s.severity < min;
    if (started && g.chance(1, lots ? 2000 : 8)) {
      if (g.chance(1, 2)) {
        default_level = SEV[g.below(5)];
        rcutils_logging_set_default_logger_level(default_level);
      } else {
        const char * nm = names[g.below(5)];
        int v = SEV[g.below(5)];
        if (*nm) {levels[nm] = v;} else {default_level = v;}      // the nameless logger's level is the default
        tr(fmt("level of %s is %d", nm, v));
        MON_CHECK(rcutils_logging_set_logger_level(nm, v) == RCUTILS_RET_OK, "macro.level", "cannot set a level");
      }
    }
    // time
    int64_t d = s.duration * 1000000;
    switch (g.below(8)) {
      case 0: break;
      case 1: if (d < (int64_t(1) << 58)) {clock_value += d;} break;
      case 2: clock_value += d - 1; break;
      case 3: if (st.begun && !st.unsure) {clock_value = st.since + d;} break;
      case 4: if (st.begun && !st.unsure) {clock_value = st.since + d - 1;} break;
      case 5: clock_value += static_cast<int64_t>(g.below(10000000)); break;
      case 6: clock_value += static_cast<int64_t>(g.below(static_cast<uint64_t>(d) + 1)); break;
      default: if (g.chance(1, 3)) {clock_value -= static_cast<int64_t>(g.below(static_cast<uint64_t>(d) + 1000)); count("macro.backward");} break;
    }
    if (clock_value > (int64_t(1) << 61) || clock_value < -(int64_t(1) << 61)) {clock_value = static_cast<int64_t>(g.below(1000));}
    clock_fails = g.chance(1, 12);
    struct site_pass x = {};
    x.name = names[g.below(6)];
    std::string text = "text " + std::to_string(k);
    x.text = text.c_str();
    x.number = static_cast<int>(g.below(1000000));
    x.condition = g.chance(1, 2);
    mon_current_pass = &x;
    got.clear();
    clock_reads = 0;
    const char * name = s.features & F_NAMED ? x.name : nullptr;
    bool on = !off && enabled(name, SEV[s.severity]);
    tr(fmt("%s min %d site %zu severity %d features %u duration %" PRId64 " name %s clock %" PRId64 "%s condition %d enabled %d", language, min, i, SEV[s.severity],
      s.features, s.duration, name ? name : "NULL", clock_value, clock_fails ? "(fails)" : "", x.condition, on));
    if (!started) {
      // the first enabled macro brings the logging system up, and prints
      std::string out;
      {
        Capture cap(stderr, 2);
        s.run(&x);
        out = cap.stop();
      }
      if (!off) {
        MON_CHECK(g_rcutils_logging_initialized, "macro.autoinit", "the macro did not initialize logging");
        count("macro.autoinit");
        start();
      }
      // (seen on the console instead)
      if (out.find(text + "|") != std::string::npos) {got.push_back(Got{SEV[s.severity], name ? name : "", text + "|" + std::to_string(x.number), x.function, x.file, static_cast<size_t>(x.line)});}
      // the report of a failing clock may come first: not looked at here
    } else {
      s.run(&x);
    }
    st.passes++;
    c.mix(i);
    c.mix(static_cast<uint64_t>(on) * 2 + x.condition);
    // what should have happened
    int should = on ? 1 : 0;       // -1: either
    bool report = false;
    bool once_before = st.once_used;
    if (on) {
      if (s.features & F_ONCE) {
        if (st.once_used) {should = 0;}
        st.once_used = true;
      }
      if (s.features & (F_EXPRESSION | F_FUNCTION)) {
        should = x.condition;
        MON_CHECK(x.conditions == 1, "macro.condition-count", "the condition was evaluated %u times", x.conditions);
      }
      if (s.features & F_THROTTLE) {
        bool pass = true;
        if (clock_fails) {
          report = enabled("", RCUTILS_LOG_SEVERITY_ERROR);
          count("macro.clock-failed");
        } else {
          if (st.begun && !st.unsure) {
            pass = clock_value >= st.since + d;
          } else if (st.unsure) {
            should = -1;
          }
        }
        if (!pass) {should = 0;}
        if (should == 1 && (s.features & F_SKIPFIRST) && !st.skipped) {
          should = 0;
          st.skipped = true;
          st.begun = true;
          st.unsure = clock_fails;
          st.since = clock_value;
          count("macro.skipped");
        } else if (should == 1) {
          st.begun = true;
          st.unsure = clock_fails;
          st.since = clock_value;
        }
        if (should == 0 && !pass) {count("macro.throttled");}
      } else if (s.features & F_SKIPFIRST) {
        if (!st.skipped) {should = 0; st.skipped = true; count("macro.skipped");}
      }
    } else {
      MON_CHECK(x.conditions == 0 && clock_reads == 0, "macro.condition-disabled", "a disabled macro evaluated its condition");
    }
    if (once_before && on) {count("macro.once-held");}
    // what did happen
    std::vector<Got> mine;
    unsigned reports = 0;
    for (auto & r : got) {
      if (r.text == text + "|" + std::to_string(x.number)) {mine.push_back(r);} else {
        ++reports;
        MON_CHECK(report && r.severity == RCUTILS_LOG_SEVERITY_ERROR, "macro.stray", "unexpected record %s", r.text.c_str());
        MON_CHECK(r.function == x.function && r.file == x.file && r.line == static_cast<size_t>(x.line), "macro.report-location",
          "the report of a failing clock is located at %s %s:%zu", r.function.c_str(), r.file.c_str(), r.line);
      }
    }
    if (started && report && k) {MON_CHECK(reports <= 1, "macro.report", "%u reports of a failing clock", reports);}
    if (should == -1) {
      should = static_cast<int>(mine.size());
      MON_CHECK(should <= 1, "macro.count", "logged %d times", should);
      if (should) {
        st.unsure = false;
        st.since = clock_value;
      }
      // a skipped first pass may hide whether the interval began anew: stay unsure
    }
    MON_CHECK(mine.size() == static_cast<size_t>(should), "macro.count", "logged %zu times instead of %d (pass %u, logged %u before)", mine.size(), should,
      st.passes, st.logged);
    MON_CHECK(x.arguments == static_cast<unsigned>(should), "macro.arguments", "the arguments were evaluated %u times for %d records", x.arguments, should);
    if (should) {
      ++st.logged;
      ++fired;
      const Got & r = mine[0];
      MON_CHECK(r.severity == SEV[s.severity], "macro.severity", "severity %d instead of %d", r.severity, SEV[s.severity]);
      MON_CHECK(r.name == (name ? name : ""), "macro.name", "name %s instead of %s", show(r.name).c_str(), show(name).c_str());
      MON_CHECK(r.function == x.function && r.file == x.file && r.line == static_cast<size_t>(x.line), "macro.location", "located at %s %s:%zu instead of %s %s:%d",
        r.function.c_str(), r.file.c_str(), r.line, x.function, x.file, x.line);
    } else {++held;}
    if (off) {count("macro.compiled-out");} else if (!on) {count("macro.disabled");}
    if (should) {
      count("macro.logged");
      for (auto & f : std::vector<std::pair<unsigned, const char *>>{{F_ONCE, "once"}, {F_EXPRESSION, "expression"}, {F_FUNCTION, "function"},
          {F_SKIPFIRST, "skipfirst"}, {F_THROTTLE, "throttle"}, {F_NAMED, "named"}})
      {
        if (s.features & f.first) {count(std::string("logged.") + f.second);}
      }
    }
  }
  mon_current_pass = nullptr;
  if (fired && held) {c.interesting();}
  c.sample(fmt("%s, minimum %d, %zu call sites, %u passes: %u logged, %u not", language, min, chosen.size(), n, fired, held));
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "macro.shutdown", "cannot shut down");
}

void reg()
{
  section("macros", 12000, 300000, macros);
}
}  // namespace
MON_MAIN(reg)
