// P40: calls within calls. Operations run from the callbacks of other operations (allocators, hash functions, comparisons, output handlers, clocks,
// arguments and conditions of macros) and between the steps of other operations on the same thread; everything has to come out as it does alone.
#define MON_NESTED 1
#include "parallel.cpp"
#include "capture.hpp"
#include "logref.hpp"
#include "rcutils/logging_macros.h"

using namespace logref;

// ------------------------------------------------------------------ what happens at a point where other code may run
struct Nest
{
  Rng g{1};
  unsigned depth = 0, limit = 0, left = 0;
  std::string bad_key, bad_msg;
  uint64_t done = 0;
  std::vector<unsigned> kinds;
};
static thread_local Nest * g_nest = nullptr;

static std::string run_task(unsigned kind, uint64_t seed, unsigned me, long & live)
{
  T t(seed, me);
  TASKS[kind].fn(t);
  live = t.own.live;
  return std::move(t.out);
}
static std::map<std::pair<unsigned, uint64_t>, std::string> g_alone;     // what a task gives by itself
static const unsigned SEEDS = 40;
static const std::string & alone(unsigned kind, uint64_t seed)
{
  auto it = g_alone.find({kind, seed});
  if (it == g_alone.end()) {
    Nest * was = g_nest;
    g_nest = nullptr;
    long live = 0;
    std::string s = run_task(kind, seed, kind, live);
    g_nest = was;
    it = g_alone.emplace(std::make_pair(kind, seed), s).first;
    if (live) {fail("reentry.leak", fmt("%s leaves %ld blocks", TASKS[kind].name, live));}
  }
  return it->second;
}

static void nested_point(const char * where)
{
  Nest * n = g_nest;
  if (!n || !n->left || n->depth >= n->limit || !n->bad_key.empty() || rcutils_error_is_set()) {return;}
  if (!n->g.chance(1, 6)) {return;}
  int e = errno;
  unsigned kind = n->kinds[n->g.below(n->kinds.size())];
  uint64_t seed = 1 + n->g.below(SEEDS);
  n->left--;
  n->depth++;
  long live = 0;
  // tasks create directories of their own: one name per depth
  std::string got = run_task(kind, seed, kind, live);
  n->depth--;
  n->done++;
  const std::string & want = g_alone[{kind, seed}];
  if ((got != want || live) && n->bad_key.empty()) {
    n->bad_key = fmt("reentry.%s", TASKS[kind].name);
    n->bad_msg = fmt("%s from within %s at depth %u: %s, alone %s (%ld blocks left)", TASKS[kind].name, where, n->depth + 1, show(got).c_str(), show(want).c_str(), live);
  }
  count(fmt("from.%s", where));
  errno = e;
}
void nested_hook(const char * where) {nested_point(where);}

static void setup_alone()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  setup();
  for (unsigned k = 0; k < NT; ++k) {for (uint64_t s = 1; s <= SEEDS; ++s) {alone(k, s);}}
}

static void nest(Case & c)
{
  setup_alone();
  Rng & g = c.rng;
  unsigned kind = static_cast<unsigned>(c.idx % NT);
  for (unsigned round = 0; round < 6; ++round) {
    uint64_t seed = 1 + g.below(SEEDS);
    const std::string & want = alone(kind, seed);
    Nest n;
    n.g = Rng(g.next());
    n.limit = 1 + static_cast<unsigned>(g.below(3));
    n.left = 1 + static_cast<unsigned>(g.below(12));
    // the same kind of operation within itself, or any
    if (g.chance(1, 2)) {n.kinds = {kind};} else {for (unsigned k = 0; k < NT; ++k) {n.kinds.push_back(k);}}
    g_nest = &n;
    long live = 0;
    std::string got;
    try {
      got = run_task(kind, seed, kind, live);
    } catch (...) {
      g_nest = nullptr;
      throw;
    }
    g_nest = nullptr;
    MON_CHECK(n.bad_key.empty(), n.bad_key, "%s", n.bad_msg.c_str());
    MON_CHECK(got == want, fmt("reentry.%s", TASKS[kind].name), "%s with %" PRIu64 " other operations in between: %s, alone %s", TASKS[kind].name, n.done, show(got).c_str(),
      show(want).c_str());
    MON_CHECK(live == 0, "reentry.leak", "%s leaves %ld blocks with other operations in between", TASKS[kind].name, live);
    count(fmt("nest.%s", TASKS[kind].name));
    count("nest.inner", n.done);
    c.mix(kind); c.mix(seed); c.mix(n.done);
    if (n.done > 1) {c.interesting();}
  }
}

// ------------------------------------------------------------------ handlers which use logging themselves
static const char * NAMES[] = {"r", "r.a", "r.a.b", "s", "s.x", "r.c", "t"};
static const int SEV[] = {10, 20, 30, 40, 50};

struct Call         // one rcutils_log in progress
{
  int sev;
  std::string name, text;
  rcutils_log_location_t loc;
  unsigned delivered = 0;
  bool enabled;
  unsigned handler;
  int64_t before;
};
struct World
{
  Rng g{1};
  std::vector<Call *> stack;
  std::map<std::string, int> levels;
  int def = 20;
  unsigned handler = 0;                   // which of the two is current
  std::string printed, format;            // what the console has to have received
  bool colored = false, tasks = false;
  unsigned left = 0, most = 3;
  std::string key, msg;
  uint64_t records = 0, nested = 0, console = 0, changes = 0, silent = 0;
  void bad(const char * k, std::string m) {if (key.empty()) {key = k; msg = std::move(m);}}
  int effective(std::string n) const
  {
    for (;;) {
      auto it = levels.find(n);
      if (it != levels.end()) {return it->second;}
      size_t p = n.rfind('.');
      if (p == std::string::npos) {return def;}
      n.resize(p);
    }
  }
};
static World * g_world = nullptr;

static void say(World & w);
static void record(World & w, unsigned which, const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t ts, const char * f, va_list * args);
static void handler_a(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {record(*g_world, 0, l, s, n, t, f, a);}
static void handler_b(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {record(*g_world, 1, l, s, n, t, f, a);}
static rcutils_logging_output_handler_t const HANDLERS[] = {handler_a, handler_b};

// any other operation (not the one which looks at levels, those change here)
static void task(World & w, const char * where)
{
  unsigned kind = static_cast<unsigned>(w.g.below(NT));
  if (!w.tasks || TASKS[kind].fn == t_severity) {return;}
  uint64_t seed = 1 + w.g.below(SEEDS);
  long live = 0;
  std::string got = run_task(kind, seed, kind, live);
  if (got != g_alone[{kind, seed}] || live) {
    w.bad("handler.task", fmt("%s within %s: %s, alone %s", TASKS[kind].name, where, show(got).c_str(), show(g_alone[{kind, seed}]).c_str()));
  }
  count(fmt("tasks within %s", where));
}

// something a handler (or another callback) may want to do
static void busy(World & w)
{
  for (uint64_t n = w.g.below(4); n; --n) {
    switch (w.g.below(8)) {
      case 0: {
          const char * name = NAMES[w.g.below(7)];
          int s = SEV[w.g.below(5)];
          w.changes++;
          w.levels[name] = s;
          if (rcutils_logging_set_logger_level(name, s) != RCUTILS_RET_OK) {w.bad("handler.level", "a level cannot be set within a handler");}
          break;
        }
      case 1: w.def = SEV[w.g.below(5)]; w.changes++; rcutils_logging_set_default_logger_level(w.def); break;
      case 2: w.handler = static_cast<unsigned>(w.g.below(2)); w.changes++; rcutils_logging_set_output_handler(HANDLERS[w.handler]); break;
      case 3: {
          const char * name = NAMES[w.g.below(7)];
          int s = SEV[w.g.below(5)];
          if (rcutils_logging_logger_is_enabled_for(name, s) != (s >= w.effective(name)) || rcutils_logging_get_logger_effective_level(name) != w.effective(name)) {
            w.bad("handler.level", fmt("%s: effective level %d within a handler instead of %d", name, rcutils_logging_get_logger_effective_level(name), w.effective(name)));
          }
          if (rcutils_logging_get_output_handler() != HANDLERS[w.handler]) {w.bad("handler.handler", "another output handler within a handler");}
          break;
        }
      case 4: if (!rcutils_error_is_set()) {task(w, "a handler");} break;
      default: say(w); break;
    }
  }
}

// args of a message that have effects
static World * g_arg_world = nullptr;
static int busy_argument(int v) {if (g_arg_world) {busy(*g_arg_world);} return v;}

static void say(World & w)
{
  if (!w.left || w.stack.size() >= w.most || !w.key.empty()) {return;}
  w.left--;
  Call c;
  c.sev = SEV[w.g.below(5)];
  c.name = NAMES[w.g.below(7)];
  size_t n = w.g.chance(1, 5) ? 990 + w.g.below(1200) : w.g.below(30);
  c.text = w.g.str(n, "abcd.{}\\ sn");
  c.loc = {w.g.chance(1, 2) ? "f" : "function_of_the_call", "dir/file.c", w.g.below(5000)};
  if (w.stack.size()) {w.nested++;}
  int number = static_cast<int>(w.g.below(100000));
  // arguments are evaluated before the call: what they do comes first
  if (w.g.chance(1, 5)) {
    g_arg_world = &w;
    number = busy_argument(number);
    g_arg_world = nullptr;
  }
  c.enabled = c.sev >= w.effective(c.name);
  c.handler = w.handler;
  (void)rcutils_system_time_now(&c.before);
  w.stack.push_back(&c);
  std::string whole = fmt("%s|%d", c.text.c_str(), number);
  std::string text = c.text;
  c.text = whole;
  rcutils_log(&c.loc, c.sev, c.name.c_str(), "%s|%d", text.c_str(), number);
  w.stack.pop_back();
  if (c.delivered != (c.enabled ? 1u : 0u)) {
    w.bad("handler.delivery", fmt("a record of severity %d for %s (level %d) at depth %zu reached the handler %u times", c.sev, c.name.c_str(), w.effective(c.name), w.stack.size() + 1, c.delivered));
  }
  if (c.enabled) {w.records++;} else {w.silent++;}
}

static void record(World & w, unsigned which, const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t ts, const char * f, va_list * args)
{
  if (w.stack.empty()) {w.bad("handler.delivery", "a record nobody logged"); return;}
  Call & c = *w.stack.back();
  c.delivered++;
  // what a handler does before and after looking at its record must not change the record
  auto look = [&](const char * when) {
      va_list v;
      va_copy(v, *args);
      std::string text = vfmt(f, v);
      va_end(v);
      if (which != c.handler || sev != c.sev || c.name != name || loc != &c.loc || text != c.text) {
        w.bad("handler.record", fmt("%s: handler %u got severity %d, name %s, text %s instead of handler %u, severity %d, name %s, text %s", when, which, sev, show(name).c_str(),
          show(text).c_str(), c.handler, c.sev, c.name.c_str(), show(c.text).c_str()));
      }
      rcutils_time_point_value_t now = 0;
      (void)rcutils_system_time_now(&now);
      if (ts < c.before || ts > now) {w.bad("handler.time", fmt("time stamp %" PRId64 " not within %" PRId64 "..%" PRId64, ts, c.before, now));}
    };
  look("at first");
  if (w.g.chance(1, 2)) {busy(w);}
  look("after other calls");
  if (w.g.chance(2, 3) && !w.format.empty()) {
    Record r;
    r.has_location = true;
    r.function = loc->function_name;
    r.file = loc->file_name;
    r.line = loc->line_number;
    r.name = name;
    r.severity = sev;
    r.t = ts;
    r.msg = c.text;
    va_list v;
    va_copy(v, *args);
    w.console++;
    rcutils_logging_console_output_handler(loc, sev, name, ts, f, &v);
    va_end(v);
    // complete only now: whatever was logged meanwhile came first
    w.printed += (w.colored ? color(sev) : "") + render(w.format, r) + (w.colored ? "\033[0m" : "") + "\n";
  }
  if (w.g.chance(1, 2)) {busy(w);}
  look("in the end");
}

// the allocator of the logging system does other things, too
static World * g_alloc_world = nullptr;
static long g_alloc_live = 0;
static void print(World & w, const char * f, ...)
{
  static const rcutils_log_location_t loc = {"inner", "in/ner.c", 77};
  if (w.format.empty()) {return;}
  Record r;
  r.function = loc.function_name;
  r.file = loc.file_name;
  r.line = loc.line_number;
  r.name = "inner";
  r.severity = 20;
  r.t = 1700000000123456789;
  va_list v, v2;
  va_start(v, f);
  va_copy(v2, v);
  r.msg = vfmt(f, v2);
  va_end(v2);
  rcutils_logging_console_output_handler(&loc, r.severity, r.name.c_str(), r.t, f, &v);
  va_end(v);
  w.printed += (w.colored ? color(r.severity) : "") + render(w.format, r) + (w.colored ? "\033[0m" : "") + "\n";
  count("lines printed within the logging allocator");
}
static void alloc_point(World * w, bool before = true)
{
  if (!w || rcutils_error_is_set() || !w->g.chance(1, 3)) {return;}
  int e = errno;
  // what is released may belong to a line that has been printed already
  if (before && w->g.chance(1, 3)) {
    print(*w, "short line from an allocator %d", static_cast<int>(w->g.below(1000)));
  } else {
    task(*w, "the logging allocator");
  }
  errno = e;
}
static void * la(size_t n, void *) {alloc_point(g_alloc_world); g_alloc_live++; return malloc(n ? n : 1);}
static void ld(void * p, void *) {if (p) {g_alloc_live--; alloc_point(g_alloc_world, false);} free(p);}
static void * lr(void * p, size_t n, void *) {alloc_point(g_alloc_world); if (!p) {g_alloc_live++;} return realloc(p, n ? n : 1);}
static void * lc(size_t c, size_t n, void *) {alloc_point(g_alloc_world); g_alloc_live++; return calloc(c ? c : 1, n ? n : 1);}

static void handlers(Case & c)
{
  setup_alone();
  Rng & g = c.rng;
  (void)rcutils_logging_shutdown();
  World w;
  w.g = Rng(g.next());
  w.left = 10 + static_cast<unsigned>(g.below(50));
  w.most = 1 + static_cast<unsigned>(g.below(5));
  w.colored = g.chance(1, 3);
  static const char * formats[] = {"[{severity}] [{time}] [{name}]: {message}", "{message}|{message} {function_name} {line_number}", "{time_as_nanoseconds} {name} {file_name} {message}",
    "{date_time_with_ms} {severity}", "\\t{message}"};
  w.format = formats[g.below(5)];
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", w.format.c_str(), 1);
  setenv("RCUTILS_COLORIZED_OUTPUT", w.colored ? "1" : "0", 1);
  // other operations write notices to standard error: the console's lines go to standard output then
  w.tasks = g.chance(2, 3);
  setenv("RCUTILS_LOGGING_USE_STDOUT", w.tasks ? "1" : "0", 1);
  rcutils_allocator_t a = {la, ld, lr, lc, nullptr};
  g_alloc_live = 0;
  g_alloc_world = nullptr;
  bool own = g.chance(1, 2);
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(own ? a : rcutils_get_default_allocator());
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  unsetenv("RCUTILS_COLORIZED_OUTPUT");
  unsetenv("RCUTILS_LOGGING_USE_STDOUT");
  MON_CHECK(r == RCUTILS_RET_OK, "handler.setup", "initialization: %d", r);
  rcutils_logging_set_output_handler(handler_a);
  w.def = rcutils_logging_get_default_logger_level();
  g_world = &w;
  std::string text;
  {
    Capture cap(w.tasks ? stdout : stderr, w.tasks ? 1 : 2);
    g_alloc_world = own && g.chance(1, 2) ? &w : nullptr;
    while (w.left && w.key.empty()) {
      if (g.chance(1, 4)) {busy(w);} else {say(w);}
    }
    g_alloc_world = nullptr;
    text = cap.stop();
  }
  g_world = nullptr;
  r = rcutils_logging_shutdown();
  // the remaining sections expect logging to be up
  if (rcutils_logging_initialize() != RCUTILS_RET_OK || rcutils_logging_set_logger_level("mon.child", RCUTILS_LOG_SEVERITY_ERROR) != RCUTILS_RET_OK) {
    fail("handler.setup", "logging does not start again");
  }
  MON_CHECK(w.key.empty(), w.key, "%s", w.msg.c_str());
  MON_CHECK(r == RCUTILS_RET_OK, "handler.shutdown", "shutdown: %d", r);
  MON_CHECK(g_alloc_live == 0, "handler.leak", "%ld blocks of the logging system are left", g_alloc_live);
  if (text != w.printed) {
    size_t i = 0;
    while (i < text.size() && i < w.printed.size() && text[i] == w.printed[i]) {++i;}
    fail("handler.console", fmt("console output differs at byte %zu of %zu: %s instead of %s", i, text.size(), show(text.substr(i > 20 ? i - 20 : 0, 200)).c_str(),
      show(w.printed.substr(i > 20 ? i - 20 : 0, 200)).c_str()));
  }
  count("handler.records", w.records);
  count("handler.silent", w.silent);
  count("handler.nested", w.nested);
  count("handler.console lines", w.console);
  count("handler.changes", w.changes);
  c.mix(w.records); c.mix(w.nested); c.mix(hash_str(text.data(), text.size()));
  if (w.nested > 2 && w.records > 3) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%" PRIu64 " records, %" PRIu64 " of them logged within others, %" PRIu64 " changes of levels and handlers", w.records, w.nested, w.changes));}
}

// ------------------------------------------------------------------ call sites whose arguments, conditions and clocks log
static std::vector<std::string> g_lines;
static void collect(const rcutils_log_location_t *, int s, const char * n, rcutils_time_point_value_t, const char * f, va_list * a)
{
  va_list v;
  va_copy(v, *a);
  g_lines.push_back(fmt("%d %s ", s, n) + vfmt(f, v));
  va_end(v);
}
static Rng * g_site_rng = nullptr;
static unsigned g_site_depth = 0;
static int64_t g_clock = 0;
static std::vector<std::string> * g_want = nullptr;
static void site(unsigned k);
static int effect(int v)
{
  if (g_site_depth < 3 && g_site_rng->chance(1, 2)) {site(static_cast<unsigned>(g_site_rng->below(8)));}
  return v;
}
static rcutils_ret_t clock_fn(rcutils_time_point_value_t * p) {int64_t now = g_clock; *p = now; (void)effect(0); return RCUTILS_RET_OK;}
static bool g_condition;
static bool condition_fn() {bool v = g_condition; (void)effect(0); return v;}
// the expectations are written down by the code at each site: what its arguments log comes before the site's own message
static unsigned g_once_state = 0, g_skip_state = 0, g_throttle_seen = 0;
static int64_t g_throttle_last = 0;
static std::string label(unsigned k, int v) {return fmt("20 site%u value %d", k, v);}
static void site(unsigned k)
{
  ++g_site_depth;
  int v = static_cast<int>(g_site_rng->below(1000));
  switch (k) {
    case 0: RCUTILS_LOG_INFO_NAMED("site0", "value %d", (effect(v), g_want->push_back(label(0, v)), v)); break;
    case 1: {
        bool first = !g_once_state;
        g_once_state = 1;
        bool evaluated = false;
        // the same site within its own arguments stays silent: it has fired
        auto arg = [&]() {evaluated = true; effect(v); g_want->push_back(label(1, v)); return v;};
        RCUTILS_LOG_INFO_ONCE_NAMED("site1", "value %d", arg());
        if (evaluated != first) {g_want->push_back(first ? "once: did not fire" : "once: fired again");}
        break;
      }
    case 2: {
        bool on = g_site_rng->chance(1, 2);
        auto arg = [&]() {effect(v); g_want->push_back(on ? label(2, v) : "expression: fired"); return v;};
        RCUTILS_LOG_INFO_EXPRESSION_NAMED((effect(0), on), "site2", "value %d", arg());
        break;
      }
    case 3: {
        bool on = g_condition = g_site_rng->chance(1, 2);
        auto arg = [&]() {effect(v); g_want->push_back(on ? label(3, v) : "function: fired"); return v;};
        RCUTILS_LOG_INFO_FUNCTION_NAMED(&condition_fn, "site3", "value %d", arg());
        break;
      }
    case 4: {
        bool first = g_skip_state == 0;
        g_skip_state = 1;
        bool evaluated = false;
        auto arg = [&]() {evaluated = true; effect(v); g_want->push_back(label(4, v)); return v;};
        RCUTILS_LOG_INFO_SKIPFIRST_NAMED("site4", "value %d", arg());
        if (evaluated == first) {g_want->push_back(first ? "skipfirst: fired at first" : "skipfirst: did not fire");}
        break;
      }
    case 5: {
        // the clock function does other things, but reads the time first
        g_clock += static_cast<int64_t>(g_site_rng->below(1500)) * 1000000;
        int64_t now = g_clock;
        bool evaluated = false;
        static unsigned busy_here = 0;
        if (busy_here) {break;}             // what a throttled site does within itself is not specified
        ++busy_here;
        bool due = !g_throttle_seen || now >= g_throttle_last + 1000000000;
        auto arg = [&]() {evaluated = true; effect(v); g_want->push_back(label(5, v)); return v;};
        RCUTILS_LOG_INFO_THROTTLE_NAMED(clock_fn, 1000, "site5", "value %d", arg());
        --busy_here;
        if (evaluated) {g_throttle_seen = 1; g_throttle_last = now;}
        if (evaluated != due) {g_want->push_back(due ? "throttle: did not fire" : "throttle: fired");}
        break;
      }
    case 6: {
        // a disabled site evaluates nothing
        RCUTILS_LOG_DEBUG_NAMED("site6", "value %d", (effect(v), g_want->push_back("debug: evaluated"), v));
        break;
      }
    default: {
        std::string s = g_site_rng->str(g_site_rng->below(1300), "xyz");
        char * p = rcutils_format_string_limit(rcutils_get_default_allocator(), 4096, "%s/%d", s.c_str(), effect(v));
        std::string got = p ? p : "-";
        free(p);
        RCUTILS_LOG_INFO_NAMED("site7", "%s", (effect(v), g_want->push_back("20 site7 " + s + fmt("/%d", v)), got.c_str()));
        break;
      }
  }
  --g_site_depth;
}

static void sites(Case & c)
{
  setup_alone();
  Rng & g = c.rng;
  rcutils_logging_set_output_handler(collect);
  rcutils_logging_set_default_logger_level(20);
  std::vector<std::string> want;
  g_want = &want;
  g_lines.clear();
  Rng r(g.next());
  g_site_rng = &r;
  g_site_depth = 0;
  if (!g_clock) {g_clock = 1000000000;}
  for (uint64_t n = 10 + g.below(30); n; --n) {site(static_cast<unsigned>(r.below(8)));}
  rcutils_logging_set_output_handler(rcutils_logging_console_output_handler);
  g_want = nullptr;
  size_t i = 0;
  while (i < want.size() && i < g_lines.size() && want[i] == g_lines[i]) {++i;}
  MON_CHECK(i == want.size() && i == g_lines.size(), "sites.records", "record %zu is %s instead of %s", i, i < g_lines.size() ? show(g_lines[i]).c_str() : "missing",
    i < want.size() ? show(want[i]).c_str() : "none");
  count("sites.records", want.size());
  c.mix(want.size());
  if (want.size() > 10) {c.interesting();}
}

static void reg2()
{
  section("nest", 4000, 60000, nest);
  section("handlers", 2000, 30000, handlers);
  section("sites", 1000, 15000, sites);
}
MON_MAIN(reg2)
