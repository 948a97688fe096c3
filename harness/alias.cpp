// P47: arguments may come from what the library itself holds. The same operations, once with private copies of all arguments and once with
// arguments taken from the error state, the environment, the object itself, or another argument; results, objects, errors and reports are the same,
// also when allocations fail.
#include <sys/stat.h>
#include <unistd.h>
#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/logging_macros.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"
using namespace mon;

// what the library logs about itself says when
extern "C" int __wrap_clock_gettime(clockid_t, struct timespec * ts) {ts->tv_sec = 1234567890; ts->tv_nsec = 123456789; return 0;}

static std::string g_dir;
static const char * VAR = "VERIF_ALIAS";

enum Mode {COPY, MESSAGE, FILENAME, TAIL, ENV, SAME, MODES};
static const char * mode_name[] = {"copies", "the error message", "the error's file name", "the end of the error message", "the environment", "one string for all"};

struct X
{
  Mode mode;
  Rng g;
  CkAlloc A;
  rcutils_allocator_t a;
  std::string s, t;
  std::vector<char *> heap;
  const char * ps = nullptr, * pt = nullptr;
  std::string out;
  bool direct;                  // the message is the string itself
  X(Mode m, uint64_t seed, const std::string & s_, const std::string & t_, bool d) : mode(m), g(seed), a(A.get()), s(s_), t(t_), direct(d) {}
  X(const X &) = delete;
  ~X() {for (char * p : heap) {free(p);}}
  const char * copy(const std::string & v)
  {
    char * p = static_cast<char *>(malloc(v.size() + 1));
    memcpy(p, v.c_str(), v.size() + 1);
    heap.push_back(p);
    return p;
  }
  // The state before, the same whatever the mode is. What comes from the error state lasts until the next error, so this is done again in between.
  void fresh()
  {
    rcutils_reset_error();
    setenv(VAR, s.c_str(), 1);
    if (direct) {rcutils_set_error_state(s.c_str(), "there.c", 78);} else {rcutils_set_error_state(("what went wrong: " + s).c_str(), s.c_str(), 77);}
    if (s.size() % 2) {(void)rcutils_get_error_string();}
    const rcutils_error_state_t * e = rcutils_get_error_state();
    ps = pt = nullptr;
    switch (mode) {
      case TAIL: ps = e->message + 17; break;
      case FILENAME: ps = e->file; break;
      case MESSAGE: ps = e->message; break;
      case ENV: ps = getenv(VAR); break;
      default: ps = copy(s); break;
    }
    pt = mode == COPY || t != s ? copy(t) : ps;
  }
  void put(const char * f, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap;
    va_start(ap, f);
    out += vfmt(f, ap);
    va_end(ap);
    out += ' ';
  }
  void put(const std::string & v) {out += v; out += ' ';}
  // what the call said, and a new beginning
  void next()
  {
    put("[%d %s]", rcutils_error_is_set(), rcutils_get_error_state()->message);
    fresh();
  }
  void take(char * p) {put(std::string(p ? p : "-")); a.deallocate(p, a.state);}
  void array(rcutils_string_array_t & v)
  {
    for (size_t i = 0; i < v.size; ++i) {put(std::string(v.data && v.data[i] ? v.data[i] : "-"));}
    put("%d", rcutils_string_array_fini(&v));
  }
  int sgn(int v) {return v < 0 ? -1 : v > 0;}
};

static std::map<std::string, std::string> contents(const rcutils_string_map_t & m, X * x = nullptr)
{
  std::map<std::string, std::string> r;
  for (const char * k = rcutils_string_map_get_next_key(&m, nullptr); k; k = rcutils_string_map_get_next_key(&m, k)) {
    const char * v = rcutils_string_map_get(&m, k);
    if (r.count(k)) {r[std::string(k) + "#again"] = v ? v : "-";}
    r[k] = v ? v : "-";
  }
  if (x) {for (auto & p : r) {x->put(p.first + "=" + p.second);}}
  return r;
}

// ---------------------------------------------------------------- strings from the error state, the environment, or another argument
static void o_find(X & x)
{
  x.put("%zx %zx", rcutils_find(x.ps, 'b'), rcutils_find_last(x.ps, 'b'));
  x.put("%zx %zx", rcutils_findn(x.ps, 'b', x.s.size() / 2), rcutils_find_lastn(x.ps, 'b', x.s.size() / 2));
}
static void o_split(X & x)
{
  for (int last = 0; last < 2; ++last) {
    rcutils_string_array_t v = rcutils_get_zero_initialized_string_array();
    rcutils_ret_t r = last ? rcutils_split_last(x.ps, '/', x.a, &v) : rcutils_split(x.ps, '/', x.a, &v);
    x.put("%d", r);
    if (r == RCUTILS_RET_OK) {x.array(v);} else {(void)!rcutils_string_array_fini(&v);}
    x.next();
  }
}
static void o_repl(X & x)
{
  bool from = !x.t.empty();
  if (from) {x.take(rcutils_repl_str(x.ps, x.pt, "-", &x.a)); x.next();}
  x.take(rcutils_repl_str(x.ps, "a", x.pt, &x.a));
  x.next();
  if (from) {x.take(rcutils_repl_str(x.ps, x.pt, x.pt, &x.a));}
}
static void o_dup(X & x)
{
  x.take(rcutils_strdup(x.ps, x.a));
  x.next();
  x.take(rcutils_strndup(x.ps, x.s.size() / 2, x.a));
}
static void o_format(X & x)
{
  x.take(rcutils_format_string(x.a, "<%s|%s>", x.ps, x.pt));
  x.next();
  x.take(rcutils_format_string_limit(x.a, 100, "%s%s", x.pt, x.ps));
  x.next();
  char b[300];
  x.put("%d", rcutils_snprintf(b, 1 + x.g.below(300), "%s.%s", x.ps, x.pt));
  x.put(std::string(b));
}
static void o_case(X & x)
{
  int v = 0;
  x.put("%d", rcutils_strcasecmp(x.ps, x.pt, &v));
  x.put("%d", x.sgn(v));
  x.put("%d", rcutils_strncasecmp(x.ps, x.pt, 1 + x.s.size() / 2, &v));
  x.put("%d", x.sgn(v));
}
static void vs(X & x, rcutils_char_array_t * c, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  x.put("%d", rcutils_char_array_vsprintf(c, f, ap));
  va_end(ap);
}
static void o_chars(X & x)
{
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  rcutils_ret_t r = rcutils_char_array_init(&c, 1 + x.g.below(20), &x.a);
  x.put("%d", r);
  if (r != RCUTILS_RET_OK) {return;}
  x.next();
  switch (x.g.below(4)) {
    case 0: r = rcutils_char_array_strcpy(&c, x.ps); break;
    case 1: r = rcutils_char_array_strncat(&c, x.ps, x.s.size() / 2); break;
    case 2: r = rcutils_char_array_memcpy(&c, x.ps, x.s.size() + 1); break;
    default: vs(x, &c, "%s-%s", x.ps, x.pt); r = RCUTILS_RET_OK; break;
  }
  x.put("%d", r);
  x.next();
  if (r == RCUTILS_RET_OK && c.buffer) {x.put("%d", rcutils_char_array_strcat(&c, x.pt));}
  x.put(std::string(c.buffer ? c.buffer : "-"));
  x.put("%zu %zu", c.buffer_length, c.buffer_capacity);
  x.put("%d", rcutils_char_array_fini(&c));
}
static void o_map(X & x)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  rcutils_ret_t r = rcutils_string_map_init(&m, x.g.below(3), x.a);
  x.put("%d", r);
  if (r != RCUTILS_RET_OK) {return;}
  switch (x.g.below(6)) {
    case 0: x.put("%d", rcutils_string_map_set(&m, x.ps, "v")); break;
    case 1: x.put("%d", rcutils_string_map_set(&m, "k", x.ps)); break;
    case 2: x.put("%d", rcutils_string_map_set(&m, x.ps, x.pt)); break;
    case 3: x.put("%d", rcutils_string_map_set_no_resize(&m, x.ps, x.pt)); break;
    case 4: x.put("%d", rcutils_string_map_unset(&m, x.ps)); break;
    default:
      x.put("%d", rcutils_string_map_set(&m, "k", "v"));
      x.next();
      x.put("%d", rcutils_string_map_set(&m, x.ps, x.pt));
      x.next();
      x.put("%d", rcutils_string_map_unset(&m, x.ps));
      break;
  }
  contents(m, &x);
  x.put("%d", rcutils_string_map_fini(&m));
}
static void o_ask(X & x)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  if (rcutils_string_map_init(&m, 4, x.a) != RCUTILS_RET_OK) {x.put("no"); return;}
  if (x.g.chance(1, 2)) {x.put("%d", rcutils_string_map_set_no_resize(&m, x.s.c_str(), "there"));}
  const char * v = rcutils_string_map_get(&m, x.ps);
  x.put(std::string(v ? v : "-"));
  v = rcutils_string_map_getn(&m, x.ps, x.s.size());
  x.put(std::string(v ? v : "-"));
  x.put("%d %d", rcutils_string_map_key_exists(&m, x.ps), rcutils_string_map_key_existsn(&m, x.pt, x.t.size()));
  x.put("%d", rcutils_string_map_fini(&m));
}
static void o_paths(X & x)
{
  x.take(rcutils_join_path(x.ps, x.pt, x.a));
  x.next();
  x.take(rcutils_join_path("x", x.ps, x.a));
  x.next();
  x.take(rcutils_to_native_path(x.ps, x.a));
  x.next();
  x.take(rcutils_expand_user(x.ps, x.a));
  x.next();
  x.put("%d %d %d %d", rcutils_exists(x.ps), rcutils_is_file(x.ps), rcutils_is_directory(x.ps), rcutils_is_readable(x.ps));
  x.put("%zu", rcutils_get_file_size(x.ps));
}
static void o_dirs(X & x)
{
  uint64_t size = 7;
  x.put("%d", rcutils_calculate_directory_size(x.ps, &size, x.a));
  x.put("%d", static_cast<int>(size));
  x.next();
  x.put("%d", rcutils_calculate_directory_size_with_recursion(x.ps, 3, &size, x.a));
  x.next();
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(x.ps, x.a);
  x.put("%d", it != nullptr);
  if (it) {rcutils_dir_iter_end(it);}
}
static void o_env(X & x)
{
  const char * v = "?", * e = rcutils_get_env(x.ps, &v);
  x.put(std::string(e ? e : "no error"));
  x.put(std::string(v ? v : "-"));
  x.next();
  x.put("%d", rcutils_set_env(VAR, x.ps));
  v = getenv(VAR);
  x.put(std::string(v ? v : "-"));
}
static void o_args(X & x)
{
  char * argv[] = {const_cast<char *>("prog"), const_cast<char *>("--other"), const_cast<char *>(x.ps), const_cast<char *>(x.pt), nullptr};
  x.put("%d", rcutils_cli_option_exist(argv, argv + 4, x.ps));
  const char * v = rcutils_cli_get_option(argv, argv + 4, x.ps);
  x.put(std::string(v ? v : "-"));
}
static void o_sha(X & x)
{
  rcutils_sha256_ctx_t ctx;
  uint8_t h[32];
  rcutils_sha256_init(&ctx);
  rcutils_sha256_update(&ctx, reinterpret_cast<const uint8_t *>(x.ps), x.s.size());
  rcutils_sha256_update(&ctx, reinterpret_cast<const uint8_t *>(x.pt), x.t.size());
  rcutils_sha256_final(&ctx, h);
  for (uint8_t b : h) {x.put("%02x", b);}
  x.put("%zx", rcutils_hash_map_string_hash_func(&x.ps));
  x.put("%d", x.sgn(rcutils_hash_map_string_cmp_func(&x.ps, &x.pt)));
}
static void o_arrays(X & x)
{
  rcutils_string_array_t u = rcutils_get_zero_initialized_string_array(), v = rcutils_get_zero_initialized_string_array();
  if (rcutils_string_array_init(&u, 1, &x.a) != RCUTILS_RET_OK) {x.put("no"); return;}
  if (rcutils_string_array_init(&v, 1, &x.a) != RCUTILS_RET_OK) {x.put("no"); (void)!rcutils_string_array_fini(&u); return;}
  u.data[0] = rcutils_strdup(x.ps, x.a);
  v.data[0] = rcutils_strdup(x.pt, x.a);
  int r = 9;
  x.put("%d", rcutils_string_array_cmp(&u, &v, &r));
  x.put("%d", x.sgn(r));
  x.array(u);
  x.array(v);
}
static void o_error(X & x)
{
  switch (x.g.below(6)) {
    case 0: rcutils_set_error_state(x.ps, x.pt, 5); break;
    case 1: rcutils_set_error_state(x.pt, x.ps, 6); break;
    case 2: RCUTILS_SET_ERROR_MSG(x.ps); break;
    case 3: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s|%s", x.ps, x.pt); break;
    case 4: rcutils_set_error_state(x.ps, "here.c", 7); rcutils_set_error_state(rcutils_get_error_state()->message, rcutils_get_error_state()->file, 8); break;
    default: rcutils_set_error_state("new", x.ps, rcutils_get_error_state()->line_number); break;
  }
}
static void o_library(X & x)
{
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  rcutils_ret_t r = rcutils_load_shared_library(&l, x.ps, x.a);
  x.put("%d", r);
  if (r == RCUTILS_RET_OK) {
    x.put(std::string(l.library_path ? l.library_path : "-"));
    x.put("%d %d", rcutils_has_symbol(&l, x.pt), rcutils_get_symbol(&l, "cos") != nullptr);
    x.next();
    (void)rcutils_get_symbol(&l, x.pt);
    x.next();
    x.put("%d", rcutils_unload_shared_library(&l));
  }
  x.next();
  char b[300];
  memset(b, 0, sizeof(b));
  x.put("%d", rcutils_get_platform_library_name(x.ps, b, static_cast<unsigned>(1 + x.g.below(300)), false));
  x.put(std::string(b));
}
static std::string g_record;
static void handler(const rcutils_log_location_t * l, int severity, const char * name, rcutils_time_point_value_t, const char * format, va_list * args)
{
  va_list ap;
  va_copy(ap, *args);
  g_record += fmt("%d:", severity) + (name ? name : "-") + ":" + (l ? l->file_name : "-") + ":" + vfmt(format, ap) + "\n";
  va_end(ap);
}
static void o_logging(X & x)
{
  g_record.clear();
  rcutils_logging_set_output_handler(x.g.chance(1, 2) ? handler : rcutils_logging_console_output_handler);
  rcutils_log_location_t loc = {"fn", x.ps, 3};
  if (x.g.chance(1, 2)) {x.put("%d", rcutils_logging_set_logger_level(x.ps, RCUTILS_LOG_SEVERITY_DEBUG)); x.next();}
  x.put("%d", rcutils_logging_get_logger_level(x.ps));
  x.next();
  x.put("%d", rcutils_logging_get_logger_effective_level(x.pt));
  x.next();
  x.put("%d", rcutils_logging_logger_is_enabled_for(x.ps, RCUTILS_LOG_SEVERITY_DEBUG));
  x.next();
  rcutils_log(&loc, RCUTILS_LOG_SEVERITY_WARN, x.ps, "%s", x.pt);
  x.next();
  loc.file_name = x.ps;
  rcutils_log(&loc, RCUTILS_LOG_SEVERITY_DEBUG, x.pt, "%s and %s", x.ps, x.pt);
  x.next();
  RCUTILS_LOG_ERROR_NAMED(x.ps, "failed: %s", x.pt);
  x.next();
  x.put(g_record);
  int sev = -9;
  x.put("%d", rcutils_logging_severity_level_from_string(x.ps, x.a, &sev));
  x.put("%d", sev);
}
static void o_autoinit(X & x)
{
  (void)!rcutils_logging_shutdown();
  RCUTILS_LOG_ERROR("failed: %s", x.ps);
  x.put("%d", g_rcutils_logging_initialized);
}

struct Op {const char * name; void (* f)(X &); bool logging;};
static const Op ops[] = {
  {"find", o_find, false}, {"split", o_split, false}, {"repl", o_repl, false}, {"dup", o_dup, false}, {"format", o_format, false}, {"case", o_case, false},
  {"chars", o_chars, false}, {"map", o_map, false}, {"ask", o_ask, false}, {"paths", o_paths, false}, {"dirs", o_dirs, false}, {"env", o_env, false},
  {"args", o_args, false}, {"sha", o_sha, false}, {"arrays", o_arrays, false}, {"error", o_error, false}, {"library", o_library, false}, {"logging", o_logging, true},
  {"first record", o_autoinit, true}};
static const size_t NOPS = sizeof(ops) / sizeof(ops[0]);

static void begin_logging(CkAlloc & L)
{
  (void)!rcutils_logging_shutdown();
  (void)!rcutils_logging_initialize_with_allocator(L.get());
}

static void inputs(Case & c)
{
  Rng & g = c.rng;
  if (g_dir.empty()) {
    g_dir = run().scratch + "/alias";
    mkdir(g_dir.c_str(), 0755);
    FILE * f = fopen((g_dir + "/file").c_str(), "w");
    if (f) {fputs("content", f); fclose(f);}
  }
  const Op & op = ops[c.idx % NOPS];
  Mode mode = static_cast<Mode>(1 + g.below(MODES - 1));
  std::string s;
  switch (g.below(5)) {
    case 0: s = g_dir; break;
    case 1: s = g_dir + (g.chance(1, 2) ? "/file" : "/missing"); break;
    case 2: s = g.chance(1, 2) ? "WARN" : "a.b.c"; break;
    default: s = g.str(1 + g.below(mode == FILENAME ? 150 : 180), "ab/.~ZY"); break;
  }
  if (op.f == o_library && g.chance(1, 2)) {s = "libm.so.6";}
  if (op.f == o_dirs && s.compare(0, g_dir.size(), g_dir) != 0) {s = g_dir + "/" + g.str(1 + g.below(40), "abZY");}
  if (s.size() > 200) {s.resize(200);}
  std::string t = mode == SAME || g.chance(1, 2) ? s : g.str(1 + g.below(60), "ab/.~ZY");
  uint64_t seed = g.next(), fail_at = g.chance(1, 3) ? 1 + g.below(5) : UINT64_MAX;
  bool forever = g.chance(1, 2);
  std::string res[2];
  for (int k = 0; k < 2; ++k) {
    X x(k ? mode : COPY, seed, s, t, mode == MESSAGE);
    CkAlloc L("L");
    if (op.logging) {begin_logging(L);}
    x.fresh();
    if (strcmp(x.ps, s.c_str()) != 0 || strcmp(x.pt, t.c_str()) != 0) {fail("alias.setup", "the argument is not " + s);}
    if (fail_at != UINT64_MAX) {x.A.arm(fail_at, forever);}
    std::string text;
    try {
      Capture cap(stderr, 2);
      op.f(x);
      text = cap.stop();
    } catch (CaseFailed &) {throw;}
    raise();
    x.A.disarm();
    const rcutils_error_state_t * e = rcutils_get_error_state();
    x.put("| error %d: %s at %s:%d |", rcutils_error_is_set(), e->message, e->file, static_cast<int>(e->line_number));
    x.put(rcutils_get_error_string().str);
    if (x.A.failures && k) {count("failed allocations");}
    x.put("%d of %d failed |", static_cast<int>(x.A.failures), static_cast<int>(x.A.calls));
    rcutils_reset_error();
    check_empty(x.A, op.name);
    if (op.logging) {
      (void)!rcutils_logging_shutdown();
      check_empty(L, op.name);
    }
    res[k] = x.out + text;
  }
  MON_CHECK(res[0] == res[1], std::string("alias.") + op.name, "with %s (%s, %s): %s; with private copies: %s", mode_name[mode], show(s, 60).c_str(), show(t, 60).c_str(),
    show(res[1], 600).c_str(), show(res[0], 600).c_str());
  count(std::string("alias.") + op.name);
  count(std::string("from ") + mode_name[mode]);
  if (c.want_sample()) {c.sample(fmt("%s with %s (%s, %s): ", op.name, mode_name[mode], show(s, 60).c_str(), show(t, 60).c_str()) + show(res[1], 300));}
  c.mix(c.idx % NOPS); c.mix(s); c.mix(t); c.mix(static_cast<uint64_t>(mode));
  if (s.size() > 2) {c.interesting();}
}

// ---------------------------------------------------------------- string maps with their own keys and values
static const char * own_key(const rcutils_string_map_t & m, const std::string & k)
{
  const char * r = nullptr;
  for (const char * p = rcutils_string_map_get_next_key(&m, nullptr); p; p = rcutils_string_map_get_next_key(&m, p)) {if (k == p) {r = p;}}
  return r;
}

static void smap(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("A"), B("B");
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), n = rcutils_get_zero_initialized_string_map();
  size_t cap = g.below(6);
  MON_CHECK(rcutils_string_map_init(&m, cap, A.get()) == RCUTILS_RET_OK && rcutils_string_map_init(&n, cap, B.get()) == RCUTILS_RET_OK, "alias.smap", "init");
  std::vector<std::string> words;
  for (int i = 0; i < 6; ++i) {words.push_back(g.str(1 + g.below(i < 3 ? 3 : 40), "ab"));}
  unsigned steps = 4 + static_cast<unsigned>(g.below(20)), own = 0;
  for (unsigned i = 0; i < steps; ++i) {
    auto have = contents(n);
    std::vector<std::string> keys, vals;
    for (auto & p : have) {keys.push_back(p.first); vals.push_back(p.first);}
    rcutils_ret_t r = 0, q = 0;
    bool failing = g.chance(1, 6), kept = !failing && g.chance(1, 3);
    if (kept) {RCUTILS_SET_ERROR_MSG("what was before");}
    uint64_t at = 1 + g.below(3);
    bool forever = g.chance(1, 2);
    auto arm = [&]() {if (failing) {A.arm(at, forever); B.arm(at, forever);}};
    std::string what;
    if (g.chance(1, 12)) {
      what = "copied, cleared and copied back";
      CkAlloc D("D");
      rcutils_string_map_t o = rcutils_get_zero_initialized_string_map();
      MON_CHECK(rcutils_string_map_init(&o, g.below(8), D.get()) == RCUTILS_RET_OK, "alias.smap", "init");
      r = rcutils_string_map_copy(&m, &o);
      if (r == RCUTILS_RET_OK) {r = rcutils_string_map_clear(&m);}
      if (r == RCUTILS_RET_OK) {r = rcutils_string_map_copy(&o, &m);}
      if (r == RCUTILS_RET_OK) {r = rcutils_string_map_fini(&o);}
    } else if (keys.empty() || g.chance(1, 4)) {
      std::string k = g.pick(words), v = g.pick(words);
      what = "set";
      r = rcutils_string_map_set(&m, k.c_str(), v.c_str());
      q = rcutils_string_map_set(&n, k.c_str(), v.c_str());
      tr("set " + k + "=" + v);
    } else {
      own++;
      std::string k = g.pick(keys), j = g.pick(keys);
      const char * pk = own_key(m, k), * pj = own_key(m, j);
      const char * vk = rcutils_string_map_get(&m, k.c_str()), * vj = rcutils_string_map_get(&m, j.c_str());
      MON_CHECK(pk && pj && vk && vj, "alias.smap", "a key is not found");
      std::string sk = have[k], sj = have[j];
      Exact ek(k), ej(j), esk(sk), esj(sj);
      bool no_resize = g.chance(1, 3);
      auto set = [&](rcutils_string_map_t * o, const char * a, const char * b) {return no_resize ? rcutils_string_map_set_no_resize(o, a, b) : rcutils_string_map_set(o, a, b);};
      switch (g.below(9)) {
        case 0: what = "own key, own value of it"; arm(); r = set(&m, pk, vk); q = set(&n, ek, esk); break;
        case 1: what = "own key, value of another"; arm(); r = set(&m, pk, vj); q = set(&n, ek, esj); break;
        case 2: what = "own key as its value"; arm(); r = set(&m, pk, pk); q = set(&n, ek, ek); break;
        case 3: what = "own key, another as its value"; arm(); r = set(&m, pk, pj); q = set(&n, ek, ej); break;
        case 4: what = "own value as key and value"; arm(); r = set(&m, vk, vk); q = set(&n, esk, esk); break;
        case 5: what = "end of an own value as key, own key as value"; {
            size_t o = sk.size() / 2;
            Exact part(sk.substr(o));
            arm();
            r = set(&m, vk + o, pj);
            q = set(&n, part, ej);
            break;
          }
        case 6: what = "own key removed"; r = rcutils_string_map_unset(&m, pk); q = rcutils_string_map_unset(&n, ek); break;
        case 7: what = "own value removed as key"; r = rcutils_string_map_unset(&m, vk); q = rcutils_string_map_unset(&n, esk);
          break;
        default:
          what = "copied onto itself"; {
            size_t cap_before = 0, cap_after = 0;
            (void)!rcutils_string_map_get_capacity(&m, &cap_before);
            arm();
            r = rcutils_string_map_copy(&m, &m);
            A.disarm();
            (void)!rcutils_string_map_get_capacity(&m, &cap_after);
            q = r == RCUTILS_RET_OK || A.failures ? r : RCUTILS_RET_OK;
            MON_CHECK(cap_before == cap_after, "alias.smap", "copied onto itself: capacity %zu after %zu", cap_after, cap_before);
            break;
          }
      }
      tr(what + " " + k + " " + j);
      count("smap." + what);
    }
    A.disarm();
    B.disarm();
    if (kept && r == RCUTILS_RET_OK && q == RCUTILS_RET_OK) {
      MON_CHECK(rcutils_error_is_set() && !strcmp(rcutils_get_error_state()->message, "what was before"), "alias.error-kept", "%s: the error that was set is gone", what.c_str());
      count("smap.errors kept");
    }
    rcutils_reset_error();
    MON_CHECK(r == q, "alias.smap", "%s: %d, with private copies: %d", what.c_str(), r, q);
    auto x = contents(m), y = contents(n);
    size_t sx = 0, sy = 0, cx = 0, cy = 0;
    (void)!rcutils_string_map_get_size(&m, &sx); (void)!rcutils_string_map_get_size(&n, &sy);
    (void)!rcutils_string_map_get_capacity(&m, &cx); (void)!rcutils_string_map_get_capacity(&n, &cy);
    MON_CHECK(x == y && sx == sy && cx == cy, "alias.smap", "%s: %zu of %zu entries, with private copies: %zu of %zu, or they differ", what.c_str(), sx, cx, sy, cy);
  }
  // taken apart by iterating over it
  for (const char * k; (k = rcutils_string_map_get_next_key(&m, nullptr)) != nullptr; ) {
    MON_CHECK(rcutils_string_map_unset(&m, k) == RCUTILS_RET_OK, "alias.smap", "a key from the iteration is not removed");
  }
  MON_CHECK(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_fini(&n) == RCUTILS_RET_OK, "alias.smap", "fini");
  check_empty(A, "string map");
  check_empty(B, "string map");
  if (c.want_sample()) {c.sample(tail());}
  c.mix(steps); c.mix(own); c.mix(g.next());
  if (own > 2) {c.interesting();}
}

// ---------------------------------------------------------------- hash maps, one buffer for several arguments
static size_t h_few(const void * k) {return *static_cast<const uint32_t *>(k) % 5;}
static size_t h_all(const void * k) {return *static_cast<const uint32_t *>(k) * 2654435761u;}
static int h_cmp(const void * a, const void * b)
{
  uint32_t x = *static_cast<const uint32_t *>(a), y = *static_cast<const uint32_t *>(b);
  return x < y ? -1 : x > y;
}
static void hmap(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("A");
  rcutils_allocator_t a = A.get();
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  MON_CHECK(rcutils_hash_map_init(&m, 1 + g.below(5), sizeof(uint32_t), sizeof(uint32_t), g.chance(1, 3) ? h_few : h_all, h_cmp, &a) == RCUTILS_RET_OK, "alias.hmap", "init");
  std::map<uint32_t, uint32_t> model;
  unsigned n = static_cast<unsigned>(g.below(40));
  for (unsigned i = 0; i < n; ++i) {
    uint32_t k = static_cast<uint32_t>(g.below(50)), v = static_cast<uint32_t>(g.below(50));
    bool same = g.chance(1, 3);
    MON_CHECK(rcutils_hash_map_set(&m, &k, same ? &k : &v) == RCUTILS_RET_OK, "alias.hmap", "set");
    model[k] = same ? k : v;
    if (same) {count("hmap.one buffer as key and value");}
    // a look-up into the buffer of the key
    uint32_t b = static_cast<uint32_t>(g.below(50)), b0 = b;
    rcutils_ret_t r = rcutils_hash_map_get(&m, &b, &b);
    MON_CHECK(r == (model.count(b0) ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND) && b == (model.count(b0) ? model[b0] : b0), "alias.hmap", "%u looked up in place: %d, %u", b0, r, b);
    if (r == RCUTILS_RET_OK) {count("hmap.looked up in place");}
    if (g.chance(1, 5)) {MON_CHECK(rcutils_hash_map_unset(&m, &k) == RCUTILS_RET_OK, "alias.hmap", "unset"); model.erase(k);}
  }
  rcutils_reset_error();
  RCUTILS_SET_ERROR_MSG("what was before");
  // the order of iteration, with buffers of its own
  std::vector<uint32_t> order;
  uint32_t k = 0, d = 0, p = 0;
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &d);
  for (; r == RCUTILS_RET_OK && order.size() <= model.size(); ) {
    MON_CHECK(model.count(k) && model[k] == d, "alias.hmap", "entry %u: %u", k, d);
    order.push_back(k);
    p = k;
    r = rcutils_hash_map_get_next_key_and_data(&m, &p, &k, &d);
  }
  MON_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && order.size() == model.size(), "alias.hmap", "%zu of %zu entries", order.size(), model.size());
  // the previous key in the buffer for the next one
  std::vector<uint32_t> in_place;
  r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &d);
  for (; r == RCUTILS_RET_OK && in_place.size() <= model.size(); ) {
    MON_CHECK(model.count(k) && model[k] == d, "alias.hmap", "in place, entry %u: %u", k, d);
    in_place.push_back(k);
    count("hmap.next key in place");
    r = rcutils_hash_map_get_next_key_and_data(&m, &k, &k, &d);
  }
  MON_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && in_place == order, "alias.hmap", "in place: %zu of %zu entries, or in another order (%d)", in_place.size(), order.size(), r);
  // the previous key in the buffer for the data
  for (size_t i = 0; i < order.size(); ++i) {
    uint32_t b = order[i], next = 0;
    r = rcutils_hash_map_get_next_key_and_data(&m, &b, &next, &b);
    if (i + 1 < order.size()) {
      MON_CHECK(r == RCUTILS_RET_OK && next == order[i + 1] && b == model[next], "alias.hmap", "after %u, in the buffer of the data: %d, %u", order[i], r, next);
      count("hmap.data over the previous key");
    } else {
      MON_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "alias.hmap", "after the last, in the buffer of the data: %d", r);
    }
  }
  // emptied with the key that is read
  while (rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &d) == RCUTILS_RET_OK) {
    MON_CHECK(rcutils_hash_map_unset(&m, &k) == RCUTILS_RET_OK && !rcutils_hash_map_key_exists(&m, &k), "alias.hmap", "unset while iterating");
    MON_CHECK(model.erase(k) == 1, "alias.hmap", "entry %u again", k);
  }
  n += static_cast<unsigned>(g.below(4));
  for (k = 0; k < 12; ++k) {
    MON_CHECK(rcutils_hash_map_set(&m, &k, &n) == RCUTILS_RET_OK && rcutils_hash_map_get(&m, &k, &d) == RCUTILS_RET_OK && d == n, "alias.hmap", "set and get");
  }
  for (k = 0; k < 12; ++k) {MON_CHECK(rcutils_hash_map_unset(&m, &k) == RCUTILS_RET_OK, "alias.hmap", "unset");}
  MON_CHECK(!strcmp(rcutils_get_error_state()->message, "what was before"), "alias.error-kept", "the error that was set is gone");
  count("hmap.errors kept");
  rcutils_reset_error();
  MON_CHECK(model.empty() && rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "alias.hmap", "fini");
  check_empty(A, "hash map");
  c.mix(n); c.mix(g.next());
  if (order.size() > 2) {c.interesting();}
}

// ---------------------------------------------------------------- objects, their own allocators and paths
static void objects(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("A");
  rcutils_allocator_t a = A.get();
  size_t n = g.below(6);
  if (g.chance(1, 4)) {A.arm(1 + g.below(2), true);}
  unsigned kind = static_cast<unsigned>(c.idx % 4);
  switch (kind) {
    case 0: {
        rcutils_string_array_t v = rcutils_get_zero_initialized_string_array();
        v.allocator = a;
        rcutils_ret_t r = rcutils_string_array_init(&v, n, &v.allocator);
        MON_CHECK(r == (A.failures && n ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK), "alias.objects", "string array with its own allocator: %d", r);
        if (r == RCUTILS_RET_OK) {
          MON_CHECK(v.size == n && v.allocator.state == &A && v.allocator.allocate == a.allocate, "alias.objects", "string array with its own allocator: %zu", v.size);
          A.disarm();
          for (size_t i = 0; i < n; ++i) {v.data[i] = rcutils_strdup("x", v.allocator);}
          int cmp = 9;
          MON_CHECK(rcutils_string_array_cmp(&v, &v, &cmp) == RCUTILS_RET_OK && cmp == 0, "alias.objects", "string array compared with itself: %d", cmp);
          if (n) {
            MON_CHECK(rcutils_string_array_sort_compare(&v.data[0], &v.data[0]) == 0, "alias.objects", "element compared with itself");
          }
          MON_CHECK(rcutils_string_array_fini(&v) == RCUTILS_RET_OK, "alias.objects", "fini");
          count("objects.string array");
        }
        break;
      }
    case 1: {
        rcutils_char_array_t v = rcutils_get_zero_initialized_char_array();
        v.allocator = a;
        for (int round = 0; round < 2; ++round) {
          rcutils_ret_t r = rcutils_char_array_init(&v, n, &v.allocator);
          if (r != RCUTILS_RET_OK) {MON_CHECK(A.failures && r == RCUTILS_RET_BAD_ALLOC, "alias.objects", "char array with its own allocator: %d", r); break;}
          MON_CHECK(v.buffer_capacity == n && v.allocator.state == &A, "alias.objects", "char array with its own allocator");
          A.disarm();
          MON_CHECK(rcutils_char_array_strcpy(&v, "some text") == RCUTILS_RET_OK && !strcmp(v.buffer, "some text"), "alias.objects", "strcpy");
          MON_CHECK(rcutils_char_array_fini(&v) == RCUTILS_RET_OK, "alias.objects", "fini");
          count("objects.char array");
        }
        break;
      }
    case 2: {
        rcutils_uint8_array_t v = rcutils_get_zero_initialized_uint8_array();
        v.allocator = a;
        rcutils_ret_t r = rcutils_uint8_array_init(&v, n, &v.allocator);
        MON_CHECK(r == (A.failures ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK), "alias.objects", "byte array with its own allocator: %d", r);
        if (r == RCUTILS_RET_OK) {
          MON_CHECK(v.buffer_capacity == n && v.allocator.state == &A, "alias.objects", "byte array with its own allocator");
          A.disarm();
          MON_CHECK(rcutils_uint8_array_resize(&v, 40) == RCUTILS_RET_OK && rcutils_uint8_array_fini(&v) == RCUTILS_RET_OK, "alias.objects", "resize and fini");
          count("objects.byte array");
        }
        break;
      }
    default: {
        A.disarm();
        rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library(), k = rcutils_get_zero_initialized_shared_library();
        MON_CHECK(rcutils_load_shared_library(&l, "libm.so.6", a) == RCUTILS_RET_OK, "alias.objects", "load");
        std::string path = l.library_path;
        if (g.chance(1, 3)) {A.arm(1 + g.below(2), true);}
        rcutils_ret_t r = rcutils_load_shared_library(&k, l.library_path, l.allocator);
        A.disarm();
        MON_CHECK(r == RCUTILS_RET_OK || A.failures, "alias.objects", "the path of a loaded library: %d", r);
        MON_CHECK(path == l.library_path && (r != RCUTILS_RET_OK || (path == k.library_path && k.library_path != l.library_path)), "alias.objects", "paths");
        MON_CHECK(rcutils_unload_shared_library(&l) == RCUTILS_RET_OK, "alias.objects", "unload");
        if (r == RCUTILS_RET_OK) {
          MON_CHECK(rcutils_has_symbol(&k, "cos") && rcutils_unload_shared_library(&k) == RCUTILS_RET_OK, "alias.objects", "unload");
          count("objects.library");
        }
        break;
      }
  }
  rcutils_reset_error();
  check_empty(A, "objects");
  c.mix(kind); c.mix(n); c.mix(g.next());
  if (n > 1) {c.interesting();}
}

static void reg()
{
  section("inputs", 28500, 2400000, inputs);
  section("smap", 9000, 800000, smap);
  section("hmap", 5000, 500000, hmap);
  section("objects", 3000, 200000, objects);
}
MON_MAIN(reg)
