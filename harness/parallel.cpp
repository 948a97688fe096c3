// P33: operations on a thread's own objects give the results they give when the thread is alone.
#include <atomic>
#include <thread>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mon.hpp"
#include "rcutils/allocator.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"

#ifndef __has_feature
#define __has_feature(x) 0
#endif
using namespace mon;

#ifdef MON_NESTED     // other operations in the middle of these ones (reentry.cpp)
void nested_hook(const char * where);
#else
static void nested_hook(const char *) {}
#endif

// an allocator whose state belongs to one thread and is not protected by anything
struct Own
{
  long live = 0, left = -1;
  bool take() {if (left == 0) {return false;} if (left > 0) {left--;} return true;}
  static void * al(size_t n, void * s) {Own * o = static_cast<Own *>(s); nested_hook("allocator"); if (!o->take()) {return nullptr;} o->live++; return malloc(n ? n : 1);}
  static void de(void * p, void * s) {nested_hook("allocator"); if (p) {static_cast<Own *>(s)->live--;} free(p);}
  static void * re(void * p, size_t n, void * s)
  {
    Own * o = static_cast<Own *>(s);
    nested_hook("allocator");
    if (!o->take()) {return nullptr;}
    if (!p) {o->live++;}
    return realloc(p, n ? n : 1);
  }
  static void * ca(size_t c, size_t n, void * s) {Own * o = static_cast<Own *>(s); nested_hook("allocator"); if (!o->take()) {return nullptr;} o->live++; return calloc(c ? c : 1, n ? n : 1);}
  rcutils_allocator_t get() {rcutils_allocator_t a = {al, de, re, ca, this}; return a;}
};

struct T
{
  Rng r;
  std::string out;
  Own own;
  rcutils_allocator_t a;
  unsigned me;
  explicit T(uint64_t seed, unsigned m) : r(seed), a(own.get()), me(m) {}
  void put(const char * f, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap;
    va_start(ap, f);
    out += vfmt(f, ap);
    out += ' ';
    va_end(ap);
    nested_hook("steps");
  }
  void put_err()
  {
    if (rcutils_error_is_set()) {
      put("[%s]", rcutils_get_error_state()->message);
      rcutils_reset_error();
    }
  }
  std::string word() {return r.str(r.size(40), "ab/.%_ZY9 ");}
};

static std::string g_tree;     // read-only tree everybody looks at
static std::string g_libdir;

static void t_list(T & t)
{
  size_t es = 1 + t.r.below(40);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  t.put("%d", rcutils_array_list_init(&l, 1 + t.r.below(8), es, &t.a));
  std::string e;
  for (int i = 0; i < 40; ++i) {
    e = t.r.bytes(es);
    switch (t.r.below(4)) {
      case 0: t.put("%d", rcutils_array_list_remove(&l, t.r.below(20))); break;
      case 1: t.put("%d", rcutils_array_list_set(&l, t.r.below(20), e.data())); break;
      default: t.put("%d", rcutils_array_list_add(&l, e.data())); break;
    }
    t.put_err();
  }
  size_t n = 0;
  rcutils_array_list_get_size(&l, &n);
  for (size_t i = 0; i < n; ++i) {rcutils_array_list_get(&l, i, &e[0]); t.out += e;}
  t.put("%d", rcutils_array_list_fini(&l));
}

static size_t hash_u(const void * k) {nested_hook("hash"); uint32_t v; memcpy(&v, k, 4); return v % 13;}
static int cmp_u(const void * x, const void * y) {nested_hook("equality"); return memcmp(x, y, 4);}
static void t_map(T & t)
{
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  t.put("%d", rcutils_hash_map_init(&m, 1 + t.r.below(4), 4, 8, hash_u, cmp_u, &t.a));
  for (int i = 0; i < 60; ++i) {
    uint32_t k = static_cast<uint32_t>(t.r.below(40));
    uint64_t v = t.r.next();
    switch (t.r.below(5)) {
      case 0: t.put("u%d", rcutils_hash_map_unset(&m, &k)); break;
      case 1: v = 0; t.put("g%d:%" PRIx64, rcutils_hash_map_get(&m, &k, &v), v); break;
      default: t.put("s%d", rcutils_hash_map_set(&m, &k, &v)); break;
    }
    t.put_err();
  }
  uint32_t k = 0;
  uint64_t v = 0;
  rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &v);
  while (ret == RCUTILS_RET_OK) {
    t.put("%u=%" PRIx64, k, v);
    uint32_t was = k;
    ret = rcutils_hash_map_get_next_key_and_data(&m, &was, &k, &v);
  }
  t.put("%d", rcutils_hash_map_fini(&m));
  t.put_err();
  std::string s = t.word();
  const char * sp = s.c_str();
  t.put("%zx", rcutils_hash_map_string_hash_func(&sp));
}

static void t_smap(T & t)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), m2 = rcutils_get_zero_initialized_string_map();
  t.put("%d", rcutils_string_map_init(&m, t.r.below(4), t.a));
  t.put("%d", rcutils_string_map_init(&m2, 1, t.a));
  for (int i = 0; i < 40; ++i) {
    std::string k = t.r.str(1 + t.r.below(2), "abc"), v = t.word();
    switch (t.r.below(6)) {
      case 0: t.put("%d", rcutils_string_map_unset(&m, k.c_str())); break;
      case 1: t.put("%d", rcutils_string_map_set_no_resize(&m, k.c_str(), v.c_str())); break;
      case 2: {const char * g = rcutils_string_map_getn(&m, k.data(), k.size()); t.put("%s", g ? g : "-"); break;}
      case 3: t.put("%d", rcutils_string_map_reserve(&m, t.r.below(30))); break;
      default: t.put("%d", rcutils_string_map_set(&m, k.c_str(), v.c_str())); break;
    }
    t.put_err();
  }
  t.put("%d", rcutils_string_map_copy(&m, &m2));
  for (const char * k = rcutils_string_map_get_next_key(&m2, nullptr); k; k = rcutils_string_map_get_next_key(&m2, k)) {
    t.put("%s=%s", k, rcutils_string_map_get(&m2, k));
  }
  t.put("%d%d", rcutils_string_map_fini(&m), rcutils_string_map_fini(&m2));
}

static void t_sarray(T & t)
{
  rcutils_string_array_t x = rcutils_get_zero_initialized_string_array(), y = rcutils_get_zero_initialized_string_array();
  std::string s = t.r.str(t.r.size(300), "a/b");
  t.put("%d", rcutils_split(s.c_str(), '/', t.a, &x));
  t.put("%d", rcutils_split_last(s.c_str(), '/', t.a, &y));
  t.put_err();
  if (x.size) {
    t.put("%d", rcutils_string_array_sort(&x));
    for (size_t i = 0; i < x.size; ++i) {t.put("%s", x.data[i]);}
    if (y.size) {int c = 0; t.put("%d", rcutils_string_array_cmp(&x, &y, &c)); t.put("%d", c < 0 ? -1 : c > 0);}
    t.put("%d", rcutils_string_array_resize(&x, 1 + t.r.below(x.size + 4)));
    t.put("%zu", x.size);
  }
  for (size_t i = 0; i < y.size; ++i) {t.put("%s", y.data[i]);}
  t.put("%d", rcutils_string_array_fini(&x));
  t.put("%d", rcutils_string_array_fini(&y));
  t.put_err();
}

static void t_chars(T & t)
{
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  t.put("%d", rcutils_char_array_init(&c, 1 + t.r.below(20), &t.a));
  c.buffer[0] = 0;
  for (int i = 0; i < 12; ++i) {
    std::string s = t.word();
    switch (t.r.below(5)) {
      case 0: t.put("%d", rcutils_char_array_strcpy(&c, s.c_str())); break;
      case 1: t.put("%d", rcutils_char_array_strcat(&c, s.c_str())); break;
      case 2: t.put("%d", rcutils_char_array_strncat(&c, s.c_str(), t.r.below(s.size() + 1))); break;
      case 3: t.put("%d", rcutils_char_array_resize(&c, c.buffer_length + 1 + t.r.below(30))); break;
      default: t.put("%d", rcutils_char_array_strcpy(&c, "x")); break;
    }
    t.put("%s %zu %zu", c.buffer, c.buffer_length, c.buffer_capacity);
  }
  t.put("%d", rcutils_char_array_fini(&c));
  rcutils_uint8_array_t b = rcutils_get_zero_initialized_uint8_array();
  t.put("%d", rcutils_uint8_array_init(&b, 8 + t.r.below(10), &t.a));
  b.buffer_length = 8;
  uint64_t v = t.r.next();
  memcpy(b.buffer, &v, 8);
  t.put("%d", rcutils_uint8_array_resize(&b, 1 + t.r.below(60)));
  for (size_t i = 0; i < b.buffer_length; ++i) {t.put("%02x", b.buffer[i]);}
  t.put("%d", rcutils_uint8_array_fini(&b));
}

static void t_sha(T & t)
{
  rcutils_sha256_ctx_t x, y;
  rcutils_sha256_init(&x);
  rcutils_sha256_init(&y);
  for (int i = 0; i < 5; ++i) {
    std::string s = t.r.bytes(t.r.size(200));
    rcutils_sha256_update(t.r.chance(1, 2) ? &x : &y, reinterpret_cast<const uint8_t *>(s.data()), s.size());
  }
  uint8_t d[2][32];
  rcutils_sha256_final(&x, d[0]);
  rcutils_sha256_final(&y, d[1]);
  for (auto & row : d) {for (uint8_t b : row) {t.put("%02x", b);}}
}

static void t_repl(T & t)
{
  std::string s = t.r.str(t.r.size(400), "abc"), f = t.r.str(1 + t.r.below(2), "abc"), w = t.word();
  char * p = rcutils_repl_str(s.c_str(), f.c_str(), w.c_str(), &t.a);
  t.put("%s", p ? p : "-");
  t.a.deallocate(p, t.a.state);
}

static void t_dup(T & t)
{
  std::string s = t.word();
  char * p = rcutils_strdup(s.c_str(), t.a), * q = rcutils_strndup(s.c_str(), t.r.below(50), t.a);
  t.put("%s|%s", p, q);
  t.a.deallocate(p, t.a.state);
  t.a.deallocate(q, t.a.state);
}

static void t_format(T & t)
{
  std::string s = t.r.str(t.r.size(t.r.chance(1, 4) ? 3000 : 60), "xyz");
  char * p = rcutils_format_string(t.a, "%s-%d", s.c_str(), static_cast<int>(t.r.below(1000)));
  t.put("%s", p ? p : "-");
  if (p) {t.out += std::to_string(strlen(p));}
  t.a.deallocate(p, t.a.state);
  char b[50];
  int n = rcutils_snprintf(b, 1 + t.r.below(50), "%s/%x", s.c_str(), static_cast<unsigned>(t.r.below(100000)));
  t.put("%d %s", n, b);
}

static void t_find(T & t)
{
  std::string s = t.word(), u = t.word();
  t.put("%zx %zx %zx %zx", rcutils_find(s.c_str(), 'a'), rcutils_find_last(s.c_str(), '/'), rcutils_findn(s.c_str(), 'b', s.size()),
    rcutils_find_lastn(s.c_str(), '.', s.size()));
  int v = 0, w = 0;
  t.put("%d%d", rcutils_strcasecmp(s.c_str(), u.c_str(), &v), rcutils_strncasecmp(s.c_str(), u.c_str(), t.r.below(4), &w));
  t.put("%d %d", v < 0 ? -1 : v > 0, w < 0 ? -1 : w > 0);
  std::string al;
  for (int i = 0; i < 20; ++i) {al += rcutils_isalnum_no_locale(static_cast<char>(t.r.next())) ? '1' : '0';}
  t.out += al;
  char a0[] = "-x", a1[] = "--name", a2[] = "v1", a3[] = "-y";
  char * argv[] = {a0, a1, a2, a3};
  size_t n = t.r.below(5);
  const char * o = rcutils_cli_get_option(argv, argv + n, "--name");
  t.put("%d%d%s", rcutils_cli_option_exist(argv, argv + n, "-y"), rcutils_cli_option_exist(argv, argv + n, "-z"), o ? o : "-");
}

static int cmp_i(const void * x, const void * y)
{
  int a, b;
  memcpy(&a, x, 4);
  memcpy(&b, y, 4);
  nested_hook("comparison");
  return a < b ? -1 : a > b;
}
static void t_sort(T & t)
{
  std::vector<int> v(t.r.size(200));
  for (auto & x : v) {x = static_cast<int>(t.r.below(1000));}
  if (!v.empty()) {t.put("%d", rcutils_qsort(v.data(), v.size(), sizeof(int), cmp_i));}
  for (int x : v) {t.put("%d", x);}
}

static void t_time(T & t)
{
  int64_t p = static_cast<int64_t>(t.r.next() >> t.r.below(30));
  char b[64];
  rcutils_time_point_value_as_nanoseconds_string(&p, b, sizeof(b));
  t.out += b;
  rcutils_time_point_value_as_seconds_string(&p, b, sizeof(b));
  t.out += b;
  p = static_cast<int64_t>(t.r.below(4000000000ull)) * 1000000000 + static_cast<int64_t>(t.r.below(1000000000));
  t.put("%d", rcutils_time_point_value_as_date_string(&p, b, 1 + t.r.below(60)));
  t.out += b;
  rcutils_time_point_value_t v = 0, w = 0;
  t.put("%d%d", rcutils_steady_time_now(&v), rcutils_steady_time_now(&w));
  t.put("%d", w >= v);
}

static void t_error(T & t)
{
  std::string s = t.r.str(t.r.size(900), "error text");
  rcutils_set_error_state(s.c_str(), "file.c", t.me);
  t.put("%d %s %" PRIu64, rcutils_error_is_set(), rcutils_get_error_state()->message, rcutils_get_error_state()->line_number);
  t.put("%s", rcutils_get_error_string().str);
  rcutils_reset_error();
  errno = static_cast<int>(t.r.below(40));
  char b[60];
  rcutils_strerror(b, 1 + t.r.below(60));
  t.put("%s", b);
}

static void t_paths(T & t)
{
  std::string x = t.word(), y = t.word();
  if (t.r.chance(1, 6)) {x = t.r.str(2500, "q");}
  char * p = rcutils_join_path(x.c_str(), y.c_str(), t.a), * q = rcutils_to_native_path(x.c_str(), t.a);
  std::string h = "~/" + y;
  char * e = rcutils_expand_user(h.c_str(), t.a);
  for (char * s : {p, q, e}) {
    t.put("%s", s ? s : "-");
    if (s) {t.out += std::to_string(hash_str(s, strlen(s)));}
    t.a.deallocate(s, t.a.state);
  }
  t.put_err();
  char cwd[4096];
  t.put("%d %s", rcutils_get_cwd(cwd, sizeof(cwd)), cwd);
  t.put("%s", rcutils_get_home_dir());
  const char * v = nullptr;
  const char * bad = rcutils_get_env(t.r.chance(1, 2) ? "MON_FIXED" : "MON_UNSET", &v);
  t.put("%s=%s", bad ? bad : "", v);
  char * exe = rcutils_get_executable_name(t.a);
  t.put("%s", exe ? exe : "-");
  t.a.deallocate(exe, t.a.state);
  t.put("%d", rcutils_get_pid() == getpid());
}

static void t_files(T & t)
{
  static const char * names[] = {"", "/a", "/a/b", "/a/b/f1", "/f0", "/none", "/a/f2"};
  for (int i = 0; i < 4; ++i) {
    std::string p = g_tree + names[t.r.below(7)];
    t.put("%d%d%d%d%d", rcutils_exists(p.c_str()), rcutils_is_directory(p.c_str()), rcutils_is_file(p.c_str()), rcutils_is_readable(p.c_str()),
      rcutils_is_readable_and_writable(p.c_str()));
    if (rcutils_is_file(p.c_str())) {t.put("%zu", rcutils_get_file_size(p.c_str()));}
  }
  t.put_err();
  std::vector<std::string> l;
  std::string d = g_tree + (t.r.chance(1, 2) ? "" : "/a");
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(d.c_str(), t.a);
  if (it) {
    do {l.push_back(it->entry_name); nested_hook("steps");} while (rcutils_dir_iter_next(it));
    rcutils_dir_iter_end(it);
  }
  std::sort(l.begin(), l.end());
  for (auto & s : l) {t.put("%s", s.c_str());}
  uint64_t sz = 0;
  t.put("%d", rcutils_calculate_directory_size_with_recursion(g_tree.c_str(), t.r.below(4), &sz, t.a));
  t.put("%" PRIu64, sz);
  static std::atomic<unsigned> serial{0};
  std::string mine = run().scratch + "/own" + std::to_string(serial.fetch_add(1, std::memory_order_relaxed));
  t.put("%d", rcutils_mkdir(mine.c_str()));
  t.put("%d", rcutils_is_directory(mine.c_str()));
  rmdir(mine.c_str());
  t.put_err();
}

static void t_lib(T & t)
{
  std::string p = g_libdir + "/libmon_" + "abc"[t.r.below(3)] + ".so";
  if (t.r.chance(1, 6)) {p = "/nonexistent/libx.so";}
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  rcutils_ret_t ret = rcutils_load_shared_library(&l, p.c_str(), t.a);
  t.put("load %d", ret);
  if (rcutils_error_is_set()) {t.put("E"); rcutils_reset_error();}
  if (ret == RCUTILS_RET_OK) {
    t.put("%s", l.library_path);
    std::string s = "mon_missing_" + std::to_string(t.r.below(9));
    t.put("%d", rcutils_has_symbol(&l, "mon_id"));
    t.put("%d", rcutils_has_symbol(&l, s.c_str()));
    rcutils_reset_error();
    t.put("%d", rcutils_get_symbol(&l, s.c_str()) == nullptr);
    t.put_err();
    t.put("%d", rcutils_unload_shared_library(&l));
  }
  char b[64];
  std::string n = t.r.str(1 + t.r.below(20), "lib");
  t.put("%d", rcutils_get_platform_library_name(n.c_str(), b, static_cast<unsigned>(10 + t.r.below(50)), t.r.chance(1, 2)));
  t.put("%s", rcutils_error_is_set() ? "-" : b);
  t.put_err();
}

static void t_severity(T & t)
{
  static const char * names[] = {"DEBUG", "info", "WaRn", "error", "FATAL", "nothing", ""};
  int s = -1;
  t.put("%d", rcutils_logging_severity_level_from_string(names[t.r.below(7)], t.a, &s));
  t.put("%d", s);
  t.put_err();
  t.put("%d", rcutils_logging_get_logger_effective_level(t.r.chance(1, 2) ? "mon.child.x" : "other"));
}

// the same operations with an allocator that fails somewhere
static void t_failing(T & t)
{
  t.own.left = static_cast<long>(t.r.below(6));
  std::string s = t.r.str(t.r.size(100), "a/b");
  rcutils_string_array_t x = rcutils_get_zero_initialized_string_array();
  t.put("%d", rcutils_split(s.c_str(), '/', t.a, &x));
  t.put_err();
  rcutils_ret_t f = rcutils_string_array_fini(&x);
  t.put("%d", f);
  t.put_err();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  if (rcutils_string_map_init(&m, 2, t.a) == RCUTILS_RET_OK) {
    t.put("%d", rcutils_string_map_set(&m, "k", s.c_str()));
    t.put_err();
    t.put("%d", rcutils_string_map_fini(&m));
  }
  t.put_err();
  char * p = rcutils_format_string(t.a, "%s", s.c_str());
  t.put("%s", p ? p : "-");
  t.put_err();
  t.own.left = -1;
  t.a.deallocate(p, t.a.state);
}

struct Task {const char * name; void (* fn)(T &);};
static const Task TASKS[] = {{"list", t_list}, {"map", t_map}, {"string_map", t_smap}, {"string_array", t_sarray}, {"char_array", t_chars}, {"sha", t_sha},
  {"repl", t_repl}, {"dup", t_dup}, {"format", t_format}, {"find", t_find}, {"sort", t_sort}, {"time", t_time}, {"error", t_error}, {"paths", t_paths},
  {"files", t_files}, {"library", t_lib}, {"severity", t_severity}, {"failing", t_failing}};
static const unsigned NT = sizeof(TASKS) / sizeof(TASKS[0]);

static void setup()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  setenv("HOME", "/home/of/nobody", 1);
  setenv("MON_FIXED", "fixed value", 1);
  setenv("TZ", "XXX-5:30", 1);
  unsetenv("MON_UNSET");
  tzset();
  char exe[4096];
  ssize_t len = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  g_libdir.assign(exe, len > 0 ? static_cast<size_t>(len) : 0);
  g_libdir = g_libdir.substr(0, g_libdir.rfind('/')) + "/aux";
#if __has_feature(thread_sanitizer)
  // the linker's own lock is invisible to ThreadSanitizer: keep its records alive, so that it does not see them reused
  for (const char * l : {"/libmon_a.so", "/libmon_b.so", "/libmon_c.so"}) {dlopen((g_libdir + l).c_str(), RTLD_NOW);}
#endif
  g_tree = run().scratch + "/tree";
  mkdir(g_tree.c_str(), 0755);
  mkdir((g_tree + "/a").c_str(), 0755);
  mkdir((g_tree + "/a/b").c_str(), 0755);
  unsigned n = 10;
  for (const char * f : {"/f0", "/a/f2", "/a/b/f1"}) {
    int fd = open((g_tree + f).c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) {if (ftruncate(fd, n *= 7)) {} close(fd);}
  }
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {fail("parallel.setup", "logging does not initialize");}
  if (rcutils_logging_set_logger_level("mon.child", RCUTILS_LOG_SEVERITY_ERROR) != RCUTILS_RET_OK) {fail("parallel.setup", "level");}
}

#ifndef MON_NESTED
static void parallel(Case & c)
{
  setup();
  Rng & r = c.rng;
  unsigned n = 2 + static_cast<unsigned>(r.below(5)), steps = 6 + static_cast<unsigned>(r.below(10));
  // some runs hammer one kind of operation, others mix them
  bool one = r.chance(2, 3);
  unsigned kind = static_cast<unsigned>(c.idx % NT);
  std::vector<std::vector<unsigned>> plan(n);
  std::vector<std::vector<uint64_t>> seeds(n);
  for (unsigned i = 0; i < n; ++i) {
    for (unsigned k = 0; k < steps; ++k) {
      plan[i].push_back(one ? kind : static_cast<unsigned>(r.below(NT)));
      seeds[i].push_back(r.next());
    }
  }
  auto once = [&](unsigned i, unsigned k, std::string & out, long & live) {
      T t(seeds[i][k], i);
      TASKS[plan[i][k]].fn(t);
      out = std::move(t.out);
      live = t.own.live;
    };
  // alone
  std::vector<std::vector<std::string>> alone(n, std::vector<std::string>(steps)), together = alone;
  std::vector<std::vector<long>> live(n, std::vector<long>(steps)), live2 = live;
  for (unsigned i = 0; i < n; ++i) {for (unsigned k = 0; k < steps; ++k) {once(i, k, alone[i][k], live[i][k]);}}
  // together
  std::atomic<unsigned> here{0};
  std::atomic<unsigned> last{99};
  std::atomic<uint64_t> switches{0};
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; ++i) {
    ts.emplace_back([&, i] {
        here.fetch_add(1, std::memory_order_relaxed);
        while (here.load(std::memory_order_relaxed) < n) {}
        for (unsigned k = 0; k < steps; ++k) {
          once(i, k, together[i][k], live2[i][k]);
          if (last.exchange(i, std::memory_order_relaxed) != i) {switches.fetch_add(1, std::memory_order_relaxed);}
        }
      });
  }
  for (auto & t : ts) {t.join();}
  for (unsigned i = 0; i < n; ++i) {
    for (unsigned k = 0; k < steps; ++k) {
      const char * name = TASKS[plan[i][k]].name;
      MON_CHECK(alone[i][k] == together[i][k], fmt("parallel.%s", name), "%s: alone %s, with %u other threads at work %s", name, show(alone[i][k]).c_str(), n - 1,
        show(together[i][k]).c_str());
      MON_CHECK(live[i][k] == live2[i][k], fmt("parallel.%s-memory", name), "%s: %ld blocks left alone, %ld with other threads at work", name, live[i][k], live2[i][k]);
      MON_CHECK(live[i][k] == 0, "parallel.leak", "%s leaves %ld blocks", name, live[i][k]);
      count(fmt("parallel.%s", name));
      c.mix(hash_str(alone[i][k].data(), alone[i][k].size()));
    }
  }
  count("parallel.switches", switches);
  c.mix(switches.load());
  if (switches > n) {c.interesting();}
}

static void reg()
{
  section("parallel", 700, 20000, parallel);
}
MON_MAIN(reg)
#endif
