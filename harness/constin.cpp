// P44: inputs are only read, and only as far as they go. Every input lies in memory that cannot be written, next to memory that cannot be read:
// strings, elements, keys, argument lists, formats, locations, times, allocators, names given by length without a terminator; and the objects
// behind const handles with all they own. Results are those with ordinary copies, also when allocations fail.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"
using namespace mon;

static const size_t PAGE = 4096;

// what the library logs about itself says when
extern "C" int __wrap_clock_gettime(clockid_t, struct timespec * ts) {ts->tv_sec = 1234567890; ts->tv_nsec = 123456789; return 0;}

// Inputs, as ordinary memory or as memory which ends at an unreadable page (or begins after one) and cannot be written
struct In
{
  bool guarded;
  Rng place;
  std::vector<std::pair<char *, size_t>> maps;
  std::vector<void *> heap;
  uint64_t made = 0;
  In(bool g, uint64_t seed) : guarded(g), place(seed) {}
  In(const In &) = delete;
  ~In()
  {
    for (auto & m : maps) {munmap(m.first, m.second);}
    for (void * p : heap) {free(p);}
  }
  void * bytes(const void * d, size_t n)
  {
    made++;
    if (!guarded) {
      void * p = malloc(n ? n : 1);
      if (n) {memcpy(p, d, n);}
      heap.push_back(p);
      return p;
    }
    size_t len = (n + PAGE - 1) / PAGE * PAGE;
    if (!len) {len = PAGE;}
    char * m = static_cast<char *>(mmap(nullptr, len + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) {fail("constin.setup", "mmap");}
    maps.emplace_back(m, len + 2 * PAGE);
    mprotect(m + PAGE, len, PROT_READ | PROT_WRITE);
    bool front = place.chance(1, 4);
    char * p = front ? m + PAGE : m + PAGE + len - n;
    // what else is on the pages would end nothing
    memset(m + PAGE, 'Z', len);
    if (n) {memcpy(p, d, n);}
    mprotect(m + PAGE, len, PROT_READ);
    return p;
  }
  const char * str(const std::string & s) {return static_cast<const char *>(bytes(s.c_str(), s.size() + 1));}
  const char * part(const std::string & s) {return static_cast<const char *>(bytes(s.data(), s.size()));}      // no terminator
  template<class V> const V * obj(const V & v) {return static_cast<const V *>(bytes(&v, sizeof(v)));}
  char ** args(const std::vector<std::string> & v)
  {
    std::vector<const char *> p;
    for (auto & s : v) {p.push_back(str(s));}
    return static_cast<char **>(bytes(p.data(), p.size() * sizeof(char *)));
  }
};

// Memory for objects which is made unwritable as a whole
struct Arena
{
  size_t cap = 1 << 21, used = 0;
  char * m;
  uint64_t calls = 0;
  bool frozen = false;
  Arena() : m(static_cast<char *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))) {}
  Arena(const Arena &) = delete;
  ~Arena() {munmap(m, cap);}
  void * take(size_t n)
  {
    calls++;
    size_t k = (n + 31) / 16 * 16;
    if (used + k > cap) {return nullptr;}
    char * p = m + used + 16;
    memcpy(m + used, &n, sizeof(n));
    used += k;
    return p;
  }
  // what there is, including the object itself, can only be read until thaw()
  void freeze() {used = (used + PAGE - 1) / PAGE * PAGE; mprotect(m, used, PROT_READ); frozen = true;}
  void thaw() {mprotect(m, cap, PROT_READ | PROT_WRITE); frozen = false;}
  static void * al(size_t n, void * s) {return static_cast<Arena *>(s)->take(n);}
  static void * ca(size_t n, size_t e, void * s) {void * p = static_cast<Arena *>(s)->take(n * e); if (p) {memset(p, 0, n * e);} return p;}
  static void * re(void * p, size_t n, void * s)
  {
    void * q = static_cast<Arena *>(s)->take(n);
    if (p && q) {size_t o; memcpy(&o, static_cast<char *>(p) - 16, sizeof(o)); memcpy(q, p, std::min(o, n));}
    return q;
  }
  static void de(void *, void *) {}
  rcutils_allocator_t get() {rcutils_allocator_t a = {al, de, re, ca, this}; return a;}
  template<class V> V * obj() {return static_cast<V *>(ca(1, sizeof(V), this));}
};

struct X
{
  In in;
  Rng g;
  CkAlloc A;
  rcutils_allocator_t a;
  const rcutils_allocator_t * pa;
  std::string out;
  X(bool guarded, uint64_t seed) : in(guarded, seed), g(seed), a(A.get()), pa(in.obj(a)) {}
  void put(const char * f, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap;
    va_start(ap, f);
    out += vfmt(f, ap);
    va_end(ap);
    out += ' ';
  }
  void put(const std::string & s) {out += s; out += ' ';}
  void err()
  {
    if (rcutils_error_is_set()) {put(std::string("[") + rcutils_get_error_state()->message + "]"); rcutils_reset_error();}
  }
  void take(char * p) {put(std::string(p ? p : "-")); a.deallocate(p, a.state);}
  std::string word(const char * al = "ab/.%_ZY9 ") {return g.str(g.chance(1, 12) ? g.below(6000) : g.size(60), al);}
  int sgn(int v) {return v < 0 ? -1 : v > 0;}
};
static std::string g_dir, g_libs;

static void x_find(X & x)
{
  std::string s = x.word(), t = x.word();
  char d = "a/.%b"[x.g.below(5)];
  x.put("%zx %zx", rcutils_find(x.in.str(s), d), rcutils_find_last(x.in.str(s), d));
  x.put("%zx %zx", rcutils_findn(x.in.part(s), d, s.size()), rcutils_find_lastn(x.in.part(s), d, s.size()));
  size_t n = x.g.below(s.size() + 1);
  x.put("%zx %zx", rcutils_findn(x.in.part(s.substr(0, n)), d, n), rcutils_find_lastn(x.in.part(s.substr(0, n)), d, n));
}
static void x_split(X & x)
{
  std::string s = x.word();
  char d = "a/.%b"[x.g.below(5)];
  for (int last = 0; last < 2; ++last) {
    rcutils_string_array_t v = rcutils_get_zero_initialized_string_array();
    const char * p = x.in.str(s);
    rcutils_ret_t r = last ? rcutils_split_last(p, d, x.a, &v) : rcutils_split(p, d, x.a, &v);
    x.put("%d", r);
    x.err();
    for (size_t i = 0; r == RCUTILS_RET_OK && i < v.size; ++i) {x.put(std::string(v.data[i] ? v.data[i] : "-"));}
    x.put("%d", rcutils_string_array_fini(&v));
    x.err();
  }
}
static void x_repl(X & x)
{
  std::string s = x.word(), f = x.g.str(1 + x.g.below(3), "ab/."), t = x.word();
  x.take(rcutils_repl_str(x.in.str(s), x.in.str(f), x.in.str(t), x.pa));
  x.err();
}
static void x_dup(X & x)
{
  std::string s = x.word();
  x.take(rcutils_strdup(x.in.str(s), x.a));
  x.take(rcutils_strndup(x.in.part(s), s.size(), x.a));
  x.take(rcutils_strndup(x.in.str(s), s.size() + x.g.below(3), x.a));
  size_t n = x.g.below(s.size() + 1);
  x.take(rcutils_strndup(x.in.part(s.substr(0, n)), n, x.a));
  x.err();
}
static void x_format(X & x)
{
  std::string s = x.word(), t = x.word("xyz");
  x.take(rcutils_format_string(x.a, x.in.str("<%s|%.*s>"), x.in.str(s), static_cast<int>(t.size()), x.in.part(t)));
  x.take(rcutils_format_string_limit(x.a, x.g.below(4000), x.in.str("%s"), x.in.str(s)));
  x.err();
  char b[80];
  x.put("%d", rcutils_snprintf(b, 1 + x.g.below(80), x.in.str("%d%%%s"), 5, x.in.str(s)));
  x.put(std::string(b));
}
static void vs(X & x, rcutils_char_array_t * c, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  x.put("%d", rcutils_char_array_vsprintf(c, f, ap));
  va_end(ap);
}
static void x_chars(X & x)
{
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  if (rcutils_char_array_init(&c, 1 + x.g.below(20), x.pa) != RCUTILS_RET_OK) {x.put("no"); x.err(); return;}
  c.buffer[0] = 0;
  for (int i = 0; i < 6; ++i) {
    std::string s = x.word();
    size_t n = x.g.below(s.size() + 1);
    switch (x.g.below(5)) {
      case 0: x.put("%d", rcutils_char_array_strcpy(&c, x.in.str(s))); break;
      case 1: x.put("%d", rcutils_char_array_strcat(&c, x.in.str(s))); break;
      case 2: x.put("%d", rcutils_char_array_strncat(&c, x.in.part(s.substr(0, n)), n)); break;
      case 3: s += '\0'; x.put("%d", rcutils_char_array_memcpy(&c, x.in.part(s), s.size())); break;
      default: vs(x, &c, x.in.str("%s-%d"), x.in.str(s), i); break;
    }
    x.err();
    if (c.buffer) {x.put(std::string(c.buffer));}
    x.put("%zu %zu", c.buffer_length, c.buffer_capacity);
    if (!c.buffer) {break;}
  }
  x.put("%d", rcutils_char_array_fini(&c));
  rcutils_uint8_array_t b = rcutils_get_zero_initialized_uint8_array();
  x.put("%d", rcutils_uint8_array_init(&b, 1 + x.g.below(20), x.pa));
  x.err();
  x.put("%d", rcutils_uint8_array_fini(&b));
  x.err();
}
static void x_case(X & x)
{
  std::string s = x.word("aAbB"), t = x.g.chance(1, 2) ? s : x.word("aAbB");
  for (auto & c : t) {if (x.g.chance(1, 5)) {c = static_cast<char>(c ^ 32);}}
  int v = 0;
  x.put("%d", rcutils_strcasecmp(x.in.str(s), x.in.str(t), &v));
  x.put("%d", x.sgn(v));
  size_t n = std::min(s.size(), t.size());
  x.put("%d", rcutils_strncasecmp(x.in.part(s.substr(0, n)), x.in.part(t.substr(0, n)), n, &v));
  x.put("%d", x.sgn(v));
  x.put("%d", rcutils_strncasecmp(x.in.str(s), x.in.str(t), 100, &v));
  x.put("%d", x.sgn(v));
}
static void x_list(X & x)
{
  size_t es = 1 + x.g.size(300);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  if (rcutils_array_list_init(&l, 1 + x.g.below(5), es, x.pa) != RCUTILS_RET_OK) {x.put("no"); x.err(); return;}
  for (int i = 0; i < 14; ++i) {
    std::string e = x.g.bytes(es);
    size_t at = x.g.below(12);
    bool add = x.g.chance(2, 3);
    x.put("%d", add ? rcutils_array_list_add(&l, x.in.part(e)) : rcutils_array_list_set(&l, at, x.in.part(e)));
    x.err();
  }
  size_t n = 0;
  rcutils_array_list_get_size(&l, &n);
  std::string e(es, 0);
  for (size_t i = 0; i < n; ++i) {x.put("%d", rcutils_array_list_get(x.in.obj(l), i, &e[0])); x.put(e);}
  x.put("%d", rcutils_array_list_get_size(x.in.obj(l), &n));
  x.put("%zu %d", n, rcutils_array_list_fini(&l));
}
static size_t hash(const void * k) {uint32_t v; memcpy(&v, k, 4); return v % 7;}
static int cmp(const void * p, const void * q) {return memcmp(p, q, 4);}
static void x_map(X & x)
{
  size_t ds = 1 + x.g.size(100);
  bool strings = x.g.chance(1, 2);
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  if (rcutils_hash_map_init(&m, 1 + x.g.below(6), strings ? 8 : 4, ds, strings ? rcutils_hash_map_string_hash_func : hash, strings ? rcutils_hash_map_string_cmp_func : cmp, x.pa) != RCUTILS_RET_OK) {
    x.put("no");
    x.err();
    return;
  }
  auto key = [&](uint32_t k) {
      return strings ? static_cast<const void *>(x.in.obj(x.in.str(fmt("key %u", k)))) : static_cast<const void *>(x.in.obj(k));
    };
  std::string v(ds, 0);
  for (int i = 0; i < 25; ++i) {
    uint32_t k = static_cast<uint32_t>(x.g.below(15));
    switch (x.g.below(6)) {
      case 0: x.put("%d", rcutils_hash_map_unset(&m, key(k))); break;
      case 1: x.put("%d", rcutils_hash_map_get(x.in.obj(m), key(k), &v[0])); x.put(v); break;
      case 2: x.put("%d", rcutils_hash_map_key_exists(x.in.obj(m), key(k))); break;
      default: v = x.g.bytes(ds); x.put("%d", rcutils_hash_map_set(&m, key(k), x.in.part(v))); break;
    }
    x.err();
  }
  // listing: the previous key is an input
  uint64_t k = 0;
  size_t n = 0;
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(x.in.obj(m), nullptr, &k, &v[0]);
  while (r == RCUTILS_RET_OK && n++ < 100) {
    x.put(v);
    r = rcutils_hash_map_get_next_key_and_data(x.in.obj(m), x.in.bytes(&k, strings ? 8 : 4), &k, &v[0]);
  }
  x.put("%zu %d", n, r);
  x.put("%d %zu", rcutils_hash_map_get_size(x.in.obj(m), &n), n);
  x.put("%d %zu", rcutils_hash_map_get_capacity(x.in.obj(m), &n), n);
  std::string s = x.word();
  x.put("%zx", rcutils_hash_map_string_hash_func(x.in.obj(x.in.str(s))));
  x.put("%d", x.sgn(rcutils_hash_map_string_cmp_func(x.in.obj(x.in.str(s)), x.in.obj(x.in.str(x.word())))));
  x.put("%d", rcutils_hash_map_fini(&m));
  x.err();
}
static void x_smap(X & x)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  if (rcutils_string_map_init(&m, x.g.below(4), x.a) != RCUTILS_RET_OK) {x.put("no"); x.err(); return;}
  for (int i = 0; i < 25; ++i) {
    std::string k = x.g.str(1 + x.g.below(3), "ab"), v = x.word();
    const char * r = nullptr;
    switch (x.g.below(8)) {
      case 0: x.put("%d", rcutils_string_map_unset(&m, x.in.str(k))); break;
      case 1: x.put("%d", rcutils_string_map_set_no_resize(&m, x.in.str(k), x.in.str(v))); break;
      case 2: r = rcutils_string_map_get(x.in.obj(m), x.in.str(k)); x.put(std::string(r ? r : "-")); break;
      case 3: r = rcutils_string_map_getn(x.in.obj(m), x.in.part(k), k.size()); x.put(std::string(r ? r : "-")); break;
      case 4: x.put("%d%d", rcutils_string_map_key_exists(x.in.obj(m), x.in.str(k)), rcutils_string_map_key_existsn(x.in.obj(m), x.in.part(k), k.size())); break;
      default: x.put("%d", rcutils_string_map_set(&m, x.in.str(k), x.in.str(v))); break;
    }
    x.err();
  }
  x.put("%d", rcutils_string_map_fini(&m));
  x.err();
}
static void x_args(X & x)
{
  std::vector<std::string> v;
  for (size_t n = x.g.below(6); n; --n) {v.push_back(x.g.chance(1, 2) ? "-o" : x.word());}
  char ** b = x.in.args(v), ** e = b + v.size();
  std::string o = x.g.chance(1, 2) ? "-o" : x.word();
  const char * r = rcutils_cli_get_option(b, e, x.in.str(o));
  x.put("%d", rcutils_cli_option_exist(b, e, x.in.str(o)));
  x.put(std::string(r ? r : "-"));
}
static void x_time(X & x)
{
  rcutils_time_point_value_t t = static_cast<int64_t>(x.g.next() >> (1 + x.g.below(40)));
  char b[60];
  memset(b, 0, sizeof(b));
  x.put("%d", rcutils_time_point_value_as_nanoseconds_string(x.in.obj(t), b, 1 + x.g.below(60)));
  x.put(std::string(b));
  x.put("%d", rcutils_time_point_value_as_seconds_string(x.in.obj(t), b, 1 + x.g.below(60)));
  x.put(std::string(b));
  x.put("%d", rcutils_time_point_value_as_date_string(x.in.obj(t), b, 1 + x.g.below(60)));
  x.put(std::string(b));
  x.err();
  x.put("%d", rcutils_allocator_is_valid(x.pa));
}
static void x_sha(X & x)
{
  rcutils_sha256_ctx_t c;
  rcutils_sha256_init(&c);
  for (size_t n = x.g.below(6); n; --n) {
    std::string s = x.g.bytes(x.g.size(300));
    rcutils_sha256_update(&c, reinterpret_cast<const uint8_t *>(x.in.part(s)), s.size());
  }
  uint8_t d[32];
  rcutils_sha256_final(&c, d);
  x.put(std::string(reinterpret_cast<char *>(d), 32));
}
static void x_paths(X & x)
{
  std::string s = x.word(), t = x.word();
  setenv("HOME", "/home/of/nobody", 1);
  x.take(rcutils_join_path(x.in.str(s), x.in.str(t), x.a));
  x.take(rcutils_to_native_path(x.in.str(s), x.a));
  x.take(rcutils_expand_user(x.in.str(x.g.chance(1, 2) ? "~" + s : s), x.a));
  x.err();
  static const char * const names[] = {"", "/f", "/d", "/d/g", "/none", "/d/"};
  std::string p = g_dir + names[x.g.below(6)];
  auto q = [&] {return x.in.str(p);};
  x.put("%d%d%d%d%d%d", rcutils_is_directory(q()), rcutils_is_file(q()), rcutils_exists(q()), rcutils_is_readable(q()), rcutils_is_writable(q()), rcutils_is_readable_and_writable(q()));
  {
    Capture c(stderr, 2);
    x.put("%zu", rcutils_get_file_size(q()));
  }
  x.err();
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(q(), x.a);
  x.err();
  size_t n = 0;
  if (it) {
    do {n++;} while (rcutils_dir_iter_next(it));
    rcutils_dir_iter_end(it);
  }
  uint64_t size = 0;
  x.put("%zu", n);
  x.put("%d", rcutils_calculate_directory_size(q(), &size, x.a));
  x.put("%" PRIu64, size);
  x.err();
  x.put("%d", rcutils_calculate_directory_size_with_recursion(q(), 0, &size, x.a));
  x.put("%" PRIu64, size);
  x.err();
  std::string made = g_dir + "/made";
  x.put("%d", rcutils_mkdir(x.in.str(made)));
  x.put("%d", rmdir(made.c_str()));
  x.put("%d", rcutils_mkdir(x.in.str("relative")));
  x.err();
}
static void x_env(X & x)
{
  std::string n = "MON_" + x.g.str(x.g.below(20), "AB"), v = x.word();
  const char * r = nullptr;
  x.put("%d", rcutils_set_env(x.in.str(n), x.in.str(v)));
  const char * bad = rcutils_get_env(x.in.str(n), &r);
  x.put(std::string(bad ? bad : r));
  x.put("%d", rcutils_set_env_overwrite(x.in.str(n), x.in.str("other"), x.g.chance(1, 2)));
  bad = rcutils_get_env(x.in.str(n), &r);
  x.put(std::string(bad ? bad : r));
  x.put("%d", rcutils_set_env(x.in.str(n), nullptr));
  x.err();
}
static void x_lib(X & x)
{
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  std::string p = x.g.chance(1, 4) ? "/none/" + x.word("ab") : g_libs + "/libmon_" + "abc"[x.g.below(3)] + ".so";
  rcutils_ret_t r = rcutils_load_shared_library(&l, x.in.str(p), x.a);
  x.put("%d", r);
  if (rcutils_error_is_set()) {x.put("E"); rcutils_reset_error();}
  if (r == RCUTILS_RET_OK) {
    x.put("%d", rcutils_has_symbol(x.in.obj(l), x.in.str("mon_id")));
    x.put("%d", rcutils_has_symbol(x.in.obj(l), x.in.str("mon_none")));
    rcutils_reset_error();
    x.put("%d", rcutils_get_symbol(x.in.obj(l), x.in.str("mon_id")) != nullptr);
    x.put("%d", rcutils_get_symbol(x.in.obj(l), x.in.str("mon_none")) != nullptr);
    x.err();
    x.put("%d", rcutils_unload_shared_library(&l));
  }
  x.err();
  char b[80] = "";
  x.put("%d", rcutils_get_platform_library_name(x.in.str(x.g.str(1 + x.g.below(70), "lib")), b, static_cast<unsigned>(10 + x.g.below(70)), x.g.chance(1, 2)));
  if (!rcutils_error_is_set()) {x.put(std::string(b));}
  x.err();
}
static void x_error(X & x)
{
  std::string m = x.word(), f = x.word("abc/.");
  Capture c(stderr, 2);
  rcutils_set_error_state(x.in.str(m), x.in.str(f), x.g.below(9999));
  if (x.g.chance(1, 3)) {rcutils_set_error_state(x.in.str("again"), x.in.str(f), 3);}
  x.put(std::string(rcutils_get_error_state()->message));
  x.put(std::string(rcutils_get_error_string().str));
  rcutils_reset_error();
}

// logging: the handler keeps what it is given
static std::string g_record;
static void handler(const rcutils_log_location_t * l, int s, const char * name, rcutils_time_point_value_t, const char * f, va_list * args)
{
  va_list a;
  va_copy(a, *args);
  g_record += fmt("%s:%s:%zu:%d:%s:", l ? l->function_name : "", l ? l->file_name : "", l ? l->line_number : 0, s, name) + vfmt(f, a);
  va_end(a);
}
static void console(const rcutils_log_location_t * l, int s, const char * name, const char * f, ...)
{
  va_list a;
  va_start(a, f);
  rcutils_logging_console_output_handler(l, s, name, 1234567890123456789, f, &a);
  va_end(a);
}
static void x_log(X & x)
{
  static const char * const names[] = {"l", "l.a", "l.a.b", "l.c", "m", "m.long_name_of_a_logger", ""};
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "[{severity}] {time} {name} {function_name} {file_name} {line_number} {message}", 1);
  setenv("RCUTILS_COLORIZED_OUTPUT", x.g.chance(1, 2) ? "1" : "0", 1);
  setenv("RCUTILS_LOGGING_USE_STDOUT", "0", 1);
  (void)!rcutils_logging_shutdown();
  rcutils_logging_initialize_with_allocator(x.a);
  x.err();
  Capture cap(stderr, 2);
  for (int i = 0; i < 12; ++i) {
    std::string n = x.g.chance(1, 20) ? x.g.str(3000, "n.") : names[x.g.below(7)], msg = x.word(), f = "function", file = "some/file.c";
    int s = static_cast<int>(10 * (1 + x.g.below(5)));
    rcutils_log_location_t loc = {x.in.str(f), x.in.str(file), x.g.below(1000)};
    const rcutils_log_location_t * pl = x.g.chance(1, 5) ? nullptr : x.in.obj(loc);
    switch (x.g.below(9)) {
      case 0: if (!n.empty()) {x.put("%d", rcutils_logging_set_logger_level(x.in.str(n), s));} break;
      case 1: x.put("%d", rcutils_logging_get_logger_level(x.in.str(n))); break;
      case 2: x.put("%d", rcutils_logging_get_logger_leveln(x.in.part(n), n.size())); break;
      case 3: x.put("%d", rcutils_logging_get_logger_effective_level(x.in.str(n))); break;
      case 4: x.put("%d", rcutils_logging_logger_is_enabled_for(x.in.str(n), s)); break;
      case 5: {
          rcutils_logging_set_output_handler(x.g.chance(1, 2) ? handler : rcutils_logging_console_output_handler);
          const char * fm = x.in.str("%s=%.*s");
          const char * a1 = x.in.str(f), * a2 = x.in.part(msg);
          // the time of day is not compared
          if (rcutils_logging_get_output_handler() == handler) {
            rcutils_log(pl, s, x.in.str(n), fm, a1, static_cast<int>(msg.size()), a2);
            rcutils_log_internal(pl, s, x.in.str(n), fm, a1, static_cast<int>(msg.size()), a2);
          }
          break;
        }
      case 6: console(pl, s, x.in.str(n), x.in.str("%s/%s"), x.in.str(msg), x.in.str(f)); break;
      case 7: {
          rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
          if (rcutils_char_array_init(&c, 10, x.pa) == RCUTILS_RET_OK) {
            c.buffer[0] = 0;
            x.put("%d", rcutils_logging_format_message(pl, s, x.in.str(n), 1234567890123456789, x.in.str(msg), &c));
            if (c.buffer) {x.put(std::string(c.buffer));}
            x.put("%d", rcutils_char_array_fini(&c));
          }
          break;
        }
      default: {
          int v = -1;
          static const char * const sev[] = {"INFO", "debug", "Fatal", "nothing", "WARN"};
          x.put("%d", rcutils_logging_severity_level_from_string(x.in.str(sev[x.g.below(5)]), x.a, &v));
          x.put("%d", v);
          break;
        }
    }
    x.err();
    x.put(g_record);
    g_record.clear();
  }
  x.put(cap.stop());
  x.put("%d", rcutils_logging_shutdown());
  x.err();
}

struct Op {const char * name; void (* fn)(X &);};
static const Op OPS[] = {{"find", x_find}, {"split", x_split}, {"repl", x_repl}, {"dup", x_dup}, {"format", x_format}, {"chars", x_chars}, {"case", x_case}, {"list", x_list},
  {"map", x_map}, {"string map", x_smap}, {"arguments", x_args}, {"time", x_time}, {"sha", x_sha}, {"paths", x_paths}, {"environment", x_env}, {"library", x_lib}, {"error", x_error},
  {"logging", x_log}};
static const unsigned NO = sizeof(OPS) / sizeof(OPS[0]);

static void setup()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  setenv("TZ", "XXX-5:30", 1);
  tzset();
  char exe[4096];
  ssize_t len = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  g_libs.assign(exe, len > 0 ? static_cast<size_t>(len) : 0);
  g_libs = g_libs.substr(0, g_libs.rfind('/')) + "/aux";
  g_dir = run().scratch + "/dir";
  mkdir(g_dir.c_str(), 0755);
  mkdir((g_dir + "/d").c_str(), 0755);
  for (const char * f : {"/f", "/d/g"}) {
    int fd = open((g_dir + f).c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) {if (ftruncate(fd, 100)) {} close(fd);}
  }
}

static void inputs(Case & c)
{
  setup();
  const Op & op = OPS[c.idx % NO];
  for (int round = 0; round < 6; ++round) {
    uint64_t seed = c.rng.next();
    // the first fault comes when it comes; without faults, the results are complete
    uint64_t nth = c.rng.chance(1, 2) ? 1 + c.rng.below(12) : 0;
    bool forever = c.rng.chance(1, 2);
    std::string out[2];
    uint64_t made = 0, failures = 0;
    for (int guarded = 0; guarded < 2; ++guarded) {
      X x(guarded != 0, seed);
      if (nth) {x.A.arm(nth, forever);}
      op.fn(x);
      failures = x.A.failures;
      x.A.disarm();
      raise();
      check_empty(x.A, op.name);
      out[guarded] = x.out;
      made = x.in.made;
    }
    size_t d = 0;       // where they differ
    while (d < out[0].size() && d < out[1].size() && out[0][d] == out[1][d]) {++d;}
    d = d < 60 ? 0 : d - 60;
    MON_CHECK(out[0] == out[1], fmt("constin.%s", op.name), "%s: %s with ordinary inputs, %s with inputs that can only be read", op.name, show(out[0].substr(d)).c_str(),
      show(out[1].substr(d)).c_str());
    count(fmt("inputs.%s", op.name), made);
    if (failures) {count("failed allocations", failures);}
    c.mix(hash_str(out[0].data(), out[0].size()));
    if (made > 2) {c.interesting();}
    if (round == 0) {c.sample(fmt("%s with %" PRIu64 " inputs: %s", op.name, made, show(out[0], 80).c_str()));}
  }
}

// ------------------------------------------------------------------ objects behind const handles
static void objects(Case & c)
{
  Rng & g = c.rng;
  Arena ar;
  CkAlloc other;
  rcutils_allocator_t al = ar.get();
  unsigned n = static_cast<unsigned>(g.size(40)), looked = 0;
  unsigned kind = static_cast<unsigned>(c.idx % 5);
  switch (kind) {
    case 0: {
        size_t es = 1 + g.size(60);
        auto * l = ar.obj<rcutils_array_list_t>();
        MON_CHECK(rcutils_array_list_init(l, 1 + g.below(5), es, &al) == RCUTILS_RET_OK, "constin.object", "init");
        std::vector<std::string> m;
        for (unsigned i = 0; i < n; ++i) {m.push_back(g.bytes(es)); (void)!rcutils_array_list_add(l, m.back().data());}
        for (int i = 0; i < 5 && !m.empty(); ++i) {size_t k = g.below(m.size()); (void)!rcutils_array_list_remove(l, k); m.erase(m.begin() + static_cast<long>(k));}
        ar.freeze();
        std::string e(es, 0);
        size_t sz = 99;
        for (int i = 0; i < 20; ++i) {
          size_t k = g.below(m.size() + 2);
          rcutils_ret_t r = rcutils_array_list_get(l, k, &e[0]);
          MON_CHECK(k < m.size() ? r == RCUTILS_RET_OK && e == m[k] : r == RCUTILS_RET_INVALID_ARGUMENT, "constin.object", "element %zu of %zu: %d", k, m.size(), r);
          MON_CHECK(rcutils_array_list_get_size(l, &sz) == RCUTILS_RET_OK && sz == m.size(), "constin.object", "size %zu", sz);
          looked += 2;
        }
        ar.thaw();
        rcutils_reset_error();
        MON_CHECK(rcutils_array_list_fini(l) == RCUTILS_RET_OK, "constin.object", "fini");
        break;
      }
    case 1: {
        auto * h = ar.obj<rcutils_hash_map_t>();
        MON_CHECK(rcutils_hash_map_init(h, 1 + g.below(9), 4, 8, hash, cmp, &al) == RCUTILS_RET_OK, "constin.object", "init");
        std::map<uint32_t, uint64_t> m;
        for (unsigned i = 0; i < n; ++i) {
          uint32_t k = static_cast<uint32_t>(g.below(50));
          if (g.chance(1, 4)) {(void)!rcutils_hash_map_unset(h, &k); m.erase(k);} else {m[k] = g.next(); (void)!rcutils_hash_map_set(h, &k, &m[k]);}
        }
        ar.freeze();
        for (int i = 0; i < 20; ++i) {
          uint32_t k = static_cast<uint32_t>(g.below(50));
          uint64_t v = 0;
          size_t sz = 99;
          rcutils_ret_t r = rcutils_hash_map_get(h, &k, &v);
          MON_CHECK(m.count(k) ? r == RCUTILS_RET_OK && v == m[k] : r == RCUTILS_RET_NOT_FOUND, "constin.object", "key %u: %d", k, r);
          MON_CHECK(rcutils_hash_map_key_exists(h, &k) == (m.count(k) != 0), "constin.object", "key %u", k);
          MON_CHECK(rcutils_hash_map_get_size(h, &sz) == RCUTILS_RET_OK && sz == m.size(), "constin.object", "size %zu", sz);
          MON_CHECK(rcutils_hash_map_get_capacity(h, &sz) == RCUTILS_RET_OK && sz > 0, "constin.object", "capacity %zu", sz);
          looked += 4;
        }
        for (int twice = 0; twice < 2; ++twice) {
          uint32_t k = 0, was = 0;
          uint64_t v = 0;
          size_t found = 0;
          rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(h, nullptr, &k, &v);
          while (r == RCUTILS_RET_OK && found <= m.size()) {
            MON_CHECK(m.count(k) && m[k] == v, "constin.object", "entry %u", k);
            found++;
            was = k;
            r = rcutils_hash_map_get_next_key_and_data(h, &was, &k, &v);
          }
          MON_CHECK(found == m.size(), "constin.object", "%zu entries of %zu", found, m.size());
          looked++;
        }
        ar.thaw();
        rcutils_reset_error();
        MON_CHECK(rcutils_hash_map_fini(h) == RCUTILS_RET_OK, "constin.object", "fini");
        break;
      }
    case 2: {
        auto * s = ar.obj<rcutils_string_map_t>();
        MON_CHECK(rcutils_string_map_init(s, g.below(9), al) == RCUTILS_RET_OK, "constin.object", "init");
        std::map<std::string, std::string> m;
        for (unsigned i = 0; i < n; ++i) {
          std::string k = g.str(1 + g.below(3), "abc"), v = g.str(g.size(20), "xyz");
          if (g.chance(1, 4)) {(void)!rcutils_string_map_unset(s, k.c_str()); m.erase(k); rcutils_reset_error();} else {m[k] = v; (void)!rcutils_string_map_set(s, k.c_str(), v.c_str());}
        }
        ar.freeze();
        for (int i = 0; i < 20; ++i) {
          std::string k = g.str(1 + g.below(3), "abc");
          size_t sz = 99;
          const char * a = rcutils_string_map_get(s, k.c_str()), * b = rcutils_string_map_getn(s, k.data(), k.size());
          MON_CHECK(a == b && (a != nullptr) == (m.count(k) != 0) && (!a || m[k] == a), "constin.object", "key %s: %s", k.c_str(), show(a).c_str());
          MON_CHECK(rcutils_string_map_key_exists(s, k.c_str()) == (m.count(k) != 0) && rcutils_string_map_key_existsn(s, k.data(), k.size()) == (m.count(k) != 0), "constin.object",
            "key %s", k.c_str());
          MON_CHECK(rcutils_string_map_get_size(s, &sz) == RCUTILS_RET_OK && sz == m.size(), "constin.object", "size %zu", sz);
          MON_CHECK(rcutils_string_map_get_capacity(s, &sz) == RCUTILS_RET_OK && sz >= m.size(), "constin.object", "capacity %zu", sz);
          rcutils_reset_error();
          looked += 6;
        }
        size_t found = 0;
        for (const char * k = rcutils_string_map_get_next_key(s, nullptr); k && found <= m.size(); k = rcutils_string_map_get_next_key(s, k)) {
          MON_CHECK(m.count(k), "constin.object", "key %s", show(k).c_str());
          found++;
        }
        MON_CHECK(found == m.size(), "constin.object", "%zu keys of %zu", found, m.size());
        // copied from
        rcutils_string_map_t d = rcutils_get_zero_initialized_string_map();
        MON_CHECK(rcutils_string_map_init(&d, g.below(4), other.get()) == RCUTILS_RET_OK, "constin.object", "init");
        (void)!rcutils_string_map_set(&d, "own", "x");
        bool fails = g.chance(1, 3);
        if (fails) {other.arm(1 + g.below(6), g.chance(1, 2));}
        rcutils_ret_t r = rcutils_string_map_copy(s, &d);
        bool failed = other.failures != 0;
        other.disarm();
        MON_CHECK(failed || r == RCUTILS_RET_OK, "constin.object", "copy: %d", r);
        rcutils_reset_error();
        if (r == RCUTILS_RET_OK) {for (auto & e : m) {const char * v = rcutils_string_map_get(&d, e.first.c_str()); MON_CHECK(v && e.second == v, "constin.object", "copied value %s", show(v).c_str());}}
        MON_CHECK(rcutils_string_map_fini(&d) == RCUTILS_RET_OK, "constin.object", "fini");
        looked++;
        ar.thaw();
        MON_CHECK(rcutils_string_map_fini(s) == RCUTILS_RET_OK, "constin.object", "fini");
        break;
      }
    case 3: {
        auto * p = ar.obj<rcutils_string_array_t>(), * q = ar.obj<rcutils_string_array_t>();
        std::vector<std::string> v[2];
        int i = 0;
        for (auto * t : {p, q}) {
          size_t k = 1 + g.size(12);
          MON_CHECK(rcutils_string_array_init(t, k, &al) == RCUTILS_RET_OK, "constin.object", "init");
          for (size_t j = 0; j < k; ++j) {v[i].push_back(g.str(1 + g.below(2), "ab")); t->data[j] = rcutils_strdup(v[i].back().c_str(), al);}
          ++i;
        }
        ar.freeze();
        int r = 9;
        MON_CHECK(rcutils_string_array_cmp(p, q, &r) == RCUTILS_RET_OK && (r < 0) == (v[0] < v[1]) && (r > 0) == (v[1] < v[0]), "constin.object", "comparison: %d", r);
        MON_CHECK(rcutils_string_array_cmp(p, p, &r) == RCUTILS_RET_OK && r == 0, "constin.object", "comparison with itself: %d", r);
        for (size_t a = 0; a < v[0].size(); ++a) {
          size_t b = g.below(v[0].size());
          r = rcutils_string_array_sort_compare(&p->data[a], &p->data[b]);
          MON_CHECK((r < 0) == (v[0][a] < v[0][b]) && (r > 0) == (v[0][b] < v[0][a]), "constin.object", "comparison of %s and %s: %d", v[0][a].c_str(), v[0][b].c_str(), r);
          looked++;
        }
        ar.thaw();
        MON_CHECK(rcutils_string_array_fini(p) == RCUTILS_RET_OK && rcutils_string_array_fini(q) == RCUTILS_RET_OK, "constin.object", "fini");
        looked += 2;
        n = static_cast<unsigned>(v[0].size());
        break;
      }
    default: {
        // what logging knows, when it is only asked
        (void)!rcutils_logging_shutdown();
        MON_CHECK(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "constin.object", "logging does not initialize");
        std::map<std::string, int> m;
        for (unsigned i = 0; i < n; ++i) {
          std::string k = g.str(1, "abc") + "." + g.str(1, "abc");
          int s = static_cast<int>(10 * (1 + g.below(5)));
          MON_CHECK(rcutils_logging_set_logger_level(k.c_str(), s) == RCUTILS_RET_OK, "constin.object", "level");
          m[k] = s;
        }
        rcutils_logging_set_output_handler(handler);
        ar.freeze();
        for (int i = 0; i < 20; ++i) {
          std::string k = g.str(1, "abc") + "." + g.str(1, "abc");
          int want = m.count(k) ? m[k] : 20, s = static_cast<int>(10 * (1 + g.below(5)));
          std::string sub = k + ".sub";
          MON_CHECK(rcutils_logging_get_logger_level(k.c_str()) == (m.count(k) ? m[k] : 0), "constin.object", "level of %s", k.c_str());
          MON_CHECK(rcutils_logging_get_logger_effective_level(sub.c_str()) == want, "constin.object", "effective level of %s", sub.c_str());
          MON_CHECK(rcutils_logging_logger_is_enabled_for(k.c_str(), s) == (s >= want), "constin.object", "enablement of %s", k.c_str());
          rcutils_log(nullptr, s, sub.c_str(), "%d", i);
          MON_CHECK(g_record.empty() == (s < want), "constin.object", "record for %s", sub.c_str());
          g_record.clear();
          rcutils_reset_error();
          looked += 4;
        }
        ar.thaw();
        MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "constin.object", "shutdown");
        break;
      }
  }
  check_empty(other, "objects");
  count("looked at unwritable objects", looked);
  c.mix(kind); c.mix(n); c.mix(ar.used); c.mix(g.next());
  if (n > 2) {c.interesting();}
}

static void reg()
{
  section("inputs", 2700, 90000, inputs);
  section("objects", 2000, 60000, objects);
}
MON_MAIN(reg)
