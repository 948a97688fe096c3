// P45: work and memory grow in proportion to the data. Every workload runs at two sizes, eight times apart, with the same parameters; in between the
// basic blocks executed in the library (a hook compiled in), the bytes handled by the C library's string functions for it, the bytes handed out and moved
// by the allocator, and the calls of hashes and comparisons are counted.
#include <dirent.h>
#include <cstdarg>
#include "mon.hpp"
#include "capture.hpp"
#include "rcutils/cmdline_parser.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"

using namespace mon;

#define OK(call) do {rcutils_ret_t r_ = (call); if (r_ != RCUTILS_RET_OK) {P.off(); MON_CHECK(false, "growth.ret", #call " -> %d", static_cast<int>(r_));}} while (0)

static const size_t STEP = 8;
enum {BLOCKS, BYTES, MEMORY, CALLS, PEAK, NCOUNTS};
static const char * const COUNTS[] = {"basic blocks", "bytes through the C library", "bytes from the allocator", "calls of what it was given", "bytes in use"};
static bool g_on = false;
static uint64_t g_n[NCOUNTS], g_use = 0;

// ---------------------------------------------------------------- what is counted
extern "C" {
void __sanitizer_cov_trace_pc(void) {if (g_on) {++g_n[BLOCKS];}}
#define DID(n) do {if (g_on) {g_n[BYTES] += (n) + 1;}} while (0)
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void * __real_memchr(const void *, int, size_t);
size_t __real_strlen(const char *);
size_t __real_strnlen(const char *, size_t);
int __real_strcmp(const char *, const char *);
int __real_strncmp(const char *, const char *, size_t);
int __real_strcasecmp(const char *, const char *);
int __real_strncasecmp(const char *, const char *, size_t);
char * __real_strcpy(char *, const char *);
char * __real_strncpy(char *, const char *, size_t);
char * __real_strcat(char *, const char *);
char * __real_strncat(char *, const char *, size_t);
char * __real_strchr(const char *, int);
char * __real_strrchr(const char *, int);
char * __real_strstr(const char *, const char *);
int __real_vsnprintf(char *, size_t, const char *, va_list);
static size_t same(const char * a, const char * b, size_t n)
{
  size_t i = 0;
  while (i < n && a[i] == b[i] && a[i]) {++i;}
  return i;
}
void * __wrap_memcpy(void * d, const void * s, size_t n) {DID(n); return __real_memcpy(d, s, n);}
void * __wrap_memmove(void * d, const void * s, size_t n) {DID(n); return __real_memmove(d, s, n);}
void * __wrap_memset(void * d, int c, size_t n) {DID(n); return __real_memset(d, c, n);}
int __wrap_memcmp(const void * a, const void * b, size_t n)
{
  if (g_on) {
    size_t i = 0;
    while (i < n && static_cast<const char *>(a)[i] == static_cast<const char *>(b)[i]) {++i;}
    DID(i);
  }
  return __real_memcmp(a, b, n);
}
void * __wrap_memchr(const void * a, int c, size_t n)
{
  void * r = __real_memchr(a, c, n);
  DID(r ? static_cast<size_t>(static_cast<const char *>(r) - static_cast<const char *>(a)) : n);
  return r;
}
size_t __wrap_strlen(const char * s) {size_t n = __real_strlen(s); DID(n); return n;}
size_t __wrap_strnlen(const char * s, size_t m) {size_t n = __real_strnlen(s, m); DID(n); return n;}
int __wrap_strcmp(const char * a, const char * b) {if (g_on) {DID(same(a, b, SIZE_MAX));} return __real_strcmp(a, b);}
int __wrap_strncmp(const char * a, const char * b, size_t n) {if (g_on) {DID(same(a, b, n));} return __real_strncmp(a, b, n);}
int __wrap_strcasecmp(const char * a, const char * b) {if (g_on) {DID(same(a, b, SIZE_MAX));} return __real_strcasecmp(a, b);}
int __wrap_strncasecmp(const char * a, const char * b, size_t n) {if (g_on) {DID(same(a, b, n));} return __real_strncasecmp(a, b, n);}
char * __wrap_strcpy(char * d, const char * s) {if (g_on) {DID(__real_strlen(s));} return __real_strcpy(d, s);}
char * __wrap_strncpy(char * d, const char * s, size_t n) {DID(n); return __real_strncpy(d, s, n);}
char * __wrap_strcat(char * d, const char * s) {if (g_on) {DID(__real_strlen(s) + __real_strlen(d));} return __real_strcat(d, s);}
char * __wrap_strncat(char * d, const char * s, size_t n) {if (g_on) {DID(__real_strnlen(s, n) + __real_strlen(d));} return __real_strncat(d, s, n);}
char * __wrap_strchr(const char * s, int c)
{
  char * r = __real_strchr(s, c);
  if (g_on) {DID(r ? static_cast<size_t>(r - s) : __real_strlen(s));}
  return r;
}
char * __wrap_strrchr(const char * s, int c) {if (g_on) {DID(__real_strlen(s));} return __real_strrchr(s, c);}
char * __wrap_strstr(const char * s, const char * f)
{
  char * r = __real_strstr(s, f);
  if (g_on) {DID(__real_strlen(f) + (r ? static_cast<size_t>(r - s) : __real_strlen(s)));}
  return r;
}
int __wrap_vsnprintf(char * d, size_t n, const char * f, va_list a)
{
  int r = __real_vsnprintf(d, n, f, a);
  if (g_on && r > 0) {DID(static_cast<size_t>(r));}
  return r;
}
int __wrap_snprintf(char * d, size_t n, const char * f, ...)
{
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
}

// an allocator which always moves
struct Header {size_t n, pad;};
static void * give(size_t n, void *)
{
  Header * h = static_cast<Header *>(malloc(sizeof(Header) + n));
  if (!h) {abort();}
  h->n = n;
  if (g_on) {
    g_n[MEMORY] += n + 1;
  }
  g_use += n;
  g_n[PEAK] = std::max(g_n[PEAK], g_use);
  return h + 1;
}
static void take(void * p, void *)
{
  if (!p) {return;}
  g_use -= (static_cast<Header *>(p) - 1)->n;
  free(static_cast<Header *>(p) - 1);
}
static void * move(void * p, size_t n, void * s)
{
  void * q = give(n, s);
  if (p) {
    __real_memcpy(q, p, std::min(n, (static_cast<Header *>(p) - 1)->n));
    take(p, s);
  }
  return q;
}
static void * zero(size_t n, size_t m, void * s)
{
  void * p = give(n * m, s);
  __real_memset(p, 0, n * m);
  return p;
}
static rcutils_allocator_t alloc()
{
  rcutils_allocator_t a;
  a.allocate = give;
  a.deallocate = take;
  a.reallocate = move;
  a.zero_allocate = zero;
  a.state = nullptr;
  return a;
}

// ---------------------------------------------------------------- measuring
struct Phase {std::string name; double order; uint64_t n[NCOUNTS];};
struct Probe
{
  std::vector<Phase> done;
  uint64_t base = 0;
  // order: how the work grows with the size: 0 not at all, 1 in proportion, 2 with the square
  void on() {g_on = true;}
  void off() {g_on = false;}
  void begin(const char * name, double order)
  {
    off();
    done.push_back({name, order, {}});
    memset(g_n, 0, sizeof(g_n));
    base = g_n[PEAK] = g_use;
    on();
  }
  void end()
  {
    off();
    for (int i = 0; i < NCOUNTS; ++i) {done.back().n[i] = g_n[i];}
    done.back().n[PEAK] -= base;
  }
};
struct In
{
  Probe & P;
  In(Probe & p, const char * name, double order) : P(p) {P.begin(name, order);}
  ~In() {P.end();}
};
#define DO(name, order) if (In in_{P, name, order}; true)

typedef std::function<void (Probe &, size_t, Rng)> Kind;

static void compare(Case & c, const char * what, size_t n, const Kind & k)
{
  Rng same = c.rng;
  Probe small, large;
  c.mix(n); c.mix(same.below(1u << 30));
  same = c.rng;
  auto run1 = [&](Probe & P, size_t z) {
      try {
        k(P, z, same);
      } catch (...) {
        g_on = false;
        throw;
      }
      raise();
      MON_CHECK(g_use == 0, "growth.leak", "%s: %" PRIu64 " bytes in use", what, g_use);
    };
  g_use = 0;
  run1(small, n);
  run1(large, n * STEP);
  MON_CHECK(small.done.size() == large.done.size(), "growth.phases", "%zu and %zu", small.done.size(), large.done.size());
  for (size_t i = 0; i < small.done.size(); ++i) {
    const Phase & a = small.done[i], & b = large.done[i];
    double grown = b.order == 0 ? 1 : b.order == 1 ? STEP : STEP * STEP;
    for (int j = 0; j < NCOUNTS; ++j) {
      double limit = 2 * grown * static_cast<double>(a.n[j] + (b.order == 0 ? 0 : n)) + 4000;
      if (static_cast<double>(b.n[j]) > limit) {
        record_violation(std::string("growth.") + what,
          fmt("%s, %s: %" PRIu64 " %s for %zu, but %" PRIu64 " for %zu", what, b.name.c_str(), a.n[j], COUNTS[j], n, b.n[j], n * STEP));
        throw CaseFailed();
      }
      if (j == PEAK && b.order < 2 && static_cast<double>(a.n[j]) > (b.order == 0 ? 0 : 1000 * static_cast<double>(n)) + 65536) {
        record_violation(std::string("growth.memory.") + what, fmt("%s, %s: %" PRIu64 " bytes in use for %zu", what, b.name.c_str(), a.n[j], n));
        throw CaseFailed();
      }
      count(std::string("measured ") + COUNTS[j], a.n[j] + b.n[j]);
    }
    if (getenv("GROWTH_SHOW")) {
      fprintf(stderr, "%-14s %-28s n %zu:", what, b.name.c_str(), n);
      for (int j = 0; j < NCOUNTS; ++j) {fprintf(stderr, "  %" PRIu64 " x%.2f", a.n[j], static_cast<double>(b.n[j]) / static_cast<double>(std::max<uint64_t>(1, a.n[j])));}
      fprintf(stderr, "\n");
    }
    count("compared");
  }
  count(std::string("growth.") + what);
  c.interesting();
}

// ---------------------------------------------------------------- containers
static size_t good_hash(const void * k)
{
  if (g_on) {++g_n[CALLS];}
  uint64_t v;
  __real_memcpy(&v, k, 8);
  return mix64(v);
}
static int key_cmp(const void * a, const void * b)
{
  if (g_on) {++g_n[CALLS];}
  return __real_memcmp(a, b, 8);
}

static void list(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  size_t ds = g.range(1, 64), z = 0;
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  OK(rcutils_array_list_init(&l, g.chance(1, 4) ? n / 3 : g.range(1, 9), ds, &a));
  std::string e(ds, 'x');
  DO("adding", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_add(&l, e.data()));}}
  DO("getting", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_get(&l, i, &e[0]));}}
  DO("setting", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_set(&l, i, e.data()));}}
  DO("asking for the size", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_get_size(&l, &z));}}
  DO("refusing", 1) {for (size_t i = 0; i < n; ++i) {(void)!rcutils_array_list_get(&l, n + i, &e[0]); rcutils_reset_error();}}
  DO("removing at the end", 1) {for (size_t i = n; i-- > n / 2; ) {OK(rcutils_array_list_remove(&l, i));}}
  DO("adding again", 1) {for (size_t i = 0; i < n / 2; ++i) {OK(rcutils_array_list_add(&l, e.data()));}}
  DO("adding and removing", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_array_list_add(&l, e.data())); OK(rcutils_array_list_remove(&l, n / 2 + n / 2));}}
  size_t k = 20;
  DO("removing at the beginning", 1) {for (size_t i = 0; i < k; ++i) {OK(rcutils_array_list_remove(&l, 0));}}
  DO("the end", 1) {OK(rcutils_array_list_fini(&l));}
}
static void map(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  size_t ks = g.range(8, 40), ds = g.range(1, 40), z = 0;
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  OK(rcutils_hash_map_init(&m, g.chance(1, 4) ? n / 3 : g.range(1, 40), ks, ds, good_hash, key_cmp, &a));
  std::string k(ks, 'k'), v(ds, 'v'), o(ds, 'o'), k2(ks, 'k');
  auto key = [&](uint64_t i) {
      uint64_t x = i * 0x9E3779B97F4A7C15ull;
      __real_memcpy(&k[0], &x, 8);
      return static_cast<const void *>(k.data());
    };
  DO("setting", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_set(&m, key(i), v.data()));}}
  DO("setting again", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_set(&m, key(i), o.data()));}}
  DO("getting", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_get(&m, key(i), &o[0]));}}
  DO("looking for absent ones", 1) {for (size_t i = 0; i < n; ++i) {(void)!rcutils_hash_map_get(&m, key(n + i), &o[0]);}}
  DO("asking", 1) {for (size_t i = 0; i < n; ++i) {if (!rcutils_hash_map_key_exists(&m, key(i)) || rcutils_hash_map_key_exists(&m, key(i + n))) {P.off();}}}
  DO("the size", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_get_size(&m, &z)); OK(rcutils_hash_map_get_capacity(&m, &z));}}
  DO("iterating", 1) {
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k2[0], &o[0]);
    while (r == RCUTILS_RET_OK) {r = rcutils_hash_map_get_next_key_and_data(&m, k2.data(), &k2[0], &o[0]);}
  }
  DO("removing", 1) {for (size_t i = 0; i < n; ++i) {if (i % 7) {OK(rcutils_hash_map_unset(&m, key(i)));}}}
  DO("setting after removal", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_set(&m, key(i), v.data()));}}
  DO("setting and removing", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_hash_map_set(&m, key(n + i), v.data())); OK(rcutils_hash_map_unset(&m, key(n + i)));}}
  DO("the end", 1) {OK(rcutils_hash_map_fini(&m));}
}
static std::string name(Rng & g, size_t i, size_t len = 0)
{
  std::string s = std::to_string(mix64(i) % 1000003) + "-" + std::to_string(i);
  (void)g;
  while (s.size() < len) {s += "x";}
  return s;
}
static void smap(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  std::vector<std::string> k;
  for (size_t i = 0; i < n; ++i) {k.push_back(name(g, i, g.below(2) * 20));}
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), d = rcutils_get_zero_initialized_string_map();
  OK(rcutils_string_map_init(&m, g.below(3) * n / 3, a));
  OK(rcutils_string_map_init(&d, 0, a));
  // every operation may look at all the keys
  DO("setting", 2) {for (auto & s : k) {OK(rcutils_string_map_set(&m, s.c_str(), s.c_str()));}}
  DO("setting again", 2) {for (auto & s : k) {OK(rcutils_string_map_set(&m, s.c_str(), "other"));}}
  DO("getting one", 1) {for (size_t i = 0; i < 10; ++i) {if (!rcutils_string_map_get(&m, k[n - 1].c_str())) {P.off();}}}
  DO("setting one", 1) {for (size_t i = 0; i < 10; ++i) {OK(rcutils_string_map_set(&m, k[n - 1].c_str(), "another"));}}
  DO("an absent one", 1) {for (size_t i = 0; i < 10; ++i) {if (rcutils_string_map_key_exists(&m, "-") || rcutils_string_map_key_existsn(&m, "-1", 1)) {P.off();}}}
  DO("iterating", 2) {
    for (const char * s = rcutils_string_map_get_next_key(&m, nullptr); s; s = rcutils_string_map_get_next_key(&m, s)) {}
  }
  DO("copying", 2) {OK(rcutils_string_map_copy(&m, &d));}
  DO("removing one", 1) {for (size_t i = 0; i < 5; ++i) {OK(rcutils_string_map_unset(&m, k[n - 1 - i].c_str()));}}
  DO("clearing", 2) {OK(rcutils_string_map_clear(&m));}
  DO("the end", 2) {OK(rcutils_string_map_fini(&m)); OK(rcutils_string_map_fini(&d));}
}
static int vs(rcutils_char_array_t * c, const char * f, ...)
{
  va_list a;
  va_start(a, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(c, f, a);
  va_end(a);
  return r;
}
static void chars(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  OK(rcutils_char_array_init(&c, g.range(1, 30), &a));
  std::string piece = g.str(g.range(1, 30), "abc");
  bool counted = g.chance(1, 2);
  std::string text = g.str(n, "abc");
  DO("appending", 1) {
    for (size_t i = 0; i < n; ++i) {OK(counted ? rcutils_char_array_strncat(&c, piece.c_str(), piece.size()) : rcutils_char_array_strcat(&c, piece.c_str()));}
  }
  OK(rcutils_char_array_fini(&c));
  OK(rcutils_char_array_init(&c, g.range(2, 30), &a));
  DO("growing by one", 1) {for (size_t i = 0; i < n; ++i) {OK(rcutils_char_array_expand_as_needed(&c, c.buffer_capacity < i + 2 ? i + 2 : 1));}}
  DO("copying", 1) {OK(rcutils_char_array_memcpy(&c, text.data(), n)); OK(rcutils_char_array_strcpy(&c, text.c_str()));}
  DO("formatting", 1) {OK(vs(&c, "%s+%s+%s", text.c_str(), text.c_str(), text.c_str()));}
  DO("short texts in a large one", 1) {for (size_t i = 0; i < n; ++i) {OK(vs(&c, "%zu", i)); OK(rcutils_char_array_strcpy(&c, "text")); OK(rcutils_char_array_strcat(&c, "text"));}}
  DO("the end", 0) {OK(rcutils_char_array_fini(&c));}
}
static void sarr(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  rcutils_string_array_t x = rcutils_get_zero_initialized_string_array(), y = x;
  DO("the beginning", 1) {OK(rcutils_string_array_init(&x, n, &a)); OK(rcutils_string_array_init(&y, n, &a));}
  bool sorted = g.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    std::string s = sorted ? fmt("%08zu", i) : name(g, i);
    x.data[i] = rcutils_strdup(s.c_str(), a);
    y.data[i] = rcutils_strdup(s.c_str(), a);
  }
  int r = 0;
  DO("comparing", 1) {OK(rcutils_string_array_cmp(&x, &y, &r));}
  DO("sorting", 1) {OK(rcutils_string_array_sort(&x));}
  DO("resizing", 1) {OK(rcutils_string_array_resize(&x, n + n / 2)); OK(rcutils_string_array_resize(&x, n / 2));}
  DO("the end", 1) {OK(rcutils_string_array_fini(&x)); OK(rcutils_string_array_fini(&y));}
}
static void bytes(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array();
  size_t more = g.range(1, 100), less = g.range(1, 100);
  DO("all", 1) {
    OK(rcutils_uint8_array_init(&u, n, &a));
    OK(rcutils_uint8_array_resize(&u, n + 1 + n * more / 100));
    OK(rcutils_uint8_array_resize(&u, n * less / 100));
    OK(rcutils_uint8_array_fini(&u));
  }
}

// ---------------------------------------------------------------- strings
static void split(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  std::string s;
  size_t len = g.chance(1, 3) ? n / 5 : g.range(1, 30), gap = g.chance(1, 4) ? g.range(2, 9) : 1;
  bool delimiters = g.chance(1, 6);
  while (s.size() < n) {s += (delimiters ? "" : g.str(len, "abc")) + std::string(gap, '/');}
  if (g.chance(1, 2)) {s += "end";}
  rcutils_string_array_t r = rcutils_get_zero_initialized_string_array();
  DO("splitting", 1) {OK(rcutils_split(s.c_str(), '/', a, &r));}
  DO("the end", 1) {OK(rcutils_string_array_fini(&r));}
  DO("splitting at the last one", 1) {OK(rcutils_split_last(s.c_str(), '/', a, &r));}
  OK(rcutils_string_array_fini(&r));
  std::string none = g.str(n, "abc");
  DO("one token", 1) {OK(rcutils_split(none.c_str(), '/', a, &r));}
  OK(rcutils_string_array_fini(&r));
}
static void find(Probe & P, size_t n, Rng g)
{
  std::string s = g.str(n, "abc");
  DO("finding", 1) {(void)rcutils_find(s.c_str(), 'x');}
  DO("finding the last", 1) {(void)rcutils_find_last(s.c_str(), 'x');}
  s[5] = 'x';
  s[n - 5] = 'x';
  DO("finding the last of two", 1) {(void)rcutils_find_last(s.c_str(), 'x');}
  DO("finding at the end", 1) {(void)rcutils_findn(s.c_str() + 6, 'x', n - 6);}
  DO("within a limit", 0) {(void)rcutils_findn(s.c_str(), 'y', 50); (void)rcutils_find_lastn(s.c_str(), 'y', 50);}
  std::string t = s;
  int r = 0;
  t[n - 2] = '#';
  DO("comparing", 1) {r |= rcutils_strcasecmp(s.c_str(), t.c_str(), &r); r |= rcutils_strncasecmp(s.c_str(), t.c_str(), n, &r);}
  DO("comparing within a limit", 0) {r |= rcutils_strncasecmp(s.c_str(), t.c_str(), 50, &r);}
  DO("hashing", 1) {const char * p = s.c_str(); (void)rcutils_hash_map_string_hash_func(&p);}
  const char * p = s.c_str(), * q = t.c_str();
  DO("comparing keys", 1) {(void)rcutils_hash_map_string_cmp_func(&p, &q);}
}
static void repl(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  std::string from = g.str(g.range(1, 6), "ab"), to = g.str(g.below(12), "xyz"), s;
  size_t gap = g.chance(1, 4) ? n / 4 : g.below(40);
  bool nearly = g.chance(1, 3);
  while (s.size() < n) {s += nearly ? from.substr(0, from.size() - 1) : g.str(gap, "cd"); if (!g.chance(1, 5)) {s += from;}}
  char * r = nullptr;
  DO("replacing", 1) {r = rcutils_repl_str(s.c_str(), from.c_str(), to.c_str(), &a);}
  take(r, nullptr);
  DO("replacing nothing", 1) {r = rcutils_repl_str(s.c_str(), "#", to.c_str(), &a);}
  take(r, nullptr);
  DO("replacing by a long one", 1) {r = rcutils_repl_str("some # text", "#", s.c_str(), &a);}
  take(r, nullptr);
}
static void copies(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  std::string s = g.str(n, "abc");
  char * r = nullptr;
  DO("duplicating", 1) {r = rcutils_strdup(s.c_str(), a);}
  take(r, nullptr);
  DO("duplicating a part", 0) {r = rcutils_strndup(s.c_str(), 30, a);}
  take(r, nullptr);
  DO("duplicating up to a limit", 1) {r = rcutils_strndup(s.c_str(), n, a);}
  take(r, nullptr);
  DO("formatting", 1) {r = rcutils_format_string_limit(a, 2 * n, "%s.", s.c_str());}
  take(r, nullptr);
  DO("formatting up to a limit", 1) {r = rcutils_format_string_limit(a, 100, "%s.", s.c_str());}
  take(r, nullptr);
  DO("short texts with a large limit", 0) {r = rcutils_format_string_limit(a, n * 1000, "%d", 5);}
  take(r, nullptr);
  DO("joining paths", 1) {r = rcutils_join_path(s.c_str(), s.c_str(), a);}
  take(r, nullptr);
  for (size_t i = 3; i < n; i += g.range(2, 9)) {s[i] = '/';}
  DO("native paths", 1) {r = rcutils_to_native_path(s.c_str(), a);}
  take(r, nullptr);
  s = "~/" + s;
  DO("expanding paths", 1) {r = rcutils_expand_user(s.c_str(), a);}
  take(r, nullptr);
}
static void digest(Probe & P, size_t n, Rng g)
{
  size_t piece = g.range(1, 200);
  std::string s = g.str(n, "abc");
  uint8_t out[32];
  rcutils_sha256_ctx_t c;
  DO("at once", 1) {
    rcutils_sha256_init(&c);
    rcutils_sha256_update(&c, reinterpret_cast<const uint8_t *>(s.data()), s.size());
    rcutils_sha256_final(&c, out);
  }
  DO("in pieces", 1) {
    rcutils_sha256_init(&c);
    for (size_t i = 0; i < n; i += piece) {rcutils_sha256_update(&c, reinterpret_cast<const uint8_t *>(s.data()) + i, std::min(piece, n - i));}
    rcutils_sha256_final(&c, out);
  }
}
static int int_cmp(const void * a, const void * b)
{
  if (g_on) {++g_n[CALLS];}
  int x = *static_cast<const int *>(a), y = *static_cast<const int *>(b);
  return x < y ? -1 : x > y;
}
static void sort(Probe & P, size_t n, Rng g)
{
  std::vector<int> v(n);
  unsigned how = static_cast<unsigned>(g.below(4));
  for (size_t i = 0; i < n; ++i) {v[i] = static_cast<int>(how == 0 ? i : how == 1 ? n - i : how == 2 ? i % 3 : mix64(i));}
  DO("sorting", 1) {OK(rcutils_qsort(v.data(), n, sizeof(int), int_cmp));}
}
static void args(Probe & P, size_t n, Rng g)
{
  std::vector<std::string> s;
  std::vector<char *> v;
  for (size_t i = 0; i < n; ++i) {s.push_back(name(g, i));}
  for (auto & x : s) {v.push_back(&x[0]);}
  DO("asking", 1) {for (int i = 0; i < 10; ++i) {(void)rcutils_cli_option_exist(v.data(), v.data() + n, "--none");}}
  DO("getting", 1) {for (int i = 0; i < 10; ++i) {(void)rcutils_cli_get_option(v.data(), v.data() + n, v[n - 2]);}}
}
static void errors(Probe & P, size_t n, Rng g)
{
  std::string s = g.str(n, "abc");
  DO("many", 1) {for (size_t i = 0; i < n; ++i) {RCUTILS_SET_ERROR_MSG("an error"); rcutils_reset_error();}}
  DO("asking", 1) {for (size_t i = 0; i < n; ++i) {(void)rcutils_get_error_string(); (void)rcutils_get_error_state(); (void)rcutils_error_is_set();}}
  DO("a long one", 1) {rcutils_set_error_state(s.c_str(), s.c_str(), 5); (void)rcutils_get_error_string();}
  rcutils_reset_error();
  // many objects at once
  auto a = alloc();
  std::vector<rcutils_array_list_t> l(n, rcutils_get_zero_initialized_array_list());
  int v = 5;
  DO("many objects", 1) {for (auto & x : l) {OK(rcutils_array_list_init(&x, 1, sizeof(v), &a)); OK(rcutils_array_list_add(&x, &v)); OK(rcutils_array_list_add(&x, &v));}}
  DO("the end of many objects", 1) {for (auto & x : l) {OK(rcutils_array_list_fini(&x));}}
}

// ---------------------------------------------------------------- logging
static uint64_t g_records = 0, g_chars = 0;
static void record(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char * f, va_list * a)
{
  bool on = g_on;
  g_on = false;
  char b[64];
  va_list c;
  va_copy(c, *a);
  int r = __real_vsnprintf(b, sizeof(b), f, c);
  va_end(c);
  ++g_records;
  g_chars += r > 0 ? static_cast<size_t>(r) : 0;
  g_on = on;
}
static void loggers(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  rcutils_ret_t r = rcutils_logging_shutdown();
  MON_CHECK(r == RCUTILS_RET_OK, "growth.ret", "shutdown %d", static_cast<int>(r));
  OK(rcutils_logging_initialize_with_allocator(a));
  rcutils_logging_set_output_handler(record);
  std::vector<std::string> k, d;
  for (size_t i = 0; i < n; ++i) {k.push_back("node" + name(g, i)); d.push_back(k.back() + ".part.deep");}
  int level = 0;
  rcutils_log_location_t at = {"f", "file", 3};
  DO("asking for unknown ones", 1) {for (auto & s : d) {level |= rcutils_logging_get_logger_effective_level(s.c_str());}}
  DO("asking again", 1) {for (auto & s : d) {level |= rcutils_logging_get_logger_effective_level(s.c_str()); level |= rcutils_logging_logger_is_enabled_for(s.c_str(), RCUTILS_LOG_SEVERITY_INFO);}}
  DO("setting levels", 1) {for (auto & s : k) {OK(rcutils_logging_set_logger_level(s.c_str(), RCUTILS_LOG_SEVERITY_WARN));}}
  DO("asking for levels", 1) {for (auto & s : k) {level |= rcutils_logging_get_logger_level(s.c_str());}}
  for (auto & s : d) {s += ".er";}
  DO("asking for children", 1) {for (auto & s : d) {level |= rcutils_logging_get_logger_effective_level(s.c_str());}}
  DO("asking for children again", 1) {for (auto & s : d) {level |= rcutils_logging_get_logger_effective_level(s.c_str());}}
  DO("messages of children", 1) {for (auto & s : d) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, s.c_str(), "text %d", 5);}}
  DO("setting one again", 1) {for (int i = 0; i < 5; ++i) {OK(rcutils_logging_set_logger_level(k[static_cast<size_t>(i)].c_str(), RCUTILS_LOG_SEVERITY_INFO));}}
  DO("disabled messages", 1) {for (auto & s : k) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_DEBUG, s.c_str(), "text %d", 5);}}
  DO("messages", 1) {for (auto & s : k) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, s.c_str(), "text %d", 5);}}
  DO("many messages of one", 1) {for (size_t i = 0; i < n; ++i) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, k[0].c_str(), "text %d", 5);}}
  DO("the end", 1) {OK(rcutils_logging_shutdown());}
  OK(rcutils_logging_initialize_with_allocator(a));
  rcutils_logging_set_output_handler(record);
  OK(rcutils_logging_set_logger_level("another", RCUTILS_LOG_SEVERITY_ERROR));
  std::string deep;
  for (size_t i = 0; i < n / 20; ++i) {deep += (i ? ".n" : "n") + std::to_string(i % 7);}
  DO("a deep name", 2) {level |= rcutils_logging_get_logger_effective_level(deep.c_str());}
  DO("a deep name again", 2) {for (int i = 0; i < 10; ++i) {level |= rcutils_logging_get_logger_effective_level(deep.c_str());}}
  OK(rcutils_logging_shutdown());
  DO("beginning and ending", 1) {for (size_t i = 0; i < n / 10; ++i) {OK(rcutils_logging_initialize_with_allocator(a)); OK(rcutils_logging_shutdown());}}
}
static void console(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  rcutils_ret_t r = rcutils_logging_shutdown();
  MON_CHECK(r == RCUTILS_RET_OK, "growth.ret", "shutdown %d", static_cast<int>(r));
  std::string f;
  static const char * const T[] = {"{severity}", "{name}", "{message}", "{time}", "{line_number}", "{file_name}", "{function_name}", " - ", "{unknown}", "{", "\\t", "{date_time_with_ms}"};
  unsigned tokens = static_cast<unsigned>(g.range(3, 40));
  for (unsigned i = 0; i < tokens; ++i) {f += T[g.below(12)];}
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", f.c_str(), 1);
  OK(rcutils_logging_initialize_with_allocator(a));
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  std::string s = g.str(n, "abc"), longname = g.str(n / 10 + 5, "abc");
  rcutils_log_location_t at = {"f", "file", 3}, longat = {s.c_str(), s.c_str(), 3};
  {
    Capture out(stderr, 2);
    DO("short messages", 1) {for (size_t i = 0; i < n / 50; ++i) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, "name", "text %d", 5);}}
    DO("a long message", 1) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, "name", "%s", s.c_str());}
    DO("a long location", 1) {rcutils_log(&longat, RCUTILS_LOG_SEVERITY_ERROR, "name", "text");}
    DO("a long name", 1) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, longname.c_str(), "text");}
    DO("short messages again", 1) {for (size_t i = 0; i < n / 50; ++i) {rcutils_log(&at, RCUTILS_LOG_SEVERITY_ERROR, "name", "text %d", 5);}}
    g_chars += out.stop().size();
  }
  OK(rcutils_logging_shutdown());
}

// ---------------------------------------------------------------- directories
static void dirs(Probe & P, size_t n, Rng g)
{
  auto a = alloc();
  std::string root = run().scratch + fmt("/growth-%d", static_cast<int>(getpid()));
  mkdir(root.c_str(), 0700);
  std::vector<std::string> made_files, made_dirs;
  bool nested = g.chance(1, 2);
  for (size_t i = 0; i < n; ++i) {
    std::string p = root + "/" + std::to_string(i);
    if (nested && i % 2) {
      mkdir(p.c_str(), 0700);
      made_dirs.push_back(p);
      p += "/file";
    }
    int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600);
    if (fd >= 0) {(void)!write(fd, "text", 4); close(fd);}
    made_files.push_back(p);
  }
  uint64_t size = 0;
  DO("the size of a directory", 1) {OK(rcutils_calculate_directory_size_with_recursion(root.c_str(), 0, &size, a));}
  bool right = size == 4 * n;
  DO("iterating", 1) {
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(root.c_str(), a);
    while (it && rcutils_dir_iter_next(it)) {}
    rcutils_dir_iter_end(it);
  }
  for (auto & p : made_files) {unlink(p.c_str());}
  for (auto & p : made_dirs) {rmdir(p.c_str());}
  rmdir(root.c_str());
  MON_CHECK(right, "growth.size", "%zu files: %" PRIu64 " bytes", n, size);
}

static void reg()
{
#define K(name, q, t, lo, hi, fn) section("growth-" name, q, t, [](Case & c) {size_t n = c.rng.range(lo, hi); if (c.thorough) {n = n * c.rng.range(1, 4);} compare(c, name, n, fn);})
  K("list", 12, 120, 2000, 4000, list);
  K("map", 12, 120, 2000, 4000, map);
  K("smap", 8, 60, 60, 130, smap);
  K("chars", 12, 120, 2000, 4000, chars);
  K("sarr", 12, 120, 2000, 4000, sarr);
  K("bytes", 12, 120, 4000, 9000, bytes);
  K("split", 24, 240, 4000, 9000, split);
  K("find", 12, 120, 4000, 9000, find);
  K("repl", 24, 240, 4000, 9000, repl);
  K("copies", 12, 120, 4000, 9000, copies);
  K("sha", 12, 120, 4000, 9000, digest);
  K("sort", 12, 120, 2000, 4000, sort);
  K("args", 8, 80, 2000, 4000, args);
  K("errors", 8, 80, 4000, 9000, errors);
  K("loggers", 10, 60, 600, 900, loggers);
  K("console", 16, 120, 4000, 9000, console);
  K("dirs", 8, 40, 80, 150, dirs);
}
MON_MAIN(reg)
