// P48: only what is documented to be kept is kept. Handles move in memory between any two operations, what was handed to an operation is
// overwritten and freed as soon as it returns, and what was handed out stays as it is until it is documented to go.
#include <sys/stat.h>
#include <unistd.h>
#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"
using namespace mon;

// A handle that never stays where it is. What it left behind is overwritten and freed.
template<class T>
struct Moving
{
  T * p;
  uint64_t moves = 0;
  explicit Moving(const T & v) : p(static_cast<T *>(malloc(sizeof(T)))) {memcpy(p, &v, sizeof(T));}
  Moving(const Moving &) = delete;
  ~Moving() {free(p);}
  T * get()
  {
    T * q = static_cast<T *>(malloc(sizeof(T)));
    memcpy(q, p, sizeof(T));
    memset(p, 0xEE, sizeof(T));
    free(p);
    p = q;
    moves++;
    return p;
  }
};

// Arguments that are gone when the call is over
static bool g_same_place = false;     // what comes next lies where the last one was
struct Gone
{
  std::vector<std::pair<void *, size_t>> v;
  Gone() {}
  Gone(const Gone &) = delete;
  ~Gone() {for (auto & b : v) {memset(b.first, 0xEE, b.second); if (!ours(b.first)) {free(b.first);}}}
  static char (* places())[1024] {alignas(16) static char p[8][1024]; return p;}
  static bool ours(void * p) {return p >= places() && p < places() + 8;}
  void * bytes(const void * d, size_t n)
  {
    if (g_same_place && v.size() < 8 && n <= 1024) {
      void * p = places()[v.size()];
      if (n) {memcpy(p, d, n);}
      v.push_back({p, n});
      return p;
    }
    void * p = malloc(n ? n : 1);
    if (n) {memcpy(p, d, n);}
    v.push_back({p, n});
    return p;
  }
  char * str(const std::string & s) {return static_cast<char *>(bytes(s.c_str(), s.size() + 1));}
  template<class T> const T * obj(const T & o) {return static_cast<const T *>(bytes(&o, sizeof(o)));}
};

static const char * K = "moved.";

static uint64_t list(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  size_t ds = 1 + g.size(200);
  Moving<rcutils_array_list_t> l(rcutils_get_zero_initialized_array_list());
  {Gone a; MON_CHECK(rcutils_array_list_init(l.get(), 1 + g.below(4), ds, a.obj(A.get())) == RCUTILS_RET_OK, "moved.list", "init");}
  std::vector<std::string> m;
  for (int i = 0; i < 40; ++i) {
    std::string e = g.bytes(ds), out(ds, 'x');
    size_t at = m.empty() ? 0 : g.below(m.size());
    Gone a;
    switch (g.below(5)) {
      case 0: if (!m.empty()) {MON_CHECK(rcutils_array_list_remove(l.get(), at) == RCUTILS_RET_OK, "moved.list", "remove"); m.erase(m.begin() + static_cast<long>(at));} break;
      case 1: if (!m.empty()) {MON_CHECK(rcutils_array_list_set(l.get(), at, a.bytes(e.data(), ds)) == RCUTILS_RET_OK, "moved.list", "set"); m[at] = e;} break;
      case 2: if (!m.empty()) {MON_CHECK(rcutils_array_list_get(l.get(), at, &out[0]) == RCUTILS_RET_OK && out == m[at], "moved.list", "element %zu", at);} break;
      default: MON_CHECK(rcutils_array_list_add(l.get(), a.bytes(e.data(), ds)) == RCUTILS_RET_OK, "moved.list", "add"); m.push_back(e); break;
    }
  }
  size_t n = 0;
  MON_CHECK(rcutils_array_list_get_size(l.get(), &n) == RCUTILS_RET_OK && n == m.size(), "moved.list", "size %zu", n);
  for (size_t i = 0; i < n; ++i) {std::string out(ds, 'x'); MON_CHECK(rcutils_array_list_get(l.get(), i, &out[0]) == RCUTILS_RET_OK && out == m[i], "moved.list", "element %zu", i);}
  MON_CHECK(rcutils_array_list_fini(l.get()) == RCUTILS_RET_OK, "moved.list", "fini");
  return l.moves;
}

static size_t hash8(const void * k) {uint64_t v; memcpy(&v, k, 8); return v % 11;}
static int cmp8(const void * a, const void * b) {return memcmp(a, b, 8);}
static uint64_t hmap(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  size_t vs = 1 + g.below(30);
  Moving<rcutils_hash_map_t> h(rcutils_get_zero_initialized_hash_map());
  {Gone a; MON_CHECK(rcutils_hash_map_init(h.get(), 1 + g.below(9), 8, vs, hash8, cmp8, a.obj(A.get())) == RCUTILS_RET_OK, "moved.map", "init");}
  std::map<uint64_t, std::string> m;
  for (int i = 0; i < 60; ++i) {
    uint64_t k = g.below(40);
    std::string v = g.bytes(vs), out(vs, 'x');
    Gone a;
    switch (g.below(4)) {
      case 0: MON_CHECK(rcutils_hash_map_unset(h.get(), a.bytes(&k, 8)) == RCUTILS_RET_OK, "moved.map", "unset"); m.erase(k); break;
      case 1: {
          rcutils_ret_t r = rcutils_hash_map_get(h.get(), a.bytes(&k, 8), &out[0]);
          MON_CHECK(r == (m.count(k) ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND) && (!m.count(k) || m[k] == out), "moved.map", "value of %d: %d", static_cast<int>(k), r);
          break;
        }
      default: MON_CHECK(rcutils_hash_map_set(h.get(), a.bytes(&k, 8), a.bytes(v.data(), vs)) == RCUTILS_RET_OK, "moved.map", "set"); m[k] = v; break;
    }
  }
  size_t seen = 0;
  uint64_t k = 0;
  std::string out(vs, 'x');
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(h.get(), nullptr, &k, &out[0]);
  bool same = g.chance(1, 2);                     // the key goes in where the last one came out
  std::vector<uint64_t> order;
  while (r == RCUTILS_RET_OK && seen <= m.size()) {
    MON_CHECK(m.count(k) && m[k] == out, "moved.map", "entry %d", static_cast<int>(k));
    ++seen;
    order.push_back(k);
    Gone a;
    r = rcutils_hash_map_get_next_key_and_data(h.get(), same ? &k : a.bytes(&k, 8), &k, &out[0]);
  }
  MON_CHECK(seen == m.size(), "moved.map", "%zu of %zu entries", seen, m.size());
  for (int i = 0; i < 20; ++i) {                  // from any key on, whatever was asked before
    size_t at = g.below(order.size() + 1);
    Gone a;
    uint64_t was = at < order.size() ? order[at] : 1000 + g.below(50);
    k = was;
    r = rcutils_hash_map_get_next_key_and_data(h.get(), same ? &k : a.bytes(&k, 8), &k, &out[0]);
    // what a key and value out parameter hold when nothing was found is not looked at
    if (at == order.size()) {
      MON_CHECK(r == RCUTILS_RET_NOT_FOUND, "moved.map", "the entry after a key that is not there (%d): %d", static_cast<int>(was), r);
    } else if (at + 1 == order.size()) {
      MON_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "moved.map", "the entry after the last one (%d): %d", static_cast<int>(was), r);
    } else {
      MON_CHECK(r == RCUTILS_RET_OK && k == order[at + 1] && out == m[k], "moved.map", "the entry after %d: %d", static_cast<int>(was), r);
    }
    count("moved.map.from");
  }
  MON_CHECK(rcutils_hash_map_fini(h.get()) == RCUTILS_RET_OK, "moved.map", "fini");
  return h.moves;
}

static uint64_t smap(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  Moving<rcutils_string_map_t> s(rcutils_get_zero_initialized_string_map());
  MON_CHECK(rcutils_string_map_init(s.get(), g.below(5), A.get()) == RCUTILS_RET_OK, "moved.smap", "init");
  std::map<std::string, std::string> m;
  std::map<std::string, const char *> out;      // values handed out: documented to stay until their own key is set or removed, or all are
  for (int i = 0; i < 50; ++i) {
    std::string k = g.str(1 + g.below(2), "abcd"), v = g.str(g.below(60), "xyz");
    Gone a;
    switch (g.below(9)) {
      case 0:
        if (m.count(k)) {MON_CHECK(rcutils_string_map_unset(s.get(), a.str(k)) == RCUTILS_RET_OK, "moved.smap", "unset"); m.erase(k); out.erase(k);}
        break;
      case 1: {
          size_t n = g.below(2 * m.size() + 3);
          MON_CHECK(rcutils_string_map_reserve(s.get(), n) == RCUTILS_RET_OK, "moved.smap", "reserve");
          break;
        }
      case 2: {
          Moving<rcutils_string_map_t> o(rcutils_get_zero_initialized_string_map());
          MON_CHECK(rcutils_string_map_init(o.get(), g.below(5), A.get()) == RCUTILS_RET_OK, "moved.smap", "init");
          MON_CHECK(rcutils_string_map_copy(s.get(), o.get()) == RCUTILS_RET_OK && rcutils_string_map_fini(o.get()) == RCUTILS_RET_OK, "moved.smap", "copy");
          break;
        }
      case 3: if (g.chance(1, 6)) {MON_CHECK(rcutils_string_map_clear(s.get()) == RCUTILS_RET_OK, "moved.smap", "clear"); m.clear(); out.clear();} break;
      case 4: case 5: {
          const char * p = rcutils_string_map_getn(s.get(), a.str(k), k.size());
          MON_CHECK((p != nullptr) == (m.count(k) == 1), "moved.smap", "value of %s", k.c_str());
          if (p) {out[k] = p; count("values handed out");}
          break;
        }
      default:
        MON_CHECK(rcutils_string_map_set(s.get(), a.str(k), a.str(v)) == RCUTILS_RET_OK, "moved.smap", "set");
        m[k] = v;
        out.erase(k);
        break;
    }
    for (auto & p : out) {
      MON_CHECK(m[p.first] == p.second && rcutils_string_map_get(s.get(), p.first.c_str()) == p.second, "moved.handed-out", "the value of %s is %s, %s was handed out before", p.first.c_str(),
        m[p.first].c_str(), show(p.second).c_str());
    }
  }
  size_t seen = 0;
  for (const char * k = rcutils_string_map_get_next_key(s.get(), nullptr); k; k = rcutils_string_map_get_next_key(s.get(), k)) {
    const char * v = rcutils_string_map_get(s.get(), k);
    MON_CHECK(m.count(k) && v && m[k] == v, "moved.smap", "entry %s", k);
    ++seen;
  }
  MON_CHECK(seen == m.size() && rcutils_string_map_fini(s.get()) == RCUTILS_RET_OK, "moved.smap", "%zu entries", seen);
  return s.moves;
}

static uint64_t sarr(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  Moving<rcutils_string_array_t> s(rcutils_get_zero_initialized_string_array());
  {Gone a; MON_CHECK(rcutils_string_array_init(s.get(), 1 + g.below(4), a.obj(A.get())) == RCUTILS_RET_OK, "moved.sarr", "init");}
  std::map<size_t, std::pair<char *, std::string>> m;
  for (int i = 0; i < 25; ++i) {
    size_t n = s.p->size;
    if (g.chance(1, 2) && n) {
      size_t at = g.below(n);
      A.get().deallocate(s.p->data[at], &A);
      std::string v = g.str(g.below(30), "pq");
      Gone a;
      s.p->data[at] = rcutils_strdup(a.str(v), A.get());
      m[at] = {s.p->data[at], v};
    } else {
      size_t z = g.below(12);
      MON_CHECK(rcutils_string_array_resize(s.get(), z) == RCUTILS_RET_OK, "moved.sarr", "resize");
      m.erase(m.lower_bound(z), m.end());
    }
    // the strings themselves stay where they are
    for (auto & e : m) {
      MON_CHECK(s.p->data[e.first] == e.second.first && e.second.second == e.second.first, "moved.handed-out", "string %zu is %s instead of %s", e.first, show(s.p->data[e.first]).c_str(),
        e.second.second.c_str());
    }
  }
  rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
  {Gone a; MON_CHECK((g.chance(1, 2) ? rcutils_split : rcutils_split_last)(a.str("one/two/three"), '/', A.get(), &t) == RCUTILS_RET_OK, "moved.sarr", "split");}
  Moving<rcutils_string_array_t> u(t);
  MON_CHECK(u.get()->size >= 2 && !strcmp(u.p->data[u.p->size - 1], "three"), "moved.sarr", "tokens");
  int r = 0;
  MON_CHECK(rcutils_string_array_cmp(u.p, u.p, &r) == RCUTILS_RET_OK && r == 0, "moved.sarr", "cmp");
  MON_CHECK(rcutils_string_array_fini(u.get()) == RCUTILS_RET_OK && rcutils_string_array_fini(s.get()) == RCUTILS_RET_OK, "moved.sarr", "fini");
  return s.moves;
}

static rcutils_ret_t print(rcutils_char_array_t * c, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(c, f, ap);
  va_end(ap);
  return r;
}
static uint64_t chars(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  Moving<rcutils_char_array_t> s(rcutils_get_zero_initialized_char_array());
  Moving<rcutils_uint8_array_t> b(rcutils_get_zero_initialized_uint8_array());
  {
    Gone a;
    MON_CHECK(rcutils_char_array_init(s.get(), g.below(9), a.obj(A.get())) == RCUTILS_RET_OK && rcutils_uint8_array_init(b.get(), 1 + g.below(9), a.obj(A.get())) == RCUTILS_RET_OK, "moved.chars", "init");
  }
  std::string m;
  memset(b.p->buffer, 'b', b.p->buffer_capacity);
  size_t filled = b.p->buffer_length = b.p->buffer_capacity;
  for (int i = 0; i < 20; ++i) {
    std::string v = g.str(g.below(40), "abc");
    Gone a;
    rcutils_ret_t r = RCUTILS_RET_OK;
    switch (g.below(5)) {
      case 0: r = rcutils_char_array_strcpy(s.get(), a.str(v)); m = v; break;
      case 1: r = print(s.get(), a.str("%s|%s"), a.str(v), a.str(v)); m = v + "|" + v; break;
      case 2: r = rcutils_char_array_memcpy(s.get(), a.str(v), v.size() + 1); m = v; break;
      case 3: {
          size_t n = 1 + g.below(60);
          r = rcutils_uint8_array_resize(b.get(), n);
          filled = std::min(filled, n);
          break;
        }
      default: r = rcutils_char_array_strcat(s.get(), a.str(v)); m += v; break;
    }
    MON_CHECK(r == RCUTILS_RET_OK && (!s.p->buffer_length || (s.p->buffer_length == m.size() + 1 && m == s.p->buffer)), "moved.chars", "%s instead of %s", show(s.p->buffer).c_str(), show(m).c_str());
    MON_CHECK(b.p->buffer_length == filled && std::string(filled, 'b') == std::string(reinterpret_cast<char *>(b.p->buffer), filled), "moved.chars", "bytes");
  }
  MON_CHECK(rcutils_char_array_fini(s.get()) == RCUTILS_RET_OK && rcutils_uint8_array_fini(b.get()) == RCUTILS_RET_OK, "moved.chars", "fini");
  return s.moves;
}

static uint64_t sha(Case & c, CkAlloc &)
{
  Rng & g = c.rng;
  // a context that moves, and copies of it that go on by themselves
  rcutils_sha256_ctx_t z;
  memset(&z, 0xAB, sizeof(z));
  Moving<rcutils_sha256_ctx_t> x(z);
  rcutils_sha256_init(x.get());
  std::string all;
  auto digest = [](rcutils_sha256_ctx_t * p) {std::string h(32, 0); rcutils_sha256_final(p, reinterpret_cast<uint8_t *>(&h[0])); return h;};
  auto once = [&](const std::string & s) {
      rcutils_sha256_ctx_t o;
      rcutils_sha256_init(&o);
      if (!s.empty()) {rcutils_sha256_update(&o, reinterpret_cast<const uint8_t *>(s.data()), s.size());}
      return digest(&o);
    };
  for (int i = 0; i < 6; ++i) {
    std::string v = g.bytes(g.below(150));
    {Gone a; rcutils_sha256_update(x.get(), static_cast<uint8_t *>(a.bytes(v.data(), v.size())), v.size());}
    all += v;
    Moving<rcutils_sha256_ctx_t> y(*x.p);
    std::string w = g.bytes(g.below(100));
    {Gone a; rcutils_sha256_update(y.get(), static_cast<uint8_t *>(a.bytes(w.data(), w.size())), w.size());}
    MON_CHECK(digest(y.get()) == once(all + w), "moved.sha", "the digest of a copied context differs");
  }
  MON_CHECK(digest(x.get()) == once(all), "moved.sha", "the digest of a context that was moved differs");
  return x.moves;
}

static uint64_t library(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  Moving<rcutils_shared_library_t> l(rcutils_get_zero_initialized_shared_library());
  {Gone a; MON_CHECK(rcutils_load_shared_library(l.get(), a.str("libm.so.6"), A.get()) == RCUTILS_RET_OK, "moved.library", "load");}
  const char * path = l.p->library_path;
  std::string was = path;
  Gone a;
  void * s = rcutils_get_symbol(l.get(), a.str("cos"));
  for (int i = 0; i < 5; ++i) {
    Gone b;
    bool missing = g.chance(1, 2);
    MON_CHECK(rcutils_has_symbol(l.get(), b.str(missing ? "no_such_symbol_at_all" : "sin")) == !missing, "moved.library", "symbol");
    rcutils_reset_error();
    MON_CHECK(rcutils_get_symbol(l.get(), b.str("cos")) == s && s && l.p->library_path == path && was == path, "moved.library", "the symbol or the path is another one");
  }
  MON_CHECK(rcutils_unload_shared_library(l.get()) == RCUTILS_RET_OK, "moved.library", "unload");
  return l.moves;
}

static uint64_t texts(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  rcutils_allocator_t a = A.get();
  std::vector<std::pair<char *, std::string>> out;
  auto keep = [&](char * p) {if (p) {out.push_back({p, p}); count("strings handed out");}};
  setenv("HOME", "/home/of-mine", 1);
  for (int i = 0; i < 12; ++i) {
    std::string s = g.str(1 + g.below(40), "ab/.");
    Gone x;
    switch (g.below(7)) {
      case 0: keep(rcutils_repl_str(x.str(s), x.str("a"), x.str("--"), x.obj(a))); break;
      case 1: keep(rcutils_format_string(a, x.str("%s:%s"), x.str(s), x.str(s))); break;
      case 2: keep(rcutils_strdup(x.str(s), a)); break;
      case 3: keep(rcutils_join_path(x.str(s), x.str(s), a)); break;
      case 4: keep(rcutils_expand_user(x.str("~/" + s), a)); break;
      case 5: keep(rcutils_get_executable_name(a)); break;
      default: keep(rcutils_to_native_path(x.str(s), a)); break;
    }
    for (auto & p : out) {MON_CHECK(p.second == p.first, "moved.handed-out", "%s was %s", show(p.first).c_str(), show(p.second).c_str());}
  }
  // errors by value, and what they were made from
  rcutils_error_string_t e;
  {
    Gone x;
    rcutils_set_error_state(x.str("of short life"), x.str("gone.c"), 5);
    e = rcutils_get_error_string();
  }
  MON_CHECK(!strcmp(e.str, "of short life, at gone.c:5") && !strcmp(rcutils_get_error_state()->file, "gone.c"), "moved.error", "%s", show(e.str).c_str());
  rcutils_reset_error();
  MON_CHECK(!strcmp(e.str, "of short life, at gone.c:5"), "moved.handed-out", "the error string became %s", show(e.str).c_str());
  {
    Gone x;
    MON_CHECK(rcutils_set_env(x.str("MOVED_VARIABLE"), x.str("value of short life")), "moved.env", "set_env");
  }
  const char * v = nullptr;
  {Gone x; MON_CHECK(!rcutils_get_env(x.str("MOVED_VARIABLE"), &v) && !strcmp(v, "value of short life"), "moved.env", "%s", show(v).c_str());}
  unsetenv("MOVED_VARIABLE");
  uint64_t n = out.size();
  for (auto & p : out) {a.deallocate(p.first, a.state);}
  // the directory's name is gone while it is listed
  std::string d = run().scratch + "/listed";
  mkdir(d.c_str(), 0755);
  FILE * f = fopen((d + "/entry").c_str(), "w");
  if (f) {fclose(f);}
  rcutils_dir_iter_t * it;
  {Gone x; it = rcutils_dir_iter_start(x.str(d), a);}
  bool seen = false;
  MON_CHECK(it, "moved.dir", "start");
  do {
    const char * name = it->entry_name;
    seen = seen || !strcmp(name, "entry");
    std::string was = name;
    Gone x;
    rcutils_exists(x.str(d));
    uint64_t z;
    (void)!rcutils_calculate_directory_size(x.str(d), &z, a);
    MON_CHECK(was == name, "moved.handed-out", "the entry's name became %s", show(name).c_str());
  } while (rcutils_dir_iter_next(it));
  MON_CHECK(seen, "moved.dir", "an entry is missing");
  rcutils_dir_iter_end(it);
  return n;
}

static std::string g_record;
static void handler(const rcutils_log_location_t * l, int severity, const char * name, rcutils_time_point_value_t, const char * format, va_list * args)
{
  va_list ap;
  va_copy(ap, *args);
  g_record += fmt("%d:", severity) + name + ":" + l->file_name + ":" + vfmt(format, ap);
  va_end(ap);
}
static uint64_t logging(Case & c, CkAlloc & A)
{
  Rng & g = c.rng;
  (void)!rcutils_logging_shutdown();
  // in the environment there may be memory of the program
  static char format[] = "RCUTILS_CONSOLE_OUTPUT_FORMAT=<{name}|{message}|{file_name}>", color[] = "RCUTILS_COLORIZED_OUTPUT=0";
  const std::string format_was = format, color_was = color;
  bool own = g.chance(1, 2);
  if (own) {
    putenv(format);
    putenv(color);
  } else {
    setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "<{name}|{message}|{file_name}>", 1);
    setenv("RCUTILS_COLORIZED_OUTPUT", "0", 1);
  }
  MON_CHECK(rcutils_logging_initialize_with_allocator(A.get()) == RCUTILS_RET_OK, "moved.logging", "init");
  // the configuration was read when logging was initialized
  if (own) {
    memset(strchr(format, '=') + 1, '#', strlen(strchr(format, '=') + 1));
    memset(strchr(color, '=') + 1, '#', strlen(strchr(color, '=') + 1));
    count("moved.environment");
  } else {
    setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "something else altogether, and longer than what was before", 1);
    unsetenv("RCUTILS_COLORIZED_OUTPUT");
  }
  std::map<std::string, int> m;
  uint64_t n = 0;
  for (int i = 0; i < 30; ++i) {
    std::string k = g.str(1, "abc") + "." + g.str(1, "de");
    int s = 10 * static_cast<int>(1 + g.below(5));
    Gone x;
    if (g.chance(1, 3)) {
      MON_CHECK(rcutils_logging_set_logger_level(x.str(k), s) == RCUTILS_RET_OK, "moved.logging", "level");
      m[k] = s;
      continue;
    }
    int want = m.count(k) ? m[k] : 20;
    MON_CHECK(rcutils_logging_get_logger_effective_level(x.str(k)) == want, "moved.logging", "level of %s", k.c_str());
    bool console = g.chance(1, 3);
    rcutils_logging_set_output_handler(console ? rcutils_logging_console_output_handler : handler);
    rcutils_log_location_t loc = {x.str("fn"), x.str("file.c"), 3};
    std::string text;
    {
      Capture cap(stderr, 2);
      rcutils_log(x.obj(loc), s, x.str(k), x.str("%s"), x.str("some text"));
      text = cap.stop();
    }
    std::string expect = s < want ? "" : console ? "<" + k + "|some text|file.c>\n" : fmt("%d:", s) + k + ":file.c:some text";
    MON_CHECK((console ? text : g_record) == expect, "moved.logging", "%s instead of %s", show(console ? text : g_record).c_str(), show(expect).c_str());
    g_record.clear();
    ++n;
  }
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "moved.logging", "shutdown");
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  unsetenv("RCUTILS_COLORIZED_OUTPUT");
  memcpy(format, format_was.c_str(), sizeof(format));
  memcpy(color, color_was.c_str(), sizeof(color));
  rcutils_reset_error();
  return n;
}

static void moved(Case & c)
{
  static const struct {const char * name; uint64_t (* f)(Case &, CkAlloc &);} all[] = {
    {"list", list}, {"map", hmap}, {"smap", smap}, {"sarr", sarr}, {"chars", chars}, {"sha", sha}, {"library", library}, {"texts", texts}, {"logging", logging}};
  auto & k = all[c.idx % (sizeof(all) / sizeof(all[0]))];
  CkAlloc A("A");
  g_same_place = c.rng.chance(1, 2);
  uint64_t n = k.f(c, A);
  rcutils_reset_error();
  check_empty(A, k.name);
  count(std::string(K) + k.name);
  count("moves", n);
  c.mix(c.idx % 9); c.mix(n); c.mix(c.rng.next());
  if (n > 2) {c.interesting();}
}

static void reg() {section("moved", 9000, 700000, moved);}
MON_MAIN(reg)
