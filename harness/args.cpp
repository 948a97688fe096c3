// P19: invalid arguments, in every combination, against live objects of every kind.
#include <dlfcn.h>
#include <cerrno>
#include <set>

#include "mon.hpp"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/time.h"
#include "rcutils/types.h"

using namespace mon;

namespace
{
const int IA = RCUTILS_RET_INVALID_ARGUMENT, NI = RCUTILS_RET_NOT_INITIALIZED, ERR = RCUTILS_RET_ERROR, BA = RCUTILS_RET_BAD_ALLOC,
  MI = RCUTILS_RET_STRING_MAP_INVALID, AI = RCUTILS_RET_STRING_MAP_ALREADY_INIT;

int back(const void * a, const void * b) {return strcmp(*static_cast<const char * const *>(b), *static_cast<const char * const *>(a));}

// One live object of every kind; none of them may change.
struct World
{
  CkAlloc ck{"world"};
  rcutils_allocator_t a = ck.get();
  rcutils_array_list_t list = rcutils_get_zero_initialized_array_list();
  rcutils_hash_map_t map = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t smap = rcutils_get_zero_initialized_string_map();
  rcutils_string_array_t sarr = rcutils_get_zero_initialized_string_array(), sarr2 = rcutils_get_zero_initialized_string_array();
  rcutils_char_array_t chars = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t bytes = rcutils_get_zero_initialized_uint8_array();
  rcutils_shared_library_t lib = rcutils_get_zero_initialized_shared_library();
  rcutils_dir_iter_t * iter = nullptr;
  std::vector<int> list_m;
  std::map<std::string, int> map_m;
  std::map<std::string, std::string> smap_m;
  std::vector<std::string> sarr_m;
  std::string chars_m, bytes_m, scratch;
  size_t smap_cap = 0, map_cap = 0;
  std::vector<std::string> keep;
  rcutils_array_list_t list_s;
  rcutils_hash_map_t map_s;
  rcutils_string_map_t smap_s;
  rcutils_string_array_t sarr_s, sarr2_s;
  rcutils_char_array_t chars_s;
  rcutils_uint8_array_t bytes_s;
  rcutils_shared_library_t lib_s;
  rcutils_dir_iter_t iter_s;
  std::string lib_path;
  int level_a;
  uint64_t calls, frees;

  explicit World(Rng & g)
  {
    auto ok = [](rcutils_ret_t r, const char * what) {MON_CHECK(r == RCUTILS_RET_OK, "args.setup", "%s failed", what);};
    ok(rcutils_array_list_init(&list, 1 + g.below(4), sizeof(int), &a), "array_list_init");
    for (size_t i = 0, n = g.below(6); i < n; ++i) {
      int v = static_cast<int>(g.next());
      ok(rcutils_array_list_add(&list, &v), "array_list_add");
      list_m.push_back(v);
    }
    ok(rcutils_hash_map_init(&map, 1 + g.below(9), sizeof(char *), sizeof(int), rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func, &a), "hash_map_init");
    for (size_t i = 0, n = g.below(6); i < n; ++i) {keep.push_back("key" + std::to_string(i));}
    for (auto & k : keep) {
      const char * p = k.c_str();
      int v = static_cast<int>(g.next());
      ok(rcutils_hash_map_set(&map, &p, &v), "hash_map_set");
      map_m[k] = v;
    }
    ok(rcutils_string_map_init(&smap, g.below(5), a), "string_map_init");
    for (size_t i = 0, n = g.below(6); i < n; ++i) {
      std::string k = "name" + std::to_string(i), v = "value" + std::to_string(g.below(1000));
      ok(rcutils_string_map_set(&smap, k.c_str(), v.c_str()), "string_map_set");
      smap_m[k] = v;
    }
    size_t n = 1 + g.below(4);
    for (size_t i = 0; i < n; ++i) {sarr_m.push_back("element" + std::to_string(g.below(100)));}
    for (auto * s : {&sarr, &sarr2}) {
      ok(rcutils_string_array_init(s, n, &a), "string_array_init");
      for (size_t i = 0; i < n; ++i) {s->data[i] = rcutils_strdup(sarr_m[i].c_str(), a);}
    }
    ok(rcutils_char_array_init(&chars, 1 + g.below(20), &a), "char_array_init");
    chars_m = g.str(g.below(20), "abc");
    ok(rcutils_char_array_strcpy(&chars, chars_m.c_str()), "char_array_strcpy");
    ok(rcutils_uint8_array_init(&bytes, 4, &a), "uint8_array_init");
    bytes_m = g.bytes(4);
    memcpy(bytes.buffer, bytes_m.data(), 4);
    bytes.buffer_length = 4;
    ok(rcutils_load_shared_library(&lib, "libm.so.6", a), "load_shared_library");
    lib_path = lib.library_path;
    scratch = (run().scratch.empty() ? std::string("/tmp") : run().scratch) + "/args." + std::to_string(getpid());
    mkdir(scratch.c_str(), 0700);
    close(open((scratch + "/f").c_str(), O_CREAT | O_WRONLY, 0600));
    iter = rcutils_dir_iter_start(scratch.c_str(), a);
    MON_CHECK(iter, "args.setup", "dir_iter_start failed");
    ok(rcutils_logging_set_logger_level("args.a", RCUTILS_LOG_SEVERITY_WARN), "set_logger_level");
    rcutils_string_map_get_capacity(&smap, &smap_cap);
    rcutils_hash_map_get_capacity(&map, &map_cap);
    list_s = list; map_s = map; smap_s = smap; sarr_s = sarr; sarr2_s = sarr2; chars_s = chars; bytes_s = bytes; lib_s = lib; iter_s = *iter;
    calls = ck.calls;
    frees = ck.frees;
    rcutils_reset_error();
  }
  template<class T> static bool same(const T & x, const T & y) {return memcmp(&x, &y, sizeof(T)) == 0;}
  // Everything as it was?
  void intact(const char * what)
  {
    MON_CHECK(ck.calls == calls && ck.frees == frees, "args.allocated", "%s called the allocator (%" PRIu64 " requests, %" PRIu64 " releases)", what, ck.calls - calls, ck.frees - frees);
    MON_CHECK(same(list, list_s) && same(map, map_s) && same(smap, smap_s) && same(sarr, sarr_s) && same(sarr2, sarr2_s) && same(chars, chars_s) && same(bytes, bytes_s) &&
      same(lib, lib_s) && same(*iter, iter_s), "args.changed", "%s changed an object", what);
    size_t n = 0;
    MON_CHECK(rcutils_array_list_get_size(&list, &n) == RCUTILS_RET_OK && n == list_m.size(), "args.changed", "%s changed the size of a list", what);
    for (size_t i = 0; i < n; ++i) {
      int v = 0;
      MON_CHECK(rcutils_array_list_get(&list, i, &v) == RCUTILS_RET_OK && v == list_m[i], "args.changed", "%s changed a list", what);
    }
    MON_CHECK(rcutils_hash_map_get_size(&map, &n) == RCUTILS_RET_OK && n == map_m.size(), "args.changed", "%s changed the size of a hash map", what);
    MON_CHECK(rcutils_hash_map_get_capacity(&map, &n) == RCUTILS_RET_OK && n == map_cap, "args.changed", "%s changed the capacity of a hash map", what);
    for (auto & k : map_m) {
      const char * p = k.first.c_str();
      int v = 0;
      MON_CHECK(rcutils_hash_map_get(&map, &p, &v) == RCUTILS_RET_OK && v == k.second, "args.changed", "%s changed a hash map", what);
    }
    MON_CHECK(rcutils_string_map_get_size(&smap, &n) == RCUTILS_RET_OK && n == smap_m.size(), "args.changed", "%s changed the size of a string map", what);
    MON_CHECK(rcutils_string_map_get_capacity(&smap, &n) == RCUTILS_RET_OK && n == smap_cap, "args.changed", "%s changed the capacity of a string map", what);
    for (auto & k : smap_m) {
      const char * v = rcutils_string_map_get(&smap, k.first.c_str());
      MON_CHECK(v && k.second == v, "args.changed", "%s changed a string map", what);
    }
    for (size_t i = 0; i < sarr_m.size(); ++i) {MON_CHECK(sarr_m[i] == sarr.data[i] && sarr_m[i] == sarr2.data[i], "args.changed", "%s changed a string array", what);}
    MON_CHECK(chars_m == chars.buffer, "args.changed", "%s changed a char array", what);
    MON_CHECK(memcmp(bytes.buffer, bytes_m.data(), 4) == 0, "args.changed", "%s changed a uint8 array", what);
    MON_CHECK(lib_path == lib.library_path && rcutils_has_symbol(&lib, "cos"), "args.changed", "%s changed a shared library", what);
    MON_CHECK(rcutils_logging_get_logger_level("args.a") == RCUTILS_LOG_SEVERITY_WARN && rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO,
      "args.changed", "%s changed a level", what);
    MON_CHECK(!rcutils_error_is_set(), "args.usable", "using the objects after %s sets an error", what);
  }
  void fini()
  {
    auto ok = [](rcutils_ret_t r, const char * what) {MON_CHECK(r == RCUTILS_RET_OK, "args.fini", "%s failed", what);};
    ok(rcutils_array_list_fini(&list), "array_list_fini");
    ok(rcutils_hash_map_fini(&map), "hash_map_fini");
    ok(rcutils_string_map_fini(&smap), "string_map_fini");
    ok(rcutils_string_array_fini(&sarr), "string_array_fini");
    ok(rcutils_string_array_fini(&sarr2), "string_array_fini");
    ok(rcutils_char_array_fini(&chars), "char_array_fini");
    ok(rcutils_uint8_array_fini(&bytes), "uint8_array_fini");
    ok(rcutils_unload_shared_library(&lib), "unload_shared_library");
    rcutils_dir_iter_end(iter);
    check_empty(ck, "the objects");
  }
};

// One call: which of its arguments are wrong, and what may come of it.
struct Trial
{
  World & w;
  Rng & g;
  const char * what = "?";
  uint64_t mask;
  unsigned at = 0, n = 0;
  std::set<int> allowed;
  std::string names;
  Trial(World & world, uint64_t m) : w(world), g(*rng), mask(m) {}
  static Rng * rng;
  // Is this argument wrong this time?
  bool bad(const char * name, std::initializer_list<int> codes = {})
  {
    bool b = (mask >> at++) & 1;
    if (!b) {return false;}
    ++n;
    names += std::string(names.empty() ? "" : "+") + name;
    allowed.insert(codes);
    return true;
  }
  bool none() const {return n == 0;}
  // Shall a rejected initialization be given an object in use, which must survive it?
  bool live()
  {
    if (!g.chance(1, 3)) {return false;}
    count("live-init");
    return true;
  }
  // An allocator lacking something.
  rcutils_allocator_t broken()
  {
    rcutils_allocator_t b = w.a;
    uint64_t m = 1 + g.below(15);
    if (m & 1) {b.allocate = nullptr;}
    if (m & 2) {b.deallocate = nullptr;}
    if (m & 4) {b.reallocate = nullptr;}
    if (m & 8) {b.zero_allocate = nullptr;}
    if (g.chance(1, 4)) {b.state = nullptr;}
    return b;
  }
  void begin(const char * f)
  {
    what = f;
    rcutils_reset_error();
    tr(fmt("%s with wrong %s", f, names.c_str()));
  }
  void message(bool must)
  {
    // (an invalid allocator is rejected without a message in places)
    if (must && names.find("allocator") == std::string::npos) {
      MON_CHECK(rcutils_error_is_set(), "args.no-message", "%s with wrong %s set no error message", what, names.c_str());
      MON_CHECK(rcutils_get_error_state()->message[0] != 0 && rcutils_get_error_state()->line_number != 0, "args.no-message", "%s with wrong %s set an empty error message", what, names.c_str());
    }
    rcutils_reset_error();
    count(std::string("rejected.") + what);
    count("combinations", n > 1);
  }
  void ret(int r, bool msg = true)
  {
    MON_CHECK(allowed.count(r), "args.code", "%s with wrong %s returned %d", what, names.c_str(), r);
    message(msg);
  }
  void flag(bool ok, const char * got, bool msg = false)
  {
    MON_CHECK(ok, "args.result", "%s with wrong %s returned %s", what, names.c_str(), got);
    message(msg);
  }
};
Rng * Trial::rng = nullptr;

typedef std::function<void (Trial &)> Call;
struct Entry {const char * name; Call call;};

// Objects that are not initialized: zero, or finalized.
rcutils_array_list_t no_list(Trial & t)
{
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  if (t.g.chance(1, 2)) {
    auto d = rcutils_get_default_allocator();
    MON_CHECK(rcutils_array_list_init(&l, 2, 4, &d) == RCUTILS_RET_OK && rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "args.temp", "temporary list");
  }
  return l;
}
rcutils_hash_map_t no_map(Trial & t)
{
  rcutils_hash_map_t l = rcutils_get_zero_initialized_hash_map();
  if (t.g.chance(1, 2)) {
    auto d = rcutils_get_default_allocator();
    MON_CHECK(rcutils_hash_map_init(&l, 2, 4, 4, rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func, &d) == RCUTILS_RET_OK && rcutils_hash_map_fini(&l) == RCUTILS_RET_OK, "args.temp", "temporary map");
  }
  return l;
}
rcutils_string_map_t no_smap(Trial & t)
{
  rcutils_string_map_t l = rcutils_get_zero_initialized_string_map();
  if (t.g.chance(1, 2)) {
    MON_CHECK(rcutils_string_map_init(&l, 2, rcutils_get_default_allocator()) == RCUTILS_RET_OK && rcutils_string_map_fini(&l) == RCUTILS_RET_OK, "args.temp", "temporary string map");
  }
  return l;
}

// NULL, or uninitialized, or fine
#define OBJECT(type, var, live, none_fn, null_codes, none_codes) \
  bool var ## _null = t.bad("NULL " #type, null_codes), var ## _none = t.bad("uninitialized " #type, none_codes); \
  type var ## _spare = none_fn(t), var ## _was = var ## _spare; \
  type * var = var ## _null ? nullptr : (var ## _none ? &var ## _spare : &live)
#define CODES(...) {__VA_ARGS__}
#define SAME(var) MON_CHECK(memcmp(&var ## _spare, &var ## _was, sizeof(var ## _was)) == 0, "args.changed", "%s changed an uninitialized object", t.what)
#define UNLESS_VALID if (t.none()) {return;}

template<class T> struct Out       // an output which must not be written
{
  T v, was;
  Out() {memset(&v, 0x5A, sizeof(v)); memcpy(&was, &v, sizeof(v));}
  void check(Trial & t) {MON_CHECK(memcmp(&v, &was, sizeof(v)) == 0, "args.output", "%s with wrong %s wrote to its output", t.what, t.names.c_str());}
};

std::vector<Entry> & table()
{
  static std::vector<Entry> e;
  return e;
}

void fill()
{
  auto & e = table();
#define CALL(name) e.push_back(Entry{name, [](Trial & t) {
#define END }});

  // ---- array_list
  CALL("array_list_init")
    bool n = t.bad("list", {IA}), u = t.bad("list in use", {IA}), c = t.bad("capacity", {IA}), s = t.bad("element size", {IA}), an = t.bad("NULL allocator", {IA}), ab = t.bad("allocator", {IA});
    bool huge = t.bad("overflowing capacity", {IA, BA});
    UNLESS_VALID
    rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("array_list_init");
    rcutils_ret_t r = rcutils_array_list_init(n ? nullptr : u ? &t.w.list : &l, c ? 0 : huge ? SIZE_MAX / 4 + 2 : 3, s ? 0 : 8, an ? nullptr : &b);
    t.ret(r);
    MON_CHECK(l.impl == nullptr, "args.changed", "a rejected init left an object");
    if (huge && !n && !u && !an && !ab && !c && !s) {t.w.calls = t.w.ck.calls; t.w.frees = t.w.ck.frees;}
  END
  CALL("array_list_fini")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    UNLESS_VALID
    t.begin("array_list_fini");
    t.ret(rcutils_array_list_fini(l));
    SAME(l);
  END
  CALL("array_list_add")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    bool d = t.bad("data", {IA});
    UNLESS_VALID
    int v = 1;
    t.begin("array_list_add");
    t.ret(rcutils_array_list_add(l, d ? nullptr : &v));
    SAME(l);
  END
  CALL("array_list_set")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    bool d = t.bad("data", {IA}), i = t.bad("index", {IA});
    if (!i && t.w.list_m.empty()) {return;}
    UNLESS_VALID
    int v = 1;
    t.begin("array_list_set");
    t.ret(rcutils_array_list_set(l, i ? t.w.list_m.size() + (t.g.chance(1, 2) ? 0 : t.g.chance(1, 2) ? t.g.below(5) : SIZE_MAX - t.w.list_m.size()) : t.g.below(t.w.list_m.size()), d ? nullptr : &v));
    SAME(l);
  END
  CALL("array_list_get")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    bool d = t.bad("data", {IA}), i = t.bad("index", {IA});
    if (!i && t.w.list_m.empty()) {return;}
    UNLESS_VALID
    Out<int> v;
    t.begin("array_list_get");
    t.ret(rcutils_array_list_get(l, i ? t.w.list_m.size() + (t.g.chance(1, 2) ? 0 : t.g.chance(1, 2) ? t.g.below(5) : SIZE_MAX - t.w.list_m.size()) : t.g.below(t.w.list_m.size()), d ? nullptr : &v.v));
    v.check(t);
    SAME(l);
  END
  CALL("array_list_remove")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    bool i = t.bad("index", {IA});
    if (!i && t.w.list_m.empty()) {return;}
    UNLESS_VALID
    t.begin("array_list_remove");
    t.ret(rcutils_array_list_remove(l, i ? t.w.list_m.size() + (t.g.chance(1, 2) ? 0 : t.g.chance(1, 2) ? t.g.below(5) : SIZE_MAX - t.w.list_m.size()) : t.g.below(t.w.list_m.size())));
    SAME(l);
  END
  CALL("array_list_get_size")
    OBJECT(rcutils_array_list_t, l, t.w.list, no_list, CODES(IA), CODES(NI));
    bool s = t.bad("size", {IA});
    UNLESS_VALID
    Out<size_t> v;
    t.begin("array_list_get_size");
    t.ret(rcutils_array_list_get_size(l, s ? nullptr : &v.v));
    v.check(t);
    SAME(l);
  END

  // ---- hash_map
  CALL("hash_map_init")
    bool n = t.bad("map", {IA}), c = t.bad("capacity", {IA}), k = t.bad("key size", {IA}), d = t.bad("data size", {IA}), h = t.bad("hash", {IA}), q = t.bad("comparison", {IA}),
      an = t.bad("NULL allocator", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("hash_map_init");
    t.ret(rcutils_hash_map_init(n ? nullptr : t.live() ? &t.w.map : &m, c ? 0 : 1 + t.g.below(9), k ? 0 : 8, d ? 0 : 4, h ? nullptr : rcutils_hash_map_string_hash_func,
      q ? nullptr : rcutils_hash_map_string_cmp_func, an ? nullptr : &b));
    MON_CHECK(m.impl == nullptr, "args.changed", "a rejected init left an object");
  END
  CALL("hash_map_fini")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI));
    UNLESS_VALID
    t.begin("hash_map_fini");
    t.ret(rcutils_hash_map_fini(m));
    SAME(m);
  END
#define HASH_SIZE(f) \
  CALL(#f) \
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI)); \
    bool s = t.bad("output", {IA}); \
    UNLESS_VALID \
    Out<size_t> v; \
    t.begin(#f); \
    t.ret(rcutils_ ## f(m, s ? nullptr : &v.v)); \
    v.check(t); \
    SAME(m); \
  END
  HASH_SIZE(hash_map_get_capacity)
  HASH_SIZE(hash_map_get_size)
  CALL("hash_map_set")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI));
    bool k = t.bad("key", {IA}), d = t.bad("value", {IA});
    UNLESS_VALID
    const char * key = t.g.chance(1, 2) ? "key0" : "new";
    int v = 7;
    t.begin("hash_map_set");
    t.ret(rcutils_hash_map_set(m, k ? nullptr : &key, d ? nullptr : &v));
    SAME(m);
  END
  CALL("hash_map_unset")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI));
    bool k = t.bad("key", {IA});
    UNLESS_VALID
    const char * key = "key0";
    t.begin("hash_map_unset");
    t.ret(rcutils_hash_map_unset(m, k ? nullptr : &key));
    SAME(m);
  END
  CALL("hash_map_key_exists")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(), CODES());
    bool k = t.bad("key");
    UNLESS_VALID
    const char * key = "key0";
    t.begin("hash_map_key_exists");
    t.flag(!rcutils_hash_map_key_exists(m, k ? nullptr : &key), "true");
    SAME(m);
  END
  CALL("hash_map_get")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI));
    bool k = t.bad("key", {IA}), d = t.bad("data", {IA});
    UNLESS_VALID
    const char * key = "key0";
    Out<int> v;
    t.begin("hash_map_get");
    t.ret(rcutils_hash_map_get(m, k ? nullptr : &key, d ? nullptr : &v.v));
    v.check(t);
    SAME(m);
  END
  CALL("hash_map_get_next_key_and_data")
    OBJECT(rcutils_hash_map_t, m, t.w.map, no_map, CODES(IA), CODES(NI));
    bool k = t.bad("key", {IA}), d = t.bad("data", {IA});
    UNLESS_VALID
    const char * prev = "key0";
    Out<const char *> key;
    Out<int> v;
    t.begin("hash_map_get_next_key_and_data");
    t.ret(rcutils_hash_map_get_next_key_and_data(m, t.g.chance(1, 2) ? nullptr : &prev, k ? nullptr : &key.v, d ? nullptr : &v.v));
    v.check(t);
    key.check(t);
    SAME(m);
  END

  // ---- string_map
  CALL("string_map_init")
    bool n = t.bad("map", {IA}), u = t.bad("map in use", {AI}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("string_map_init");
    t.ret(rcutils_string_map_init(n ? nullptr : u ? &t.w.smap : &m, t.g.below(5), b));
    MON_CHECK(m.impl == nullptr, "args.changed", "a rejected init left an object");
  END
  CALL("string_map_fini")
    bool n = t.bad("map", {IA});
    (void)n;
    UNLESS_VALID
    t.begin("string_map_fini");
    t.ret(rcutils_string_map_fini(nullptr));
  END
#define SMAP_SIZE(f) \
  CALL(#f) \
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(IA), CODES(MI)); \
    bool s = t.bad("output", {IA}); \
    UNLESS_VALID \
    Out<size_t> v; \
    t.begin(#f); \
    t.ret(rcutils_ ## f(m, s ? nullptr : &v.v)); \
    v.check(t); \
    SAME(m); \
  END
  SMAP_SIZE(string_map_get_capacity)
  SMAP_SIZE(string_map_get_size)
  CALL("string_map_reserve")
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(IA), CODES(MI));
    UNLESS_VALID
    t.begin("string_map_reserve");
    t.ret(rcutils_string_map_reserve(m, t.g.below(10)));
    SAME(m);
  END
  CALL("string_map_clear")
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(IA), CODES(MI));
    UNLESS_VALID
    t.begin("string_map_clear");
    t.ret(rcutils_string_map_clear(m));
    SAME(m);
  END
#define SMAP_SET(f) \
  CALL(#f) \
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(IA), CODES(MI)); \
    bool k = t.bad("key", {IA}), v = t.bad("value", {IA}); \
    UNLESS_VALID \
    t.begin(#f); \
    t.ret(rcutils_ ## f(m, k ? nullptr : t.g.chance(1, 2) ? "name0" : "other", v ? nullptr : "x")); \
    SAME(m); \
  END
  SMAP_SET(string_map_set)
  SMAP_SET(string_map_set_no_resize)
  CALL("string_map_unset")
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(IA), CODES(MI));
    bool k = t.bad("key", {IA});
    UNLESS_VALID
    t.begin("string_map_unset");
    t.ret(rcutils_string_map_unset(m, k ? nullptr : "name0"));
    SAME(m);
  END
  CALL("string_map_unset_missing")
    bool k = t.bad("key not in the map", {RCUTILS_RET_STRING_KEY_NOT_FOUND});
    (void)k;
    UNLESS_VALID
    t.begin("string_map_unset_missing");
    t.ret(rcutils_string_map_unset(&t.w.smap, "not there"));
  END
  CALL("string_map_set_no_resize_full")
    bool k = t.bad("full map", {RCUTILS_RET_NOT_ENOUGH_SPACE});
    (void)k;
    UNLESS_VALID
    if (t.w.smap_m.size() != t.w.smap_cap) {return;}
    t.begin("string_map_set_no_resize_full");
    t.ret(rcutils_string_map_set_no_resize(&t.w.smap, "not there", "x"), false);
  END
#define SMAP_LOOKUP(f, call, expected) \
  CALL(#f) \
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(), CODES()); \
    bool k = t.bad("key"); \
    UNLESS_VALID \
    const char * key = k ? nullptr : "name0"; \
    t.begin(#f); \
    t.flag(call == expected, "something"); \
    SAME(m); \
  END
  SMAP_LOOKUP(string_map_key_exists, rcutils_string_map_key_exists(m, key), false)
  SMAP_LOOKUP(string_map_key_existsn, rcutils_string_map_key_existsn(m, key, t.g.below(6)), false)
  SMAP_LOOKUP(string_map_get, rcutils_string_map_get(m, key), nullptr)
  SMAP_LOOKUP(string_map_getn, rcutils_string_map_getn(m, key, t.g.below(6)), nullptr)
  CALL("string_map_get_next_key")
    OBJECT(rcutils_string_map_t, m, t.w.smap, no_smap, CODES(), CODES());
    bool k = t.bad("previous key");
    UNLESS_VALID
    t.begin("string_map_get_next_key");
    t.flag(!rcutils_string_map_get_next_key(m, k ? "not one of the map's own" : nullptr), "a key");
    SAME(m);
  END
  CALL("string_map_copy")
    OBJECT(rcutils_string_map_t, src, t.w.smap, no_smap, CODES(IA), CODES(MI));
    OBJECT(rcutils_string_map_t, dst, t.w.smap, no_smap, CODES(IA), CODES(MI));
    UNLESS_VALID
    t.begin("string_map_copy");
    t.ret(rcutils_string_map_copy(src, dst));
    SAME(src);
    SAME(dst);
  END

  // ---- string_array
  CALL("string_array_init")
    bool n = t.bad("array", {IA}), an = t.bad("NULL allocator", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_string_array_t s = rcutils_get_zero_initialized_string_array(), z = s;
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("string_array_init");
    t.ret(rcutils_string_array_init(n ? nullptr : t.live() ? &t.w.sarr : &s, t.g.below(4), an ? nullptr : &b));
    MON_CHECK(memcmp(&s, &z, sizeof(s)) == 0, "args.changed", "a rejected init changed the object");
  END
  CALL("string_array_fini")
    bool n = t.bad("array", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_string_array_t s = t.w.sarr;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("string_array_fini");
    t.ret(rcutils_string_array_fini(n ? nullptr : &s));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected fini changed the object");
  END
  CALL("string_array_cmp")
    bool l = t.bad("lhs", {IA}), r = t.bad("rhs", {IA}), o = t.bad("result", {IA});
    UNLESS_VALID
    Out<int> v;
    t.begin("string_array_cmp");
    t.ret(rcutils_string_array_cmp(l ? nullptr : &t.w.sarr, r ? nullptr : &t.w.sarr2, o ? nullptr : &v.v));
    v.check(t);
  END
  CALL("string_array_cmp_content")
    bool ld = t.bad("lhs data", {IA}), rd = t.bad("rhs data", {IA}), le = t.bad("lhs element", {ERR, IA}), re = t.bad("rhs element", {ERR, IA});
    UNLESS_VALID
    std::vector<char *> x(t.w.sarr.data, t.w.sarr.data + t.w.sarr.size), y(t.w.sarr2.data, t.w.sarr2.data + t.w.sarr2.size);
    size_t at = t.g.below(x.size());
    if (le) {x[at] = nullptr;}
    if (re) {y[at] = nullptr;}
    rcutils_string_array_t l = t.w.sarr, r = t.w.sarr2;
    l.data = ld ? nullptr : x.data();
    r.data = rd ? nullptr : y.data();
    Out<int> v;
    t.begin("string_array_cmp_content");
    t.ret(rcutils_string_array_cmp(&l, &r, &v.v));
  END
  CALL("string_array_resize")
    bool n = t.bad("array", {IA}), ab = t.bad("allocator", {IA}), h = t.bad("overflowing size", {BA});
    UNLESS_VALID
    rcutils_string_array_t s = t.w.sarr;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("string_array_resize");
    t.ret(rcutils_string_array_resize(n ? nullptr : &s, h ? SIZE_MAX / sizeof(char *) + 1 + t.g.below(3) : t.w.sarr.size + 1 + t.g.below(3)));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected resize changed the object");
  END
  CALL("qsort")
    bool p = t.bad("data", {IA}), c = t.bad("comparison", {IA});
    UNLESS_VALID
    t.begin("qsort");
    std::vector<const char *> x = {"b", "a"};
    t.ret(rcutils_qsort(p ? nullptr : x.data(), 2, sizeof(char *), c ? nullptr : back));
    MON_CHECK(!strcmp(x[0], "b") && !strcmp(x[1], "a"), "args.changed", "a rejected sort sorted");
  END

  // ---- char_array, uint8_array
  CALL("char_array_init")
    bool n = t.bad("array", {IA, ERR}), an = t.bad("NULL allocator", {IA, ERR}), ab = t.bad("allocator", {IA, ERR});
    UNLESS_VALID
    rcutils_char_array_t s = rcutils_get_zero_initialized_char_array(), z = s;
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("char_array_init");
    t.ret(rcutils_char_array_init(n ? nullptr : t.live() ? &t.w.chars : &s, t.g.below(9), an ? nullptr : &b));
    MON_CHECK(memcmp(&s, &z, sizeof(s)) == 0, "args.changed", "a rejected init changed the object");
  END
  CALL("char_array_fini")
    bool n = t.bad("array", {IA, ERR}), ab = t.bad("allocator", {IA, ERR});
    UNLESS_VALID
    rcutils_char_array_t s = t.w.chars;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("char_array_fini");
    t.ret(rcutils_char_array_fini(n ? nullptr : &s));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected fini changed the object");
  END
  CALL("char_array_resize")
    bool n = t.bad("array", {IA, ERR}), z = t.bad("size", {IA}), ab = t.bad("allocator", {IA, ERR});
    UNLESS_VALID
    rcutils_char_array_t s = t.w.chars;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("char_array_resize");
    t.ret(rcutils_char_array_resize(n ? nullptr : &s, z ? 0 : t.w.chars.buffer_capacity + 1 + t.g.below(100)));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected resize changed the object");
  END
  CALL("char_array_expand_as_needed")
    bool n = t.bad("array", {IA, ERR}), ab = t.bad("allocator", {IA, ERR});
    UNLESS_VALID
    rcutils_char_array_t s = t.w.chars;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("char_array_expand_as_needed");
    t.ret(rcutils_char_array_expand_as_needed(n ? nullptr : &s, t.w.chars.buffer_capacity + 1 + t.g.below(100)));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected expansion changed the object");
  END
  CALL("char_array_grow")
    bool ab = t.bad("allocator", {IA, ERR});
    UNLESS_VALID
    rcutils_char_array_t s = t.w.chars;
    if (ab) {s.allocator = t.broken();}
    std::string big = t.g.str(t.w.chars.buffer_capacity + t.g.below(100), "xyz");
    t.begin("char_array_grow");
    unsigned how = static_cast<unsigned>(t.g.below(4));
    t.ret(how == 0 ? rcutils_char_array_strcpy(&s, big.c_str()) : how == 1 ? rcutils_char_array_strcat(&s, big.c_str()) :
      how == 2 ? rcutils_char_array_memcpy(&s, big.c_str(), big.size() + 1) : rcutils_char_array_strncat(&s, big.c_str(), big.size()));
    MON_CHECK(s.buffer == t.w.chars.buffer && s.buffer_capacity == t.w.chars.buffer_capacity, "args.changed", "a rejected growth replaced the buffer");
  END
  CALL("uint8_array_init")
    bool n = t.bad("array", {IA}), an = t.bad("NULL allocator", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_uint8_array_t s = rcutils_get_zero_initialized_uint8_array(), z = s;
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("uint8_array_init");
    t.ret(rcutils_uint8_array_init(n ? nullptr : t.live() ? &t.w.bytes : &s, t.g.below(9), an ? nullptr : &b));
    MON_CHECK(memcmp(&s, &z, sizeof(s)) == 0, "args.changed", "a rejected init changed the object");
  END
  CALL("uint8_array_fini")
    bool n = t.bad("array", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_uint8_array_t s = t.w.bytes;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("uint8_array_fini");
    t.ret(rcutils_uint8_array_fini(n ? nullptr : &s));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected fini changed the object");
  END
  CALL("uint8_array_resize")
    bool n = t.bad("array", {IA}), z = t.bad("size", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_uint8_array_t s = t.w.bytes;
    if (ab) {s.allocator = t.broken();}
    auto before = s;
    t.begin("uint8_array_resize");
    t.ret(rcutils_uint8_array_resize(n ? nullptr : &s, z ? 0 : 5 + t.g.below(100)));
    MON_CHECK(memcmp(&s, &before, sizeof(s)) == 0, "args.changed", "a rejected resize changed the object");
  END

  // ---- strings
  CALL("split")
    bool n = t.bad("array", {IA}), ab = t.bad("allocator", {IA, BA, ERR});
    UNLESS_VALID
    rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
    t.begin("split");
    t.ret(rcutils_split("a/b", '/', ab ? t.broken() : t.w.a, n ? nullptr : &s));
    MON_CHECK(s.data == nullptr && s.size == 0, "args.changed", "a rejected split left strings");
  END
  CALL("split_last")
    bool ab = t.bad("allocator", {IA, BA, ERR});
    UNLESS_VALID
    rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
    t.begin("split_last");
    t.ret(rcutils_split_last(ab ? "a/b" : "", '/', t.broken(), &s));
    MON_CHECK(s.data == nullptr && s.size == 0, "args.changed", "a rejected split left strings");
  END
  CALL("repl_str")
    bool an = t.bad("NULL allocator"), ab = t.bad("allocator");
    UNLESS_VALID
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("repl_str");
    t.flag(!rcutils_repl_str("a/b", "/", "x", an ? nullptr : &b), "a string", true);
  END
#define STRING(f, wrong, call) \
  CALL(#f) \
    bool p = t.bad(wrong), ab = t.bad("allocator"); \
    UNLESS_VALID \
    rcutils_allocator_t b = ab ? t.broken() : t.w.a; \
    t.begin(#f); \
    t.flag(!(call), "a string", !p); \
  END
  STRING(strdup, "string", rcutils_strdup(p ? nullptr : "abc", b))
  STRING(strndup, "string", rcutils_strndup(p ? nullptr : "abc", t.g.below(5), b))
  STRING(format_string, "format", rcutils_format_string(b, p ? nullptr : "abc%d", 1))
  STRING(format_string_limit, "format", rcutils_format_string_limit(b, 1 + t.g.below(9), p ? nullptr : "%d", 4))
  STRING(to_native_path, "path", rcutils_to_native_path(p ? nullptr : "a/b", b))
  STRING(expand_user, "path", rcutils_expand_user(p ? nullptr : t.g.chance(1, 2) ? "~/b" : "b", b))
  CALL("join_path")
    bool l = t.bad("left"), r = t.bad("right"), ab = t.bad("allocator");
    UNLESS_VALID
    t.begin("join_path");
    t.flag(!rcutils_join_path(l ? nullptr : "a", r ? nullptr : "b", ab ? t.broken() : t.w.a), "a string", !l && !r);
  END
  CALL("get_executable_name")
    bool ab = t.bad("allocator");
    (void)ab;
    UNLESS_VALID
    t.begin("get_executable_name");
    t.flag(!rcutils_get_executable_name(t.broken()), "a string", true);
  END
  CALL("snprintf")
    bool f = t.bad("format"), z = t.bad("size"), n = t.bad("buffer");
    UNLESS_VALID
    if (!f && z && n) {return;}       // asks for the length
    char buf[8];
    memset(buf, 0x5A, sizeof(buf));
    errno = 0;
    const char * format = f ? nullptr : "x";
    t.begin("snprintf");
    int r = rcutils_snprintf(n ? nullptr : buf, z ? 0 : sizeof(buf), format);
    MON_CHECK(errno == EINVAL, "args.errno", "errno is %d", errno);
    t.flag(r < 0, "a length");
    for (char c : buf) {MON_CHECK(c == 0x5A, "args.output", "snprintf wrote to its buffer");}
  END
  CALL("strcasecmp")
    bool a = t.bad("first"), b = t.bad("second"), v = t.bad("result");
    UNLESS_VALID
    Out<int> o;
    t.begin("strcasecmp");
    bool n = t.g.chance(1, 2);
    int r = n ? rcutils_strncasecmp(a ? nullptr : "a", b ? nullptr : "b", 1 + t.g.below(3), v ? nullptr : &o.v) : rcutils_strcasecmp(a ? nullptr : "a", b ? nullptr : "b", v ? nullptr : &o.v);
    t.flag(r != 0, "success");
    o.check(t);
  END
  CALL("find")
    bool s = t.bad("string");
    (void)s;
    UNLESS_VALID
    t.begin("find");
    size_t r = 0;
    switch (t.g.below(6)) {
      case 0: r = rcutils_find(nullptr, 'a'); break;
      case 1: r = rcutils_findn(nullptr, 'a', t.g.below(5)); break;
      case 2: r = rcutils_find_last(nullptr, 'a'); break;
      case 3: r = rcutils_find_lastn(nullptr, 'a', t.g.below(5)); break;
      case 4: r = rcutils_findn("aa", 'a', 0); break;
      default: r = rcutils_find_lastn("aa", 'a', 0); break;
    }
    t.flag(r == SIZE_MAX, "a position");
  END

  // ---- time
#define TIME_STRING(f) \
  CALL(#f) \
    bool p = t.bad("time point", {IA}), s = t.bad("buffer", {IA}); \
    UNLESS_VALID \
    rcutils_time_point_value_t v = 5; \
    char buf[40]; \
    memset(buf, 0x5A, sizeof(buf)); \
    t.begin(#f); \
    t.ret(rcutils_ ## f(p ? nullptr : &v, s ? nullptr : buf, t.g.chance(1, 4) ? 0 : sizeof(buf))); \
    for (char c : buf) {MON_CHECK(c == 0x5A, "args.output", "%s wrote to its buffer", t.what);} \
  END
  TIME_STRING(time_point_value_as_nanoseconds_string)
  TIME_STRING(time_point_value_as_seconds_string)
  TIME_STRING(time_point_value_as_date_string)
  CALL("time_now")
    bool p = t.bad("output", {IA});
    (void)p;
    UNLESS_VALID
    t.begin("time_now");
    t.ret(t.g.chance(1, 2) ? rcutils_system_time_now(nullptr) : rcutils_steady_time_now(nullptr));
  END

  // ---- environment and files
  CALL("set_env")
    bool n = t.bad("name");
    (void)n;
    UNLESS_VALID
    t.begin("set_env");
    unsigned k = static_cast<unsigned>(t.g.below(3));
    const char * v = t.g.chance(1, 2) ? nullptr : "x";
    t.flag(!(k == 0 ? rcutils_set_env(nullptr, v) : k == 1 ? rcutils_set_env_overwrite(nullptr, v, true) : rcutils_set_env_overwrite(nullptr, v, false)), "true", true);
  END
  CALL("get_env")
    bool n = t.bad("name"), v = t.bad("value");
    UNLESS_VALID
    Out<const char *> o;
    t.begin("get_env");
    const char * r = rcutils_get_env(n ? nullptr : "PATH", v ? nullptr : &o.v);
    t.flag(r && *r, "no error string");
    o.check(t);
  END
  CALL("get_cwd")
    bool n = t.bad("buffer"), z = t.bad("size");
    UNLESS_VALID
    char buf[4096];
    memset(buf, 0x5A, sizeof(buf));
    t.begin("get_cwd");
    t.flag(!rcutils_get_cwd(n ? nullptr : buf, z ? 0 : sizeof(buf)), "true");
    for (char c : buf) {MON_CHECK(c == 0x5A, "args.output", "get_cwd wrote to its buffer");}
  END
  CALL("mkdir")
    bool n = t.bad("path");
    (void)n;
    UNLESS_VALID
    t.begin("mkdir");
    const char * p[] = {nullptr, "", "relative", "./x", "~"};
    t.flag(!rcutils_mkdir(p[t.g.below(5)]), "true");
  END
  CALL("predicates")
    bool n = t.bad("path");
    (void)n;
    UNLESS_VALID
    t.begin("predicates");
    const char * p = t.g.chance(1, 2) ? nullptr : "";
    t.flag(!rcutils_is_directory(p) && !rcutils_is_file(p) && !rcutils_exists(p) && !rcutils_is_readable(p) && !rcutils_is_writable(p) && !rcutils_is_readable_and_writable(p), "true");
  END
  CALL("calculate_directory_size")
    bool p = t.bad("path", {IA}), s = t.bad("size", {IA}), ab = t.bad("allocator", {IA}), f = t.bad("not a directory", {ERR});
    UNLESS_VALID
    Out<uint64_t> o;
    std::string path = t.w.scratch + (f ? t.g.chance(1, 2) ? "/f" : "/none" : "");
    rcutils_allocator_t a = ab ? t.broken() : t.w.a;
    t.begin("calculate_directory_size");
    size_t depth = t.g.below(4);
    t.ret(t.g.chance(1, 2) ? rcutils_calculate_directory_size(p ? nullptr : path.c_str(), s ? nullptr : &o.v, a) :
      rcutils_calculate_directory_size_with_recursion(p ? nullptr : path.c_str(), depth, s ? nullptr : &o.v, a), false);
    if (p || s || f || ab) {if (o.v != 0) {o.check(t);}}
  END
  CALL("dir_iter_start")
    bool p = t.bad("path"), ab = t.bad("allocator");
    UNLESS_VALID
    t.begin("dir_iter_start");
    t.flag(!rcutils_dir_iter_start(p ? nullptr : t.w.scratch.c_str(), ab ? t.broken() : t.w.a), "an iterator", true);
  END
  CALL("dir_iter_next")
    bool p = t.bad("iterator"), s = t.bad("iterator's state");
    UNLESS_VALID
    rcutils_dir_iter_t i = *t.w.iter;
    i.state = nullptr;
    auto was = i;
    t.begin("dir_iter_next");
    t.flag(!rcutils_dir_iter_next(p || !s ? nullptr : &i), "true", true);
    MON_CHECK(memcmp(&i, &was, sizeof(i)) == 0, "args.changed", "an iterator changed");
  END
  CALL("dir_iter_end")
    bool p = t.bad("iterator"), ab = t.bad("iterator's allocator");
    UNLESS_VALID
    rcutils_dir_iter_t i = *t.w.iter;
    if (ab) {i.allocator = t.broken();}
    t.begin("dir_iter_end");
    rcutils_dir_iter_end(p ? nullptr : &i);
    t.flag(true, "");
  END

  // ---- shared libraries
  CALL("load_shared_library")
    bool n = t.bad("library", {IA}), u = t.bad("library in use", {IA}), p = t.bad("path", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library(), z = l;
    t.begin("load_shared_library");
    t.ret(rcutils_load_shared_library(n ? nullptr : u ? &t.w.lib : &l, p ? nullptr : "libm.so.6", ab ? t.broken() : t.w.a));
    MON_CHECK(memcmp(&l, &z, sizeof(l)) == 0, "args.changed", "a rejected load changed the object");
  END
  CALL("unload_shared_library")
    bool n = t.bad("library", {IA}), h = t.bad("handle", {IA}), p = t.bad("library path", {IA}), ab = t.bad("allocator", {IA});
    UNLESS_VALID
    rcutils_shared_library_t l = t.w.lib;
    if (h) {l.lib_pointer = nullptr;}
    if (p) {l.library_path = nullptr;}
    if (ab) {l.allocator = t.broken();}
    auto was = l;
    t.begin("unload_shared_library");
    t.ret(rcutils_unload_shared_library(n ? nullptr : &l));
    MON_CHECK(memcmp(&l, &was, sizeof(l)) == 0, "args.changed", "a rejected unload changed the object");
  END
  CALL("get_symbol")
    bool n = t.bad("library"), h = t.bad("unloaded library"), s = t.bad("symbol name");
    UNLESS_VALID
    rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
    t.begin("get_symbol");
    t.flag(!rcutils_get_symbol(n ? nullptr : h ? &l : &t.w.lib, s ? nullptr : "cos"), "a symbol", true);
  END
  CALL("has_symbol")
    bool n = t.bad("library"), h = t.bad("unloaded library"), s = t.bad("symbol name");
    UNLESS_VALID
    rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
    t.begin("has_symbol");
    t.flag(!rcutils_has_symbol(n ? nullptr : h ? &l : &t.w.lib, s ? nullptr : "cos"), "true");
  END
  CALL("get_platform_library_name")
    bool n = t.bad("name", {IA}), b = t.bad("buffer", {IA}), z = t.bad("buffer size", {ERR});
    UNLESS_VALID
    char buf[64];
    memset(buf, 0x5A, sizeof(buf));
    t.begin("get_platform_library_name");
    bool d = t.g.chance(1, 2);
    t.ret(rcutils_get_platform_library_name(n ? nullptr : "name", b ? nullptr : buf, z ? static_cast<unsigned>(t.g.below(d ? 12 : 11)) : 64, d));
    for (char c : buf) {MON_CHECK(c == 0x5A, "args.output", "get_platform_library_name wrote to its buffer");}
  END

  // ---- logging
  CALL("set_logger_level")
    bool n = t.bad("name", {IA}), l = t.bad("level", {IA});
    UNLESS_VALID
    int v = 0;
    do {
      switch (t.g.below(4)) {
        case 0: v = static_cast<int>(t.g.below(60)); break;
        case 1: v = -static_cast<int>(t.g.below(100)); break;
        case 2: v = static_cast<int>(t.g.next()); break;
        default: v = t.g.chance(1, 2) ? INT32_MAX : INT32_MIN; break;
      }
    } while (v == 0 || v == 10 || v == 20 || v == 30 || v == 40 || v == 50);
    t.begin("set_logger_level");
    t.ret(rcutils_logging_set_logger_level(n ? nullptr : t.g.chance(1, 2) ? "args.a" : t.g.chance(1, 2) ? "args.new" : "", l ? v : 40));
    MON_CHECK(rcutils_logging_get_logger_level("args.new") == 0, "args.changed", "a rejected level was set");
  END
  CALL("logger_level")
    bool n = t.bad("name");
    (void)n;
    UNLESS_VALID
    t.begin("logger_level");
    t.flag(rcutils_logging_get_logger_level(nullptr) == -1 && rcutils_logging_get_logger_leveln(nullptr, t.g.below(5)) == -1 &&
      rcutils_logging_get_logger_effective_level(nullptr) == -1, "a level");
  END
  CALL("severity_level_from_string")
    bool n = t.bad("string", {IA}), s = t.bad("output", {IA}), ab = t.bad("allocator", {IA}), u = t.bad("unknown string", {RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID});
    if (u && !n && !s && !ab) {return;}        // looked up with the allocator: P13's, P17's
    UNLESS_VALID
    Out<int> o;
    t.begin("severity_level_from_string");
    t.ret(rcutils_logging_severity_level_from_string(n ? nullptr : u ? "nonsense" : "WARN", ab ? t.broken() : t.w.a, s ? nullptr : &o.v));
    o.check(t);
  END
  CALL("logging_initialize")
    bool ab = t.bad("allocator", {IA});
    (void)ab;
    UNLESS_VALID
    if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {fail("args.shutdown", "cannot shut down logging");}
    t.begin("logging_initialize");
    rcutils_ret_t r = rcutils_logging_initialize_with_allocator(t.broken());
    bool up = g_rcutils_logging_initialized;
    t.ret(r);
    MON_CHECK(!up, "args.initialized", "logging is initialized with an invalid allocator");
    MON_CHECK(rcutils_logging_initialize() == RCUTILS_RET_OK, "args.initialize", "cannot initialize logging after a rejected attempt");
    MON_CHECK(rcutils_logging_set_logger_level("args.a", RCUTILS_LOG_SEVERITY_WARN) == RCUTILS_RET_OK, "args.initialize", "cannot set a level after a rejected attempt");
    rcutils_reset_error();
  END
  CALL("allocator_is_valid")
    bool n = t.bad("NULL allocator"), ab = t.bad("allocator");
    UNLESS_VALID
    rcutils_allocator_t b = ab ? t.broken() : t.w.a;
    t.begin("allocator_is_valid");
    t.flag(!rcutils_allocator_is_valid(n ? nullptr : &b), "true");
  END
}

void args(Case & c)
{
  Rng & g = c.rng;
  Trial::rng = &g;
  if (!g_rcutils_logging_initialized && rcutils_logging_initialize() != RCUTILS_RET_OK) {fail("args.setup", "cannot initialize logging");}
  World w(g);
  unsigned calls = 0, multi = 0;
  for (unsigned k = 0, n = static_cast<unsigned>(g.range(20, 60)); k < n; ++k) {
    size_t i = g.below(table().size());
    auto & e = table()[i];
    // mostly one wrong argument, sometimes several
    uint64_t mask = 0;
    if (g.chance(1, 2)) {mask = uint64_t(1) << g.below(8);} else {mask = g.next() & 0xFF;}
    Trial t(w, mask);
    e.call(t);
    if (t.none()) {continue;}
    ++calls;
    if (t.n > 1) {++multi;}
    c.mix(i);
    c.mix(mask);
    w.intact(e.name);
  }
  if (calls > 5) {c.interesting();}
  c.sample(fmt("%u rejected calls, %u of them with several wrong arguments; last: %s", calls, multi, trace().empty() ? "" : trace().back().c_str()));
  w.fini();
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "args.shutdown", "cannot shut down logging");
}

// Each documented outcome has a code of its own.
void codes(Case & c)
{
  struct {const char * name; int v;} all[] = {
    {"OK", RCUTILS_RET_OK}, {"WARN", RCUTILS_RET_WARN}, {"ERROR", RCUTILS_RET_ERROR}, {"BAD_ALLOC", RCUTILS_RET_BAD_ALLOC}, {"INVALID_ARGUMENT", RCUTILS_RET_INVALID_ARGUMENT},
    {"NOT_ENOUGH_SPACE", RCUTILS_RET_NOT_ENOUGH_SPACE}, {"NOT_INITIALIZED", RCUTILS_RET_NOT_INITIALIZED}, {"NOT_FOUND", RCUTILS_RET_NOT_FOUND},
    {"STRING_MAP_ALREADY_INIT", RCUTILS_RET_STRING_MAP_ALREADY_INIT}, {"STRING_MAP_INVALID", RCUTILS_RET_STRING_MAP_INVALID}, {"STRING_KEY_NOT_FOUND", RCUTILS_RET_STRING_KEY_NOT_FOUND},
    {"LOGGING_SEVERITY_MAP_INVALID", RCUTILS_RET_LOGGING_SEVERITY_MAP_INVALID}, {"LOGGING_SEVERITY_STRING_INVALID", RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID},
    {"HASH_MAP_NO_MORE_ENTRIES", RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES}};
  MON_CHECK(RCUTILS_RET_OK == 0, "args.codes", "success is %d", RCUTILS_RET_OK);
  for (auto & a : all) {
    for (auto & b : all) {
      MON_CHECK(&a == &b || a.v != b.v, "args.codes", "RCUTILS_RET_%s and RCUTILS_RET_%s are both %d", a.name, b.name, a.v);
    }
  }
  count("return codes told apart");
  c.interesting();
}

void reg()
{
  fill();
  section("args", 4000, 100000, args);
  section("codes", 2, 2, codes);
}
}  // namespace
MON_MAIN(reg)
