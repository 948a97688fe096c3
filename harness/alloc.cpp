// P17: failing allocations.  P32: injected faults.  P18: which allocator is used for what.
// Linked with --wrap for the malloc family: memory the library takes from the C library directly is seen.
#include <dirent.h>
#include <libgen.h>
#include <sys/stat.h>

#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/hash_map.h"
using namespace mon;

// ---------------------------------------------------------------- direct use of the C library's allocator
extern "C" void __sanitizer_print_stack_trace(void) __attribute__((weak));
static thread_local int tl_in_lib = 0;       // the library is running
static bool default_allowed = false;         // it was given the default allocator
namespace
{
struct Direct
{
  std::unordered_map<void *, size_t> live;
  uint64_t calls = 0;
  std::string last;
};
Direct & direct() {static Direct * d = new Direct; return *d;}
bool watching() {return tl_in_lib && !tl_in_ck;}
struct NoWatch {int s; NoWatch() : s(tl_in_lib) {tl_in_lib = 0;} ~NoWatch() {tl_in_lib = s;}};
void took(void * p, size_t n, const char * fn)
{
  NoWatch w;
  direct().calls++;
  direct().last = fn;
  if (p) {direct().live[p] = n;}
  if (!default_allowed && getenv("MON_TRACE") && __sanitizer_print_stack_trace) {__sanitizer_print_stack_trace();}
  if (!default_allowed) {note("alloc.direct", std::string("the library called ") + fn + " although it was given an allocator");}
}
void gave(void * p, const char * fn)
{
  NoWatch w;
  if (!p) {return;}
  if (!direct().live.erase(p)) {note("alloc.direct-free", std::string("the library called ") + fn + " on memory it did not get from the C library");}
}
}  // namespace
extern "C" {
void * __real_malloc(size_t n);
void * __real_calloc(size_t n, size_t m);
void * __real_realloc(void * p, size_t n);
void __real_free(void * p);
char * __real_strdup(const char * s);
char * __real_strndup(const char * s, size_t n);
void * __wrap_malloc(size_t n) {void * p = __real_malloc(n); if (watching()) {took(p, n, "malloc");} return p;}
void * __wrap_calloc(size_t n, size_t m) {void * p = __real_calloc(n, m); if (watching()) {took(p, n * m, "calloc");} return p;}
void * __wrap_realloc(void * p, size_t n)
{
  bool w = watching();
  void * q = __real_realloc(p, n);
  if (w) {
    if (p && (q || n == 0)) {gave(p, "realloc");}
    if (q || n != 0) {took(q, n, "realloc");}
  }
  return q;
}
void __wrap_free(void * p) {if (watching()) {gave(p, "free");} __real_free(p);}
char * __wrap_strdup(const char * s) {char * p = __real_strdup(s); if (watching()) {took(p, strlen(s) + 1, "strdup");} return p;}
char * __wrap_strndup(const char * s, size_t n) {char * p = __real_strndup(s, n); if (watching()) {took(p, n, "strndup");} return p;}
}

#define LIB(expr) ([&]() {tl_in_lib++; struct G_ {~G_() {tl_in_lib--;}} g_; return expr;}())

namespace
{
enum Mode {PLAIN, ALLOC, FAULT};
bool alone = true;       // no other scenario is under way

// One operation on freshly prepared objects.  A failed operation leaves everything as unchanged() says; running it again
// without faults succeeds.
struct Scenario
{
  const char * name;
  CkAlloc A, B;
  bool use_default = false;
  Mode mode = PLAIN;
  explicit Scenario(const char * n) : name(n), A("A"), B("B") {}
  virtual ~Scenario() {}
  rcutils_allocator_t al() {return use_default ? rcutils_get_default_allocator() : A.get();}
  rcutils_allocator_t bl() {return use_default ? rcutils_get_default_allocator() : B.get();}
  virtual void setup() {}
  virtual bool op() = 0;         // true: reported success
  virtual void unchanged() {}    // after a reported failure
  virtual void effect() {}       // after a reported success
  virtual void use() {}          // anything else the objects must still be good for
  virtual void fini() {}
  virtual bool creates() {return false;}     // the operation makes the object: nothing is there when it fails
  // a return code: success or the one for failed allocations; says: with a message for the user
  bool code(rcutils_ret_t r, bool exact = true, bool says = true)
  {
    if (r == RCUTILS_RET_OK) {return true;}
    if (mode == ALLOC && exact) {
      MON_CHECK(r == RCUTILS_RET_BAD_ALLOC, std::string("fault.code.") + name, "%s: a failed allocation was reported as %d", name, r);
      MON_CHECK(!says || rcutils_error_is_set(), std::string("fault.message.") + name, "%s: no error message after a failed allocation", name);
    }
    return false;
  }
  void must(rcutils_ret_t r, const char * what)
  {
    raise();
    if (r != RCUTILS_RET_OK) {fail(std::string("fault.after.") + name, fmt("%s: %s returned %d (%s)", name, what, r, rcutils_get_error_string().str));}
  }
  void want(bool ok, const char * what)
  {
    raise();
    if (!ok) {fail(std::string("fault.state.") + name, fmt("%s: %s", name, what));}
  }
  void wants(const std::string & got, const std::string & exp, const char * what)
  {
    raise();
    if (got != exp) {fail(std::string("fault.state.") + name, fmt("%s: %s is %s, should be %s", name, what, show(got).c_str(), show(exp).c_str()));}
  }
  void drop(void * p) {if (use_default) {LIB((al().deallocate(p, nullptr), 0));} else {al().deallocate(p, &A);}}
};

// ---------------------------------------------------------------- containers
struct ArrayList : Scenario
{
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  size_t esize, cap, n;
  bool do_init;
  std::vector<std::string> m;
  std::string x;
  bool creates() override {return do_init;}
  explicit ArrayList(Rng & g) : Scenario("array_list")
  {
    esize = g.range(1, 40);
    cap = g.range(1, 9);
    do_init = g.chance(1, 3);
    n = do_init ? 0 : g.chance(2, 3) ? cap : g.below(20);
    for (size_t i = 0; i < n; ++i) {m.push_back(g.bytes(esize));}
    x = g.bytes(esize);
  }
  void init() {auto a = al(); must(LIB(rcutils_array_list_init(&l, cap, esize, &a)), "init");}
  void setup() override
  {
    if (do_init) {return;}
    init();
    for (auto & e : m) {must(LIB(rcutils_array_list_add(&l, e.data())), "add");}
  }
  bool op() override
  {
    auto a = al();
    if (do_init) {return code(LIB(rcutils_array_list_init(&l, cap, esize, &a)));}
    return code(LIB(rcutils_array_list_add(&l, x.data())), true, false);
  }
  void check(const std::vector<std::string> & e)
  {
    size_t k = 99999;
    must(LIB(rcutils_array_list_get_size(&l, &k)), "get_size");
    want(k == e.size(), "size of the list changed");
    std::string b(esize, 'z');
    for (size_t i = 0; i < k; ++i) {
      must(LIB(rcutils_array_list_get(&l, i, &b[0])), "get");
      wants(b, e[i], "element");
    }
  }
  void unchanged() override
  {
    if (do_init) {want(l.impl == nullptr, "a failed init left something in the list");} else {check(m);}
  }
  void effect() override
  {
    if (do_init) {check({}); must(LIB(rcutils_array_list_add(&l, x.data())), "add");}
    m.push_back(x);
    check(m);
  }
  void use() override
  {
    if (do_init || m.empty()) {return;}
    must(LIB(rcutils_array_list_set(&l, m.size() - 1, x.data())), "set");
    m.back() = x;
    must(LIB(rcutils_array_list_remove(&l, 0)), "remove");
    m.erase(m.begin());
    check(m);
  }
  void fini() override {must(LIB(rcutils_array_list_fini(&l)), "fini");}
};

size_t few_hash(const void * k) {return *static_cast<const uint32_t *>(k) & 7;}
int u32_cmp(const void * a, const void * b) {return memcmp(a, b, 4);}

struct HashMap : Scenario
{
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  size_t cap;
  bool do_init;
  std::map<uint32_t, uint64_t> m;
  uint32_t k;
  uint64_t v;
  bool few;
  bool creates() override {return do_init;}
  explicit HashMap(Rng & g) : Scenario("hash_map")
  {
    cap = g.range(1, 9);
    do_init = g.chance(1, 3);
    few = g.chance(1, 2);
    size_t n = do_init ? 0 : g.below(14);
    for (size_t i = 0; i < n; ++i) {m[static_cast<uint32_t>(g.below(64))] = g.next();}
    k = static_cast<uint32_t>(g.below(64));
    v = g.next();
  }
  rcutils_ret_t init()
  {
    auto a = al();
    return LIB(rcutils_hash_map_init(&h, cap, 4, 8, few ? few_hash : [](const void * p) {return size_t(*static_cast<const uint32_t *>(p)) * 2654435761u;}, u32_cmp, &a));
  }
  void setup() override
  {
    if (do_init) {return;}
    must(init(), "init");
    for (auto & e : m) {must(LIB(rcutils_hash_map_set(&h, &e.first, &e.second)), "set");}
  }
  bool op() override {return do_init ? code(init()) : code(LIB(rcutils_hash_map_set(&h, &k, &v)), true, false);}
  void check(const std::map<uint32_t, uint64_t> & e)
  {
    size_t s = 99999;
    must(LIB(rcutils_hash_map_get_size(&h, &s)), "get_size");
    want(s == e.size(), "size of the map changed");
    uint64_t d;
    for (uint32_t i = 0; i < 64; ++i) {
      auto it = e.find(i);
      d = 0;
      rcutils_ret_t r = LIB(rcutils_hash_map_get(&h, &i, &d));
      want((r == RCUTILS_RET_OK) == (it != e.end()), "a key appeared or disappeared");
      want(it == e.end() || d == it->second, "a value changed");
    }
    std::set<uint32_t> seen;
    uint32_t key;
    rcutils_ret_t r = LIB(rcutils_hash_map_get_next_key_and_data(&h, nullptr, &key, &d));
    while (r == RCUTILS_RET_OK) {
      want(seen.insert(key).second, "a key is iterated twice");
      r = LIB(rcutils_hash_map_get_next_key_and_data(&h, &key, &key, &d));
    }
    want(seen.size() == e.size(), "the iteration is incomplete");
    rcutils_reset_error();
  }
  void unchanged() override {if (do_init) {want(h.impl == nullptr, "a failed init left something in the map");} else {check(m);}}
  void effect() override {if (!do_init) {m[k] = v;} check(m);}
  void use() override
  {
    if (do_init) {return;}
    for (uint32_t i = 0; i < 64; i += 5) {
      must(LIB(rcutils_hash_map_unset(&h, &i)), "unset");
      m.erase(i);
    }
    for (uint32_t i = 1; i < 64; i += 9) {
      uint64_t d = i;
      must(LIB(rcutils_hash_map_set(&h, &i, &d)), "set");
      m[i] = d;
    }
    check(m);
  }
  void fini() override {must(LIB(rcutils_hash_map_fini(&h)), "fini");}
};

struct StringMap : Scenario
{
  rcutils_string_map_t s = rcutils_get_zero_initialized_string_map(), d = s;
  std::map<std::string, std::string> m, src, m2;
  size_t cap, ncap;
  int what;     // 0 init 1 reserve 2 set 3 set_no_resize 4 copy
  std::string k, v;
  static std::string key(Rng & g) {return g.str(g.range(1, 3), "ab");}
  bool creates() override {return what == 0;}
  explicit StringMap(Rng & g) : Scenario("string_map")
  {
    what = static_cast<int>(g.below(5));
    cap = g.below(8);
    size_t n = g.below(10);
    for (size_t i = 0; i < n; ++i) {m[key(g)] = g.cstr(g.below(9));}
    n = g.below(10);
    for (size_t i = 0; i < n; ++i) {src[key(g)] = g.cstr(g.below(9));}
    k = key(g);
    v = g.cstr(g.below(20));
    ncap = g.below(40);
  }
  void setup() override
  {
    if (what == 0) {return;}
    must(LIB(rcutils_string_map_init(&s, cap, al())), "init");
    for (auto & e : m) {must(LIB(rcutils_string_map_set(&s, e.first.c_str(), e.second.c_str())), "set");}
    if (what == 3) {
      must(LIB(rcutils_string_map_reserve(&s, m.size() + 1)), "reserve");
    }
    if (what == 4) {
      must(LIB(rcutils_string_map_init(&d, cap, bl())), "init");
      for (auto & e : src) {must(LIB(rcutils_string_map_set(&d, e.first.c_str(), e.second.c_str())), "set");}
    }
  }
  bool op() override
  {
    switch (what) {
      case 0: return code(LIB(rcutils_string_map_init(&s, cap, al())));
      case 1: return code(LIB(rcutils_string_map_reserve(&s, ncap)));
      case 2: return code(LIB(rcutils_string_map_set(&s, k.c_str(), v.c_str())));
      case 3: return code(LIB(rcutils_string_map_set_no_resize(&s, k.c_str(), v.c_str())));
      default: return code(LIB(rcutils_string_map_copy(&d, &s)));
    }
  }
  void check(rcutils_string_map_t * p, const std::map<std::string, std::string> & e)
  {
    size_t n = 9999, c = 0;
    must(LIB(rcutils_string_map_get_size(p, &n)), "get_size");
    must(LIB(rcutils_string_map_get_capacity(p, &c)), "get_capacity");
    want(n == e.size() && c >= n, "size of the map changed");
    for (auto & x : e) {
      const char * got = LIB(rcutils_string_map_get(p, x.first.c_str()));
      want(got != nullptr, "a key disappeared");
      wants(got, x.second, "a value");
    }
    size_t it = 0;
    for (const char * q = LIB(rcutils_string_map_get_next_key(p, nullptr)); q; q = LIB(rcutils_string_map_get_next_key(p, q))) {
      want(e.count(q) && ++it <= e.size(), "iteration shows a wrong key");
    }
    want(it == e.size(), "iteration is incomplete");
    rcutils_reset_error();
  }
  void unchanged() override
  {
    if (what == 0) {want(s.impl == nullptr, "a failed init left something in the map"); return;}
    if (what == 4) {
      // a copy stops somewhere: every key has its old or its new value
      check(&d, src);
      size_t n = 9999, seen = 0;
      must(LIB(rcutils_string_map_get_size(&s, &n)), "get_size");
      for (const char * q = LIB(rcutils_string_map_get_next_key(&s, nullptr)); q; q = LIB(rcutils_string_map_get_next_key(&s, q))) {
        std::string val = LIB(rcutils_string_map_get(&s, q));
        want((m.count(q) && m[q] == val) || (src.count(q) && src[q] == val), "a key has neither its old nor its new value");
        ++seen;
      }
      want(seen == n, "iteration is incomplete");
      for (auto & x : m) {want(LIB(rcutils_string_map_key_exists(&s, x.first.c_str())), "a key disappeared");}
      rcutils_reset_error();
      return;
    }
    check(&s, m);
  }
  void effect() override
  {
    if (what == 0) {
      m.clear();
      size_t c = 999;
      must(LIB(rcutils_string_map_get_capacity(&s, &c)), "get_capacity");
      want(c == cap, "capacity after init");
    }
    if (what == 1) {
      size_t c = 0;
      must(LIB(rcutils_string_map_get_capacity(&s, &c)), "get_capacity");
      want(c == std::max(ncap, m.size()), "capacity after reserve");
    }
    if (what == 2 || what == 3) {m[k] = v;}
    if (what == 4) {
      for (auto & e : src) {m[e.first] = e.second;}
      check(&d, src);
    }
    check(&s, m);
  }
  void use() override
  {
    if (what == 0 || what == 4) {return;}
    if (!m.empty()) {
      must(LIB(rcutils_string_map_unset(&s, m.begin()->first.c_str())), "unset");
      m.erase(m.begin());
    }
    must(LIB(rcutils_string_map_set(&s, "zz", "y")), "set");
    m["zz"] = "y";
    if (what == 3) {must(LIB(rcutils_string_map_reserve(&s, m.size() + 1)), "reserve");}
    check(&s, m);
  }
  void fini() override
  {
    must(LIB(rcutils_string_map_fini(&s)), "fini");
    if (what == 4) {must(LIB(rcutils_string_map_fini(&d)), "fini");}
  }
};

struct StringArray : Scenario
{
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  int what;     // 0 init 1 resize 2 fini
  size_t n, n2;
  std::vector<std::string> m;
  bool creates() override {return what == 0;}
  explicit StringArray(Rng & g) : Scenario("string_array")
  {
    what = static_cast<int>(g.below(3));
    n = g.range(1, 9);
    do {n2 = g.range(1, 20);} while (n2 == n);
    for (size_t i = 0; i < n; ++i) {m.push_back(g.cstr(g.below(9)));}
  }
  char * make(const std::string & s) {return LIB(rcutils_strdup(s.c_str(), al()));}
  void setup() override
  {
    if (what == 0) {return;}
    auto x = al();
    must(LIB(rcutils_string_array_init(&a, n, &x)), "init");
    for (size_t i = 0; i < n; ++i) {a.data[i] = make(m[i]);}
  }
  bool op() override
  {
    auto x = al();
    switch (what) {
      case 0: return code(LIB(rcutils_string_array_init(&a, n, &x)));
      case 1: return code(LIB(rcutils_string_array_resize(&a, n2)));
      default: return code(LIB(rcutils_string_array_fini(&a)));
    }
  }
  void check()
  {
    want(a.size == m.size() && a.data, "size of the array changed");
    for (size_t i = 0; i < m.size(); ++i) {
      if (m[i] == "\1null") {want(a.data[i] == nullptr, "a new slot is not empty");} else {
        want(a.data[i] != nullptr, "a string disappeared");
        wants(a.data[i], m[i], "a string");
      }
    }
  }
  void unchanged() override
  {
    if (what == 0) {want(a.data == nullptr && a.size == 0, "a failed init left storage, or a size without any"); return;}
    check();
  }
  void effect() override
  {
    if (what == 2) {want(a.data == nullptr && a.size == 0, "fini left something"); return;}
    if (what == 0) {m.assign(n, "\1null");} else {m.resize(n2, "\1null");}
    check();
  }
  void fini() override {must(LIB(rcutils_string_array_fini(&a)), "fini");}
};

struct CharArray : Scenario
{
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  std::unique_ptr<Exact> room;
  int what;    // 0 init 1 vsprintf 2 strcpy 3 strcat 4 strncat 5 memcpy 6 resize 7 expand
  bool unowned;
  size_t cap, n;
  std::string m, x;
  bool creates() override {return what == 0;}
  explicit CharArray(Rng & g) : Scenario("char_array")
  {
    what = static_cast<int>(g.below(8));
    unowned = what && g.chance(1, 2);
    cap = g.range(1, 12);
    m = g.cstr(g.below(cap));
    x = g.str(g.below(40), "abcdef");
    n = g.range(1, 50);
  }
  void setup() override
  {
    auto a = al();
    if (what == 0) {return;}
    if (unowned) {
      room.reset(new Exact(std::string(cap, '\0'), false));
      c.buffer = room->p;
      c.owns_buffer = false;
      c.buffer_capacity = cap;
      c.allocator = a;
      memcpy(room->p, m.c_str(), m.size() + 1);
      c.buffer_length = m.size() + 1;
    } else {
      must(LIB(rcutils_char_array_init(&c, cap, &a)), "init");
      must(LIB(rcutils_char_array_strcpy(&c, m.c_str())), "strcpy");
    }
  }
  rcutils_ret_t vs(const char * f, ...)
  {
    va_list v;
    va_start(v, f);
    rcutils_ret_t r = LIB(rcutils_char_array_vsprintf(&c, f, v));
    va_end(v);
    return r;
  }
  bool op() override
  {
    auto a = al();
    switch (what) {
      case 0: return code(LIB(rcutils_char_array_init(&c, cap, &a)));
      case 1: return code(vs("%s|%d", x.c_str(), 7), false);
      case 2: return code(LIB(rcutils_char_array_strcpy(&c, x.c_str())));
      case 3: return code(LIB(rcutils_char_array_strcat(&c, x.c_str())));
      case 4: return code(LIB(rcutils_char_array_strncat(&c, x.c_str(), x.size() / 2)));
      case 5: return code(LIB(rcutils_char_array_memcpy(&c, x.c_str(), x.size() + 1)));
      case 6: return code(LIB(rcutils_char_array_resize(&c, n)));
      default: return code(LIB(rcutils_char_array_expand_as_needed(&c, n)));
    }
  }
  void unchanged() override
  {
    if (what == 0) {
      want(c.buffer == nullptr && c.buffer_capacity == 0 && c.buffer_length == 0, "a failed init left something behind");
      return;
    }
    want(c.buffer != nullptr && c.buffer_capacity > m.size(), "the buffer was lost");
    if (!use_default && c.owns_buffer) {want(block_size(c.buffer) == c.buffer_capacity, "capacity is not the size of the block");}
    if (what == 1 || what == 2) {(void)strlen(c.buffer); return;}      // replaced contents: only valid
    wants(c.buffer, m, "content");
  }
  void effect() override
  {
    std::string e;
    switch (what) {
      case 0: want(c.buffer && c.buffer_capacity == cap, "capacity after init"); return;
      case 1: e = x + "|7"; break;
      case 2: case 5: e = x; break;
      case 3: e = m + x; break;
      case 4: e = m + x.substr(0, x.size() / 2); break;
      case 6:
        want(c.buffer_capacity == n, "capacity after resize");
        if (n <= m.size()) {return;}
        e = m;
        break;
      default: want(c.buffer_capacity >= n, "capacity after expand"); e = m; break;
    }
    wants(c.buffer, e, "content");
    want(c.buffer_capacity > e.size(), "capacity");
    if (!use_default && c.owns_buffer) {want(block_size(c.buffer) == c.buffer_capacity, "capacity is not the size of the block");}
    m = e;
  }
  void use() override
  {
    if (what == 0) {return;}
    must(LIB(rcutils_char_array_strcpy(&c, "something else")), "strcpy");
    wants(c.buffer, "something else", "content");
    m = "something else";
  }
  void fini() override {must(LIB(rcutils_char_array_fini(&c)), "fini");}
};

struct Bytes : Scenario
{
  rcutils_uint8_array_t b = rcutils_get_zero_initialized_uint8_array();
  bool do_init;
  size_t cap, n;
  std::string m;
  bool creates() override {return do_init;}
  explicit Bytes(Rng & g) : Scenario("uint8_array")
  {
    do_init = g.chance(1, 3);
    cap = g.range(1, 20);
    do {n = g.range(1, 60);} while (n == cap);
    m = g.bytes(g.below(cap + 1));
  }
  void setup() override
  {
    if (do_init) {return;}
    auto a = al();
    must(LIB(rcutils_uint8_array_init(&b, cap, &a)), "init");
    memcpy(b.buffer, m.data(), m.size());
    b.buffer_length = m.size();
  }
  bool op() override
  {
    auto a = al();
    return do_init ? code(LIB(rcutils_uint8_array_init(&b, cap, &a))) : code(LIB(rcutils_uint8_array_resize(&b, n)));
  }
  void unchanged() override
  {
    if (do_init) {
      want(b.buffer == nullptr && b.buffer_capacity == 0 && b.buffer_length == 0, "a failed init left something behind");
      return;
    }
    // rcutils_uint8_array_resize documents nothing about a failure; what is there must be consistent
    if (b.buffer == nullptr) {
      // the library released the buffer (reallocf): nothing may remain that names it
      want(b.buffer_capacity == 0 && b.buffer_length == 0, "a lost buffer still has a capacity");
      auto a = al();
      must(LIB(rcutils_uint8_array_init(&b, cap, &a)), "init again");
      memcpy(b.buffer, m.data(), m.size());
      b.buffer_length = m.size();
      return;
    }
    wants(std::string(reinterpret_cast<char *>(b.buffer), b.buffer_length), m, "content");
    want(b.buffer_capacity == cap, "capacity changed");
  }
  void effect() override
  {
    if (do_init) {want(b.buffer && b.buffer_capacity == cap && b.buffer_length == 0, "state after init"); return;}
    m.resize(std::min(m.size(), n));
    want(b.buffer_capacity == n, "capacity");
    wants(std::string(reinterpret_cast<char *>(b.buffer), b.buffer_length), m, "content");
  }
  void fini() override {must(LIB(rcutils_uint8_array_fini(&b)), "fini");}
};

// ---------------------------------------------------------------- strings
struct Split : Scenario
{
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  bool last;
  std::string s;
  std::vector<std::string> tok;
  bool creates() override {return true;}
  explicit Split(Rng & g) : Scenario("split")
  {
    last = g.chance(1, 3);
    s = g.str(g.below(18), "a/b");
    if (last) {
      s = g.str(g.range(1, 6), "abc");
      for (uint64_t more = g.below(3); more; --more) {s += "/" + g.str(g.range(1, 6), "abc");}
      size_t p = s.rfind('/');
      if (p == std::string::npos) {tok = {s};} else {tok = {s.substr(0, p), s.substr(p + 1)};}
      if (g.chance(1, 4)) {s = "/" + s;}
      if (tok.size() > 1 && g.chance(1, 4)) {s += "/";}
    } else {
      std::string cur;
      for (char ch : s + "/") {if (ch == '/') {if (!cur.empty()) {tok.push_back(cur);} cur.clear();} else {cur += ch;}}
    }
  }
  bool op() override
  {
    a = rcutils_get_zero_initialized_string_array();
    return code(LIB(last ? rcutils_split_last(s.c_str(), '/', al(), &a) : rcutils_split(s.c_str(), '/', al(), &a)), true, false);
  }
  void unchanged() override
  {
    // whatever the array is now, it can be finalized; the strings are gone or inside
    want(a.data != nullptr || a.size == 0, "slots without storage after a failed split");
    must(LIB(rcutils_string_array_fini(&a)), "fini of the array of a failed split");
    if (!use_default) {check_empty(A, "failed split");}
  }
  void effect() override
  {
    want(a.size == tok.size(), "number of tokens");
    for (size_t i = 0; i < tok.size(); ++i) {want(a.data[i] != nullptr, "a token is missing"); wants(a.data[i], tok[i], "token");}
  }
  void fini() override {must(LIB(rcutils_string_array_fini(&a)), "fini");}
};

// functions that return a string or NULL
struct Strings : Scenario
{
  char * r = nullptr;
  int what;
  std::string s, t, u, exp;
  size_t lim;
  bool home;
  bool creates() override {return true;}
  explicit Strings(Rng & g) : Scenario("strings")
  {
    static const char * const names[] = {"repl_str", "strdup", "strndup", "format_string", "format_string_limit", "join_path", "to_native_path", "expand_user",
      "get_executable_name"};
    what = static_cast<int>(g.below(9));
    name = names[what];
    s = g.str(g.below(60), "ab/~");
    t = g.str(g.range(1, 2), "ab");
    u = g.str(g.below(5), "xyz");
    lim = g.range(2, 80);
    home = g.chance(1, 2);
    if (what == 7 && home) {s = "~" + s;}
    if (what == 0) {
      for (size_t i = 0; i < s.size(); ) {
        if (s.compare(i, t.size(), t) == 0) {exp += u; i += t.size();} else {exp += s[i++];}
      }
    } else if (what == 1) {exp = s;} else if (what == 2) {exp = s.substr(0, lim);} else if (what == 3) {exp = s + "-5-" + t;} else if (what == 4) {
      exp = (s + "-5-" + t).substr(0, lim - 1);
    } else if (what == 5) {exp = s + "/" + t;} else if (what == 6) {exp = s;} else if (what == 7) {
      exp = s[0] == '~' ? "/home/of me" + s.substr(1) : s;
    } else {
      std::string p = program_invocation_name;
      exp = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
    }
  }
  void setup() override {setenv("HOME", "/home/of me", 1);}
  bool op() override
  {
    auto a = al();
    r = nullptr;
    switch (what) {
      case 0: r = LIB(rcutils_repl_str(s.c_str(), t.c_str(), u.c_str(), &a)); break;
      case 1: r = LIB(rcutils_strdup(s.c_str(), a)); break;
      case 2: r = LIB(rcutils_strndup(s.c_str(), lim, a)); break;
      case 3: r = LIB(rcutils_format_string(a, "%s-%d-%s", s.c_str(), 5, t.c_str())); break;
      case 4: r = LIB(rcutils_format_string_limit(a, lim, "%s-%d-%s", s.c_str(), 5, t.c_str())); break;
      case 5: r = LIB(rcutils_join_path(s.c_str(), t.c_str(), a)); break;
      case 6: r = LIB(rcutils_to_native_path(s.c_str(), a)); break;
      case 7: r = LIB(rcutils_expand_user(s.c_str(), a)); break;
      default: r = LIB(rcutils_get_executable_name(a)); break;
    }
    return r != nullptr;
  }
  void effect() override {wants(r, exp, "result");}
  void unchanged() override {if (!use_default) {check_empty(A, name);}}
  void fini() override {drop(r);}
};

// ---------------------------------------------------------------- file system
struct Tree
{
  std::string root;
  std::vector<std::string> top;
  uint64_t size1 = 0, size_all = 0;
  explicit Tree()
  {
    root = run().scratch.empty() ? std::string("/tmp") : run().scratch;
    root += "/tree." + std::to_string(getpid());
    mkdir(root.c_str(), 0700);
    file("a", 100, true);
    file("bb", 2345, true);
    dir("sub");
    dir("sub2");
    file("sub/x", 7, false);
    dir("sub/deep");
    file("sub/deep/y", 77, false);
    file("sub2/z", 1, false);
    top = {".", "..", "a", "bb", "sub", "sub2"};
  }
  void dir(const char * n) {mkdir((root + "/" + n).c_str(), 0700);}
  void file(const char * n, size_t k, bool first)
  {
    FILE * f = fopen((root + "/" + n).c_str(), "w");
    std::string z(k, 'x');
    fwrite(z.data(), 1, k, f);
    fclose(f);
    size_all += k;
    if (first) {size1 += k;}
  }
};
Tree & tree() {static Tree * t = new Tree; return *t;}
size_t open_fds()
{
  size_t n = 0;
  DIR * d = opendir("/proc/self/fd");
  if (!d) {return 0;}
  while (readdir(d)) {++n;}
  closedir(d);
  return n;
}

struct DirIter : Scenario
{
  rcutils_dir_iter_t * it = nullptr;
  size_t fds = 0;
  explicit DirIter(Rng &) : Scenario("dir_iter") {}
  void setup() override {fds = open_fds();}
  bool op() override {it = LIB(rcutils_dir_iter_start(tree().root.c_str(), al())); return it != nullptr;}
  void effect() override
  {
    std::multiset<std::string> seen;
    do {seen.insert(it->entry_name);} while (LIB(rcutils_dir_iter_next(it)));
    want(seen == std::multiset<std::string>(tree().top.begin(), tree().top.end()), "the listing is wrong");
  }
  void unchanged() override {want(!alone || open_fds() == fds, "a descriptor stayed open"); if (!use_default) {check_empty(A, name);}}
  void fini() override {LIB((rcutils_dir_iter_end(it), 0)); want(!alone || open_fds() == fds, "a descriptor stayed open");}
};

struct DirSize : Scenario
{
  uint64_t size = 12345;
  size_t fds = 0, depth;
  explicit DirSize(Rng & g) : Scenario("directory_size") {depth = g.below(2);}
  void setup() override {(void)tree(); fds = open_fds();}
  bool op() override
  {
    return code(LIB(depth ? rcutils_calculate_directory_size(tree().root.c_str(), &size, al()) :
             rcutils_calculate_directory_size_with_recursion(tree().root.c_str(), 0, &size, al())), false, false);
  }
  void unchanged() override {want(!alone || open_fds() == fds, "a descriptor stayed open"); if (!use_default) {check_empty(A, name);}}
  void effect() override {unchanged(); want(size == (depth ? tree().size1 : tree().size_all), "wrong size");}
};

struct Library : Scenario
{
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  explicit Library(Rng &) : Scenario("shared_library") {}
  bool op() override {return code(LIB(rcutils_load_shared_library(&l, "libm.so.6", al())));}
  void unchanged() override
  {
    want(!LIB(rcutils_is_shared_library_loaded(&l)), "a library is loaded after a failure");
    want(LIB(rcutils_get_symbol(&l, "cos")) == nullptr && !LIB(rcutils_has_symbol(&l, "cos")), "a symbol of a library that failed to load");
    rcutils_reset_error();
    if (!use_default) {check_empty(A, name);}
  }
  void effect() override
  {
    want(LIB(rcutils_is_shared_library_loaded(&l)) && LIB(rcutils_has_symbol(&l, "cos")), "not loaded");
    want(l.library_path && strstr(l.library_path, "libm.so"), "path");
  }
  void fini() override {must(LIB(rcutils_unload_shared_library(&l)), "unload");}
};

// ---------------------------------------------------------------- logging
void quiet_env()
{
  for (const char * v : {"RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT", "RCUTILS_CONSOLE_OUTPUT_FORMAT",
      "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED"}) {unsetenv(v);}
  setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);
}

// The allocator logging runs with between the scenarios; when logging is shut down it must not be called again.
CkAlloc * base_alloc = nullptr;
void close_base()
{
  if (!base_alloc || base_alloc->closed) {return;}
  check_empty(*base_alloc, "logging that was shut down");
  base_alloc->closed = true;
  count("logging.reallocated");
}

struct Logging : Scenario
{
  int what;     // 0 init 1 set level 2 effective level 3 level of n 4 console line 5 format message
  std::map<std::string, int> lv;
  std::string n, msg, out, err, format, fn;
  int sev, level = -2;
  bool color;
  rcutils_char_array_t buf = rcutils_get_zero_initialized_char_array();
  explicit Logging(Rng & g) : Scenario("logging")
  {
    what = static_cast<int>(g.below(6));
    for (uint64_t i = g.below(8); i > 0; --i) {lv[g.str(g.range(1, 3), "a.b")] = static_cast<int>(g.range(1, 5)) * 10;}
    n = g.str(g.range(1, 3), "a.b");
    if (g.chance(1, 2)) {n += "." + g.str(g.range(1, 900), "xyz");}
    sev = static_cast<int>(g.range(1, 5)) * 10;
    msg = g.str(g.chance(1, 2) ? g.below(40) : g.range(900, 3000), "mnop");
    color = g.chance(1, 3);
    fn = g.str(g.range(1, 1200), "fg");
  }
  int eff(std::string x)
  {
    for (;;) {
      auto it = lv.find(x);
      if (it != lv.end() && it->second) {return it->second;}
      size_t p = x.rfind('.');
      if (p == std::string::npos || p == 0) {return p == 0 ? 20 : 20;}
      x.resize(p);
    }
  }
  void start() {must(LIB(rcutils_logging_initialize_with_allocator(al())), "initialize");}
  void setup() override
  {
    quiet_env();
    if (color) {setenv("RCUTILS_COLORIZED_OUTPUT", "1", 1);}
    setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "{severity} {name} [{function_name}:{line_number}] {message} {time_as_nanoseconds} {date_time_with_ms}{time}!", 1);
    must(rcutils_logging_shutdown(), "shutdown");
    close_base();
    if (what == 0) {return;}
    start();
    for (auto & e : lv) {must(LIB(rcutils_logging_set_logger_level(e.first.c_str(), e.second)), "set level");}
    if (what == 5) {auto a = al(); must(LIB(rcutils_char_array_init(&buf, 4, &a)), "init");}
  }
  static void call(const rcutils_log_location_t * loc, int severity, const char * name, int64_t t, const char * f, ...)
  {
    va_list v;
    va_start(v, f);
    LIB((rcutils_logging_console_output_handler(loc, severity, name, t, f, &v), 0));
    va_end(v);
  }
  std::string line()
  {
    static const char * const names[] = {"", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
    return std::string(names[sev / 10]) + " " + n + " [" + fn + ":77] " + msg + " 0000000012345678901 " + date() + "0000000012.345678901!";
  }
  static std::string date()
  {
    time_t t = 12;
    struct tm tm;
    localtime_r(&t, &tm);
    char b[40];
    strftime(b, sizeof(b), "%Y-%m-%d %H:%M:%S.345", &tm);
    return b;
  }
  bool op() override
  {
    rcutils_log_location_t loc = {fn.c_str(), "file", 77};
    switch (what) {
      case 0: return code(LIB(rcutils_logging_initialize_with_allocator(al())), false);
      case 1: return code(LIB(rcutils_logging_set_logger_level(n.c_str(), sev)), false);
      case 2: level = LIB(rcutils_logging_get_logger_effective_level(n.c_str())); return level != -1;
      case 3: level = LIB(rcutils_logging_get_logger_leveln(n.c_str(), n.size())); return level != -1;
      case 4: {
          Capture e(stderr, 2), o(stdout, 1);
          call(&loc, sev, n.c_str(), 12345678901, "%s", msg.c_str());
          out = o.stop();
          err = e.stop();
          // the fault injection itself announces faults on standard output
          size_t p;
          while ((p = out.find("Injecting fault")) != std::string::npos) {
            size_t b = out.rfind('\n', p), x = out.find('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            out.erase(b, x - b + 1);
          }
          return !out.empty();
        }
      default: {
          Capture e(stderr, 2);
          rcutils_ret_t r = LIB(rcutils_logging_format_message(&loc, sev, n.c_str(), 12345678901, msg.c_str(), &buf));
          e.stop();
          return code(r, false);
        }
    }
  }
  void levels()
  {
    for (auto & e : lv) {
      int got = LIB(rcutils_logging_get_logger_level(e.first.c_str()));
      want(got == e.second, "a logger's level changed");
    }
    want(LIB(rcutils_logging_get_logger_effective_level(n.c_str())) == eff(n), "the effective level changed");
    rcutils_reset_error();
  }
  void unchanged() override
  {
    if (what == 0) {
      want(!g_rcutils_logging_initialized, "initialized after a failed initialization");
      if (!use_default) {check_empty(A, name);}
      must(LIB(rcutils_logging_shutdown()), "shutdown");
      return;
    }
    if (what == 4) {want(!err.empty(), "a line was lost without a word");}
    if (what == 5) {
      auto a = al();
      must(LIB(rcutils_char_array_fini(&buf)), "fini");
      must(LIB(rcutils_char_array_init(&buf, 4, &a)), "init");
    }
    rcutils_reset_error();
    levels();
  }
  void effect() override
  {
    if (what == 0) {lv.clear();}
    if (what == 1) {lv[n] = sev;}
    if (what == 2) {want(level == eff(n), "wrong effective level");}
    if (what == 3) {want(level == (lv.count(n) ? lv[n] : 0), "wrong level");}
    if (what == 4) {
      static const char * const col[] = {"", "\033[32m", "\033[0m", "\033[33m", "\033[31m", "\033[31m"};
      wants(out, (color ? col[sev / 10] : "") + line() + (color ? "\033[0m" : "") + "\n", "the line");
    }
    if (what == 5) {wants(buf.buffer, line(), "the message");}
    rcutils_reset_error();
    levels();
  }
  void fini() override
  {
    if (what == 5) {must(LIB(rcutils_char_array_fini(&buf)), "fini");}
    must(LIB(rcutils_logging_shutdown()), "shutdown");
  }
  ~Logging() {(void)!rcutils_logging_shutdown();}
};

struct Severity : Scenario
{
  int s = -5;
  explicit Severity(Rng &) : Scenario("severity") {}
  bool op() override {return code(LIB(rcutils_logging_severity_level_from_string("wArN", al(), &s)));}
  void unchanged() override {want(s == -5, "output written"); if (!use_default) {check_empty(A, name);}}
  void effect() override {want(s == 30, "wrong level");}
};

// no allocation, but fault points
struct Env : Scenario
{
  int what;
  const char * v = nullptr;
  char plat[100];
  explicit Env(Rng & g) : Scenario("env") {what = static_cast<int>(g.below(6));}
  void setup() override {setenv("MON_X", "old", 1); setenv("HOME", "/h", 1); memset(plat, 0, sizeof(plat));}
  bool op() override
  {
    int64_t t = -12345678901;
    switch (what) {
      case 0: return LIB(rcutils_set_env("MON_X", "new"));
      case 1: return LIB(rcutils_get_env("MON_X", &v)) == nullptr;
      case 2: v = LIB(rcutils_get_home_dir()); return v != nullptr;
      case 3: return LIB(rcutils_get_platform_library_name("foo", plat, sizeof(plat), true)) == RCUTILS_RET_OK;
      case 4: return LIB(rcutils_time_point_value_as_nanoseconds_string(&t, plat, sizeof(plat))) == RCUTILS_RET_OK;
      default: return LIB(rcutils_time_point_value_as_seconds_string(&t, plat, sizeof(plat))) == RCUTILS_RET_OK;
    }
  }
  void unchanged() override {if (what == 0) {wants(getenv("MON_X"), "old", "the variable");} rcutils_reset_error();}
  void effect() override
  {
    switch (what) {
      case 0: wants(getenv("MON_X"), "new", "the variable"); break;
      case 1: wants(v, "old", "the value"); break;
      case 2: wants(v, "/h", "the home directory"); break;
      case 3: wants(plat, "libfood.so", "the library name"); break;
      case 4: wants(plat, "-0000000012345678901", "the time"); break;
      default: wants(plat, "-0000000012.345678901", "the time"); break;
    }
  }
};

// Some functions log; without this they would initialize the logging system with the default allocator, for good.
void base_logging()
{
  if (g_rcutils_logging_initialized) {return;}
  close_base();
  base_alloc = new CkAlloc("logging");
  quiet_env();
  if (rcutils_logging_initialize_with_allocator(base_alloc->get()) != RCUTILS_RET_OK) {fail("log.init", "initialization failed");}
}

const int KINDS = 14;
std::unique_ptr<Scenario> make(int kind, Rng g)
{
  Scenario * s = nullptr;
  base_logging();
  switch (kind) {
    case 0: s = new ArrayList(g); break;
    case 1: s = new HashMap(g); break;
    case 2: s = new StringMap(g); break;
    case 3: s = new StringArray(g); break;
    case 4: s = new CharArray(g); break;
    case 5: s = new Bytes(g); break;
    case 6: s = new Split(g); break;
    case 7: s = new Strings(g); break;
    case 8: s = new DirIter(g); break;
    case 9: s = new DirSize(g); break;
    case 10: s = new Library(g); break;
    case 11: s = new Logging(g); break;
    case 12: s = new Severity(g); break;
    default: s = new Env(g); break;
  }
  return std::unique_ptr<Scenario>(s);
}

// the library complains on stderr about things it cannot report otherwise
struct Quiet
{
  int fd[2], save[2];
  Quiet()
  {
    fflush(stdout);
    int n = open("/dev/null", O_WRONLY);
    for (int i = 0; i < 2; ++i) {save[i] = dup(i + 1);}
    {Capture once(stderr, 2);}      // sanitizer reports keep their descriptor
    dup2(n, 1);
    dup2(n, 2);
    close(n);
  }
  void end()
  {
    if (save[0] < 0) {return;}
    fflush(stdout);
    for (int i = 0; i < 2; ++i) {dup2(save[i], i + 1); close(save[i]); save[i] = -1;}
  }
  ~Quiet() {end();}
};

void finish(Scenario & s)
{
  s.fini();
  raise();
  check_empty(s.A, s.name);
  check_empty(s.B, s.name);
  if (!direct().live.empty()) {
    size_t n = direct().live.size();
    direct().live.clear();
    fail(std::string("leak.") + s.name, fmt("%s: %zu blocks of the default allocator are still allocated", s.name, n));
  }
}

void alloc_faults(Case & c)
{
  Rng & g = c.rng;
  int kind = static_cast<int>(c.idx % (KINDS - 1));
  Rng seed(g.next());
  default_allowed = false;
  direct().live.clear();
  Quiet q;
  unsigned points = 0;
  for (int m = 0; m < 3; ++m) {
    for (unsigned k = 1; k < 400; ++k) {
      auto s = make(kind, seed);
      s->mode = ALLOC;
      tr(fmt("%s: allocation %u %s", s->name, k, m == 0 ? "fails" : m == 1 ? "and all later ones fail" : "and another one fail"));
      s->setup();
      // some objects allocate through a second allocator
      s->A.arm(k, m == 1);
      s->B.arm(k, m == 1);
      if (m == 2) {s->A.fail_again = k + 1 + (k * 7 + seed.s) % 5;}
      bool ok = s->op();
      uint64_t hit = s->A.failures + s->B.failures;
      s->A.disarm();
      s->B.disarm();
      raise();
      if (hit) {
        ++points;
        count(std::string("failed.") + s->name);
        if (ok) {count("faults.tolerated");} else {
          count("faults.reported");
          rcutils_reset_error();
          s->unchanged();
          if ((k + m) % 2) {s->use();}
          s->mode = PLAIN;
          ok = s->op();
          raise();
          if (!ok) {fail(std::string("fault.retry.") + s->name, fmt("%s: the operation fails also without faults afterwards (%s)", s->name, rcutils_get_error_string().str));}
        }
      } else if (!ok) {
        fail(std::string("fault.none.") + s->name, fmt("%s: the operation failed without a fault (%s)", s->name, rcutils_get_error_string().str));
      }
      s->effect();
      s->use();
      finish(*s);
      rcutils_reset_error();
      if (!hit) {break;}
    }
  }
  c.mix(static_cast<uint64_t>(kind));
  c.mix(seed.s);
  if (points) {c.interesting();}
  q.end();
  if (c.want_sample()) {c.sample(fmt("kind %d: %u failed allocations", kind, points));}
}

// after a failure the object is finalized at once
void alloc_faults_fini(Case & c)
{
  Rng & g = c.rng;
  static const int kinds[] = {0, 1, 2, 3, 4, 5, 6, 11};
  int kind = kinds[c.idx % 8];
  Rng seed(g.next());
  default_allowed = false;
  direct().live.clear();
  Quiet q;
  unsigned points = 0;
  for (unsigned k = 1; k < 400; ++k) {
    auto s = make(kind, seed);
    s->mode = ALLOC;
    s->setup();
    s->A.arm(k, k % 2);
    s->B.arm(k, k % 2);
    bool ok = s->op();
    uint64_t hit = s->A.failures + s->B.failures;
    // (also while no memory is to be had)
    if (k % 3) {s->A.disarm(); s->B.disarm();} else {s->A.arm(1, true); s->B.arm(1, true);}
    raise();
    if (!hit) {
      s->A.disarm(); s->B.disarm();
      s->effect();
      finish(*s);
      break;
    }
    ++points;
    rcutils_reset_error();
    tr(fmt("%s: allocation %u failed, then finalized", s->name, k));
    if (!ok && s->creates()) {s->unchanged();} else {s->fini();}
    raise();
    check_empty(s->A, s->name);
    check_empty(s->B, s->name);
    count("faults.finalized");
  }
  c.mix(static_cast<uint64_t>(kind));
  c.mix(seed.s);
  if (points) {c.interesting();}
}

void injected(Case & c)
{
  Rng & g = c.rng;
  int kind = static_cast<int>(c.idx % KINDS);
  bool use_default = (c.idx / KINDS) % 2 == 0;
  Rng seed(g.next());
  Quiet q;
  direct().live.clear();
  unsigned points = 0;
  for (unsigned k = 0; k < 400; ++k) {
    auto s = make(kind, seed);
    s->use_default = default_allowed = use_default;
    s->mode = FAULT;
    tr(fmt("%s: fault point %u fails (%s allocator)", s->name, k, use_default ? "default" : "own"));
    s->setup();
    rcutils_fault_injection_set_count(k);
    bool ok = s->op();
    int64_t left = rcutils_fault_injection_get_count();
    rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
    raise();
    bool hit = left < 0;
    MON_CHECK(left < static_cast<int64_t>(k) + 1, "inject.count", "the count grew to %" PRId64, left);
    if (hit) {
      ++points;
      count(std::string("injected.") + s->name);
      if (ok) {count("faults.tolerated");} else {
        count("faults.reported");
        rcutils_reset_error();
        s->unchanged();
        if (k % 2) {s->use();}
        s->mode = PLAIN;
        ok = s->op();
        raise();
        if (!ok) {fail(std::string("inject.retry.") + s->name, fmt("%s: the operation fails also without faults afterwards (%s)", s->name, rcutils_get_error_string().str));}
      }
    } else if (!ok) {
      fail(std::string("inject.none.") + s->name, fmt("%s: the operation failed without a fault (%s)", s->name, rcutils_get_error_string().str));
    }
    s->effect();
    s->use();
    finish(*s);
    rcutils_reset_error();
    if (!hit) {break;}
  }
  default_allowed = false;
  c.mix(static_cast<uint64_t>(kind) * 2 + use_default);
  c.mix(seed.s);
  if (points) {c.interesting();}
  q.end();
  if (c.want_sample()) {c.sample(fmt("kind %d, %s allocator: %u fault points", kind, use_default ? "default" : "own", points));}
}

// ---------------------------------------------------------------- P18
void ownership(Case & c)
{
  Rng & g = c.rng;
  default_allowed = false;
  direct().live.clear();
  Quiet q;
  unsigned n = static_cast<unsigned>(g.range(2, 5));
  std::vector<std::unique_ptr<Scenario>> v;
  int logging = -1;
  alone = false;
  struct Alone {~Alone() {alone = true;}} restore;
  for (unsigned i = 0; i < n; ++i) {
    int kind = static_cast<int>(g.below(KINDS - 1));
    if (kind == 11 && logging >= 0) {kind = 1;}
    if (kind == 11) {logging = static_cast<int>(i);}
    v.push_back(make(kind, Rng(g.next())));
    tr(fmt("%u: %s", i, v.back()->name));
    c.mix(static_cast<uint64_t>(kind));
  }
  c.mix(g.next());
  // some of the others log: the logging system is brought up before them and taken down after them
  auto order = [&]() {
      std::vector<unsigned> o;
      for (unsigned i = 0; i < n; ++i) {
        if (static_cast<int>(i) != logging) {o.insert(o.begin() + static_cast<long>(g.below(o.size() + 1)), i);}
      }
      return o;
    };
  auto run_op = [&](unsigned i) {
      MON_CHECK(v[i]->op(), "owner.op", "%s failed: %s", v[i]->name, rcutils_get_error_string().str);
      v[i]->effect();
    };
  uint64_t blocks = 0;
  size_t fds = open_fds();
  auto end = [&](unsigned i) {
      Scenario & s = *v[i];
      blocks += s.A.calls + s.B.calls;
      s.fini();
      raise();
      check_empty(s.A, s.name);
      check_empty(s.B, s.name);
      s.A.closed = s.B.closed = true;
      count(std::string("owner.") + s.name);
    };
  if (logging >= 0) {v[static_cast<unsigned>(logging)]->setup(); raise(); run_op(static_cast<unsigned>(logging));}
  for (unsigned i : order()) {v[i]->setup(); raise();}
  for (unsigned i : order()) {run_op(i);}
  for (unsigned i : order()) {v[i]->use(); raise();}
  if (logging >= 0) {v[static_cast<unsigned>(logging)]->use(); raise();}
  for (unsigned i : order()) {end(i);}
  if (logging >= 0) {end(static_cast<unsigned>(logging));}
  MON_CHECK(open_fds() == fds, "owner.fds", "descriptors stayed open");
  count("owner.blocks", blocks);
  if (blocks > 3) {c.interesting();}
  q.end();
  if (c.want_sample()) {c.sample(fmt("%u objects, %" PRIu64 " allocations", n, blocks));}
}

void reallocf(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("reallocf");
  auto a = A.get();
  default_allowed = false;
  bool def = g.chance(1, 4);
  if (def) {a = rcutils_get_default_allocator(); default_allowed = true; direct().live.clear();}
  size_t n = g.below(60), m = g.chance(1, 6) ? 0 : g.below(120);
  bool null = g.chance(1, 6), failing = !def && g.chance(1, 2);
  if (null && m == 0) {m = 1;}
  c.mix(n); c.mix(m); c.mix(null * 4 + failing * 2 + def);
  std::string x = g.bytes(n);
  void * p = null ? nullptr : LIB(a.allocate(n ? n : 1, a.state));
  if (p) {memcpy(p, x.data(), n);}
  tr(fmt("reallocf(%s of %zu bytes, %zu)%s%s", null ? "NULL" : "block", n, m, failing ? " failing" : "", def ? " with the default allocator" : ""));
  if (failing) {A.arm(1, true);}
  void * r = LIB(rcutils_reallocf(p, m, &a));
  A.disarm();
  raise();
  if (failing && m > 0) {
    MON_CHECK(r == nullptr, "reallocf.result", "a failed reallocation returned a pointer");
    check_empty(A, "failed reallocf");
    count("reallocf.failed");
  } else if (m == 0) {
    // as with realloc: nothing, or something that can be released; the old block is gone exactly once
    if (r) {LIB((a.deallocate(r, a.state), 0));}
    count("reallocf.zero");
  } else {
    MON_CHECK(r != nullptr, "reallocf.result", "failed");
    MON_CHECK(memcmp(r, x.data(), null ? 0 : std::min(n, m)) == 0, "reallocf.content", "content changed");
    LIB((a.deallocate(r, a.state), 0));
    count("reallocf.ok");
  }
  raise();
  check_empty(A, "reallocf");
  MON_CHECK(!def || direct().live.empty(), "leak.default", "%zu blocks of the default allocator leaked", direct().live.size());
  default_allowed = false;
  c.interesting();
}

void validity(Case & c)
{
  Rng & g = c.rng;
  auto z = rcutils_get_zero_initialized_allocator(), d = rcutils_get_default_allocator();
  default_allowed = true;
  direct().live.clear();
  MON_CHECK(!rcutils_allocator_is_valid(&z) && !rcutils_allocator_is_valid(nullptr), "valid.zero", "a zero-initialized allocator is valid");
  MON_CHECK(rcutils_allocator_is_valid(&d), "valid.default", "the default allocator is not valid");
  MON_CHECK(z.state == nullptr && !z.allocate && !z.deallocate && !z.reallocate && !z.zero_allocate, "valid.zero", "zero-initialized is not zero");
  unsigned mask = static_cast<unsigned>(c.idx % 16);
  CkAlloc A("partial");
  auto a = A.get();
  if (g.chance(1, 2)) {a.state = nullptr;}
  if (mask & 1) {a.allocate = nullptr;}
  if (mask & 2) {a.deallocate = nullptr;}
  if (mask & 4) {a.reallocate = nullptr;}
  if (mask & 8) {a.zero_allocate = nullptr;}
  MON_CHECK(rcutils_allocator_is_valid(&a) == (mask == 0), "valid.partial", "validity of an allocator with functions missing (mask %u)", mask);
  // the default allocator behaves as the C library's
  size_t n = g.below(3000);
  void * p = LIB(d.allocate(n, d.state));
  MON_CHECK(p != nullptr, "default.allocate", "failed");
  memset(p, 0x5a, n);
  size_t m = g.range(1, 3000);
  char * q = static_cast<char *>(LIB(d.reallocate(p, m, d.state)));
  MON_CHECK(q != nullptr, "default.reallocate", "failed");
  for (size_t i = 0; i < std::min(n, m); ++i) {MON_CHECK(q[i] == 0x5a, "default.reallocate", "content lost");}
  LIB((d.deallocate(q, d.state), 0));
  size_t e = g.below(40), k = g.below(100);
  char * zc = static_cast<char *>(LIB(d.zero_allocate(k, e, d.state)));
  MON_CHECK(zc != nullptr, "default.zero_allocate", "failed");
  for (size_t i = 0; i < e * k; ++i) {MON_CHECK(zc[i] == 0, "default.zero_allocate", "memory is not zero");}
  LIB((d.deallocate(zc, d.state), 0));
  LIB((d.deallocate(nullptr, d.state), 0));
  MON_CHECK(LIB(d.zero_allocate(SIZE_MAX / 2, 4, d.state)) == nullptr, "default.overflow", "an overflowing request succeeded");
  {  // products that wrap round to a small size
    size_t w = g.range(1, 40), sh = g.range(1, 63);
    size_t n1 = (static_cast<size_t>(1) << (64 - sh)) + (sh < 58 ? w : 0), n2 = static_cast<size_t>(1) << sh;
    bool swap = g.chance(1, 2);
    void * big = LIB(d.zero_allocate(swap ? n2 : n1, swap ? n1 : n2, d.state));
    // n1 * n2 = 2^64 + w * 2^sh: no size_t holds it
    MON_CHECK(big == nullptr, "default.overflow", "an overflowing request succeeded: %zu x %zu", n1, n2);
    count("default.wrapped");
  }
  MON_CHECK(direct().live.empty(), "leak.default", "leak");
  // no API accepts a partial allocator
  if (mask) {
    Quiet qq;
    default_allowed = false;
    rcutils_array_list_t al = rcutils_get_zero_initialized_array_list();
    rcutils_hash_map_t hm = rcutils_get_zero_initialized_hash_map();
    rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map();
    rcutils_char_array_t ca = rcutils_get_zero_initialized_char_array();
    rcutils_uint8_array_t ua = rcutils_get_zero_initialized_uint8_array();
    rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
    rcutils_shared_library_t sl = rcutils_get_zero_initialized_shared_library();
    uint64_t sz;
    MON_CHECK(LIB(rcutils_array_list_init(&al, 2, 2, &a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "array_list");
    MON_CHECK(LIB(rcutils_hash_map_init(&hm, 2, 4, 8, few_hash, u32_cmp, &a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "hash_map");
    MON_CHECK(LIB(rcutils_string_map_init(&sm, 2, a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "string_map");
    MON_CHECK(LIB(rcutils_char_array_init(&ca, 2, &a)) != RCUTILS_RET_OK, "valid.refused", "char_array");
    MON_CHECK(LIB(rcutils_uint8_array_init(&ua, 2, &a)) != RCUTILS_RET_OK, "valid.refused", "uint8_array");
    MON_CHECK(LIB(rcutils_string_array_init(&sa, 2, &a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "string_array");
    MON_CHECK(LIB(rcutils_load_shared_library(&sl, "libm.so.6", a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "shared_library");
    MON_CHECK(LIB(rcutils_calculate_directory_size(tree().root.c_str(), &sz, a)) == RCUTILS_RET_INVALID_ARGUMENT, "valid.refused", "directory size");
    MON_CHECK(LIB(rcutils_dir_iter_start(tree().root.c_str(), a)) == nullptr, "valid.refused", "dir_iter");
    MON_CHECK(LIB(rcutils_get_executable_name(a)) == nullptr, "valid.refused", "executable name");
    MON_CHECK(LIB(rcutils_format_string_limit(a, 10, "x")) == nullptr, "valid.refused", "format_string");
    MON_CHECK(A.calls == 0 && A.frees == 0, "valid.refused", "a partial allocator was used");
    qq.end();
    count("valid.partial");
  }
  default_allowed = false;
  rcutils_reset_error();
  c.mix(n); c.mix(m); c.mix(mask);
  c.interesting();
}

void reg()
{
  (void)tree();
  section("alloc-faults", 2600, 60000, alloc_faults);
  section("alloc-faults-fini", 2400, 60000, alloc_faults_fini);
  section("injected", 2800, 60000, injected);
  section("ownership", 6000, 150000, ownership);
  section("reallocf", 4000, 60000, reallocf);
  section("validity", 1600, 20000, validity);
}
}  // namespace
MON_MAIN(reg)
