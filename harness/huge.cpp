// Sizes beyond 32 bits (P01-P10, P12, P15).  The memory behind them is a few megabytes mapped again and again;
// the beginning and the end of every region are memory of their own and hold what was written there.
#include <cinttypes>
#include <malloc.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

#include "mon.hpp"
#include "rcutils/error_handling.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"

using namespace mon;

namespace
{
#define OK(call, key) do {rcutils_ret_t r_ = (call); MON_CHECK(r_ == RCUTILS_RET_OK, key, #call " -> %d", static_cast<int>(r_));} while (0)

const size_t PAGE = 4096, PERIOD = 769 * PAGE, HEAD = 2 * PERIOD, SMALL = 1 << 20;     // 2^31 and 2^32 are no multiples of the period

// How far beyond 2^31 or 2^32
size_t huge(Rng & g, bool more = false)
{
  size_t base = size_t(1) << (!more && g.chance(1, 3) ? 31 : 32);
  return base + (g.chance(1, 2) ? g.below(9) + 2 : g.range(10, 40000000));
}

int fresh(size_t n)
{
  int fd = memfd_create("huge", MFD_CLOEXEC);
  if (fd < 0 || ftruncate(fd, static_cast<off_t>(n)) != 0) {abort();}
  return fd;
}
// Where the memory of a region comes from; regions of different length can show the same.
struct Store
{
  int head, body;
  Store() : head(fresh(HEAD)), body(fresh(PERIOD)) {}
  ~Store() {close(head); close(body);}
  void fill(int c)
  {
    std::string s(HEAD, static_cast<char>(c));
    if (pwrite(head, s.data(), HEAD, 0) != static_cast<ssize_t>(HEAD) || pwrite(body, s.data(), PERIOD, 0) != static_cast<ssize_t>(PERIOD)) {abort();}
  }
  // between unmapped pages
  char * map(size_t n)
  {
    size_t whole = (n + PAGE - 1) / PAGE * PAGE;
    char * p = static_cast<char *>(mmap(nullptr, whole + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) {abort();}
    p += PAGE;
    for (size_t at = 0; at < whole; ) {
      bool h = at < HEAD;
      size_t part = std::min(h ? HEAD : PERIOD, whole - at);
      if (mmap(p + at, part, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, h ? head : body, 0) == MAP_FAILED) {abort();}
      at += part;
    }
    return p;
  }
  static void unmap(char * p, size_t n) {munmap(p - PAGE, (n + PAGE - 1) / PAGE * PAGE + 2 * PAGE);}
};

struct HugeAlloc
{
  struct Block {size_t n; std::shared_ptr<Store> s;};
  std::map<char *, Block> live;
  size_t largest = 0, refuse = SIZE_MAX;
  std::string name;
  explicit HugeAlloc(const char * n) : name(n) {}
  ~HugeAlloc() {while (!live.empty()) {drop(live.begin()->first);}}
  void drop(char * p)
  {
    auto i = live.find(p);
    if (i->second.s) {Store::unmap(p, i->second.n);} else {::free(p);}
    live.erase(i);
  }
  // the last pages are of their own
  static size_t tail_at(size_t n) {return std::max(HEAD, (n + PAGE - 1) / PAGE * PAGE - 4 * PAGE);}
  static void own_tail(char * p, size_t n, int fill)
  {
    size_t whole = (n + PAGE - 1) / PAGE * PAGE, at = tail_at(n);
    if (at >= whole) {return;}
    if (mmap(p + at, whole - at, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) {abort();}
    memset(p + at, fill, whole - at);
  }
  char * give(size_t n, bool zero, std::shared_ptr<Store> s = nullptr)
  {
    largest = std::max(largest, n);
    if (n > refuse) {return nullptr;}
    char * p;
    if (n < SMALL) {
      p = static_cast<char *>(::malloc(n ? n : 1));
      memset(p, zero ? 0 : 0xa5, n);
      s = nullptr;
    } else {
      if (!s) {
        s = std::make_shared<Store>();
        if (!zero) {s->fill(0xa5);}
      }
      p = s->map(n);
      own_tail(p, n, zero ? 0 : 0xa5);
    }
    live[p] = {n, s};
    return p;
  }
  size_t size(const void * p) const
  {
    auto i = live.find(static_cast<char *>(const_cast<void *>(p)));
    return i == live.end() ? 0 : i->second.n;
  }
  rcutils_allocator_t get()
  {
    rcutils_allocator_t a;
    a.state = this;
    a.allocate = [](size_t n, void * x) -> void * {return static_cast<HugeAlloc *>(x)->give(n, false);};
    a.deallocate = [](void * p, void * x) {
        HugeAlloc & h = *static_cast<HugeAlloc *>(x);
        if (!p) {return;}
        if (!h.live.count(static_cast<char *>(p))) {note("huge.release", "memory that is not in use was released"); return;}
        h.drop(static_cast<char *>(p));
      };
    a.zero_allocate = [](size_t n, size_t m, void * x) -> void * {
        if (m && n > SIZE_MAX / m) {return nullptr;}
        return static_cast<HugeAlloc *>(x)->give(n * m, true);
      };
    a.reallocate = [](void * p, size_t n, void * x) -> void * {
        HugeAlloc & h = *static_cast<HugeAlloc *>(x);
        if (!p) {return h.give(n, false);}
        size_t old = h.size(p);
        if (!h.live.count(static_cast<char *>(p))) {note("huge.release", "memory that is not in use was resized"); return nullptr;}
        std::shared_ptr<Store> s = h.live[static_cast<char *>(p)].s;
        char * q = h.give(n, false, s);
        if (!q) {return nullptr;}
        if (!s || n < SMALL) {
          memcpy(q, p, std::min(n, old));
        } else {
          for (size_t at : {tail_at(old), tail_at(n)}) {        // the rest is the same memory
            size_t end = std::min({at + 4 * PAGE, n, old});
            if (at < end) {memcpy(q + at, p + at, end - at);}
          }
        }
        h.drop(static_cast<char *>(p));
        return q;
      };
    return a;
  }
  void check_empty(const char * when)
  {
    raise();
    MON_CHECK(live.empty(), "huge.leak", "%s: %zu blocks in use", when, live.size());
  }
};

// n characters and a null character directly before an unmapped page; the last ones are of their own
struct Text
{
  Store s;
  char * base, * p;
  size_t n, mapped;
  Text(size_t len, char c) : n(len)
  {
    s.fill(c);
    mapped = (n + 1 + PAGE - 1) / PAGE * PAGE;
    base = s.map(mapped);
    const size_t own = std::min(16 * PAGE, mapped);
    if (mmap(base + mapped - own, own, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) {abort();}
    memset(base + mapped - own, c, own);
    p = base + mapped - (n + 1);
    p[n] = '\0';
  }
  Text(const Text &) = delete;
  ~Text() {Store::unmap(base, mapped);}
  operator const char *() const {return p;}
};
void all_over() {raise(); count("beyond-32-bits");}

// ---------------------------------------------------------------- P01
void list(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("list");
  auto a = A.get();
  size_t ds = g.range(200000, PERIOD - 70), n = huge(g) / ds + 2 + g.below(3);
  c.mix(n); c.mix(ds);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  bool at_once = g.chance(1, 2);
  OK(rcutils_array_list_init(&l, at_once ? n : g.range(1, 5), ds, &a), "al.init");
  if (at_once) {MON_CHECK(A.largest / ds >= n, "al.storage", "%zu bytes asked for %zu elements of %zu", A.largest, n, ds);}
  std::string e(ds, 'x'), o(ds, 'y');
  auto put = [&](uint64_t v) {
      for (size_t at : {size_t(0), ds / 2, ds - 8}) {memcpy(&e[at], &v, 8);}
    };
  auto is = [&](size_t i, uint64_t v, const char * when) {
      OK(rcutils_array_list_get(&l, i, &o[0]), "al.get");
      put(v);
      MON_CHECK(o == e, "al.content", "%s: element %zu of %zu bytes differs", when, i, ds);
    };
  size_t own = HEAD / ds, last = PERIOD / ds, z = 0;
  for (size_t i = 0; i < n; ++i) {
    put(mix64(i));
    OK(rcutils_array_list_add(&l, e.data()), "al.add");
  }
  MON_CHECK(A.largest / ds >= n, "al.storage", "%zu bytes for %zu elements of %zu", A.largest, n, ds);
  for (size_t i = 0; i < own; ++i) {is(i, mix64(i), "first ones");}
  for (size_t i = n - last; i < n; ++i) {is(i, mix64(i), "last ones");}
  put(77);
  OK(rcutils_array_list_set(&l, n - 1, e.data()), "al.set");
  for (size_t i = 0; i < own; ++i) {is(i, mix64(i), "first ones after set");}
  is(n - 1, 77, "after set");
  if (last > 1) {
    is(n - 2, mix64(n - 2), "after set");
    OK(rcutils_array_list_remove(&l, n - 2), "al.remove");
    is(n - 2, 77, "after removal");
  } else {
    OK(rcutils_array_list_remove(&l, n - 1), "al.remove");
  }
  for (size_t i = 0; i < own; ++i) {is(i, mix64(i), "first ones after removal");}
  OK(rcutils_array_list_get_size(&l, &z), "al.size");
  MON_CHECK(z == n - 1, "al.size", "size %zu", z);
  MON_CHECK(rcutils_array_list_get(&l, n - 1, &o[0]) == RCUTILS_RET_INVALID_ARGUMENT, "al.index", "index %zu", n - 1);
  for (size_t i : {size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 31, (size_t(3) << 32) + own}) {
    MON_CHECK(rcutils_array_list_get(&l, i, &o[0]) != RCUTILS_RET_OK && rcutils_array_list_set(&l, i, e.data()) != RCUTILS_RET_OK &&
      rcutils_array_list_remove(&l, i) != RCUTILS_RET_OK, "al.index", "index %zu of %zu accepted", i, z);
  }
  if (own > 3) {
    OK(rcutils_array_list_remove(&l, 1), "al.remove");
    is(0, mix64(0), "after a removal in front");
    for (size_t i = 1; i + 2 < own; ++i) {is(i, mix64(i + 1), "after a removal in front");}
  }
  OK(rcutils_array_list_fini(&l), "al.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P02: values or keys of that size
size_t eq_hash(const void * p) {return *static_cast<const size_t *>(p);}
int eq_cmp(const void * x, const void * y) {return *static_cast<const size_t *>(x) != *static_cast<const size_t *>(y);}
void map(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("map");
  auto a = A.get();
  size_t n = huge(g);
  bool keys = c.idx % 2;
  c.mix(n); c.mix(keys);
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  OK(rcutils_hash_map_init(&m, 2, keys ? n : 8, keys ? 8 : n, eq_hash, eq_cmp, &a), "hm.init");
  size_t z = 0, small = 5;
  Text t(n, 'v'), o(n, 'o');
  uint64_t key = mix64(n);
  const void * k = keys ? static_cast<const void *>(t.p) : &key;
  memcpy(t.p, &key, 8);
  memcpy(t.p + n - 12, "end of value", 12);
  OK(rcutils_hash_map_set(&m, k, keys ? static_cast<const void *>(&small) : t.p), "hm.set");
  uint64_t other = key + 1;
  memcpy(t.p, &other, 8);
  memcpy(t.p + n - 12, "end of other", 12);
  const void * k2 = keys ? static_cast<const void *>(t.p) : &other;
  size_t small2 = 6;
  OK(rcutils_hash_map_set(&m, k2, keys ? static_cast<const void *>(&small2) : t.p), "hm.set");
  OK(rcutils_hash_map_get_size(&m, &z), "hm.size");
  MON_CHECK(z == 2, "hm.size", "%zu entries", z);
  for (int round = 0; round < 2; ++round) {
    uint64_t which = round ? other : key;
    memcpy(t.p, &which, 8);
    if (keys) {
      OK(rcutils_hash_map_get(&m, t.p, &z), "hm.get");
      MON_CHECK(z == (round ? small2 : small), "hm.value", "value %zu", z);
    } else {
      OK(rcutils_hash_map_get(&m, &which, o.p), "hm.get");
      MON_CHECK(memcmp(o.p, &which, 8) == 0, "hm.value", "the beginning of the value of %zu bytes differs", n);
      MON_CHECK(strcmp(o.p + n - 13, round ? "vend of other" : "vend of value") == 0, "hm.value", "the end of the value of %zu bytes differs", n);
    }
  }
  // iteration copies keys
  if (keys) {
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, o.p, &z);
    MON_CHECK(r == RCUTILS_RET_OK && (z == small || z == small2), "hm.iterate", "%d, value %zu", r, z);
    MON_CHECK(strcmp(o.p + n - 13, z == small2 ? "vend of other" : "vend of value") == 0, "hm.iterate", "the end of the key of %zu bytes differs", n);
    r = rcutils_hash_map_get_next_key_and_data(&m, o.p, o.p, &z);
    MON_CHECK(r == RCUTILS_RET_OK, "hm.iterate", "the second entry: %d", r);
    MON_CHECK(rcutils_hash_map_get_next_key_and_data(&m, o.p, o.p, &z) == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "hm.iterate", "a third entry");
  } else {
    memcpy(t.p + n - 12, "end of third", 12);
    OK(rcutils_hash_map_set(&m, &key, t.p), "hm.set");
    OK(rcutils_hash_map_get(&m, &key, o.p), "hm.get");
    MON_CHECK(strcmp(o.p + n - 13, "vend of third") == 0, "hm.value", "the end of the new value differs");
    OK(rcutils_hash_map_get(&m, &other, o.p), "hm.get");
    MON_CHECK(strcmp(o.p + n - 13, "vend of other") == 0, "hm.value", "another value changed");
  }
  OK(rcutils_hash_map_fini(&m), "hm.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P03, P04: strings of that length
void smap(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("smap");
  auto a = A.get();
  size_t n = huge(g);
  c.mix(n);
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  OK(rcutils_string_map_init(&m, g.below(3), a), "smap.init");
  Text t(n, 's');
  auto end = [&](const char * e) {memcpy(t.p + n - strlen(e), e, strlen(e));};
  end("the value");
  OK(rcutils_string_map_set(&m, "short", t), "smap.set");
  end("first key");
  OK(rcutils_string_map_set(&m, t, "of first"), "smap.set");
  end("other key");
  MON_CHECK(!rcutils_string_map_key_exists(&m, t), "smap.exists", "a key equal up to its end");
  OK(rcutils_string_map_set(&m, t, "of other"), "smap.set");
  size_t z = 0;
  OK(rcutils_string_map_get_size(&m, &z), "smap.size");
  MON_CHECK(z == 3, "smap.size", "%zu entries", z);
  const char * v = rcutils_string_map_get(&m, "short");
  MON_CHECK(v && strlen(v) == n && strcmp(v + n - 10, "sthe value") == 0, "smap.value", "the long value differs");
  v = rcutils_string_map_get(&m, t);
  MON_CHECK(v && strcmp(v, "of other") == 0, "smap.value", "got %s", v ? v : "nothing");
  v = rcutils_string_map_getn(&m, t, n - 1);
  MON_CHECK(!v && !rcutils_string_map_key_existsn(&m, t, n - 1), "smap.bounded", "the first %zu characters of a key", n - 1);
  MON_CHECK(!rcutils_string_map_getn(&m, t, n - (size_t(1) << 31)), "smap.bounded", "%zu characters", n - (size_t(1) << 31));
  end("first key");
  v = rcutils_string_map_getn(&m, t, n);
  MON_CHECK(v && strcmp(v, "of first") == 0, "smap.value", "got %s", v ? v : "nothing");
  OK(rcutils_string_map_unset(&m, t), "smap.unset");
  MON_CHECK(!rcutils_string_map_get(&m, t), "smap.unset", "still there");
  end("other key");
  MON_CHECK(rcutils_string_map_key_exists(&m, t), "smap.unset", "another key is gone");
  OK(rcutils_string_map_fini(&m), "smap.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

void sarr(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("sarr");
  auto a = A.get();
  size_t n = huge(g);
  c.mix(n);
  Text t(n, 's');
  auto end = [&](const char * e) {memcpy(t.p + n - strlen(e), e, strlen(e));};
  rcutils_string_array_t x = rcutils_get_zero_initialized_string_array(), y = rcutils_get_zero_initialized_string_array();
  OK(rcutils_string_array_init(&x, 3, &a), "sarr.init");
  OK(rcutils_string_array_init(&y, 1, &a), "sarr.init");
  end("B");
  x.data[0] = rcutils_strdup(t, a);
  end("A");
  x.data[2] = rcutils_strdup(t, a);
  y.data[0] = rcutils_strdup(t, a);
  MON_CHECK(x.data[0] && x.data[2] && y.data[0], "sarr.setup", "no copies");
  int r = 0;
  OK(rcutils_string_array_cmp(&x, &y, &r), "sarr.cmp");
  MON_CHECK(r > 0, "sarr.cmp", "compared %d at the end of %zu characters", r, n);
  OK(rcutils_string_array_sort(&x), "sarr.sort");
  MON_CHECK(x.data[0] && x.data[1] && !x.data[2] && x.data[0][n - 1] == 'A' && x.data[1][n - 1] == 'B', "sarr.sort", "the order is wrong");
  OK(rcutils_string_array_cmp(&y, &x, &r), "sarr.cmp");
  MON_CHECK(r < 0, "sarr.cmp", "compared %d with a longer array", r);
  OK(rcutils_string_array_resize(&x, 1), "sarr.resize");
  OK(rcutils_string_array_cmp(&y, &x, &r), "sarr.cmp");
  MON_CHECK(r == 0, "sarr.cmp", "compared %d with an equal array", r);
  OK(rcutils_string_array_fini(&x), "sarr.fini");
  OK(rcutils_string_array_fini(&y), "sarr.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P05
void chars(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("chars");
  auto a = A.get();
  size_t n = huge(g), way = c.idx % 3;
  c.mix(n); c.mix(way);
  rcutils_char_array_t x = rcutils_get_zero_initialized_char_array();
  char mine[40] = "mine";
  if (way == 0) {
    size_t cap = n + g.below(3);
    OK(rcutils_char_array_init(&x, cap, &a), "ca.init");
    MON_CHECK(A.size(x.buffer) >= cap && x.buffer_capacity == cap, "ca.storage", "%zu bytes for %zu", A.size(x.buffer), cap);
  } else if (way == 1) {
    OK(rcutils_char_array_init(&x, g.below(50), &a), "ca.init");
  } else {
    x.buffer = mine;
    x.buffer_capacity = sizeof(mine);
    x.buffer_length = 5;
    x.owns_buffer = false;
    x.allocator = a;
  }
  auto check = [&](const char * when, size_t len) {
      MON_CHECK(x.buffer_length == len, "ca.length", "%s: length %zu, should be %zu", when, x.buffer_length, len);
      MON_CHECK(x.buffer_capacity >= len && A.size(x.buffer) >= x.buffer_capacity, "ca.storage", "%s: capacity %zu in %zu bytes", when, x.buffer_capacity, A.size(x.buffer));
    };
  {
    Text t(n, 't');
    memcpy(t.p + n - 10, "0123456789", 10);
    memcpy(t.p, "first", 5);
    std::string head = "first";
    if (way == 2) {
      OK(rcutils_char_array_strcat(&x, t), "ca.strcat");
      check("strcat", n + 5);
      head = "minefirst";
      MON_CHECK(strcmp(mine, "mine") == 0, "ca.unowned", "the caller's buffer was changed");
    } else if (g.chance(1, 2)) {
      OK(rcutils_char_array_strcpy(&x, t), "ca.strcpy");
      check("strcpy", n + 1);
    } else {
      OK(rcutils_char_array_memcpy(&x, t, n + 1), "ca.memcpy");
      check("memcpy", n + 1);
    }
    MON_CHECK(memcmp(x.buffer, (head + "tttt").data(), head.size() + 4) == 0, "ca.content", "the beginning differs");
    MON_CHECK(strcmp(x.buffer + x.buffer_length - 13, "tt0123456789") == 0, "ca.content", "the end differs");
  }
  // append to a long content, and a bounded part of a long text
  size_t len = x.buffer_length;
  OK(rcutils_char_array_strcat(&x, "<appended>"), "ca.strcat");
  check("strcat", len + 10);
  MON_CHECK(strcmp(x.buffer + len - 4, "789<appended>") == 0, "ca.content", "appended at another place");
  OK(rcutils_char_array_strncat(&x, "abcdef", (size_t(1) << 32) + 3), "ca.strncat");
  check("strncat", len + 16);
  MON_CHECK(strcmp(x.buffer + len - 1, "<appended>abcdef") == 0, "ca.content", "appended %s", show(x.buffer + len - 1).c_str());
  // resize
  size_t cap = x.buffer_capacity, bigger = cap + g.range(1, 9000000), smaller = len + 3;
  OK(rcutils_char_array_resize(&x, bigger), "ca.resize");
  MON_CHECK(x.buffer_capacity == bigger, "ca.capacity", "%zu", x.buffer_capacity);
  check("larger", len + 16);
  MON_CHECK(strcmp(x.buffer + len - 1, "<appended>abcdef") == 0, "ca.content", "after a resize");
  OK(rcutils_char_array_resize(&x, smaller), "ca.resize");
  MON_CHECK(x.buffer_capacity == smaller, "ca.capacity", "%zu", x.buffer_capacity);
  check("smaller", smaller);
  MON_CHECK(memcmp(x.buffer + len - 1, "<app", 4) == 0, "ca.content", "after a resize");
  OK(rcutils_char_array_expand_as_needed(&x, 7), "ca.expand");
  MON_CHECK(x.buffer_capacity == smaller, "ca.capacity", "%zu", x.buffer_capacity);
  OK(rcutils_char_array_expand_as_needed(&x, smaller + 2), "ca.expand");
  check("expanded", smaller);
  MON_CHECK(x.buffer_capacity >= smaller + 2, "ca.capacity", "%zu", x.buffer_capacity);
  MON_CHECK(memcmp(x.buffer + len - 1, "<app", 4) == 0, "ca.content", "after a growth");
  // what is short again
  OK(rcutils_char_array_strcpy(&x, "short"), "ca.strcpy");
  check("short", 6);
  MON_CHECK(strcmp(x.buffer, "short") == 0, "ca.content", "short");
  OK(rcutils_char_array_resize(&x, 9), "ca.resize");
  check("small", 6);
  MON_CHECK(x.buffer_capacity == 9 && strcmp(x.buffer, "short") == 0, "ca.content", "after shrinking");
  OK(rcutils_char_array_fini(&x), "ca.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P06
void bytes(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("bytes");
  auto a = A.get();
  size_t n = huge(g);
  c.mix(n);
  rcutils_uint8_array_t x = rcutils_get_zero_initialized_uint8_array();
  if (g.chance(1, 2)) {
    OK(rcutils_uint8_array_init(&x, n, &a), "u8.init");
  } else {
    OK(rcutils_uint8_array_init(&x, g.range(1, 99), &a), "u8.init");
    OK(rcutils_uint8_array_resize(&x, n), "u8.resize");
  }
  auto check = [&](const char * when, size_t cap, size_t len) {
      MON_CHECK(x.buffer_capacity == cap && x.buffer_length == len, "u8.sizes", "%s: capacity %zu, length %zu; should be %zu, %zu", when, x.buffer_capacity, x.buffer_length, cap, len);
      MON_CHECK(A.size(x.buffer) >= cap, "u8.storage", "%s: %zu bytes for %zu", when, A.size(x.buffer), cap);
    };
  check("init", n, 0);
  size_t len = n - g.below(40);
  x.buffer_length = len;
  memcpy(x.buffer, "first", 5);
  memcpy(x.buffer + len - 60, std::string(60, 'e').data(), 60);
  size_t bigger = n + g.range(1, 90000000);
  OK(rcutils_uint8_array_resize(&x, bigger), "u8.resize");
  check("larger", bigger, len);
  MON_CHECK(memcmp(x.buffer, "first", 5) == 0 && memcmp(x.buffer + len - 60, std::string(60, 'e').data(), 60) == 0, "u8.content", "after growing");
  size_t smaller = len - g.below(50);
  OK(rcutils_uint8_array_resize(&x, smaller), "u8.resize");
  check("smaller", smaller, std::min(smaller, len));
  MON_CHECK(memcmp(x.buffer, "first", 5) == 0 && memcmp(x.buffer + smaller - 10, std::string(10, 'e').data(), 10) == 0, "u8.content", "after shrinking");
  OK(rcutils_uint8_array_resize(&x, 7), "u8.resize");
  check("small", 7, 7);
  MON_CHECK(memcmp(x.buffer, "first", 5) == 0, "u8.content", "after shrinking");
  OK(rcutils_uint8_array_fini(&x), "u8.fini");
  A.check_empty("after fini");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P08
void find(Case & c)
{
  Rng & g = c.rng;
  size_t n = huge(g);
  c.mix(n);
  Text t(n, 'q');
  size_t far = n - 1 - g.below(5);
  t.p[far] = '#';
  MON_CHECK(rcutils_find(t, '#') == far, "find", "first at %zu, found at %zu", far, rcutils_find(t, '#'));
  MON_CHECK(rcutils_find_last(t, '#') == far, "find", "last at %zu, found at %zu", far, rcutils_find_last(t, '#'));
  MON_CHECK(rcutils_findn(t, '#', n) == far && rcutils_findn(t, '#', far) == SIZE_MAX, "find", "at %zu", far);
  MON_CHECK(rcutils_find_lastn(t, '#', far + 1) == far, "find", "at %zu", far);
  t.p[far] = 'q';
  size_t near = g.below(5);
  t.p[near] = '#';
  MON_CHECK(rcutils_find_last(t, '#') == near && rcutils_find_lastn(t, '#', n) == near && rcutils_find(t, '#') == near, "find", "at %zu", near);
  t.p[near] = 'q';
  MON_CHECK(rcutils_find_last(t, '#') == SIZE_MAX && rcutils_find_lastn(t, '#', n) == SIZE_MAX, "find", "what is not there");
  // comparison
  Text u(n, 'Q');
  int r = 7;
  MON_CHECK(rcutils_strcasecmp(t, u, &r) == 0 && r == 0, "casecmp", "equal texts: %d", r);
  u.p[far] = 'r';
  MON_CHECK(rcutils_strcasecmp(t, u, &r) == 0 && r < 0, "casecmp", "smaller at %zu: %d", far, r);
  MON_CHECK(rcutils_strncasecmp(u, t, far + 1, &r) == 0 && r > 0, "casecmp", "larger at %zu: %d", far, r);
  MON_CHECK(rcutils_strncasecmp(u, t, far, &r) == 0 && r == 0, "casecmp", "equal up to %zu: %d", far, r);
  Exact x("abc"), y("ABD");
  for (size_t k : {size_t(1) << 32, (size_t(1) << 32) + 2, size_t(1) << 31, size_t(1) << 63}) {
    MON_CHECK(rcutils_strncasecmp(x, y, k, &r) == 0 && r < 0, "casecmp", "bound %zu: %d", k, r);
  }
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P20
void names(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("names");
  auto a = A.get();
  size_t n = (size_t(1) << (c.idx % 4 == 3 ? 32 : 31)) + g.range(2, 4000);
  c.mix(n);
  Text t(n, g.chance(1, 2) ? 'e' : 'E');
  int sev = 7;
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(t, a, &sev);
  MON_CHECK(r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID && sev == 7, "level.from", "a name of %zu characters: %d, level %d", n, r, sev);
  rcutils_reset_error();
  OK(rcutils_logging_initialize_with_allocator(a), "init");
  OK(rcutils_logging_set_logger_level(t, RCUTILS_LOG_SEVERITY_ERROR), "level.set");
  Text u(n + 2, t.p[0]);
  u.p[n] = '.';
  MON_CHECK(rcutils_logging_get_logger_level(t) == RCUTILS_LOG_SEVERITY_ERROR, "level.get", "of a name of %zu characters", n);
  MON_CHECK(rcutils_logging_get_logger_leveln(u, n) == RCUTILS_LOG_SEVERITY_ERROR, "level.getn", "of a name of %zu characters", n);
  MON_CHECK(rcutils_logging_get_logger_effective_level(u) == RCUTILS_LOG_SEVERITY_ERROR, "level.effective", "of a child of a name of %zu characters", n);
  u.p[n] = t.p[0];
  MON_CHECK(rcutils_logging_get_logger_effective_level(u) == RCUTILS_LOG_SEVERITY_INFO, "level.effective", "of another name of %zu characters", n + 2);
  OK(rcutils_logging_shutdown(), "shutdown");
  A.check_empty("after the shutdown");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P09
void copies(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("copies");
  auto a = A.get();
  size_t n = huge(g);
  c.mix(n);
  Text t(n, 'q');
  memcpy(t.p + n - 10, "0123456789", 10);
  memcpy(t.p, "first", 5);
  auto check = [&](const char * what, char * r, size_t len, const std::string & head, const std::string & tail) {
      raise();
      MON_CHECK(r && A.size(r) > len, "huge.copy", "%s: %zu bytes for %zu characters", what, A.size(r), len);
      MON_CHECK(memcmp(r, head.data(), head.size()) == 0, "huge.copy", "%s: the beginning differs", what);
      MON_CHECK(memcmp(r + len - tail.size(), tail.c_str(), tail.size() + 1) == 0, "huge.copy", "%s: the end differs", what);
      a.deallocate(r, a.state);
    };
  check("strdup", rcutils_strdup(t, a), n, "firstq", "qq0123456789");
  size_t bound = n - g.below(6);
  check("strndup", rcutils_strndup(t, bound, a), bound, "firstq", std::string("qq0123456789").substr(0, 12 - (n - bound)));
  for (size_t k : {size_t(1) << 32, (size_t(1) << 32) + 2, (size_t(1) << 31) + 1}) {
    Exact s("some text");
    check("strndup", rcutils_strndup(s, k, a), 9, "some", "text");
    char * r = rcutils_format_string_limit(a, k, "%s and %d", static_cast<const char *>(s), 5);
    check("format", r, 15, "some", "and 5");
  }
  if (c.idx % 2) {
    memcpy(t.p + n - 40, "<FROM>", 6);
    memcpy(t.p + n - 20, "<FROM>", 6);
    memcpy(t.p + 2000, "<FROM>", 6);
    check("repl_str", rcutils_repl_str(t, "<FROM>", "up", &a), n - 12, "firstq", "up" + std::string(14, 'q') + "up" + std::string(4, 'q') + "0123456789");
  } else {
    Text big(n, 'z');
    memcpy(big.p + n - 4, "last", 4);
    check("repl_str", rcutils_repl_str("begin # end", "#", big, &a), n + 10, "begin zz", "last end");
  }
  A.check_empty("at the end");
  c.interesting();
  all_over();
}

// Millions of matches and of tokens, in memory of its own that ends at an unmapped page
struct EndAlloc
{
  std::map<char *, std::pair<size_t, size_t>> live;      // size, size of the mapping
  rcutils_allocator_t get()
  {
    rcutils_allocator_t a;
    a.state = this;
    a.allocate = [](size_t n, void * x) -> void * {
        if (n < 4096) {
          return ::malloc(n ? n : 1);
        }
        size_t whole = (n + 2 * PAGE - 1) / PAGE * PAGE;
        char * m = static_cast<char *>(mmap(nullptr, whole + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m == MAP_FAILED || mprotect(m + whole, PAGE, PROT_NONE) != 0) {abort();}
        char * p = m + whole - (n + 7) / 8 * 8;
        memset(p, 0xa5, n);
        static_cast<EndAlloc *>(x)->live[p] = {n, whole + PAGE};
        return p;
      };
    a.deallocate = [](void * p, void * x) {
        auto & l = static_cast<EndAlloc *>(x)->live;
        auto i = l.find(static_cast<char *>(p));
        if (i == l.end()) {::free(p); return;}
        size_t whole = i->second.second - PAGE;
        munmap(static_cast<char *>(p) + (i->second.first + 7) / 8 * 8 - whole, whole + PAGE);
        l.erase(i);
      };
    a.zero_allocate = [](size_t n, size_t m, void * x) -> void * {
        void * p = static_cast<EndAlloc *>(x)->get().allocate(n * m, x);
        memset(p, 0, n * m);
        return p;
      };
    a.reallocate = [](void * p, size_t n, void * x) -> void * {
        EndAlloc * e = static_cast<EndAlloc *>(x);
        auto i = e->live.find(static_cast<char *>(p));
        if (p && i == e->live.end() && n < 4096) {return ::realloc(p, n);}
        void * q = e->get().allocate(n, x);
        if (p) {
          memcpy(q, p, std::min(n, i == e->live.end() ? malloc_usable_size(p) : i->second.first));
          e->get().deallocate(p, x);
        }
        return q;
      };
    return a;
  }
};
void matches(Case & c)
{
  Rng & g = c.rng;
  EndAlloc A;
  auto a = A.get();
  size_t n = c.idx % 2 ? g.range(1 << 20, 4 << 20) : g.range(1, 3) * 1048576 + g.below(9);
  c.mix(n);
  std::string s, want, to = g.str(g.below(4), "xyz");
  s.reserve(n * 4);
  for (size_t i = 0; i < n; ++i) {
    size_t k = mix64(i) % 3;
    s.append(k, static_cast<char>('a' + i % 7));
    want.append(k, static_cast<char>('a' + i % 7));
    s += "#-";
    want += to;
  }
  char * r = rcutils_repl_str(s.c_str(), "#-", to.c_str(), &a);
  MON_CHECK(r && want == r, "repl", "%zu occurrences", n);
  a.deallocate(r, a.state);
  MON_CHECK(A.live.empty(), "huge.leak", "%zu blocks in use", A.live.size());
  c.interesting();
  count("huge.matches", n);
}

// ---------------------------------------------------------------- P07: short tokens around one of that length, in a text of that length
void split(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("split");
  auto a = A.get();
  size_t n = c.idx % 2 ? huge(g, true) : (size_t(1) << 31) + g.range(100000, 40000000);
  c.mix(n);
  Text t(n, 'q');
  unsigned where = static_cast<unsigned>(c.idx / 2 % 3);          // the long one is the first, the last, or between others
  size_t long_at = where == 0 ? 0 : g.range(1, 60000), long_end = n - (where == 1 ? 0 : g.range(1, 60000)), front = g.below(12), back = g.below(12);
  std::vector<size_t> at;                                         // of the delimiters
  if (g.chance(1, 3)) {at.push_back(0);}
  for (size_t i = 0; i < front && long_at; ++i) {at.push_back(g.below(long_at));}
  if (long_at) {at.push_back(long_at - 1);}
  if (long_end < n) {at.push_back(long_end);}
  for (size_t i = 0; i < back && long_end < n; ++i) {at.push_back(long_end + g.below(n - long_end));}
  if (g.chance(1, 3)) {at.push_back(n - 1);}
  for (size_t i = 0; i < 500; ++i) {                              // no two characters of the beginning and the end alike
    memcpy(t.p + i * 8, &"abcdefghijklmnop"[i % 9], 8);
    memcpy(t.p + n - 4000 + i * 8, &"ABCDEFGHIJKLMNOP"[i % 9], 8);
  }
  std::sort(at.begin(), at.end());
  at.erase(std::unique(at.begin(), at.end()), at.end());
  for (size_t i : at) {t.p[i] = ':';}
  std::vector<std::pair<size_t, size_t>> want;                    // where the tokens begin, and their length
  size_t from = 0;
  for (size_t i = 0; i <= at.size(); ++i) {
    size_t to = i < at.size() ? at[i] : n;
    if (to > from) {want.push_back({from, to - from});}
    from = to + 1;
  }
  auto same = [&](const char * what, const char * r, size_t begin, size_t len) {
      raise();
      MON_CHECK(r && A.size(r) > len, "split.block", "%s: %zu bytes for %zu characters", what, A.size(r), len);
      size_t part = std::min<size_t>(len, 4 * PAGE - 4096);       // all of it unless it is the long one
      if (len < HEAD) {part = len;}
      MON_CHECK(memcmp(r, t.p + begin, part) == 0, "split.token", "%s: the beginning of %zu characters differs", what, len);
      MON_CHECK(memcmp(r + len - part, t.p + begin + len - part, part) == 0 && r[len] == '\0', "split.token", "%s: the end of %zu characters differs", what, len);
    };
  rcutils_string_array_t r = rcutils_get_zero_initialized_string_array();
  OK(rcutils_split(t, ':', a, &r), "split.ret");
  MON_CHECK(r.size == want.size(), "split.count", "%zu tokens instead of %zu", r.size, want.size());
  for (size_t i = 0; i < r.size; ++i) {same("token", r.data[i], want[i].first, want[i].second);}
  OK(rcutils_string_array_fini(&r), "split.fini");
  A.check_empty("after fini");
  // at the last delimiter
  size_t lo = t.p[0] == ':', hi = n - (t.p[n - 1] == ':'), last = n;
  for (size_t i : at) {if (i >= lo && i < hi) {last = i;}}
  OK(rcutils_split_last(t, ':', a, &r), "split.ret");
  MON_CHECK(r.size == (last == n ? 1u : 2u), "split.count", "%zu parts", r.size);
  if (last == n) {
    if (n == hi) {same("the whole", r.data[0], lo, n - lo);}
  } else {
    same("first part", r.data[0], lo, last - lo - (last > lo && t.p[last - 1] == ':'));
    same("last part", r.data[1], last + 1, hi - last - 1);
  }
  OK(rcutils_string_array_fini(&r), "split.fini");
  A.check_empty("after fini");
  c.interesting();
  count(want.size() > 2 ? "huge.split-around" : "huge.split");
  all_over();
}

// ---------------------------------------------------------------- P10
void bounded(Case & c)
{
  Rng & g = c.rng;
  size_t size = huge(g) + (g.chance(1, 2) ? size_t(1) << g.range(32, 62) : 0);
  if (g.chance(1, 3)) {size = size_t(1) << g.range(31, 62);}
  c.mix(size);
  size_t len = g.size(5000);
  std::string s = g.str(len, "abc ");
  Text b(len + 20000, 'b');
  int r = rcutils_snprintf(b.p, size, "[%s]", s.c_str());
  MON_CHECK(r == static_cast<int>(len + 2) && "[" + s + "]" == b.p, "snprintf", "size %zu: %d", size, r);
  MON_CHECK(b.p[len + 3] == 'b', "snprintf", "size %zu: written beyond the text", size);
  if (c.idx < 8) {        // the whole buffer may be written
    size = huge(g);
    Text d(size, 'd');
    int e = static_cast<int>(g.range(1, 133));
    std::string want = strerror(e);
    errno = e;
    rcutils_strerror(d.p, size);
    MON_CHECK(want == d.p && d.p[size] == '\0', "strerror", "size %zu, error %d: %s", size, e, show(d.p).c_str());
  }
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P12
void digest(Case & c)
{
  // 2^32 + 5 zero bytes
  const char * want = "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5";
  size_t n = (size_t(1) << 32) + 5;
  Text t(n, '\0');
  rcutils_sha256_ctx_t x;
  rcutils_sha256_init(&x);
  size_t cut = c.rng.chance(1, 2) ? 0 : c.rng.below(300);
  c.mix(cut);
  rcutils_sha256_update(&x, reinterpret_cast<const uint8_t *>(t.p), cut);
  rcutils_sha256_update(&x, reinterpret_cast<const uint8_t *>(t.p) + cut, n - cut);
  uint8_t d[RCUTILS_SHA256_BLOCK_SIZE];
  rcutils_sha256_final(&x, d);
  std::string got;
  for (uint8_t b : d) {got += fmt("%02x", b);}
  MON_CHECK(got == want, "sha256.digest", "%zu zero bytes in pieces of %zu and %zu: %s", n, cut, n - cut, got.c_str());
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- P15
void errors(Case & c)
{
  Rng & g = c.rng;
  rcutils_reset_error();
  size_t n = huge(g);
  bool file = c.idx % 2;
  c.mix(n); c.mix(file);
  Text t(n, 'm');
  memcpy(t.p, "first", 5);
  uint64_t line = g.chance(1, 2) ? huge(g) : 17;
  rcutils_set_error_state(file ? "short" : t.p, file ? t.p : "file.c", line);
  const rcutils_error_state_t * e = rcutils_get_error_state();
  std::string long_m = "first" + std::string(RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 6, 'm'), long_f = "first" + std::string(RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 6, 'm');
  MON_CHECK((file ? "short" : long_m) == e->message, "error.message", "message of %zu characters became %zu", n, strlen(e->message));
  MON_CHECK((file ? long_f : "file.c") == e->file, "error.file", "file name of %zu characters became %zu", n, strlen(e->file));
  MON_CHECK(e->line_number == line, "error.line", "%" PRIu64 " instead of %" PRIu64, e->line_number, line);
  MON_CHECK(rcutils_error_is_set(), "error.set", "no error set");
  rcutils_reset_error();
  MON_CHECK(!rcutils_error_is_set(), "error.reset", "still set");
  c.interesting();
  all_over();
}

// ---------------------------------------------------------------- more than there is: nothing is accepted and then too small
template<int what>
void refused(Case & c)
{
  Rng & g = c.rng;
  HugeAlloc A("refused");
  A.refuse = size_t(1) << 24;
  auto a = A.get();
  size_t n = size_t(1) << g.range(31, 40);
  switch (g.below(3)) {
    case 0: n += g.below(9); break;
    case 1: n += g.range(1, 100000); break;
    default: n = n * g.range(1, 15) + g.below(3);
  }
  c.mix(n);
  rcutils_ret_t r = RCUTILS_RET_OK;
  size_t z = 5;
  switch (what) {
    case 1: {
        rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
        bool wide = g.chance(1, 2);
        r = wide ? rcutils_array_list_init(&l, g.range(1, 9), n, &a) : rcutils_array_list_init(&l, n, g.range(1, 300), &a);
        if (r == RCUTILS_RET_OK) {(void)!rcutils_array_list_fini(&l);}
        break;
      }
    case 2: {
        rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
        r = rcutils_hash_map_init(&m, n, sizeof(size_t), 8, eq_hash, eq_cmp, &a);
        if (r == RCUTILS_RET_OK) {(void)!rcutils_hash_map_fini(&m);}
        break;
      }
    case 3: {
        rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
        if (g.chance(1, 2)) {
          r = rcutils_string_map_init(&m, n, a);
        } else {
          OK(rcutils_string_map_init(&m, g.below(3), a), "smap.init");
          OK(rcutils_string_map_set(&m, "key", "value"), "smap.set");
          size_t cap = 0;
          OK(rcutils_string_map_get_capacity(&m, &cap), "smap.capacity");
          r = rcutils_string_map_reserve(&m, n);
          MON_CHECK(rcutils_string_map_get(&m, "key") && !strcmp(rcutils_string_map_get(&m, "key"), "value"), "smap.kept", "the entry is gone");
          OK(rcutils_string_map_get_capacity(&m, &z), "smap.capacity");
          MON_CHECK(r == RCUTILS_RET_OK || z == cap, "smap.capacity", "%zu before, %zu after", cap, z);
          OK(rcutils_string_map_fini(&m), "smap.fini");
          break;
        }
        if (r == RCUTILS_RET_OK) {(void)!rcutils_string_map_fini(&m);}
        break;
      }
    case 4: {
        rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
        if (g.chance(1, 2)) {
          r = rcutils_string_array_init(&s, n, &a);
        } else {
          OK(rcutils_string_array_init(&s, 2, &a), "sarr.init");
          s.data[1] = rcutils_strdup("text", a);
          r = rcutils_string_array_resize(&s, n);
          MON_CHECK(r == RCUTILS_RET_OK || (s.size == 2 && !s.data[0] && !strcmp(s.data[1], "text")), "sarr.kept", "size %zu", s.size);
          if (r != RCUTILS_RET_OK) {OK(rcutils_string_array_fini(&s), "sarr.fini");}
        }
        break;
      }
    case 5: {
        rcutils_char_array_t x = rcutils_get_zero_initialized_char_array();
        if (g.chance(1, 3)) {
          r = rcutils_char_array_init(&x, n, &a);
        } else {
          OK(rcutils_char_array_init(&x, 20, &a), "ca.init");
          OK(rcutils_char_array_strcpy(&x, "text"), "ca.strcpy");
          r = g.chance(1, 2) ? rcutils_char_array_resize(&x, n) : rcutils_char_array_expand_as_needed(&x, n);
          MON_CHECK(r == RCUTILS_RET_OK || (x.buffer_capacity == 20 && x.buffer_length == 5 && !strcmp(x.buffer, "text")), "ca.kept", "capacity %zu", x.buffer_capacity);
          if (r != RCUTILS_RET_OK) {OK(rcutils_char_array_fini(&x), "ca.fini");}
        }
        break;
      }
    case 6: {
        rcutils_uint8_array_t x = rcutils_get_zero_initialized_uint8_array();
        if (g.chance(1, 3)) {
          r = rcutils_uint8_array_init(&x, n, &a);
        } else {
          OK(rcutils_uint8_array_init(&x, 20, &a), "u8.init");
          x.buffer_length = 3;
          memcpy(x.buffer, "abc", 3);
          r = rcutils_uint8_array_resize(&x, n);
          MON_CHECK(r == RCUTILS_RET_OK || x.buffer_capacity <= 20, "u8.kept", "capacity %zu", x.buffer_capacity);
          if (r != RCUTILS_RET_OK) {OK(rcutils_uint8_array_fini(&x), "u8.fini");}
        }
        break;
      }
  }
  MON_CHECK(r != RCUTILS_RET_OK, "huge.accepted", "%zu accepted with %zu bytes of memory", n, A.largest);
  rcutils_reset_error();
  A.check_empty("after the refusal");
  c.interesting();
  count("beyond-refused");
}

void reg()
{
  section("huge-list", 8, 60, list);
  section("huge-map", 6, 40, map);
  section("huge-smap", 4, 24, smap);
  section("huge-sarr", 4, 24, sarr);
  section("huge-chars", 9, 60, chars);
  section("huge-bytes", 24, 200, bytes);
  section("huge-find", 8, 40, find);
  section("huge-split", 8, 60, split);
  section("huge-matches", 4, 40, matches);
  section("huge-copies", 8, 40, copies);
  section("huge-printf", 200, 2000, bounded);
  section("huge-sha", 2, 8, digest);
  section("huge-names", 4, 8, names);
  section("huge-error", 16, 100, errors);
  section("refused-list", 200, 4000, refused<1>);
  section("refused-map", 200, 4000, refused<2>);
  section("refused-smap", 200, 4000, refused<3>);
  section("refused-sarr", 200, 4000, refused<4>);
  section("refused-chars", 200, 4000, refused<5>);
  section("refused-bytes", 200, 4000, refused<6>);
}
}  // namespace
MON_MAIN(reg)
