// Sizes beyond what fits into 16 bits: long strings, many elements, large elements.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mon.hpp"
#include "capture.hpp"
#include "logref.hpp"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"

using namespace mon;

namespace
{
#define OK(call, key) do {rcutils_ret_t r_ = (call); MON_CHECK(r_ == RCUTILS_RET_OK, key, #call " -> %d", static_cast<int>(r_));} while (0)

// around and above multiples of 2^15 and 2^16
size_t wide(Rng & g)
{
  size_t n;
  static const bool small_stack = getenv("MON_STACK") != nullptr;
  if (small_stack) {return g.range(300000, run().thorough ? 3000000 : 600000);}      // more than there is stack
  switch (g.below(6)) {
    case 0: n = 65536 + g.below(5) - 2; break;
    case 1: n = 32768 * g.range(1, 5) + g.below(5) - 2; break;
    case 2: n = 131072 + g.below(5) - 2; break;
    case 3: n = 65536 + g.below(300); break;
    default: n = g.range(65530, 200000);
  }
  if (run().thorough && g.chance(1, 8)) {n = g.chance(1, 2) ? (size_t(1) << 20) + g.below(5) - 2 : g.range(200000, 2000000);}
  return n;
}

// text of which every window of eight characters says where it is
std::string text(size_t n, uint64_t salt = 0)
{
  std::string s;
  s.reserve(n + 8);
  for (size_t i = 0; s.size() < n; ++i) {
    char b[20];
    snprintf(b, sizeof(b), "%07zx", (i * 2654435761u + salt) & 0xfffffff);
    s.append(b, 7);
    s += '.';
  }
  s.resize(n);
  return s;
}
uint64_t word(size_t i) {return mix64(i * 7919 + 13);}

// ---------------------------------------------------------------- P01
void list(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("list");
  auto a = A.get();
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  size_t z = 0;
  if (c.idx % 2) {    // many elements
    size_t n = wide(g), ds = g.chance(1, 2) ? 8 : g.range(8, 24);
    c.mix(n); c.mix(ds);
    OK(rcutils_array_list_init(&l, g.chance(1, 2) ? n - g.below(100) : g.range(1, 9), ds, &a), "al.init");
    std::vector<uint64_t> m;
    std::string e(ds, 'x');
    auto put = [&](uint64_t v) {memcpy(&e[0], &v, 8); memset(&e[8], static_cast<int>(v & 0xff), ds - 8);};
    auto is = [&](uint64_t v) {std::string o = e; put(v); bool r = o == e; return r;};
    for (size_t i = 0; i < n; ++i) {
      put(word(i));
      MON_CHECK(rcutils_array_list_add(&l, e.data()) == RCUTILS_RET_OK, "al.add", "add %zu failed", i);
      m.push_back(word(i));
    }
    auto all = [&](const char * when) {
        OK(rcutils_array_list_get_size(&l, &z), "al.size");
        MON_CHECK(z == m.size(), "al.size", "%s: size %zu, expected %zu", when, z, m.size());
        for (size_t i = 0; i < m.size(); ++i) {
          OK(rcutils_array_list_get(&l, i, &e[0]), "al.get");
          MON_CHECK(is(m[i]), "al.content", "%s: element %zu of %zu differs", when, i, m.size());
        }
      };
    all("after adding");
    auto at = [&] {
        switch (g.below(4)) {
          case 0: return g.below(m.size());
          case 1: return m.size() - 1 - g.below(3);
          case 2: return m.size() > 65540 ? 65533 + g.below(6) : g.below(m.size());
          default: return g.below(10);
        }
      };
    for (int k = 0; k < 12; ++k) {
      size_t i = at();
      put(word(n + static_cast<size_t>(k)));
      OK(rcutils_array_list_set(&l, i, e.data()), "al.set");
      m[i] = word(n + static_cast<size_t>(k));
      i = at();
      OK(rcutils_array_list_remove(&l, i), "al.remove");
      m.erase(m.begin() + static_cast<long>(i));
      MON_CHECK(rcutils_array_list_get(&l, m.size(), &e[0]) != RCUTILS_RET_OK, "al.range", "index %zu of %zu accepted", m.size(), m.size());
      MON_CHECK(rcutils_array_list_set(&l, m.size() + 65536, &e[0]) != RCUTILS_RET_OK, "al.range", "index %zu of %zu accepted", m.size() + 65536, m.size());
      rcutils_reset_error();
    }
    all("after changes");
    count("wide.list-elements", n);
  } else {            // large elements
    size_t ds = wide(g), n = g.range(2, 8);
    c.mix(ds); c.mix(n);
    OK(rcutils_array_list_init(&l, g.range(1, 3), ds, &a), "al.init");
    std::vector<std::string> m;
    for (size_t i = 0; i < n; ++i) {
      m.push_back(text(ds, i));
      Exact e(m.back(), false);
      OK(rcutils_array_list_add(&l, e.p), "al.add");
    }
    for (int k = 0; k < 3 && m.size() > 1; ++k) {
      size_t i = g.below(m.size());
      OK(rcutils_array_list_remove(&l, i), "al.remove");
      m.erase(m.begin() + static_cast<long>(i));
      i = g.below(m.size());
      m[i] = text(ds, 100 + static_cast<size_t>(k));
      Exact e(m[i], false);
      OK(rcutils_array_list_set(&l, i, e.p), "al.set");
      for (i = 0; i < m.size(); ++i) {
        Exact o(std::string(ds, 'q'), false);
        OK(rcutils_array_list_get(&l, i, o.p), "al.get");
        MON_CHECK(std::string(o.p, ds) == m[i], "al.content", "element %zu of %zu bytes differs", i, ds);
      }
    }
    count("wide.list-large", n);
  }
  OK(rcutils_array_list_fini(&l), "al.fini");
  check_empty(A, "after fini");
  c.interesting();
}

// ---------------------------------------------------------------- P02: large keys and values
size_t key_size, hash_by;
size_t wide_hash(const void * k)
{
  const unsigned char * b = static_cast<const unsigned char *>(k);
  if (hash_by == 0) {return 7;}
  size_t h = 0;
  for (size_t i = 0; i < key_size; i += 97) {h = h * 31 + b[i];}
  return hash_by == 1 ? h : h << 40;
}
int wide_cmp(const void * a, const void * b) {return memcmp(a, b, key_size);}

void map(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("map");
  auto a = A.get();
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  key_size = g.chance(1, 3) ? g.range(1, 40) : wide(g);
  size_t ds = key_size > 40 && g.chance(1, 2) ? g.range(1, 40) : wide(g), n = g.range(2, 12);
  hash_by = g.below(3);
  c.mix(key_size); c.mix(ds); c.mix(n);
  OK(rcutils_hash_map_init(&m, g.range(1, 4), key_size, ds, wide_hash, wide_cmp, &a), "hm.init");
  std::map<std::string, std::string> r;
  for (size_t i = 0; i < 3 * n; ++i) {
    std::string k = text(key_size, g.below(n)), v = text(ds, i);
    if (key_size > 8) {   // keys which differ at their very end only
      k = text(key_size);
      k[key_size - 1] = static_cast<char>('A' + static_cast<int>(g.below(n)));
    }
    Exact ek(k, false), ev(v, false);
    if (g.chance(1, 4)) {
      OK(rcutils_hash_map_unset(&m, ek.p), "hm.unset");
      r.erase(k);
    } else {
      OK(rcutils_hash_map_set(&m, ek.p, ev.p), "hm.set");
      r[k] = v;
    }
  }
  size_t z = 0, seen = 0;
  OK(rcutils_hash_map_get_size(&m, &z), "hm.size");
  MON_CHECK(z == r.size(), "hm.size", "size %zu, expected %zu", z, r.size());
  Exact k(std::string(key_size, 0), false), v(std::string(ds, 0), false);
  for (auto & e : r) {
    Exact ek(e.first, false);
    OK(rcutils_hash_map_get(&m, ek.p, v.p), "hm.get");
    MON_CHECK(std::string(v.p, ds) == e.second, "hm.value", "value of %zu bytes under a key of %zu bytes differs", ds, key_size);
  }
  rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&m, nullptr, k.p, v.p);
  while (ret == RCUTILS_RET_OK) {
    auto it = r.find(std::string(k.p, key_size));
    MON_CHECK(it != r.end() && it->second == std::string(v.p, ds) && ++seen <= r.size(), "hm.iterate", "an entry that is not there, or twice");
    Exact o(std::string(k.p, key_size), false);
    ret = rcutils_hash_map_get_next_key_and_data(&m, o.p, k.p, v.p);
  }
  MON_CHECK(seen == r.size(), "hm.iterate", "%zu entries instead of %zu", seen, r.size());
  rcutils_reset_error();
  OK(rcutils_hash_map_fini(&m), "hm.fini");
  check_empty(A, "after fini");
  c.interesting();
  count("wide.map");
}

// ---------------------------------------------------------------- P03: long keys and values, large capacities
void smap(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("smap");
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  size_t n = g.range(2, 9), cap = g.chance(1, 3) ? wide(g) : g.below(9);
  c.mix(n); c.mix(cap);
  OK(rcutils_string_map_init(&m, cap, A.get()), "sm.init");
  std::map<std::string, std::string> r;
  std::string base = text(wide(g));
  for (size_t i = 0; i < 2 * n; ++i) {
    std::string k = base.substr(0, base.size() - g.below(3)) + static_cast<char>('A' + static_cast<int>(g.below(n))), v = text(wide(g), i);
    if (g.chance(1, 5)) {
      rcutils_ret_t want = r.count(k) ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND;
      MON_CHECK(rcutils_string_map_unset(&m, k.c_str()) == want, "sm.unset", "unset with a key of %zu characters", k.size());
      rcutils_reset_error();
      r.erase(k);
    } else {
      Exact ek(k), ev(v);
      OK(rcutils_string_map_set(&m, ek, ev), "sm.set");
      r[k] = v;
    }
  }
  if (cap > 1000) {   // slots whose number needs more than 16 bits
    size_t x = 0;
    OK(rcutils_string_map_get_capacity(&m, &x), "sm.capacity");
    MON_CHECK(x == cap, "sm.capacity", "capacity %zu instead of %zu", x, cap);
    OK(rcutils_string_map_reserve(&m, cap + 65536), "sm.reserve");
    OK(rcutils_string_map_get_capacity(&m, &x), "sm.capacity");
    MON_CHECK(x == cap + 65536, "sm.capacity", "capacity %zu instead of %zu", x, cap + 65536);
    OK(rcutils_string_map_reserve(&m, r.size()), "sm.reserve");
  }
  size_t z = 0;
  OK(rcutils_string_map_get_size(&m, &z), "sm.size");
  MON_CHECK(z == r.size(), "sm.size", "size %zu, expected %zu", z, r.size());
  for (auto & e : r) {
    const char * v = rcutils_string_map_get(&m, e.first.c_str());
    MON_CHECK(v && e.second == v, "sm.value", "value of %zu characters differs", e.second.size());
    Exact part(e.first + "tail", false);
    v = rcutils_string_map_getn(&m, part.p, e.first.size());
    MON_CHECK(v && e.second == v, "sm.value", "value under the first %zu characters differs", e.first.size());
  }
  OK(rcutils_string_map_fini(&m), "sm.fini");
  check_empty(A, "after fini");
  c.interesting();
  count("wide.string-map");
}

// ---------------------------------------------------------------- P04
void sarr(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("sarr");
  auto a = A.get();
  size_t n = wide(g);
  c.mix(n);
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array(), o = s;
  OK(rcutils_string_array_init(&s, n, &a), "sa.init");
  MON_CHECK(s.size == n, "sa.size", "size %zu instead of %zu", s.size, n);
  std::vector<size_t> set;
  for (int i = 0; i < 40; ++i) {set.push_back(i < 6 && n > 65540 ? 65533 + static_cast<size_t>(i) : i == 7 ? n - 1 : g.below(n));}
  for (size_t i = 0; i < n; ++i) {MON_CHECK(s.data[i] == nullptr, "sa.init", "slot %zu is not NULL", i);}
  for (size_t i : set) {if (!s.data[i]) {s.data[i] = rcutils_strdup(fmt("s%zu", i).c_str(), a);}}
  size_t n2 = wide(g);
  OK(rcutils_string_array_resize(&s, n2), "sa.resize");
  MON_CHECK(s.size == n2, "sa.size", "size %zu instead of %zu", s.size, n2);
  std::set<size_t> in(set.begin(), set.end());
  for (size_t i = 0; i < n2; ++i) {
    bool want = i < n && in.count(i);
    MON_CHECK(want ? s.data[i] && fmt("s%zu", i) == s.data[i] : s.data[i] == nullptr, "sa.slot", "slot %zu of %zu (from %zu)", i, n2, n);
  }
  // order: the first difference far behind decides, then the size
  for (size_t i = 0; i < n2; ++i) {if (!s.data[i]) {s.data[i] = rcutils_strdup("x", a);}}
  OK(rcutils_string_array_init(&o, n2, &a), "sa.init");
  for (size_t i = 0; i < n2; ++i) {o.data[i] = rcutils_strdup(s.data[i], a);}
  int res = 5;
  OK(rcutils_string_array_cmp(&s, &o, &res), "sa.cmp");
  MON_CHECK(res == 0, "sa.cmp", "equal arrays compare %d", res);
  size_t d = n2 - 1 - g.below(5);
  a.deallocate(o.data[d], a.state);
  o.data[d] = rcutils_strdup("zz", a);
  OK(rcutils_string_array_cmp(&s, &o, &res), "sa.cmp");
  MON_CHECK(res < 0, "sa.cmp", "element %zu decides, but the result is %d", d, res);
  OK(rcutils_string_array_cmp(&o, &s, &res), "sa.cmp");
  MON_CHECK(res > 0, "sa.cmp", "element %zu decides, but the result is %d", d, res);
  OK(rcutils_string_array_fini(&o), "sa.fini");
  OK(rcutils_string_array_init(&o, 65536 + n2, &a), "sa.init");
  for (size_t i = 0; i < o.size; ++i) {o.data[i] = rcutils_strdup(i < n2 ? s.data[i] : "x", a);}
  OK(rcutils_string_array_cmp(&s, &o, &res), "sa.cmp");
  MON_CHECK(res < 0, "sa.cmp", "%zu elements against %zu of which they are the first compare %d", n2, o.size, res);
  OK(rcutils_string_array_fini(&o), "sa.fini");
  OK(rcutils_string_array_fini(&s), "sa.fini");
  check_empty(A, "after fini");
  c.interesting();
  count("wide.string-array");
}

// ---------------------------------------------------------------- P05
void chars(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("chars");
  auto a = A.get();
  rcutils_char_array_t b = rcutils_get_zero_initialized_char_array();
  OK(rcutils_char_array_init(&b, g.chance(1, 2) ? 0 : wide(g), &a), "ca.init");
  std::string m;
  OK(rcutils_char_array_strcpy(&b, ""), "ca.strcpy");
  for (int k = 0; k < 7; ++k) {
    std::string x = text(wide(g), static_cast<uint64_t>(k));
    Exact e(x);
    switch (g.below(6)) {
      case 0: OK(rcutils_char_array_strcpy(&b, e), "ca.strcpy"); m = x; break;
      case 1: OK(rcutils_char_array_strcat(&b, e), "ca.strcat"); m += x; break;
      case 2: {
          size_t n = std::min(x.size(), g.chance(1, 2) ? x.size() - g.below(9) : wide(g));
          Exact p(x, false);
          OK(rcutils_char_array_strncat(&b, p.p, n), "ca.strncat");
          m += x.substr(0, n);
          break;
        }
      case 3: OK(rcutils_char_array_memcpy(&b, e, x.size() + 1), "ca.memcpy"); m = x; break;
      case 4: {
          struct F
          {
            static rcutils_ret_t f(rcutils_char_array_t * t, const char * format, ...)
            {
              va_list v;
              va_start(v, format);
              rcutils_ret_t r = rcutils_char_array_vsprintf(t, format, v);
              va_end(v);
              return r;
            }
          };
          OK(F::f(&b, "%s|%d|%s", e.p, 5, e.p), "ca.vsprintf");
          m = x + "|5|" + x;
          break;
        }
      default: {
          size_t to = b.buffer_length + wide(g);
          OK(rcutils_char_array_expand_as_needed(&b, to), "ca.expand");
          MON_CHECK(b.buffer_capacity >= to, "ca.expand", "capacity %zu after expanding to %zu", b.buffer_capacity, to);
        }
    }
    MON_CHECK(b.buffer_length == m.size() + 1, "ca.length", "length %zu with %zu characters", b.buffer_length, m.size());
    MON_CHECK(block_size(b.buffer) != SIZE_MAX && block_size(b.buffer) >= b.buffer_capacity && b.buffer_capacity >= b.buffer_length, "ca.capacity", "capacity %zu, block %zu, length %zu",
      b.buffer_capacity, block_size(b.buffer), b.buffer_length);
    MON_CHECK(m == b.buffer, "ca.text", "%zu characters differ", m.size());
  }
  size_t to = wide(g);
  OK(rcutils_char_array_resize(&b, to), "ca.resize");
  if (m.size() + 1 > to) {m.resize(to - 1);}
  MON_CHECK(b.buffer_capacity == to && block_size(b.buffer) != SIZE_MAX && block_size(b.buffer) >= to && b.buffer_length == m.size() + 1 && m == std::string(b.buffer, m.size()), "ca.resize",
    "resized to %zu: capacity %zu, length %zu of %zu", to, b.buffer_capacity, b.buffer_length, m.size() + 1);
  c.mix(m.size());
  OK(rcutils_char_array_fini(&b), "ca.fini");
  check_empty(A, "after fini");
  c.interesting();
  count("wide.chars");
}

// ---------------------------------------------------------------- P06
void bytes(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("bytes");
  auto a = A.get();
  rcutils_uint8_array_t b = rcutils_get_zero_initialized_uint8_array();
  size_t n = wide(g);
  OK(rcutils_uint8_array_init(&b, n, &a), "u8.init");
  std::string m;
  for (int k = 0; k < 6; ++k) {
    c.mix(n);
    MON_CHECK(b.buffer_capacity == n && block_size(b.buffer) != SIZE_MAX && block_size(b.buffer) >= n && b.buffer_length == m.size(), "u8.size", "capacity %zu, block %zu, length %zu instead of %zu, %zu",
      b.buffer_capacity, block_size(b.buffer), b.buffer_length, n, m.size());
    MON_CHECK(memcmp(b.buffer, m.data(), m.size()) == 0, "u8.content", "%zu bytes differ", m.size());
    size_t keep = g.chance(1, 2) ? n : g.below(n + 1);
    m = text(keep, static_cast<uint64_t>(k));
    memcpy(b.buffer, m.data(), m.size());
    b.buffer_length = m.size();
    n = wide(g);
    OK(rcutils_uint8_array_resize(&b, n), "u8.resize");
    if (m.size() > n) {m.resize(n);}
  }
  OK(rcutils_uint8_array_fini(&b), "u8.fini");
  check_empty(A, "after fini");
  c.interesting();
  count("wide.bytes");
}

// ---------------------------------------------------------------- P07
void split(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("split");
  auto a = A.get();
  std::vector<std::string> want;
  std::string s;
  bool many = g.chance(1, 2);
  size_t n = many ? std::min<size_t>(wide(g), 65500 + g.below(9000)) : g.range(1, 5);     // the time grows with the square
  c.mix(n);
  for (size_t i = 0; i < n; ++i) {
    std::string t = many ? std::string(1 + (word(i) & 3), static_cast<char>('a' + static_cast<int>(word(i) % 26))) : text(wide(g), i);
    std::replace(t.begin(), t.end(), '/', 'x');
    want.push_back(t);
    s += t;
    if (i + 1 < n) {s += std::string(many ? 1 + (word(i) % 9 == 0) : g.chance(1, 3) ? wide(g) : 1, '/');}
  }
  if (g.chance(1, 2)) {s = "/" + s;}
  if (g.chance(1, 2)) {s += "/";}
  rcutils_string_array_t r = rcutils_get_zero_initialized_string_array();
  Exact e(s);
  OK(rcutils_split(e, '/', a, &r), "split.ret");
  MON_CHECK(r.size == want.size(), "split.count", "%zu tokens instead of %zu", r.size, want.size());
  for (size_t i = 0; i < r.size; ++i) {
    MON_CHECK(want[i] == r.data[i], "split.token", "token %zu of %zu differs", i, r.size);
    MON_CHECK(block_size(r.data[i]) != SIZE_MAX && block_size(r.data[i]) > want[i].size(), "split.block", "token %zu has a block of %zu bytes", i, block_size(r.data[i]));
  }
  OK(rcutils_string_array_fini(&r), "split.fini");
  // split_last: a long part before and after the last delimiter
  std::string x = text(wide(g), 1), y = text(wide(g), 2);
  Exact e2(x + "/" + y);
  OK(rcutils_split_last(e2, '/', a, &r), "split.ret");
  MON_CHECK(r.size == 2 && x == r.data[0] && y == r.data[1], "split.last", "parts of %zu and %zu characters: %zu parts", x.size(), y.size(), r.size);
  OK(rcutils_string_array_fini(&r), "split.fini");
  check_empty(A, "after fini");
  c.interesting();
  count(many ? "wide.split-many" : "wide.split-long");
}

// ---------------------------------------------------------------- P08
void find(Case & c)
{
  Rng & g = c.rng;
  size_t n = wide(g);
  c.mix(n);
  std::string s(n, 'a');
  for (size_t i = 0; i < n; ++i) {s[i] = static_cast<char>('a' + static_cast<int>(word(i) % 20));}
  size_t first = g.chance(1, 2) ? n - 1 - g.below(9) : g.below(n), last = first + g.below(n - first);
  s[first] = s[last] = '#';
  Exact e(s), u(s, false);
  MON_CHECK(rcutils_find(e, '#') == first, "find", "first at %zu, found at %zu", first, rcutils_find(e, '#'));
  MON_CHECK(rcutils_find_last(e, '#') == last, "find", "last at %zu, found at %zu", last, rcutils_find_last(e, '#'));
  MON_CHECK(rcutils_findn(u.p, '#', n) == first && rcutils_find_lastn(u.p, '#', n) == last, "find", "with length %zu", n);
  MON_CHECK(rcutils_find(e, '%') == SIZE_MAX && rcutils_find_lastn(u.p, '%', n) == SIZE_MAX, "find", "what is not there");
  MON_CHECK(rcutils_findn(u.p, '#', first) == SIZE_MAX, "find", "beyond the length %zu", first);
  std::string t = s;
  for (auto & ch : t) {ch = static_cast<char>(toupper(ch));}
  size_t d = n - 1 - g.below(5);
  int res = 9;
  Exact et(t);
  OK(rcutils_strcasecmp(e, et, &res), "casecmp");
  MON_CHECK(res == 0, "casecmp", "%zu equal characters compare %d", n, res);
  t[d] = 'Z';
  Exact ed(t);
  OK(rcutils_strcasecmp(e, ed, &res), "casecmp");
  MON_CHECK((s[d] == '#' ? res < 0 : res < 0), "casecmp", "character %zu of %zu decides, result %d", d, n, res);
  OK(rcutils_strncasecmp(e, ed, d, &res), "casecmp");
  MON_CHECK(res == 0, "casecmp", "the first %zu characters compare %d", d, res);
  OK(rcutils_strncasecmp(e, ed, d + 1, &res), "casecmp");
  MON_CHECK(res < 0, "casecmp", "the first %zu characters compare %d", d + 1, res);
  // many arguments
  size_t k = wide(g);
  std::vector<std::string> v;
  std::vector<const char *> p;
  for (size_t i = 0; i < k; ++i) {v.push_back("a" + std::to_string(i));}
  for (auto & x : v) {p.push_back(x.c_str());}
  size_t at = k - 1 - g.below(4);
  std::string opt = "a" + std::to_string(at);
  char ** begin = const_cast<char **>(p.data());
  MON_CHECK(rcutils_cli_option_exist(begin, begin + k, opt.c_str()), "cli", "argument %zu of %zu not found", at, k);
  MON_CHECK(!rcutils_cli_option_exist(begin, begin + at, opt.c_str()), "cli", "argument behind the end found");
  const char * got = rcutils_cli_get_option(begin, begin + k, opt.c_str());
  MON_CHECK(got == (at + 1 < k ? p[at + 1] : nullptr), "cli", "value of argument %zu of %zu", at, k);
  c.interesting();
  count("wide.find");
}

// ---------------------------------------------------------------- P09
void replace(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("replace");
  auto a = A.get();
  // many occurrences
  size_t n = std::min<size_t>(wide(g), 65500 + g.below(9000));     // so does this, with the address sanitizer's strstr
  c.mix(n);
  std::string s, want, to = g.str(g.below(6), "xyz");
  for (size_t i = 0; i < n; ++i) {
    std::string t(word(i) % 3, static_cast<char>('a' + static_cast<int>(word(i) % 7)));
    s += t + "#-";
    want += t + to;
  }
  s += "#";
  want += "#";
  Exact e(s);
  char * r = rcutils_repl_str(e, "#-", to.c_str(), &a);
  MON_CHECK(r && want == r, "repl", "%zu occurrences", n);
  MON_CHECK(block_size(r) >= want.size() + 1, "repl", "block of %zu bytes for %zu characters", block_size(r), want.size());
  a.deallocate(r, a.state);
  // long pieces
  std::string from = text(wide(g), 3), x = text(wide(g), 4), y = text(wide(g), 5);
  Exact e2(x + from + y), ef(from), et(y);
  r = rcutils_repl_str(e2, ef, et, &a);
  MON_CHECK(r && x + y + y == r, "repl", "long pieces");
  a.deallocate(r, a.state);
  // duplicates
  Exact ex(x), ux(x, false);
  r = rcutils_strdup(ex, a);
  MON_CHECK(r && x == r && block_size(r) != SIZE_MAX && block_size(r) > x.size(), "dup", "%zu characters", x.size());
  a.deallocate(r, a.state);
  size_t k = g.chance(1, 2) ? x.size() : x.size() - g.below(70);
  r = rcutils_strndup(ux.p, k, a);
  MON_CHECK(r && x.substr(0, k) == r && block_size(r) != SIZE_MAX && block_size(r) > k, "dup", "%zu of %zu characters", k, x.size());
  a.deallocate(r, a.state);
  // formatting
  size_t limit = g.chance(1, 2) ? SIZE_MAX : wide(g);
  std::string full = x + ":" + y;
  r = rcutils_format_string_limit(a, limit, "%s:%s", x.c_str(), y.c_str());
  if (full.size() + 1 > limit) {full.resize(limit - 1);}
  MON_CHECK(r && full == r, "format", "%zu characters with limit %zu", full.size(), limit);
  a.deallocate(r, a.state);
  check_empty(A, "at the end");
  c.interesting();
  count("wide.replace");
}

// ---------------------------------------------------------------- P10
void bounded(Case & c)
{
  Rng & g = c.rng;
  std::string x = text(wide(g)), want = x + "/" + x;
  size_t room = g.chance(1, 2) ? want.size() + 1 : g.chance(1, 2) ? wide(g) : want.size() - g.below(5);
  c.mix(want.size()); c.mix(room);
  Exact b(std::string(room, '?'), false);
  int n = rcutils_snprintf(b.p, room, "%s/%s", x.c_str(), x.c_str());
  MON_CHECK(n == static_cast<int>(want.size()), "snprintf", "returned %d for %zu characters", n, want.size());
  std::string cut = want.substr(0, std::min(want.size(), room - 1));
  MON_CHECK(cut == b.p, "snprintf", "%zu characters in a buffer of %zu", want.size(), room);
  n = rcutils_snprintf(nullptr, 0, "%s/%s", x.c_str(), x.c_str());
  MON_CHECK(n == static_cast<int>(want.size()), "snprintf", "measured %d for %zu characters", n, want.size());
  c.interesting();
  count("wide.snprintf");
}

// ---------------------------------------------------------------- P11
size_t elem_size;
int elem_cmp(const void * a, const void * b)
{
  int r = memcmp(static_cast<const char *>(a) + (elem_size - 4), static_cast<const char *>(b) + (elem_size - 4), 4);
  return r;
}
void sort(Case & c)
{
  Rng & g = c.rng;
  bool large = g.chance(1, 2);
  elem_size = large ? wide(g) : g.range(4, 9);
  size_t n = large ? g.range(2, 12) : wide(g);
  unsigned pattern = static_cast<unsigned>(g.below(8));
  c.mix(elem_size); c.mix(n); c.mix(pattern);
  std::vector<std::string> m;
  for (size_t i = 0; i < n; ++i) {
    uint32_t key = static_cast<uint32_t>(g.next()), at = static_cast<uint32_t>(i);
    switch (pattern) {                      // what is hard on a sort
      case 1: key = at; break;
      case 2: key = ~at; break;
      case 3: key = 7; break;
      case 4: key %= 3; break;
      case 5: key = i < n / 2 ? at : static_cast<uint32_t>(n) - at; break;
      default: break;
    }
    std::string e = large ? text(elem_size, key) : std::string(elem_size, static_cast<char>(key));
    for (int k = 0; k < 4; ++k) {e[elem_size - 4 + static_cast<size_t>(k)] = static_cast<char>(key >> (24 - 8 * k));}
    m.push_back(e);
  }
  std::string all;
  for (auto & e : m) {all += e;}
  Exact x(all, false);
  OK(rcutils_qsort(x.p, n, elem_size, elem_cmp), "qsort");
  std::stable_sort(m.begin(), m.end(), [](const std::string & p, const std::string & q) {return elem_cmp(p.data(), q.data()) < 0;});
  std::multiset<std::string> left, right;
  for (size_t i = 0; i < n; ++i) {
    std::string got(x.p + i * elem_size, elem_size);
    MON_CHECK(elem_cmp(got.data(), m[i].data()) == 0, "qsort", "element %zu of %zu is not in place", i, n);
    left.insert(got);
    right.insert(m[i]);
  }
  MON_CHECK(left == right, "qsort", "the elements are not the same");
  c.interesting();
  count(large ? "wide.sort-large" : "wide.sort-many");
}

// ---------------------------------------------------------------- P15
void errors(Case & c)
{
  Rng & g = c.rng;
  std::string m = text(wide(g)), f = text(wide(g), 1);
  c.mix(m.size());
  Exact em(m), ef(f);
  size_t line = g.next();
  rcutils_reset_error();
  if (g.chance(1, 2)) {rcutils_set_error_state(em, ef, line);} else {
    Capture cap(stderr, 2);
    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s", em.p);
    line = rcutils_get_error_state()->line_number;
    f = rcutils_get_error_state()->file;
    (void)cap.stop();
  }
  MON_CHECK(rcutils_error_is_set(), "error.set", "not set");
  const rcutils_error_state_t * s = rcutils_get_error_state();
  std::string cm = m.substr(0, RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1), cf = f.substr(0, RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1);
  MON_CHECK(cm == s->message && cf == s->file && s->line_number == line, "error.state", "texts of %zu and %zu characters", m.size(), f.size());
  std::string str = rcutils_get_error_string().str, d = std::to_string(line);
  MON_CHECK(str.compare(0, cm.size(), cm) == 0, "error.string", "the message is not at the beginning");
  rcutils_reset_error();
  c.interesting();
  count("wide.error");
}

// ---------------------------------------------------------------- P20
struct LogSession
{
  CkAlloc A;
  LogSession() : A("logging")
  {
    for (auto v : {"RCUTILS_CONSOLE_OUTPUT_FORMAT", "RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT"}) {unsetenv(v);}
    setenv("RCUTILS_COLORIZED_OUTPUT", "0", 1);
  }
  void begin() {OK(rcutils_logging_initialize_with_allocator(A.get()), "log.init");}
  void end() {OK(rcutils_logging_shutdown(), "log.shutdown"); check_empty(A, "after shutdown");}
  ~LogSession() {(void)rcutils_logging_shutdown();}
};
const int SEV[] = {10, 20, 30, 40, 50};

void levels(Case & c)
{
  Rng & g = c.rng;
  LogSession s;
  s.begin();
  rcutils_logging_set_default_logger_level(SEV[g.below(5)]);
  int dflt = rcutils_logging_get_default_logger_level();
  // long names: the difference is at the very end
  std::string base = "l" + std::to_string(g.below(10)), longer;
  for (char & ch : (longer = text(wide(g)))) {if (ch == '.') {ch = '-';}}
  std::map<std::string, int> m;
  for (int i = 0; i < 5; ++i) {
    std::string n = base + "." + longer + static_cast<char>('A' + i);
    if (g.chance(2, 3)) {
      int l = SEV[g.below(5)];
      OK(rcutils_logging_set_logger_level(Exact(n), l), "level.set");
      m[n] = l;
    }
  }
  if (g.chance(1, 2)) {OK(rcutils_logging_set_logger_level(base.c_str(), 40), "level.set"); m[base] = 40;}
  for (int i = 0; i < 5; ++i) {
    std::string n = base + "." + longer + static_cast<char>('A' + i);
    int own = m.count(n) ? m[n] : 0, up = m.count(base) ? m[base] : dflt;
    for (std::string q : {n, n + ".child", n + "." + longer}) {
      int got = rcutils_logging_get_logger_effective_level(q.c_str()), want = own ? own : up;
      MON_CHECK(got == want, "level.effective", "name of %zu characters: %d instead of %d", q.size(), got, want);
    }
    MON_CHECK(rcutils_logging_get_logger_level(n.c_str()) == own || !own, "level.own", "own level of a name of %zu characters", n.size());
  }
  // many loggers
  size_t k = g.range(600, 1500);
  for (size_t i = 0; i < k; ++i) {OK(rcutils_logging_set_logger_level(("many.n" + std::to_string(i)).c_str(), SEV[word(i) % 5]), "level.set");}
  for (size_t i = 0; i < k; ++i) {
    MON_CHECK(rcutils_logging_get_logger_effective_level(("many.n" + std::to_string(i) + ".x").c_str()) == SEV[word(i) % 5], "level.effective", "logger %zu of %zu", i, k);
  }
  c.mix(longer.size()); c.mix(k);
  s.end();
  c.interesting();
  count("wide.levels");
}

// ---------------------------------------------------------------- P22
void console(Case & c)
{
  Rng & g = c.rng;
  LogSession s;
  std::string f = g.chance(1, 2) ? "[{severity}] <{name}> {message} {file_name}:{line_number} {function_name}" : "{message}{message}|{name}";
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", f.c_str(), 1);
  bool color = g.chance(1, 2);
  setenv("RCUTILS_COLORIZED_OUTPUT", color ? "1" : "0", 1);
  s.begin();
  for (int k = 0; k < 3; ++k) {
    logref::Record r;
    auto some = [&](uint64_t x) {return g.chance(1, 2) ? text(wide(g), x) : std::string("short");};
    r.function = some(1);
    r.file = some(2);
    r.name = some(3);
    r.msg = text(wide(g), 4);
    r.line = g.below(1000);
    r.severity = SEV[1 + g.below(4)];
    r.t = 1;
    rcutils_log_location_t loc = {r.function.c_str(), r.file.c_str(), r.line};
    std::string want = logref::render(f, r), got;
    if (color) {want = logref::color(r.severity) + want + "\033[0m";}
    want += "\n";
    {
      Capture cap(stderr, 2);
      rcutils_log(&loc, r.severity, r.name.c_str(), "%s", r.msg.c_str());
      got = cap.stop();
    }
    size_t p = 0;
    while (p < got.size() && p < want.size() && got[p] == want[p]) {++p;}
    MON_CHECK(got == want, "console.text", "lengths %zu and %zu, first difference at %zu: %s, expected %s", got.size(), want.size(), p,
      show(got.substr(p), 40).c_str(), show(want.substr(p), 40).c_str());
    c.mix(want.size());
  }
  s.end();
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  c.interesting();
  count("wide.console");
}

// ---------------------------------------------------------------- P28
void paths(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("paths");
  auto a = A.get();
  std::string x = text(wide(g), 1), y = text(wide(g), 2);
  if (g.chance(1, 2)) {x[x.size() / 2] = y[y.size() / 2] = '%';}
  c.mix(x.size()); c.mix(y.size());
  char * r = rcutils_join_path(Exact(x), Exact(y), a);
  MON_CHECK(r && x + "/" + y == r && block_size(r) >= x.size() + y.size() + 2, "path.join", "%zu and %zu characters", x.size(), y.size());
  a.deallocate(r, a.state);
  r = rcutils_to_native_path(Exact(x), a);
  MON_CHECK(r && x == r, "path.native", "%zu characters", x.size());
  a.deallocate(r, a.state);
  setenv("HOME", g.chance(1, 2) ? y.c_str() : "/home/x", 1);
  std::string home = getenv("HOME");
  r = rcutils_expand_user(Exact("~/" + x), a);
  MON_CHECK(r && home + "/" + x == r, "path.expand", "home of %zu, path of %zu characters", home.size(), x.size());
  a.deallocate(r, a.state);
  r = rcutils_expand_user(Exact(x), a);
  MON_CHECK(r && x == r, "path.expand", "path of %zu characters", x.size());
  a.deallocate(r, a.state);
  const char * h = rcutils_get_home_dir();
  MON_CHECK(h && home == h, "path.home", "home of %zu characters", home.size());
  check_empty(A, "at the end");
  MON_CHECK(!rcutils_exists(Exact("/" + x)) && !rcutils_is_file(Exact("/" + x)) && !rcutils_is_directory(Exact("/" + x)), "path.exists", "a path of %zu characters exists", x.size());
  rcutils_reset_error();
  c.interesting();
  count("wide.paths");
}

// ---------------------------------------------------------------- P29: a directory with more than 65536 entries
void directory(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("directory");
  auto a = A.get();
  std::string d = std::string(getenv("MON_SCRATCH")) + "/many";
  MON_CHECK(mkdir(d.c_str(), 0700) == 0, "harness", "mkdir");
  int dfd = open(d.c_str(), O_RDONLY | O_DIRECTORY);
  size_t n = c.thorough ? 65536 + g.range(1, 300) : g.range(3000, 6000);
  uint64_t total = 0;
  for (size_t i = 0; i < n; ++i) {
    int fd = openat(dfd, ("e" + std::to_string(i)).c_str(), O_CREAT | O_WRONLY, 0600);
    off_t z = i == 5 ? 5000000000ll : static_cast<off_t>(word(i) % 50);
    MON_CHECK(fd >= 0 && ftruncate(fd, z) == 0, "harness", "file %zu", i);
    total += static_cast<uint64_t>(z);
    close(fd);
  }
  std::vector<bool> seen(n);
  size_t cnt = 0, dots = 0;
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(d.c_str(), a);
  MON_CHECK(it, "list.start", "no iterator");
  do {
    std::string e = it->entry_name;
    if (e == "." || e == "..") {++dots; continue;}
    size_t i = strtoul(e.c_str() + 1, nullptr, 10);
    MON_CHECK(i < n && !seen[i], "list.entry", "%s appears twice or is not there", e.c_str());
    seen[i] = true;
    ++cnt;
  } while (rcutils_dir_iter_next(it));
  rcutils_dir_iter_end(it);
  MON_CHECK(cnt == n, "list.entry", "%zu of %zu entries", cnt, n);
  uint64_t size = 0;
  OK(rcutils_calculate_directory_size(d.c_str(), &size, a), "size.ret");
  MON_CHECK(size == total, "size.value", "%" PRIu64 " instead of %" PRIu64, size, total);
  for (size_t i = 0; i < n; ++i) {unlinkat(dfd, ("e" + std::to_string(i)).c_str(), 0);}
  close(dfd);
  rmdir(d.c_str());
  check_empty(A, "at the end");
  c.mix(n);
  c.interesting();
  count("wide.directory-entries", n);
}

// a long chain of directories, and files at the side of it
void deep(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("deep");
  auto a = A.get();
  std::string top = std::string(getenv("MON_SCRATCH")) + "/deep", p = top;
  size_t depth = g.range(250, 300);
  uint64_t total = 0;
  std::vector<std::string> dirs, files;
  for (size_t i = 0; i < depth; ++i) {
    MON_CHECK(mkdir(p.c_str(), 0700) == 0, "harness", "mkdir");
    dirs.push_back(p);
    if (g.chance(1, 3) || i + 1 == depth) {
      files.push_back(p + "/f");
      int fd = open(files.back().c_str(), O_CREAT | O_WRONLY, 0600);
      off_t z = static_cast<off_t>(g.below(5000));
      MON_CHECK(fd >= 0 && ftruncate(fd, z) == 0, "harness", "file");
      close(fd);
      total += static_cast<uint64_t>(z);
    }
    p += "/d";
  }
  uint64_t size = 0;
  OK(rcutils_calculate_directory_size_with_recursion(top.c_str(), 0, &size, a), "size.ret");
  MON_CHECK(size == total, "size.value", "%" PRIu64 " instead of %" PRIu64 " over %zu levels", size, total, depth);
  for (auto & f : files) {unlink(f.c_str());}
  for (auto i = dirs.rbegin(); i != dirs.rend(); ++i) {rmdir(i->c_str());}
  check_empty(A, "at the end");
  c.mix(depth); c.mix(total);
  c.interesting();
  count("wide.levels-of-directories", depth);
}

// thousands of directories beside each other, and an allocation which fails while any number of them is known
void siblings(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("siblings");
  auto a = A.get();
  std::string top = std::string(getenv("MON_SCRATCH")) + "/siblings";
  MON_CHECK(mkdir(top.c_str(), 0700) == 0, "harness", "mkdir");
  size_t n = g.range(2500, 4000);
  uint64_t total = 0;
  std::vector<std::string> dirs, files;
  for (size_t i = 0; i < n; ++i) {
    dirs.push_back(top + "/d" + std::to_string(i));
    MON_CHECK(mkdir(dirs.back().c_str(), 0700) == 0, "harness", "mkdir");
    if (i % 50 == 0) {
      files.push_back(dirs.back() + "/f");
      int fd = open(files.back().c_str(), O_CREAT | O_WRONLY, 0600);
      off_t z = static_cast<off_t>(g.below(5000));
      MON_CHECK(fd >= 0 && ftruncate(fd, z) == 0, "harness", "file");
      close(fd);
      total += static_cast<uint64_t>(z);
    }
  }
  uint64_t size = 0, before = A.calls;
  OK(rcutils_calculate_directory_size_with_recursion(top.c_str(), 0, &size, a), "size.ret");
  MON_CHECK(size == total, "size.value", "%" PRIu64 " instead of %" PRIu64 " over %zu directories", size, total, n);
  uint64_t calls = A.calls - before;
  rcutils_ret_t r = RCUTILS_RET_OK;
  for (int i = 0; i < 3; ++i) {
    uint64_t at = i == 2 ? g.range(1, calls) : g.range(n, 2 * n);          // most often while all of them are known
    Capture cap(stderr, 2);
    A.arm(std::min(at, calls), g.chance(1, 2));
    r = rcutils_calculate_directory_size_with_recursion(top.c_str(), 0, &size, a);
    A.disarm();
    cap.stop();
    MON_CHECK(r != RCUTILS_RET_OK, "size.failed", "allocation %" PRIu64 " of %" PRIu64 " failed, and yet it succeeded", at, calls);
    rcutils_reset_error();
    check_empty(A, "after a failed allocation");
  }
  for (auto & f : files) {unlink(f.c_str());}
  for (auto & d : dirs) {rmdir(d.c_str());}
  rmdir(top.c_str());
  c.mix(n); c.mix(total);
  c.interesting();
  count("wide.siblings", n);
}

// ---------------------------------------------------------------- P30, P31
void names(Case & c)
{
  Rng & g = c.rng;
  std::string x = text(wide(g));
  bool debug = g.chance(1, 2);
  std::string want = "lib" + x + (debug ? "d" : "") + ".so";
  c.mix(want.size());
  for (int k = 0; k < 2; ++k) {
    size_t room = k ? want.size() + 1 + g.below(3) : want.size() - g.below(9);
    Exact b(std::string(room, '?'), false);
    rcutils_ret_t ret = rcutils_get_platform_library_name(Exact(x), b.p, static_cast<unsigned int>(room), debug);
    if (k) {
      MON_CHECK(ret == RCUTILS_RET_OK && want == b.p, "lib.name", "%zu characters into %zu", want.size(), room);
    } else {
      MON_CHECK(ret != RCUTILS_RET_OK, "lib.name", "%zu characters fit into %zu", want.size(), room);
      rcutils_reset_error();
    }
  }
  c.interesting();
  count("wide.names");
}
void env(Case & c)
{
  Rng & g = c.rng;
  std::string n = g.chance(1, 2) ? "WIDE_X" : text(wide(g), 1), v = text(wide(g), 2), w = text(wide(g), 3);
  c.mix(n.size()); c.mix(v.size());
  const char * got = nullptr;
  MON_CHECK(rcutils_set_env(Exact(n), Exact(v)), "env.set", "%zu=%zu", n.size(), v.size());
  MON_CHECK(rcutils_get_env(Exact(n), &got) == nullptr && got && v == got, "env.get", "name of %zu, value of %zu characters", n.size(), v.size());
  const char * c_lib = getenv(n.c_str());
  MON_CHECK(c_lib && v == c_lib, "env.get", "getenv sees something else");
  MON_CHECK(rcutils_set_env(Exact(n), Exact(w)), "env.set", "%zu=%zu", n.size(), w.size());
  MON_CHECK(rcutils_get_env(Exact(n), &got) == nullptr && got && w == got, "env.get", "name of %zu, value of %zu characters", n.size(), w.size());
  MON_CHECK(rcutils_get_env(Exact(n.substr(0, n.size() - 1)), &got) == nullptr && got && !*got, "env.get", "a shorter name has a value");
  MON_CHECK(rcutils_set_env(Exact(n), nullptr) && !getenv(n.c_str()), "env.unset", "still there");
  c.interesting();
  count("wide.env");
}

void reg()
{
  section("wide-list", 16, 200, list);
  section("wide-map", 16, 200, map);
  section("wide-smap", 16, 200, smap);
  section("wide-sarr", 8, 60, sarr);
  section("wide-chars", 24, 400, chars);
  section("wide-bytes", 24, 400, bytes);
  section("wide-split", 16, 200, split);
  section("wide-find", 16, 200, find);
  section("wide-repl", 16, 200, replace);
  section("wide-printf", 32, 400, bounded);
  section("wide-sort", 16, 200, sort);
  section("wide-error", 32, 400, errors);
  section("wide-levels", 8, 60, levels);
  section("wide-console", 16, 200, console);
  section("wide-paths", 24, 300, paths);
  section("wide-dir", 8, 16, directory);
  section("wide-siblings", 8, 40, siblings);
  section("wide-deep", 8, 60, deep);
  section("wide-names", 24, 300, names);
  section("wide-env", 24, 300, env);
}
}  // namespace
MON_MAIN(reg)
