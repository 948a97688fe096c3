// P04: string arrays against a vector of optional strings.
#include "mon.hpp"
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"

using namespace mon;

struct Slot {bool set = false; std::string s; char * p = nullptr;};

static std::string gen(Rng & r)
{
  switch (r.below(5)) {
    case 0: return "";
    case 1: return r.str(r.below(4), "ab");
    case 2: return std::string("common-prefix-").substr(0, r.below(15)) + r.str(r.below(2), "xyz");
    case 3: return r.cstr(r.below(6));      // bytes above 127: strcmp order is unsigned
    default: return r.cstr(r.size(300));
  }
}

static void put(CkAlloc & A, rcutils_string_array_t & a, std::vector<Slot> & m, size_t i, const std::string & s)
{
  rcutils_allocator_t al = A.get();
  if (m[i].set) {al.deallocate(a.data[i], al.state);}
  a.data[i] = rcutils_strdup(s.c_str(), al);
  m[i] = Slot{true, s, a.data[i]};
}

static void check(rcutils_string_array_t & a, std::vector<Slot> & m, CkAlloc & A, const char * when)
{
  MON_CHECK(a.size == m.size(), "sa.size", "size is %zu, expected %zu %s", a.size, m.size(), when);
  size_t live = 0;
  if (!m.empty()) {
    size_t bs = block_size(a.data);
    MON_CHECK(bs != SIZE_MAX && bs >= m.size() * sizeof(char *), "sa.storage",
      "storage of %zu slots is a block of %zd bytes %s", m.size(), static_cast<ssize_t>(bs), when);
  }
  for (size_t i = 0; i < m.size(); ++i) {
    if (!m[i].set) {
      MON_CHECK(a.data[i] == nullptr, "sa.slot", "slot %zu is not empty %s", i, when);
    } else {
      MON_CHECK(a.data[i] == m[i].p && m[i].s == a.data[i], "sa.slot", "slot %zu holds a different string than before %s", i, when);
      live++;
    }
  }
  size_t blocks = live + (a.data ? 1 : 0);
  MON_CHECK(A.live_blocks == blocks, "sa.blocks", "%zu blocks are allocated for %zu strings %s", A.live_blocks, live, when);
}

static int sgn(int v) {return (v > 0) - (v < 0);}
static int ref_strcmp(const std::string & a, const std::string & b)
{
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    unsigned char x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
    if (x != y) {return x < y ? -1 : 1;}
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

static void ops(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("sarr");
  A.realloc_zero_frees = r.chance(1, 2);
  rcutils_allocator_t al = A.get();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<Slot> m(r.size(60));
  if (r.chance(1, 30)) {m.resize(0);}
  c.mix(m.size());
  MON_CHECK(rcutils_string_array_init(&a, m.size(), &al) == RCUTILS_RET_OK, "sa.init", "init(%zu) failed", m.size());
  check(a, m, A, "after init");
  size_t nops = r.range(1, 25);
  bool shrunk = false, grown = false;
  for (size_t k = 0; k < nops; ++k) {
    uint64_t op = r.below(10);
    if (op < 4 && !m.empty()) {
      size_t n = r.range(1, m.size());
      while (n--) {
        std::string s = gen(r);
        size_t i = r.below(m.size());
        c.mix(s); c.mix(i);
        put(A, a, m, i, s);
      }
      tr("put");
    } else if (op < 8) {
      size_t n;
      switch (r.below(4)) {
        case 0: n = r.size(80); break;
        case 1: n = m.size() ? r.below(m.size()) : 0; break;
        case 2: n = m.size() + r.below(6); break;
        default: n = 0; break;
      }
      c.mix(1000 + n);
      bool fail = r.chance(1, 8);
      // (what a NULL from reallocating to zero bytes means is up to the allocator: not provoked)
      if (fail) {A.arm(n == 0 ? 1 : r.range(1, 2), n != 0);}
      size_t before_fail = A.failures;
      tr(fmt("resize %zu->%zu%s", m.size(), n, fail ? " (allocation fails)" : ""));
      rcutils_ret_t ret = rcutils_string_array_resize(&a, n);
      bool failed = A.failures != before_fail;
      A.disarm();
      if (ret != RCUTILS_RET_OK) {
        MON_CHECK(failed && ret == RCUTILS_RET_BAD_ALLOC, "sa.resize", "resize to %zu returned %d", n, ret);
        count("resize.failed");
        check(a, m, A, "after a failed resize");
        rcutils_reset_error();
        continue;
      }
      if (n < m.size()) {shrunk = true; count("resize.shrink");}
      if (n > m.size()) {grown = true; count("resize.grow");}
      if (n == 0) {count("resize.to-zero");}
      m.resize(n);
      check(a, m, A, "after resize");
    } else {
      // sort: a permutation of the same string pointers, ascending, empty slots last
      std::multiset<char *> before;
      for (auto & s : m) {before.insert(s.p);}
      MON_CHECK(rcutils_string_array_sort(&a) == RCUTILS_RET_OK || (m.empty() && !a.data), "sa.sort", "sort failed");
      rcutils_reset_error();
      std::map<char *, Slot> byp;
      for (auto & s : m) {if (s.set) {byp[s.p] = s;}}
      std::multiset<char *> after(a.data, a.data + m.size());
      MON_CHECK(before == after, "sa.sort-permutation", "sorting did not permute the %zu slots", m.size());
      for (size_t i = 0; i < m.size(); ++i) {
        m[i] = a.data[i] ? byp[a.data[i]] : Slot();
        if (i && !m[i - 1].set) {MON_CHECK(!m[i].set, "sa.sort-order", "an empty slot precedes a string after sorting");}
        if (i && m[i].set) {
          MON_CHECK(ref_strcmp(m[i - 1].s, m[i].s) <= 0, "sa.sort-order", "%s sorted before %s", show(m[i - 1].s).c_str(), show(m[i].s).c_str());
        }
      }
      check(a, m, A, "after sort");
      count("sorts");
    }
  }
  if (shrunk && grown) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%zu slots at the end, last operations", m.size()) + tail());}
  MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "sa.fini", "fini failed");
  MON_CHECK(a.data == nullptr && a.size == 0, "sa.fini-state", "not empty after fini");
  check_empty(A, "string array");
  MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "sa.fini", "repeated fini failed");
}

static void make(CkAlloc & A, rcutils_string_array_t & a, const std::vector<std::string> & v)
{
  rcutils_allocator_t al = A.get();
  a = rcutils_get_zero_initialized_string_array();
  MON_CHECK(rcutils_string_array_init(&a, v.size(), &al) == RCUTILS_RET_OK, "sa.init", "init failed");
  for (size_t i = 0; i < v.size(); ++i) {a.data[i] = rcutils_strdup(v[i].c_str(), al);}
}

static int ref_cmp(const std::vector<std::string> & a, const std::vector<std::string> & b)
{
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    int s = ref_strcmp(a[i], b[i]);
    if (s) {return s;}
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

static void cmp(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("x"), B("y");
  std::vector<std::vector<std::string>> vs(3);
  for (auto & v : vs) {
    if (&v != &vs[0] && r.chance(1, 2)) {
      v = vs[0];
      if (!v.empty() && r.chance(1, 2)) {v[r.below(v.size())] = gen(r);}
      if (r.chance(1, 2)) {v.resize(r.below(v.size() + 3));}
      for (auto & s : v) {if (s.empty() && r.chance(1, 2)) {s = gen(r);}}
    } else {
      v.resize(r.below(6));
      for (auto & s : v) {s = gen(r);}
    }
    for (auto & s : v) {c.mix(s);}
    c.mix(v.size());
  }
  rcutils_string_array_t a[3];
  for (int i = 0; i < 3; ++i) {make(i == 1 ? B : A, a[i], vs[i]);}
  bool eq = false;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      int res = 12345;
      rcutils_ret_t ret = rcutils_string_array_cmp(&a[i], &a[j], &res);
      int want = ref_cmp(vs[i], vs[j]);
      MON_CHECK(ret == RCUTILS_RET_OK && sgn(res) == want, "sa.cmp", "comparing %zu with %zu strings gives %d (ret %d), expected sign %d",
        vs[i].size(), vs[j].size(), res, ret, want);
      count(want < 0 ? "cmp.less" : want > 0 ? "cmp.greater" : "cmp.equal");
      if (i != j && want == 0) {eq = true;}
      if (i != j && (want != 0) && !vs[i].empty() && !vs[j].empty()) {c.interesting();}
    }
  }
  (void)eq;
  for (auto & x : a) {(void)!rcutils_string_array_fini(&x);}
  check_empty(A, "cmp"); check_empty(B, "cmp");
}

// Sizes around the limits of narrower integers; the slots share strings, so the arrays are cheap to build.
static size_t edge(Rng & r)
{
  static const unsigned at[] = {7, 8, 8, 15, 16, 16, 17};
  return (size_t(1) << at[r.below(7)]) + r.below(7) - 3;
}

static void cmp_large(Case & c)
{
  Rng & r = c.rng;
  std::vector<std::string> words = {"", "a", "ab", "b", std::string(300, 'q')};
  size_t n = r.chance(1, 3) ? r.below(4) : edge(r), m = r.chance(1, 3) ? n + edge(r) : r.chance(1, 2) ? n : edge(r);
  std::vector<char *> x(n), y(m);
  std::vector<std::string> vx(n), vy(m);
  size_t same = r.below(words.size());
  for (size_t i = 0; i < n; ++i) {x[i] = &words[same][0]; vx[i] = words[same];}
  for (size_t i = 0; i < m; ++i) {y[i] = &words[same][0]; vy[i] = words[same];}
  if (n && m && r.chance(1, 3)) {
    size_t i = r.below(std::min(n, m)), w = r.below(words.size());
    if (r.chance(1, 2)) {i = std::min(n, m) - 1;}
    x[i] = &words[w][0]; vx[i] = words[w];
  }
  c.mix(n); c.mix(m); c.mix(same);
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = rcutils_get_zero_initialized_string_array();
  a.size = n; a.data = x.data(); b.size = m; b.data = y.data();
  a.allocator = b.allocator = rcutils_get_default_allocator();
  int ab = 99, ba = 99, want = ref_cmp(vx, vy);
  rcutils_ret_t r1 = rcutils_string_array_cmp(&a, &b, &ab), r2 = rcutils_string_array_cmp(&b, &a, &ba);
  MON_CHECK(r1 == RCUTILS_RET_OK && r2 == RCUTILS_RET_OK && sgn(ab) == want && sgn(ba) == -want, "sa.cmp",
    "comparing %zu with %zu strings gives %d and reversed %d, expected sign %d", n, m, ab, ba, want);
  c.interesting();
  count("cmp.large");
}

static void resize_large(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("sarr");
  rcutils_allocator_t al = A.get();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<Slot> m(r.chance(1, 3) ? r.below(5) : edge(r));
  MON_CHECK(rcutils_string_array_init(&a, m.size(), &al) == RCUTILS_RET_OK, "sa.init", "init(%zu) failed", m.size());
  check(a, m, A, "after init");
  for (int k = 0; k < 3; ++k) {
    size_t few = m.empty() ? 0 : 20;
    for (size_t i = 0; i < few; ++i) {put(A, a, m, r.chance(1, 4) ? m.size() - 1 - r.below(std::min<size_t>(3, m.size())) : r.below(m.size()), gen(r));}
    size_t n = r.chance(1, 4) ? r.below(m.size() + 1) : edge(r);
    c.mix(n);
    tr(fmt("resize %zu->%zu", m.size(), n));
    MON_CHECK(rcutils_string_array_resize(&a, n) == RCUTILS_RET_OK, "sa.resize", "resize to %zu failed", n);
    m.resize(n);
    check(a, m, A, "after resize");
  }
  c.interesting();
  count("resize.large");
  MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "sa.fini", "fini failed");
  check_empty(A, "string array");
}

// A NULL element within the common prefix is an error, and the result argument is only
// meaningful on success; arrays are untouched.
static void cmp_null(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("x");
  std::vector<std::string> v(r.range(1, 5), "same");
  rcutils_string_array_t a, b;
  make(A, a, v); make(A, b, v);
  rcutils_allocator_t al = A.get();
  size_t i = r.below(v.size());
  rcutils_string_array_t & t = r.chance(1, 2) ? a : b;
  al.deallocate(t.data[i], al.state);
  t.data[i] = nullptr;
  int res = 0;
  MON_CHECK(rcutils_string_array_cmp(&a, &b, &res) == RCUTILS_RET_ERROR, "sa.cmp-null", "empty slot compared without error");
  MON_CHECK(rcutils_error_is_set(), "sa.cmp-null", "no error message");
  c.mix(v.size() * 10 + i);
  c.interesting();
  (void)!rcutils_string_array_fini(&a);
  (void)!rcutils_string_array_fini(&b);
  check_empty(A, "cmp-null");
}

// Sizes whose byte count does not fit: refused, array unchanged.
static void huge(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("sarr");
  std::vector<Slot> m(r.range(0, 5));
  rcutils_allocator_t al = A.get();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  MON_CHECK(rcutils_string_array_init(&a, m.size(), &al) == RCUTILS_RET_OK, "sa.init", "init failed");
  for (size_t i = 0; i < m.size(); ++i) {put(A, a, m, i, gen(r));}
  size_t n = SIZE_MAX / sizeof(char *) + 1 + r.below(64);
  if (r.chance(1, 3)) {n = SIZE_MAX - r.below(64);}
  if (r.chance(1, 4)) {n = SIZE_MAX / sizeof(char *) - r.below(8);}
  c.mix(n);
  c.interesting();
  tr(fmt("resize %zu->%zu", m.size(), n));
  rcutils_ret_t ret = rcutils_string_array_resize(&a, n);
  MON_CHECK(ret != RCUTILS_RET_OK, "sa.huge", "resize to %zu slots is reported as successful", n);
  MON_CHECK(rcutils_error_is_set(), "sa.huge", "no error message");
  count("huge.refused");
  rcutils_reset_error();
  check(a, m, A, "after a refused resize");
  (void)!rcutils_string_array_fini(&a);
  check_empty(A, "huge");
  rcutils_string_array_t z = rcutils_get_zero_initialized_string_array();
  MON_CHECK(rcutils_string_array_init(&z, n, &al) != RCUTILS_RET_OK, "sa.huge", "init with %zu slots is reported as successful", n);
  rcutils_reset_error();
  MON_CHECK(rcutils_string_array_fini(&z) == RCUTILS_RET_OK, "sa.fini", "fini after failed init");
  check_empty(A, "huge");
}

static void reg()
{
  section("ops", 6000, 120000, ops);
  section("cmp", 4000, 60000, cmp);
  section("cmp-large", 60, 2000, cmp_large);
  section("resize-large", 60, 1000, resize_large);
  section("cmp-null", 200, 400, cmp_null);
  section("huge", 300, 2000, huge);
}
MON_MAIN(reg)
