// P01: array list against a reference sequence.
#include "mon.hpp"
#include "rcutils/types/array_list.h"

using namespace mon;

static void model_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("list");
  rcutils_allocator_t alloc = A.get();
  size_t ds = r.chance(1, 2) ? r.range(1, 16) : (r.chance(1, 8) ? r.range(200, 5000) : r.range(1, 130));
  size_t cap = r.chance(1, 2) ? r.range(1, 3) : r.range(1, 70);
  size_t nops = c.thorough ? r.range(5, 400) : r.range(5, 160);
  unsigned bias = static_cast<unsigned>(r.range(1, 4));  // how strongly the list grows
  c.mix(ds); c.mix(cap);

  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  rcutils_ret_t ret = rcutils_array_list_init(&l, cap, ds, &alloc);
  MON_CHECK(ret == RCUTILS_RET_OK, "al.init", "init(cap=%zu, size=%zu) returned %d", cap, ds, ret);
  std::vector<std::string> m;
  size_t growths = 0, removes = 0, rejected = 0;

  auto read_at = [&](size_t i, const char * when) {
      Exact buf(std::string(ds, '\x5a'), false);
      rcutils_ret_t g = rcutils_array_list_get(&l, i, buf.p);
      MON_CHECK(g == RCUTILS_RET_OK, "al.get-failed", "get(%zu) of %zu returned %d %s", i, m.size(), g, when);
      MON_CHECK(memcmp(buf.p, m[i].data(), ds) == 0, "al.content",
        "element %zu of %zu differs %s: %s expected %s", i, m.size(), when,
        show(std::string(buf.p, ds), 40).c_str(), show(m[i], 40).c_str());
    };
  auto check_all = [&](const char * when) {
      size_t n = 12345;
      MON_CHECK(rcutils_array_list_get_size(&l, &n) == RCUTILS_RET_OK, "al.size-failed", "get_size failed");
      MON_CHECK(n == m.size(), "al.size", "size is %zu, expected %zu %s", n, m.size(), when);
      for (size_t i = 0; i < m.size(); ++i) {read_at(i, when);}
    };

  for (size_t op = 0; op < nops; ++op) {
    uint64_t k = r.below(6 + bias * 2);
    bool bad = r.chance(1, 9);
    size_t idx = bad ? (r.chance(1, 3) ? m.size() : r.chance(1, 2) ? m.size() + r.below(100) : SIZE_MAX - r.below(3)) :
      (m.empty() ? 0 : (r.chance(1, 3) ? (r.chance(1, 2) ? 0 : m.size() - 1) : r.below(m.size())));
    bool in = idx < m.size();
    if (k >= 6) {
      std::string v = r.bytes(ds);
      Exact e(v, false);
      tr("add");
      uint64_t before = A.calls;
      rcutils_ret_t a = rcutils_array_list_add(&l, e.p);
      MON_CHECK(a == RCUTILS_RET_OK, "al.add", "add to %zu elements returned %d", m.size(), a);
      MON_CHECK(memcmp(e.p, v.data(), ds) == 0, "al.input-modified", "add modified the caller's element");
      if (A.calls != before) {growths++;}
      m.push_back(v);
      count("add");
      c.mix(1);
    } else if (k < 2) {
      std::string v = r.bytes(ds);
      Exact e(v, false);
      tr(fmt("set(%zu)", idx));
      rcutils_ret_t a = rcutils_array_list_set(&l, idx, e.p);
      if (in) {
        MON_CHECK(a == RCUTILS_RET_OK, "al.set", "set(%zu) of %zu returned %d", idx, m.size(), a);
        m[idx] = v;
        count("set.ok");
      } else {
        MON_CHECK(a == RCUTILS_RET_INVALID_ARGUMENT, "al.set-oob", "set(%zu) of %zu returned %d", idx, m.size(), a);
        rejected++; count("set.out-of-range");
      }
      c.mix(2 + (idx << 8));
    } else if (k < 4) {
      tr(fmt("remove(%zu)", idx));
      rcutils_ret_t a = rcutils_array_list_remove(&l, idx);
      if (in) {
        MON_CHECK(a == RCUTILS_RET_OK, "al.remove", "remove(%zu) of %zu returned %d", idx, m.size(), a);
        m.erase(m.begin() + static_cast<long>(idx));
        removes++; count("remove.ok");
      } else {
        MON_CHECK(a == RCUTILS_RET_INVALID_ARGUMENT, "al.remove-oob", "remove(%zu) of %zu returned %d", idx, m.size(), a);
        rejected++; count("remove.out-of-range");
      }
      c.mix(3 + (idx << 8));
    } else {
      tr(fmt("get(%zu)", idx));
      if (in) {
        read_at(idx, "at get");
        count("get.ok");
      } else {
        Exact buf(std::string(ds, '\x5a'), false);
        rcutils_ret_t a = rcutils_array_list_get(&l, idx, buf.p);
        MON_CHECK(a == RCUTILS_RET_INVALID_ARGUMENT, "al.get-oob", "get(%zu) of %zu returned %d", idx, m.size(), a);
        MON_CHECK(std::string(buf.p, ds) == std::string(ds, '\x5a'), "al.get-oob-writes",
          "rejected get(%zu) of %zu wrote the output", idx, m.size());
        rejected++; count("get.out-of-range");
      }
      c.mix(4 + (idx << 8));
    }
    rcutils_reset_error();
    if (op % 7 == 0 || bad || m.size() < 8) {check_all("after operation");}
  }
  check_all("at end");
  if (growths) {count("growths", growths);}
  if ((growths >= 1 && removes >= 1) || rejected) {c.interesting();}
  c.sample(fmt("element size %zu, initial capacity %zu, %zu operations, final size %zu, %zu growths, %zu removals, %zu rejected",
    ds, cap, nops, m.size(), growths, removes, rejected));
  MON_CHECK(rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "al.fini", "fini failed");
  MON_CHECK(l.impl == nullptr, "al.fini-impl", "list still initialized after fini");
  check_empty(A, "after fini");
}

// Two lists at once, independent of one another; init again after fini.
static void pair_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("one"), B("two");
  rcutils_allocator_t aa = A.get(), ab = B.get();
  rcutils_array_list_t l[2] = {rcutils_get_zero_initialized_array_list(), rcutils_get_zero_initialized_array_list()};
  size_t ds[2] = {r.range(1, 24), r.range(1, 24)};
  std::vector<std::string> m[2];
  for (int round = 0; round < 3; ++round) {
    for (int i = 0; i < 2; ++i) {
      MON_CHECK(rcutils_array_list_init(&l[i], r.range(1, 4), ds[i], i ? &ab : &aa) == RCUTILS_RET_OK,
        "al.reinit", "init after fini failed");
      m[i].clear();
    }
    // a second init of a live list is rejected and changes nothing
    MON_CHECK(rcutils_array_list_init(&l[0], 3, ds[0], &aa) == RCUTILS_RET_INVALID_ARGUMENT, "al.double-init",
      "double init accepted");
    rcutils_reset_error();
    size_t n = r.range(1, 60);
    for (size_t k = 0; k < n; ++k) {
      int i = static_cast<int>(r.below(2));
      if (!m[i].empty() && r.chance(1, 3)) {
        size_t x = r.below(m[i].size());
        MON_CHECK(rcutils_array_list_remove(&l[i], x) == RCUTILS_RET_OK, "al.remove", "remove failed");
        m[i].erase(m[i].begin() + static_cast<long>(x));
      } else {
        std::string v = r.bytes(ds[i]);
        Exact e(v, false);
        MON_CHECK(rcutils_array_list_add(&l[i], e.p) == RCUTILS_RET_OK, "al.add", "add failed");
        m[i].push_back(v);
      }
      c.mix(static_cast<uint64_t>(i) + m[i].size() * 4);
    }
    for (int i = 0; i < 2; ++i) {
      size_t sz = 0;
      MON_CHECK(rcutils_array_list_get_size(&l[i], &sz) == RCUTILS_RET_OK && sz == m[i].size(), "al.size",
        "size %zu expected %zu", sz, m[i].size());
      for (size_t x = 0; x < sz; ++x) {
        Exact buf(std::string(ds[i], 'z'), false);
        MON_CHECK(rcutils_array_list_get(&l[i], x, buf.p) == RCUTILS_RET_OK &&
          memcmp(buf.p, m[i][x].data(), ds[i]) == 0, "al.content", "element %zu differs", x);
      }
      MON_CHECK(rcutils_array_list_fini(&l[i]) == RCUTILS_RET_OK, "al.fini", "fini failed");
    }
    check_empty(A, "after fini");
    check_empty(B, "after fini");
  }
  c.interesting();
  count("pair.rounds", 3);
}

// Long lists: growth through many doublings, checked at every doubling.
static void long_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("long");
  rcutils_allocator_t alloc = A.get();
  size_t ds = r.range(1, 12), cap = r.range(1, 9), n = r.range(500, 5000);
  c.mix(ds); c.mix(cap); c.mix(n);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  MON_CHECK(rcutils_array_list_init(&l, cap, ds, &alloc) == RCUTILS_RET_OK, "al.init", "init failed");
  auto elem = [&](size_t i) {
      std::string s(ds, '\0');
      for (size_t k = 0; k < ds; ++k) {s[k] = static_cast<char>(mix64(i * 31 + k));}
      return s;
    };
  uint64_t calls = A.calls;
  std::string buf(ds, 0);
  for (size_t i = 0; i < n; ++i) {
    std::string v = elem(i);
    MON_CHECK(rcutils_array_list_add(&l, v.data()) == RCUTILS_RET_OK, "al.add", "add %zu failed", i);
    if (A.calls != calls || i + 1 == n) {
      calls = A.calls;
      count("long.growth-checked");
      for (size_t k = 0; k <= i; ++k) {
        MON_CHECK(rcutils_array_list_get(&l, k, &buf[0]) == RCUTILS_RET_OK && buf == elem(k), "al.content",
          "element %zu of %zu differs after growth", k, i + 1);
      }
    }
  }
  // remove from the front in strides
  size_t lo = 0;
  while (lo < n) {
    MON_CHECK(rcutils_array_list_get(&l, 0, &buf[0]) == RCUTILS_RET_OK && buf == elem(lo), "al.content",
      "front differs after %zu removals", lo);
    MON_CHECK(rcutils_array_list_remove(&l, 0) == RCUTILS_RET_OK, "al.remove", "remove failed");
    lo++;
    if (lo % 97 == 0 && lo < n) {
      MON_CHECK(rcutils_array_list_get(&l, n - lo - 1, &buf[0]) == RCUTILS_RET_OK && buf == elem(n - 1), "al.content",
        "back differs after %zu removals", lo);
    }
    if (n > 1500 && lo > 300) {break;}
  }
  MON_CHECK(rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "al.fini", "fini failed");
  check_empty(A, "after fini");
  c.interesting();
  c.sample(fmt("%zu elements of %zu bytes from capacity %zu", n, ds, cap));
}

// Requests whose storage size is not representable: the list must refuse or really have the storage.
static void huge_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("huge");
  rcutils_allocator_t alloc = A.get();
  size_t ds = size_t(1) << r.range(0, 40);
  if (r.chance(1, 3)) {ds += r.below(9);}
  if (ds > 4096) {ds = 4096 + r.below(64);}
  size_t cap;
  if (r.chance(1, 2)) {
    cap = SIZE_MAX / ds + 1 + r.below(4);       // product wraps to a small number
    if (cap == 0) {cap = SIZE_MAX;}
  } else {
    cap = (size_t(1) << r.range(28, 63)) + r.below(3);
  }
  c.mix(ds); c.mix(cap);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  rcutils_ret_t ret = rcutils_array_list_init(&l, cap, ds, &alloc);
  tr(fmt("init(capacity=%zu, data_size=%zu) -> %d", cap, ds, ret));
  rcutils_reset_error();
  if (ret == RCUTILS_RET_OK) {
    count("huge.accepted");
    for (int i = 0; i < 64; ++i) {
      std::string v = r.bytes(ds);
      rcutils_ret_t a = rcutils_array_list_add(&l, v.data());
      rcutils_reset_error();
      if (a != RCUTILS_RET_OK) {break;}
    }
    MON_CHECK(rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "al.fini", "fini failed");
  } else {
    count("huge.refused");
    MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC || ret == RCUTILS_RET_INVALID_ARGUMENT, "al.huge-ret", "init returned %d", ret);
    MON_CHECK(l.impl == nullptr, "al.huge-impl", "failed init left the list initialized");
  }
  check_empty(A, "after huge init");
  c.interesting();
  c.sample(fmt("init(capacity=%zu, data_size=%zu) -> %d", cap, ds, ret));
}

static void reg()
{
  section("al.model", 6000, 150000, model_case);
  section("al.pair", 600, 15000, pair_case);
  section("al.long", 40, 600, long_case);
  section("al.huge", 600, 4000, huge_case);
}
MON_MAIN(reg)
