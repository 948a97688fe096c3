// P03: string map against a reference map, with capacity accounting.
#include "mon.hpp"
#include "rcutils/types/string_map.h"

using namespace mon;

struct SM
{
  CkAlloc A{"smap"};
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  std::map<std::string, std::string> model;
  size_t cap = 0;     // last observed capacity
};

static std::vector<std::string> make_universe(Rng & r)
{
  std::vector<std::string> u;
  size_t n = r.range(1, 14);
  // keys that are prefixes of one another
  std::string base = r.chance(1, 2) ? "abcabc" : r.cstr(r.range(1, 10));
  for (size_t i = 0; i < n; ++i) {
    switch (r.below(4)) {
      case 0: u.push_back(base.substr(0, r.below(base.size() + 1))); break;
      case 1: u.push_back(r.str(r.below(4), "ab")); break;
      case 2: u.push_back(r.cstr(r.below(30))); break;
      default: u.push_back(base + (r.chance(1, 20) ? r.cstr(r.size(700)) : r.str(r.below(3), "xy"))); break;
    }
  }
  return u;
}

static size_t capacity_of(SM & s)
{
  size_t c = 0;
  MON_CHECK(rcutils_string_map_get_capacity(&s.m, &c) == RCUTILS_RET_OK, "sm.capacity", "get_capacity failed");
  return c;
}

static void check_all(SM & s, const std::vector<std::string> & universe, const char * when)
{
  size_t n = 999;
  MON_CHECK(rcutils_string_map_get_size(&s.m, &n) == RCUTILS_RET_OK && n == s.model.size(), "sm.size",
    "size is %zu, expected %zu %s", n, s.model.size(), when);
  size_t cap = capacity_of(s);
  MON_CHECK(cap >= n, "sm.capacity-below-size", "capacity %zu is below the size %zu %s", cap, n, when);
  for (auto & k : universe) {
    Exact key(k);
    auto it = s.model.find(k);
    const char * v = rcutils_string_map_get(&s.m, key);
    bool e = rcutils_string_map_key_exists(&s.m, key);
    if (it == s.model.end()) {
      MON_CHECK(!v, "sm.get-absent", "get(%s) yields %s for an absent key %s", show(k).c_str(), show(v).c_str(), when);
    } else {
      MON_CHECK(v && it->second == v, "sm.value", "get(%s) yields %s, expected %s %s", show(k).c_str(), show(v).c_str(),
        show(it->second).c_str(), when);
    }
    MON_CHECK(e == (it != s.model.end()), "sm.exists", "key_exists(%s) is %d %s", show(k).c_str(), e, when);
  }
  // iteration: every key once, by address
  std::set<std::string> seen;
  std::set<const char *> ptrs;
  const char * k = rcutils_string_map_get_next_key(&s.m, nullptr);
  while (k) {
    MON_CHECK(s.model.count(k), "sm.iter-dead", "iteration yields %s which is not live %s", show(k).c_str(), when);
    MON_CHECK(seen.insert(k).second && ptrs.insert(k).second, "sm.iter-dup", "iteration yields %s twice %s", show(k).c_str(), when);
    const char * v = rcutils_string_map_get(&s.m, k);
    MON_CHECK(v && s.model[k] == v, "sm.value", "value of iterated key %s differs %s", show(k).c_str(), when);
    k = rcutils_string_map_get_next_key(&s.m, k);
  }
  MON_CHECK(seen.size() == s.model.size(), "sm.iter-missing", "iteration visited %zu of %zu %s", seen.size(), s.model.size(), when);
  // a key that is not one of the map's own pointers has no successor
  if (!s.model.empty()) {
    Exact copy(s.model.begin()->first);
    MON_CHECK(rcutils_string_map_get_next_key(&s.m, copy) == nullptr, "sm.iter-foreign", "next key of a foreign pointer is not NULL");
  }
  count("full-checks");
}

// length-delimited lookups: exact-size buffer without terminator, then with trailing bytes
static void check_n(SM & s, Rng & r, const std::vector<std::string> & universe)
{
  std::string k = r.pick(universe);
  if (r.chance(1, 3) && !k.empty()) {k = k.substr(0, r.below(k.size() + 1));}
  auto it = s.model.find(k);
  for (int mode = 0; mode < 2; ++mode) {
    Exact buf(mode ? k + r.cstr(r.range(1, 6)) : k, mode != 0);
    tr(fmt("getn(%s, %zu, %s)", show(k).c_str(), k.size(), mode ? "longer buffer" : "exact buffer"));
    const char * v = rcutils_string_map_getn(&s.m, buf.p, k.size());
    bool e = rcutils_string_map_key_existsn(&s.m, buf.p, k.size());
    if (it == s.model.end()) {
      MON_CHECK(!v, "sm.getn-absent", "getn(%s,%zu) yields %s for a key that is not in the map", show(k).c_str(), k.size(), show(v).c_str());
      MON_CHECK(!e, "sm.existsn-absent", "key_existsn(%s,%zu) is true for a key that is not in the map", show(k).c_str(), k.size());
      count("getn.absent");
    } else {
      MON_CHECK(v && it->second == v, "sm.getn", "getn(%s,%zu) yields %s, expected %s", show(k).c_str(), k.size(), show(v).c_str(),
        show(it->second).c_str());
      MON_CHECK(e, "sm.existsn", "key_existsn(%s,%zu) is false for a live key", show(k).c_str(), k.size());
      count("getn.present");
    }
  }
}

static void model_case(Case & c)
{
  Rng & r = c.rng;
  SM s;
  rcutils_allocator_t alloc = s.A.get();
  size_t icap = r.chance(1, 3) ? 0 : r.below(9);
  MON_CHECK(rcutils_string_map_init(&s.m, icap, alloc) == RCUTILS_RET_OK, "sm.init", "init(%zu) failed", icap);
  MON_CHECK(capacity_of(s) == icap, "sm.init-capacity", "capacity after init(%zu) is %zu", icap, capacity_of(s));
  std::vector<std::string> universe = make_universe(r);
  size_t nops = r.range(5, c.thorough ? 300 : 120);
  size_t shrinks = 0, holes = 0, refused = 0;
  c.mix(icap);
  for (size_t op = 0; op < nops; ++op) {
    const std::string k = r.pick(universe);
    std::string v = r.chance(1, 4) ? std::string() : r.chance(1, 12) ? r.cstr(r.size(700)) : r.cstr(r.below(20));
    if (r.chance(1, 4) && s.model.count(k)) {v = r.cstr(s.model[k].size()); count("set.same-length");}
    uint64_t what = r.below(16);
    c.mix(what); c.mix(k);
    size_t cap_before = capacity_of(s);
    Exact ek(k), ev(v);
    if (what < 4) {
      tr(fmt("set(%s,%s)", show(k).c_str(), show(v).c_str()));
      MON_CHECK(rcutils_string_map_set(&s.m, ek, ev) == RCUTILS_RET_OK, "sm.set", "set failed");
      s.model[k] = v;
      count("set");
    } else if (what < 7) {
      tr(fmt("set_no_resize(%s)", show(k).c_str()));
      rcutils_ret_t ret = rcutils_string_map_set_no_resize(&s.m, ek, ev);
      if (s.model.count(k) || s.model.size() < cap_before) {
        MON_CHECK(ret == RCUTILS_RET_OK, "sm.set-no-resize", "set_no_resize returned %d with %zu of %zu used (key %s)", ret,
          s.model.size(), cap_before, s.model.count(k) ? "live" : "new");
        s.model[k] = v;
        count("set_no_resize.ok");
      } else {
        MON_CHECK(ret == RCUTILS_RET_NOT_ENOUGH_SPACE, "sm.no-space", "set_no_resize of a new key returned %d with %zu of %zu used",
          ret, s.model.size(), cap_before);
        refused++;
        count("set_no_resize.full");
      }
      MON_CHECK(capacity_of(s) == cap_before, "sm.no-resize-resized", "set_no_resize changed the capacity");
    } else if (what < 10) {
      tr(fmt("unset(%s)", show(k).c_str()));
      rcutils_ret_t ret = rcutils_string_map_unset(&s.m, ek);
      if (s.model.erase(k)) {
        MON_CHECK(ret == RCUTILS_RET_OK, "sm.unset", "unset of a live key returned %d", ret);
        holes++;
        count("unset.live");
      } else {
        MON_CHECK(ret == RCUTILS_RET_STRING_KEY_NOT_FOUND, "sm.unset-absent", "unset of an absent key returned %d", ret);
        count("unset.absent");
      }
      MON_CHECK(capacity_of(s) == cap_before, "sm.unset-resized", "unset changed the capacity");
    } else if (what < 13) {
      size_t want = r.chance(1, 3) ? 0 : r.below(24);
      tr(fmt("reserve(%zu) with %zu of %zu", want, s.model.size(), cap_before));
      MON_CHECK(rcutils_string_map_reserve(&s.m, want) == RCUTILS_RET_OK, "sm.reserve", "reserve(%zu) failed", want);
      size_t expect = std::max(want, s.model.size());
      MON_CHECK(capacity_of(s) == expect, "sm.reserve-capacity", "capacity after reserve(%zu) with %zu entries is %zu, expected %zu",
        want, s.model.size(), capacity_of(s), expect);
      if (expect < cap_before && holes) {shrinks++; count("reserve.shrink-with-holes");}
      check_all(s, universe, "after reserve");
    } else if (what == 13 && r.chance(1, 3)) {
      tr("clear");
      MON_CHECK(rcutils_string_map_clear(&s.m) == RCUTILS_RET_OK, "sm.clear", "clear failed");
      s.model.clear();
      MON_CHECK(capacity_of(s) == cap_before, "sm.clear-resized", "clear changed the capacity");
      count("clear");
    } else if (what == 14 && !s.model.empty()) {
      // key and value pointers owned by the map itself
      const char * pk = rcutils_string_map_get_next_key(&s.m, nullptr);
      size_t skip = r.below(s.model.size());
      while (skip--) {pk = rcutils_string_map_get_next_key(&s.m, pk);}
      std::string own = pk;
      if (r.chance(1, 2)) {
        tr(fmt("unset(own key %s)", show(own).c_str()));
        MON_CHECK(rcutils_string_map_unset(&s.m, pk) == RCUTILS_RET_OK, "sm.unset-own", "unset of the map's own key failed");
        s.model.erase(own);
        holes++;
      } else {
        const char * pv = rcutils_string_map_get(&s.m, k.c_str());
        std::string val = pv ? pv : "";
        if (pv) {
          tr(fmt("set(own key %s, own value)", show(own).c_str()));
          MON_CHECK(rcutils_string_map_set(&s.m, pk, pv) == RCUTILS_RET_OK, "sm.set-own", "set with the map's own pointers failed");
          s.model[own] = val;
        }
      }
      count("own-pointers");
    } else {
      check_n(s, r, universe);
    }
    rcutils_reset_error();
    if (op % 5 == 0 || s.model.size() <= 3) {check_all(s, universe, "after operation");}
  }
  check_all(s, universe, "at end");
  for (int i = 0; i < 6; ++i) {check_n(s, r, universe);}
  if ((holes && shrinks) || refused) {c.interesting();}
  c.sample(fmt("initial capacity %zu, %zu operations: %zu removals, %zu shrinks with holes, %zu refused for space, %zu live of capacity %zu",
    icap, nops, holes, shrinks, refused, s.model.size(), capacity_of(s)));
  MON_CHECK(rcutils_string_map_fini(&s.m) == RCUTILS_RET_OK && s.m.impl == nullptr, "sm.fini", "fini failed");
  check_empty(s.A, "after fini");
}

static void copy_case(Case & c)
{
  Rng & r = c.rng;
  SM a, b;
  rcutils_allocator_t aa = a.A.get(), ab = b.A.get();
  std::vector<std::string> universe = make_universe(r);
  MON_CHECK(rcutils_string_map_init(&a.m, r.below(8), aa) == RCUTILS_RET_OK &&
    rcutils_string_map_init(&b.m, r.below(8), ab) == RCUTILS_RET_OK, "sm.init", "init failed");
  for (SM * s : {&a, &b}) {
    size_t n = r.below(12);
    for (size_t i = 0; i < n; ++i) {
      std::string k = r.pick(universe), v = r.cstr(r.below(9));
      MON_CHECK(rcutils_string_map_set(&s->m, k.c_str(), v.c_str()) == RCUTILS_RET_OK, "sm.set", "set failed");
      s->model[k] = v;
    }
    for (size_t i = 0; i < n / 3; ++i) {
      std::string k = r.pick(universe);
      if (s->model.erase(k)) {MON_CHECK(rcutils_string_map_unset(&s->m, k.c_str()) == RCUTILS_RET_OK, "sm.unset", "unset failed");}
    }
  }
  tr(fmt("copy %zu pairs over %zu pairs", a.model.size(), b.model.size()));
  size_t before = b.model.size();
  MON_CHECK(rcutils_string_map_copy(&a.m, &b.m) == RCUTILS_RET_OK, "sm.copy", "copy failed");
  for (auto & kv : a.model) {b.model[kv.first] = kv.second;}
  check_all(a, universe, "source after copy");
  check_all(b, universe, "destination after copy");
  // copies are independent: finalize the source first
  MON_CHECK(rcutils_string_map_fini(&a.m) == RCUTILS_RET_OK, "sm.fini", "fini failed");
  check_empty(a.A, "source after fini");
  check_all(b, universe, "destination after the source is gone");
  MON_CHECK(rcutils_string_map_fini(&b.m) == RCUTILS_RET_OK, "sm.fini", "fini failed");
  check_empty(b.A, "destination after fini");
  for (auto & kv : b.model) {c.mix(kv.first);}
  if (!a.model.empty() && before && b.model.size() < before + a.model.size()) {c.interesting(); count("copy.overlapping");}
  c.sample(fmt("copy of %zu pairs onto %zu gives %zu", a.model.size(), before, b.model.size()));
}

// Many keys, long keys and long values: growth from nothing, removal, refilling, shrinking.
static void many_case(Case & c)
{
  Rng & r = c.rng;
  SM s;
  rcutils_allocator_t alloc = s.A.get();
  static const size_t sizes[] = {33, 65, 120, 130, 257, 300, 513, 600, 1030};
  size_t n = sizes[r.below(c.thorough ? 9 : 7)] + r.below(9);
  size_t icap = r.chance(1, 2) ? 0 : r.below(n);
  c.mix(n); c.mix(icap);
  MON_CHECK(rcutils_string_map_init(&s.m, icap, alloc) == RCUTILS_RET_OK, "sm.init", "init(%zu) failed", icap);
  std::vector<std::string> u;
  for (size_t i = 0; i < n; ++i) {u.push_back(fmt("key%zu", i) + (r.chance(1, 40) ? r.cstr(r.size(70000)) : std::string(i % 5, 'x')));}
  auto put = [&](const std::string & k) {
      std::string v = r.chance(1, 40) ? r.cstr(r.size(70000)) : r.chance(1, 6) ? r.cstr(r.size(600)) : r.cstr(r.below(12));
      if (s.model.count(k) && r.chance(1, 2)) {v = r.cstr(s.model[k].size());}
      Exact ek(k), ev(v);
      rcutils_ret_t ret = rcutils_string_map_set(&s.m, ek, ev);
      MON_CHECK(ret == RCUTILS_RET_OK, "sm.set", "set of entry %zu (capacity %zu) returned %d", s.model.size() + 1, capacity_of(s), ret);
      s.model[k] = v;
    };
  for (auto & k : u) {put(k);}
  check_all(s, u, "after filling");
  for (auto & k : u) {
    uint64_t what = r.below(4);
    if (what == 0 && s.model.count(k)) {
      MON_CHECK(rcutils_string_map_unset(&s.m, k.c_str()) == RCUTILS_RET_OK, "sm.unset", "unset failed");
      s.model.erase(k);
    } else if (what == 1) {
      put(r.pick(u));
    }
  }
  check_all(s, u, "after removals");
  size_t want = r.below(2 * n);
  MON_CHECK(rcutils_string_map_reserve(&s.m, want) == RCUTILS_RET_OK, "sm.reserve", "reserve(%zu) failed", want);
  MON_CHECK(capacity_of(s) == std::max(want, s.model.size()), "sm.reserve-capacity", "capacity after reserve(%zu) with %zu entries is %zu",
    want, s.model.size(), capacity_of(s));
  check_all(s, u, "after reserve");
  for (auto & k : u) {put(k);}
  check_all(s, u, "after refilling");
  c.interesting();
  count("many.entries", n);
  c.sample(fmt("%zu entries from capacity %zu, reserve(%zu)", n, icap, want));
  MON_CHECK(rcutils_string_map_fini(&s.m) == RCUTILS_RET_OK, "sm.fini", "fini failed");
  check_empty(s.A, "after fini");
}

static void huge_case(Case & c)
{
  Rng & r = c.rng;
  SM s;
  rcutils_allocator_t alloc = s.A.get();
  s.A.max_block = 1 << 20;
  size_t cap = (size_t(1) << r.range(20, 63)) + r.below(3) - 1;
  c.mix(cap);
  bool at_init = r.chance(1, 2);
  std::vector<std::string> u = {"a", "b", "c"};
  MON_CHECK(rcutils_string_map_init(&s.m, 2, alloc) == RCUTILS_RET_OK, "sm.init", "init failed");
  for (auto & k : u) {
    MON_CHECK(rcutils_string_map_set(&s.m, k.c_str(), k.c_str()) == RCUTILS_RET_OK, "sm.set", "set failed");
    s.model[k] = k;
  }
  if (at_init) {
    rcutils_string_map_t m2 = rcutils_get_zero_initialized_string_map();
    rcutils_ret_t ret = rcutils_string_map_init(&m2, cap, alloc);
    MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC && m2.impl == nullptr, "sm.huge-init", "init(%zu) returned %d", cap, ret);
  } else {
    size_t before = capacity_of(s);
    rcutils_ret_t ret = rcutils_string_map_reserve(&s.m, cap);
    MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC, "sm.huge-reserve", "reserve(%zu) returned %d", cap, ret);
    MON_CHECK(capacity_of(s) == before, "sm.huge-capacity", "failed reserve changed the capacity");
  }
  rcutils_reset_error();
  check_all(s, u, "after refused capacity");
  MON_CHECK(rcutils_string_map_fini(&s.m) == RCUTILS_RET_OK, "sm.fini", "fini failed");
  check_empty(s.A, "after fini");
  c.interesting();
  count("huge.refused");
}

static void reg()
{
  section("sm.model", 6000, 150000, model_case);
  section("sm.copy", 1500, 30000, copy_case);
  section("sm.many", 60, 1500, many_case);
  section("sm.huge", 200, 2000, huge_case);
}
MON_MAIN(reg)
