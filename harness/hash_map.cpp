// P02: hash map against a reference map, under hostile hash functions.
#include "mon.hpp"
#include "rcutils/types/hash_map.h"

using namespace mon;

static size_t g_ks;          // key size of the running case
static int g_hash_kind;
static int g_eq_kind;        // 0: bytes, 1: ignore case bit, 2: only the first half of the key
static uint64_t g_hash_calls, g_cmp_calls;

static std::string canon(const void * k)
{
  std::string s(static_cast<const char *>(k), g_ks);
  if (g_eq_kind == 1) {for (auto & c : s) {c = static_cast<char>(c & ~0x20);}}
  if (g_eq_kind == 2) {s.resize((g_ks + 1) / 2);}
  return s;
}

static size_t hasher(const void * k)
{
  g_hash_calls++;
  std::string s = canon(k);
  switch (g_hash_kind) {
    case 0: return hash_str(s.data(), s.size());
    case 1: return 0;
    case 2: return SIZE_MAX;
    case 3: return static_cast<unsigned char>(s[0]) & 3;                      // four chains
    case 4: return static_cast<size_t>(static_cast<unsigned char>(s[0])) << 56;  // differs in high bits only
    case 5: return hash_str(s.data(), s.size()) | 0xff;                       // same bucket, different hashes
    case 6: return static_cast<size_t>(s.size() ? static_cast<unsigned char>(s[s.size() - 1]) : 0) * 0x10000ull;
    case 7: return static_cast<unsigned char>(s[0]);                          // identity of a byte
    default: return (hash_str(s.data(), s.size()) & 1) ? SIZE_MAX - 1 : 1;
  }
}
static int compare(const void * a, const void * b)
{
  g_cmp_calls++;
  std::string x = canon(a), y = canon(b);
  int r = memcmp(x.data(), y.data(), x.size());
  // any sign convention: only zero means equal
  return r == 0 ? 0 : ((x[0] & 1) ? 1 : -7);
}

struct Harness
{
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  std::map<std::string, std::string> model;   // canonical key -> value
  size_t ks, vs;
};

static void check_iteration(Harness & h, Rng & r)
{
  // Iterate from the start; both with separate buffers and with the key buffer reused.
  bool reuse = r.chance(1, 2);
  std::map<std::string, std::string> seen;
  Exact key(std::string(h.ks, '\x11'), false), prev(std::string(h.ks, '\x22'), false), val(std::string(h.vs, '\x33'), false);
  const void * p = nullptr;
  for (size_t steps = 0;; ++steps) {
    MON_CHECK(steps <= h.model.size(), "hm.iter-too-many", "iteration yields more than the %zu live entries", h.model.size());
    rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&h.m, p, key.p, val.p);
    if (ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES) {break;}
    MON_CHECK(ret == RCUTILS_RET_OK, "hm.iter-ret", "get_next returned %d at step %zu of %zu", ret, steps, h.model.size());
    std::string ck = canon(key.p);
    auto it = h.model.find(ck);
    MON_CHECK(it != h.model.end(), "hm.iter-dead", "iteration yields a key that is not live: %s", show(ck).c_str());
    MON_CHECK(seen.emplace(ck, "").second, "hm.iter-dup", "iteration yields key %s twice", show(ck).c_str());
    MON_CHECK(std::string(val.p, h.vs) == it->second, "hm.iter-value", "iteration yields %s for a key whose value is %s",
      show(std::string(val.p, h.vs)).c_str(), show(it->second).c_str());
    if (reuse) {p = key.p;} else {memcpy(prev.p, key.p, h.ks); p = prev.p;}
    count("iter.steps");
  }
  MON_CHECK(seen.size() == h.model.size(), "hm.iter-missing", "iteration visited %zu of %zu live entries", seen.size(), h.model.size());
  count("iter.complete");
}

static void check_lookups(Harness & h, const std::vector<std::string> & universe)
{
  size_t n = 777;
  MON_CHECK(rcutils_hash_map_get_size(&h.m, &n) == RCUTILS_RET_OK && n == h.model.size(), "hm.size", "size is %zu, expected %zu",
    n, h.model.size());
  for (auto & k : universe) {
    Exact key(k, false);
    auto it = h.model.find(canon(key.p));
    bool e = rcutils_hash_map_key_exists(&h.m, key.p);
    MON_CHECK(e == (it != h.model.end()), "hm.exists", "key_exists(%s) is %d, expected %d", show(k).c_str(), e, it != h.model.end());
    Exact val(std::string(h.vs, '\x33'), false);
    rcutils_ret_t ret = rcutils_hash_map_get(&h.m, key.p, val.p);
    if (it == h.model.end()) {
      MON_CHECK(ret == RCUTILS_RET_NOT_FOUND, "hm.get-absent", "get of an absent key returned %d", ret);
    } else {
      MON_CHECK(ret == RCUTILS_RET_OK, "hm.get-present", "get of a live key returned %d", ret);
      MON_CHECK(std::string(val.p, h.vs) == it->second, "hm.value", "get(%s) yields %s, expected %s", show(k).c_str(),
        show(std::string(val.p, h.vs)).c_str(), show(it->second).c_str());
    }
    rcutils_reset_error();
  }
}

static void model_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("map");
  rcutils_allocator_t alloc = A.get();
  Harness h;
  h.ks = r.chance(1, 2) ? r.range(1, 4) : r.range(1, 40);
  h.vs = r.chance(1, 2) ? r.range(1, 8) : r.range(1, 90);
  g_ks = h.ks;
  g_hash_kind = static_cast<int>(r.below(9));
  g_eq_kind = static_cast<int>(r.chance(1, 2) ? 0 : r.below(3));
  size_t cap = r.chance(1, 2) ? r.range(1, 5) : r.range(1, 100);
  size_t nkeys = r.chance(1, 2) ? r.range(1, 8) : r.range(1, 60);
  size_t nops = r.range(5, c.thorough ? 500 : 200);
  c.mix(h.ks); c.mix(h.vs); c.mix(static_cast<uint64_t>(g_hash_kind)); c.mix(cap); c.mix(nkeys); c.mix(static_cast<uint64_t>(g_eq_kind));
  std::vector<std::string> universe;
  for (size_t i = 0; i < nkeys; ++i) {
    std::string k = r.chance(1, 3) ? r.str(h.ks, "aAbB") : r.bytes(h.ks);
    universe.push_back(k);
  }
  MON_CHECK(rcutils_hash_map_init(&h.m, cap, h.ks, h.vs, hasher, compare, &alloc) == RCUTILS_RET_OK, "hm.init",
    "init(capacity %zu) failed", cap);
  size_t cap0 = 0, cap1 = 0;
  MON_CHECK(rcutils_hash_map_get_capacity(&h.m, &cap0) == RCUTILS_RET_OK && cap0 >= cap, "hm.capacity",
    "initial capacity %zu is below the requested %zu", cap0, cap);
  size_t updates = 0, removed = 0, grew = 0;
  for (size_t op = 0; op < nops; ++op) {
    Exact key(r.pick(universe), false);
    std::string ck = canon(key.p);
    uint64_t what = r.below(10);
    tr(fmt("%s %s", what < 5 ? "set" : what < 8 ? "unset" : "query", show(ck, 12).c_str()));
    if (what < 5) {
      std::string v = r.bytes(h.vs);
      Exact val(v, false);
      MON_CHECK(rcutils_hash_map_set(&h.m, key.p, val.p) == RCUTILS_RET_OK, "hm.set", "set failed");
      updates += h.model.count(ck);
      h.model[ck] = v;
      // the map must own its copies: destroy ours
      memset(val.p, 0x77, h.vs);
      memset(key.p, 0x77, h.ks);
      count("set");
    } else if (what < 8) {
      rcutils_ret_t ret = rcutils_hash_map_unset(&h.m, key.p);
      bool live = h.model.erase(ck) != 0;
      MON_CHECK(ret == RCUTILS_RET_OK || (!live && (ret == RCUTILS_RET_NOT_FOUND || ret == RCUTILS_RET_STRING_KEY_NOT_FOUND)),
        "hm.unset", "unset of a %s key returned %d", live ? "live" : "absent", ret);
      removed += live;
      count(live ? "unset.live" : "unset.absent");
    } else if (what == 8) {
      check_iteration(h, r);
    } else {
      // continuing from a key that is not in the map
      Exact k2(std::string(h.ks, 0), false), v2(std::string(h.vs, 0), false);
      rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&h.m, key.p, k2.p, v2.p);
      if (!h.model.count(ck)) {
        MON_CHECK(ret == RCUTILS_RET_NOT_FOUND, "hm.iter-absent", "iteration from an absent key returned %d", ret);
        count("iter.from-absent");
      } else {
        MON_CHECK(ret == RCUTILS_RET_OK || ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "hm.iter-ret", "returned %d", ret);
        if (ret == RCUTILS_RET_OK) {
          auto it = h.model.find(canon(k2.p));
          MON_CHECK(it != h.model.end() && it->second == std::string(v2.p, h.vs) && it->first != ck, "hm.iter-value",
            "iteration from a live key yields a wrong entry");
        }
      }
      rcutils_reset_error();
    }
    MON_CHECK(rcutils_hash_map_get_capacity(&h.m, &cap1) == RCUTILS_RET_OK, "hm.capacity", "get_capacity failed");
    if (cap1 != cap0) {grew++; cap0 = cap1; check_lookups(h, universe); check_iteration(h, r);}
    if (op % 16 == 0 || h.model.size() <= 2) {check_lookups(h, universe);}
    c.mix(what); c.mix(ck);
  }
  check_lookups(h, universe);
  check_iteration(h, r);
  count("growths", grew);
  count(fmt("hash-kind-%d", g_hash_kind));
  if (updates && removed && h.model.size() > 0) {c.interesting();}
  c.sample(fmt("key size %zu, value size %zu, hash kind %d, equality kind %d, capacity %zu, %zu keys, %zu operations: %zu updates, %zu removals, %zu growths, %zu live",
    h.ks, h.vs, g_hash_kind, g_eq_kind, cap, nkeys, nops, updates, removed, grew, h.model.size()));
  MON_CHECK(rcutils_hash_map_fini(&h.m) == RCUTILS_RET_OK && h.m.impl == nullptr, "hm.fini", "fini failed");
  check_empty(A, "after fini");
}

// String keys through the provided hash and comparison functions.
static void string_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("smap");
  rcutils_allocator_t alloc = A.get();
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  size_t cap = r.range(1, 20);
  MON_CHECK(rcutils_hash_map_init(&m, cap, sizeof(char *), sizeof(uint64_t), rcutils_hash_map_string_hash_func,
    rcutils_hash_map_string_cmp_func, &alloc) == RCUTILS_RET_OK, "hm.init", "init failed");
  std::vector<std::string> universe;
  size_t nkeys = r.range(1, 50);
  for (size_t i = 0; i < nkeys; ++i) {
    universe.push_back(r.chance(1, 2) ? r.str(r.below(5), "ab") : r.chance(1, 2) ? r.cstr(r.below(60)) : r.str(r.below(3), "Bb!"));
  }
  std::map<std::string, uint64_t> model;
  std::map<std::string, std::unique_ptr<Exact>> owned;   // strings the map points at must stay alive
  size_t nops = r.range(10, 200);
  for (size_t op = 0; op < nops; ++op) {
    const std::string & k = r.pick(universe);
    Exact probe(k);                      // a different address every time
    const char * pk = probe.p;
    uint64_t what = r.below(8);
    if (what < 3) {
      uint64_t v = r.next();
      if (!model.count(k)) {owned[k].reset(new Exact(k)); pk = owned[k]->p;}
      MON_CHECK(rcutils_hash_map_set(&m, &pk, &v) == RCUTILS_RET_OK, "hm.set", "set failed");
      model[k] = v;
    } else if (what < 5) {
      rcutils_ret_t ret = rcutils_hash_map_unset(&m, &pk);
      MON_CHECK(ret == RCUTILS_RET_OK || !model.count(k), "hm.unset", "unset returned %d", ret);
      model.erase(k);
      owned.erase(k);
    } else {
      uint64_t v = 0;
      rcutils_ret_t ret = rcutils_hash_map_get(&m, &pk, &v);
      if (model.count(k)) {
        MON_CHECK(ret == RCUTILS_RET_OK && v == model[k], "hm.string-value", "get(%s) returned %d", show(k).c_str(), ret);
      } else {
        MON_CHECK(ret == RCUTILS_RET_NOT_FOUND, "hm.get-absent", "get(%s) returned %d", show(k).c_str(), ret);
      }
      MON_CHECK(rcutils_hash_map_key_exists(&m, &pk) == (model.count(k) != 0), "hm.exists", "key_exists wrong");
    }
    c.mix(what); c.mix(k);
  }
  size_t n = 0;
  MON_CHECK(rcutils_hash_map_get_size(&m, &n) == RCUTILS_RET_OK && n == model.size(), "hm.size", "size %zu, expected %zu", n, model.size());
  const char * key = nullptr;
  uint64_t v = 0;
  std::set<std::string> seen;
  rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &key, &v);
  while (ret == RCUTILS_RET_OK) {
    MON_CHECK(model.count(key) && model[key] == v && seen.insert(key).second, "hm.iter-value", "iteration yields a wrong entry");
    ret = rcutils_hash_map_get_next_key_and_data(&m, &key, &key, &v);
  }
  MON_CHECK(ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && seen.size() == model.size(), "hm.iter-missing",
    "iteration visited %zu of %zu and ended with %d", seen.size(), model.size(), ret);
  rcutils_reset_error();
  if (model.size() >= 2) {c.interesting();}
  count("string.keys", model.size());
  c.sample(fmt("string keys: %zu distinct candidates, %zu operations, %zu live", universe.size(), nops, model.size()));
  MON_CHECK(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "hm.fini", "fini failed");
  check_empty(A, "after fini");
}

// Many entries: several growths, with everything checked after each.
static void big_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("big");
  rcutils_allocator_t alloc = A.get();
  Harness h;
  h.ks = 4; h.vs = r.range(1, 9);
  g_ks = 4; g_eq_kind = 0;
  static const int kinds[] = {0, 5, 6, 3, 7};
  g_hash_kind = kinds[r.below(5)];
  size_t n = g_hash_kind == 0 ? r.range(300, 3000) : r.range(100, 500);
  c.mix(n); c.mix(static_cast<uint64_t>(g_hash_kind)); c.mix(h.vs);
  MON_CHECK(rcutils_hash_map_init(&h.m, r.range(1, 8), h.ks, h.vs, hasher, compare, &alloc) == RCUTILS_RET_OK, "hm.init", "init");
  std::vector<std::string> keys;
  size_t cap0 = 0, cap1 = 0;
  for (size_t i = 0; i < n; ++i) {
    uint32_t k = static_cast<uint32_t>(mix64(i));
    std::string key(reinterpret_cast<char *>(&k), 4), val = r.bytes(h.vs);
    MON_CHECK(rcutils_hash_map_set(&h.m, key.data(), val.data()) == RCUTILS_RET_OK, "hm.set", "set failed");
    h.model[key] = val;
    keys.push_back(key);
    MON_CHECK(rcutils_hash_map_get_capacity(&h.m, &cap1) == RCUTILS_RET_OK, "hm.capacity", "get_capacity failed");
    if (cap1 != cap0) {cap0 = cap1; count("big.growths"); check_lookups(h, keys); check_iteration(h, r);}
  }
  for (size_t i = 0; i < n; i += 1 + r.below(3)) {
    MON_CHECK(rcutils_hash_map_unset(&h.m, keys[i].data()) == RCUTILS_RET_OK, "hm.unset", "unset failed");
    h.model.erase(keys[i]);
  }
  check_lookups(h, keys);
  check_iteration(h, r);
  c.interesting();
  c.sample(fmt("%zu entries, hash kind %d, final capacity %zu", n, g_hash_kind, cap1));
  MON_CHECK(rcutils_hash_map_fini(&h.m) == RCUTILS_RET_OK, "hm.fini", "fini failed");
  check_empty(A, "after fini");
}

static void huge_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("huge");
  rcutils_allocator_t alloc = A.get();
  A.max_block = 1 << 20;
  size_t cap = size_t(1) << r.range(20, 63);
  if (r.chance(1, 2)) {cap += r.below(5) - 2;}
  g_ks = 4; g_eq_kind = 0; g_hash_kind = 0;
  c.mix(cap);
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  rcutils_ret_t ret = rcutils_hash_map_init(&m, cap, 4, 4, hasher, compare, &alloc);
  tr(fmt("init(capacity=%zu) -> %d", cap, ret));
  rcutils_reset_error();
  if (ret == RCUTILS_RET_OK) {
    for (uint32_t i = 0; i < 20; ++i) {
      MON_CHECK(rcutils_hash_map_set(&m, &i, &i) == RCUTILS_RET_OK, "hm.set", "set failed");
    }
    for (uint32_t i = 0; i < 20; ++i) {
      uint32_t v = 99;
      MON_CHECK(rcutils_hash_map_get(&m, &i, &v) == RCUTILS_RET_OK && v == i, "hm.value", "get differs");
    }
    MON_CHECK(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "hm.fini", "fini failed");
    count("huge.accepted");
  } else {
    MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC || ret == RCUTILS_RET_INVALID_ARGUMENT, "hm.huge-ret", "init returned %d", ret);
    MON_CHECK(m.impl == nullptr, "hm.huge-impl", "failed init left the map initialized");
    count("huge.refused");
  }
  check_empty(A, "after huge init");
  c.interesting();
  c.sample(fmt("init(capacity=%zu) -> %d", cap, ret));
}

// Large initial capacities, of all residues around the powers of two, filled past their first growth.
static size_t wide_hash(const void * k)
{
  uint32_t v;
  memcpy(&v, k, 4);
  return g_hash_kind == 0 ? static_cast<size_t>(v) : g_hash_kind == 1 ? static_cast<size_t>(mix64(v)) : static_cast<size_t>(v) * 0x100010001ull;
}
static int wide_compare(const void * a, const void * b) {return memcmp(a, b, 4);}

static void wide_case(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("wide");
  rcutils_allocator_t alloc = A.get();
  unsigned bits = c.thorough ? static_cast<unsigned>(r.range(7, 19)) : static_cast<unsigned>(r.chance(1, 6) ? r.range(15, 17) : r.range(7, 14));
  size_t cap = size_t(1) << bits;
  switch (r.below(5)) {
    case 0: cap += 1; break;
    case 1: cap -= 1; break;
    case 2: cap += size_t(1) << r.below(bits); break;
    case 3: cap += r.below(cap); break;
    default: cap += 1 + r.below(8); break;
  }
  g_hash_kind = static_cast<int>(r.below(3));
  c.mix(cap); c.mix(static_cast<uint64_t>(g_hash_kind));
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  MON_CHECK(rcutils_hash_map_init(&m, cap, 4, 4, wide_hash, wide_compare, &alloc) == RCUTILS_RET_OK, "hm.init", "init(%zu) failed", cap);
  size_t cap0 = 0, cap1 = 0, n = 0;
  MON_CHECK(rcutils_hash_map_get_capacity(&m, &cap0) == RCUTILS_RET_OK && cap0 >= cap, "hm.capacity", "capacity %zu for %zu", cap0, cap);
  size_t limit = 2 * cap0 + 10;
  uint32_t stride = static_cast<uint32_t>(r.chance(1, 2) ? 1 : r.range(1, 9));
  for (cap1 = cap0; cap1 == cap0 && n < limit; ) {
    for (int k = 0; k < 64; ++k, ++n) {
      uint32_t key = static_cast<uint32_t>(n) * stride, v = ~key;
      MON_CHECK(rcutils_hash_map_set(&m, &key, &v) == RCUTILS_RET_OK, "hm.set", "set failed");
    }
    MON_CHECK(rcutils_hash_map_get_capacity(&m, &cap1) == RCUTILS_RET_OK, "hm.capacity", "get_capacity failed");
  }
  size_t size = 0;
  MON_CHECK(rcutils_hash_map_get_size(&m, &size) == RCUTILS_RET_OK && size == n, "hm.size", "size is %zu, expected %zu", size, n);
  for (size_t i = 0; i < n; ++i) {
    uint32_t key = static_cast<uint32_t>(i) * stride, v = 0;
    MON_CHECK(rcutils_hash_map_get(&m, &key, &v) == RCUTILS_RET_OK && v == ~key, "hm.value", "entry %zu of %zu is wrong after growing from %zu (asked: %zu) to %zu",
      i, n, cap0, cap, cap1);
    key = static_cast<uint32_t>(n + i) * stride;
    MON_CHECK(!rcutils_hash_map_key_exists(&m, &key), "hm.exists", "key_exists of an absent key");
  }
  std::vector<bool> seen(n);
  uint32_t key = 0, v = 0;
  size_t steps = 0;
  rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &key, &v);
  for (; ret == RCUTILS_RET_OK; ret = rcutils_hash_map_get_next_key_and_data(&m, &key, &key, &v), ++steps) {
    size_t i = key / stride;
    MON_CHECK(i < n && v == ~key && !seen[i], "hm.iter-value", "iteration yields a wrong or repeated entry");
    seen[i] = true;
  }
  MON_CHECK(ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && steps == n, "hm.iter-missing", "iteration visited %zu of %zu and ended with %d", steps, n, ret);
  rcutils_reset_error();
  count(cap1 > cap0 ? "wide.grown" : "wide.filled");
  c.interesting();
  c.sample(fmt("initial capacity %zu (rounded to %zu), %zu entries, grown to %zu", cap, cap0, n, cap1));
  MON_CHECK(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "hm.fini", "fini failed");
  check_empty(A, "after fini");
}

static void reg()
{
  section("hm.model", 4000, 100000, model_case);
  section("hm.string", 1500, 40000, string_case);
  section("hm.big", 40, 800, big_case);
  section("hm.wide", 120, 1500, wide_case);
  section("hm.huge", 400, 4000, huge_case);
}
MON_MAIN(reg)
