// P34: the atomic helpers, one table of operations per way of compiling them (platform <stdatomic.h>, bundled replacement).
#include <algorithm>
#include <atomic>
#include <thread>
#include "mon.hpp"
#include "aux/atom_ops.h"

using namespace mon;
extern "C" const struct atom_ops atom_ops_native, atom_ops_compat, atom_ops_gnu;
static const struct atom_ops * const OPS[] = {&atom_ops_native, &atom_ops_compat, &atom_ops_gnu};
static const struct atom_ops & pick(Case & c)
{
  const struct atom_ops * o = OPS[c.rng.below(3)];
  c.mix(std::string(o->name));
  count(fmt("atom.%s", o->name));
  return *o;
}
static uint64_t value(Rng & r)
{
  switch (r.below(5)) {
    case 0: return r.below(3);
    case 1: return UINT64_MAX - r.below(3);
    case 2: return (1ull << r.below(64)) - r.below(2);
    case 3: return 0x8000000000000000ull - 1 + r.below(3);
    default: return r.next();
  }
}

// a start gate, so that all threads run at once
struct Gate
{
  std::atomic<unsigned> here{0};
  unsigned n;
  explicit Gate(unsigned k) : n(k) {}
  void pass() {here++; while (here.load() < n) {}}
};
template<class F>
static void run(unsigned n, F f)
{
  Gate g(n);
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; ++i) {ts.emplace_back([&, i] {g.pass(); f(i);});}
  for (auto & t : ts) {t.join();}
}

static void sequential(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  // neighbours on both sides show writes beyond the object
  struct {uint64_t a, u64, b; int64_t i64; uint64_t d; uintptr_t p; uint64_t e; int i, i2; bool b0, b1, b2;} m;
  memset(&m, 0x5A, sizeof(m));
  uint64_t u64 = value(r); int64_t i64 = static_cast<int64_t>(value(r)); uintptr_t p = value(r); int i = static_cast<int>(value(r)); bool b = r.chance(1, 2);
  m.b0 = false; m.b2 = true;
  o.store_u64(&m.u64, u64); o.store_i64(&m.i64, i64); o.store_ptr(&m.p, p); o.store_int(&m.i, i); o.store_bool(&m.b1, b);
  unsigned n = 5 + static_cast<unsigned>(r.below(40));
  for (unsigned k = 0; k < n; ++k) {
    uint64_t v = value(r);
    unsigned op = static_cast<unsigned>(r.below(14));
    c.mix(op); c.mix(v);
    tr(fmt("op %u value %" PRIx64, op, v));
    switch (op) {
      case 0: o.store_u64(&m.u64, v); u64 = v; break;
      case 1: {uint64_t w = o.xchg_u64(&m.u64, v); MON_CHECK(w == u64, "atom.xchg", "%s: exchange returned %" PRIx64 ", not %" PRIx64, o.name, w, u64); u64 = v; break;}
      case 2: {uint64_t w = o.add_u64(&m.u64, v); MON_CHECK(w == u64, "atom.add", "%s: fetch-add returned %" PRIx64 ", not %" PRIx64, o.name, w, u64); u64 += v; break;}
      case 3: {
          uint64_t e = r.chance(1, 2) ? u64 : r.chance(1, 2) ? u64 ^ (1ull << r.below(64)) : value(r), was = e;
          bool ok = o.cas_u64(&m.u64, &e, v);
          MON_CHECK(ok == (was == u64), "atom.cas", "%s: compare-exchange of %" PRIx64 " expecting %" PRIx64 " returned %d", o.name, u64, was, ok);
          MON_CHECK(e == u64, "atom.cas-expected", "%s: compare-exchange left %" PRIx64 " as the value seen, it was %" PRIx64, o.name, e, u64);
          if (ok) {u64 = v; count("atom.cas-won");} else {count("atom.cas-lost");}
          break;
        }
      case 4: o.store_i64(&m.i64, static_cast<int64_t>(v)); i64 = static_cast<int64_t>(v); break;
      case 5: {int64_t w = o.xchg_i64(&m.i64, static_cast<int64_t>(v)); MON_CHECK(w == i64, "atom.xchg", "%s: int64 exchange returned %" PRIx64, o.name, w); i64 = static_cast<int64_t>(v); break;}
      case 6: {int64_t w = o.add_i64(&m.i64, static_cast<int64_t>(v)); MON_CHECK(w == i64, "atom.add", "%s: int64 fetch-add returned %" PRIx64, o.name, w);
          i64 = static_cast<int64_t>(static_cast<uint64_t>(i64) + v); break;}
      case 7: {int64_t e = r.chance(1, 2) ? i64 : static_cast<int64_t>(value(r)), was = e;
          bool ok = o.cas_i64(&m.i64, &e, static_cast<int64_t>(v));
          MON_CHECK(ok == (was == i64) && e == i64, "atom.cas", "%s: int64 compare-exchange", o.name);
          if (ok) {i64 = static_cast<int64_t>(v);} break;}
      case 8: o.store_ptr(&m.p, v); p = v; break;
      case 9: {uintptr_t w = o.xchg_ptr(&m.p, v); MON_CHECK(w == p, "atom.xchg", "%s: pointer exchange returned %" PRIxPTR, o.name, w); p = v; break;}
      case 10: {bool w = o.xchg_bool(&m.b1, v & 1); MON_CHECK(w == b, "atom.xchg", "%s: bool exchange returned %d", o.name, w); b = v & 1; break;}
      case 11: o.store_bool(&m.b1, v & 1); b = v & 1; break;
      case 12: {int w = o.xchg_int(&m.i, static_cast<int>(v)); MON_CHECK(w == i, "atom.xchg", "%s: int exchange returned %d", o.name, w); i = static_cast<int>(v);
          w = o.add_int(&m.i, 1); MON_CHECK(w == i, "atom.add", "%s: int fetch-add returned %d", o.name, w); i = static_cast<int>(static_cast<unsigned>(i) + 1); break;}
      default: {int e = r.chance(1, 2) ? i : static_cast<int>(value(r)), was = e;
          bool ok = o.cas_int(&m.i, &e, static_cast<int>(v)); MON_CHECK(ok == (was == i) && e == i, "atom.cas", "%s: int compare-exchange", o.name);
          if (ok) {i = static_cast<int>(v);} break;}
    }
    MON_CHECK(o.load_u64(&m.u64) == u64, "atom.load", "%s: uint64 reads %" PRIx64 ", not %" PRIx64, o.name, o.load_u64(&m.u64), u64);
    MON_CHECK(o.load_i64(&m.i64) == i64, "atom.load", "%s: int64 reads %" PRIx64 ", not %" PRIx64, o.name, o.load_i64(&m.i64), i64);
    MON_CHECK(o.load_ptr(&m.p) == p, "atom.load", "%s: pointer-size reads %" PRIxPTR ", not %" PRIxPTR, o.name, o.load_ptr(&m.p), p);
    MON_CHECK(o.load_bool(&m.b1) == b, "atom.load", "%s: bool reads %d", o.name, o.load_bool(&m.b1));
    MON_CHECK(o.load_int(&m.i) == i, "atom.load", "%s: int reads %d", o.name, o.load_int(&m.i));
    const uint64_t g = 0x5A5A5A5A5A5A5A5Aull;
    MON_CHECK(m.a == g && m.b == g && m.d == g && m.e == g && m.i2 == 0x5A5A5A5A && !m.b0 && m.b2, "atom.neighbour", "%s: a neighbour was written", o.name);
    count("atom.steps");
  }
  int ev = o.evaluations();
  MON_CHECK(ev == 0, "atom.evaluations", "%s: %d macros evaluate an argument other than once, or compute wrongly", o.name, ev);
  c.interesting();
}

// every fetch-add gets its own place in one total order
static void counting(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  unsigned n = 2 + static_cast<unsigned>(r.below(6)), each = 50 + static_cast<unsigned>(r.below(400));
  uint64_t base = r.next(), start = value(r);
  uint64_t var = 0;
  o.store_u64(&var, start);
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> log(n);
  std::vector<uint64_t> backward(n);
  run(n, [&](unsigned me) {
      Rng q(base + me * 31);
      uint64_t last = 0;
      log[me].reserve(each);
      for (unsigned k = 0; k < each; ++k) {
        uint64_t a = 1 + q.below(1000);
        uint64_t w = o.add_u64(&var, a) - start;
        log[me].emplace_back(w, a);
        uint64_t now = o.load_u64(&var) - start;
        if (w < last || now < w + a) {backward[me]++;}
        last = w + a;
      }
    });
  std::vector<std::pair<uint64_t, uint64_t>> all;
  std::vector<std::pair<uint64_t, unsigned>> who;
  for (unsigned i = 0; i < n; ++i) {
    MON_CHECK(backward[i] == 0, "atom.backward", "%s: a thread saw a counter that is only added to go backwards", o.name);
    all.insert(all.end(), log[i].begin(), log[i].end());
    for (auto & e : log[i]) {who.emplace_back(e.first, i);}
  }
  std::sort(all.begin(), all.end());
  std::sort(who.begin(), who.end());
  uint64_t at = 0, sw = 0;
  for (auto & e : all) {
    MON_CHECK(e.first == at, "atom.add-order", "%s: %u threads: no fetch-add, or several, saw the counter at +%" PRIu64 " (next seen +%" PRIu64 ")", o.name, n, at, e.first);
    at += e.second;
  }
  MON_CHECK(o.load_u64(&var) - start == at, "atom.add-sum", "%s: the counter ends at +%" PRIu64 ", the sum is %" PRIu64, o.name, o.load_u64(&var) - start, at);
  for (size_t k = 1; k < who.size(); ++k) {sw += who[k].second != who[k - 1].second; c.mix(who[k].second);}
  count("atom.adds", all.size());
  count("atom.switches", sw);
  if (sw >= n) {c.interesting();}
}

// values put in by exchange come out exactly once
static void exchanging(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  unsigned n = 2 + static_cast<unsigned>(r.below(6)), each = 50 + static_cast<unsigned>(r.below(400));
  unsigned type = static_cast<unsigned>(r.below(3));
  uint64_t var = 0;
  auto put = [&](uint64_t v) -> uint64_t {
      return type == 0 ? o.xchg_u64(&var, v) : type == 1 ? static_cast<uint64_t>(o.xchg_i64(&var, static_cast<int64_t>(v))) : o.xchg_ptr(&var, v);
    };
  auto tag = [&](unsigned me, unsigned k) {return (static_cast<uint64_t>(me + 1) << 40) * 0x1001 + k;};
  put(7);
  std::vector<std::vector<uint64_t>> got(n);
  run(n, [&](unsigned me) {
      got[me].reserve(each);
      for (unsigned k = 0; k < each; ++k) {got[me].push_back(put(tag(me, k)));}
    });
  std::vector<uint64_t> in{7}, out;
  uint64_t sw = 0;
  for (unsigned i = 0; i < n; ++i) {
    for (unsigned k = 0; k < each; ++k) {
      in.push_back(tag(i, k));
      out.push_back(got[i][k]);
      if (got[i][k] / ((1ull << 40) * 0x1001) != i + 1) {sw++;}
    }
  }
  out.push_back(put(0));
  std::sort(in.begin(), in.end());
  std::sort(out.begin(), out.end());
  MON_CHECK(in == out, "atom.xchg-once", "%s: %u threads exchanging values of type %u: the values taken out are not the ones put in", o.name, n, type);
  count("atom.exchanges", out.size());
  count("atom.switches", sw);
  c.mix(sw); c.mix(n); c.mix(each);
  if (sw >= n) {c.interesting();}
}

// locks made of the helpers protect plain data (ThreadSanitizer sees the ordering they provide)
static void locking(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  unsigned n = 2 + static_cast<unsigned>(r.below(4)), each = 30 + static_cast<unsigned>(r.below(150));
  unsigned kind = static_cast<unsigned>(r.below(5));
  uint64_t word = 0;
  bool flag = false;
  int iword = 0;
  uint64_t ticket = 0, serving = 0;
  o.store_u64(&word, 0); o.store_bool(&flag, false); o.store_int(&iword, 0);
  o.store_u64(&ticket, 0); o.store_u64(&serving, 0);
  uint64_t plain = 0, inside = 0, overlap = 0, sw = 0, lastme = n;
  run(n, [&](unsigned me) {
      for (unsigned k = 0; k < each; ++k) {
        uint64_t mine = 0;
        switch (kind) {
          case 0: while (o.xchg_bool(&flag, true)) {std::this_thread::yield();} break;
          case 1: {uint64_t e = 0; while (!o.cas_u64(&word, &e, me + 1)) {e = 0; std::this_thread::yield();} break;}
          case 2: while (o.xchg_u64(&word, 1)) {std::this_thread::yield();} break;
          case 3: {int e = 0; while (!o.cas_int(&iword, &e, 1)) {e = 0; std::this_thread::yield();} break;}
          default: mine = o.add_u64(&ticket, 1); while (o.load_u64(&serving) != mine) {std::this_thread::yield();} break;
        }
        if (inside++ != 0) {overlap++;}
        plain++;
        if (lastme != me) {sw++; lastme = me;}
        inside--;
        switch (kind) {
          case 0: o.store_bool(&flag, false); break;
          case 1: {uint64_t e = me + 1; if (!o.cas_u64(&word, &e, 0)) {overlap++;} break;}
          case 2: o.store_u64(&word, 0); break;
          case 3: o.store_int(&iword, 0); break;
          default: o.store_u64(&serving, mine + 1); break;
        }
      }
    });
  MON_CHECK(plain == static_cast<uint64_t>(n) * each && overlap == 0, "atom.lock", "%s: lock kind %u: %" PRIu64 " of %u updates survived, %" PRIu64 " overlaps",
    o.name, kind, plain, n * each, overlap);
  count(fmt("atom.lock%u", kind));
  count("atom.switches", sw);
  c.mix(sw); c.mix(kind); c.mix(n * 1000 + each);
  if (sw >= n) {c.interesting();}
}

// what is written before a store is seen by whoever reads the stored value
static void publishing(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  unsigned type = static_cast<unsigned>(r.below(6)), rounds = 50 + static_cast<unsigned>(r.below(100));
  struct alignas(64) Line {uint64_t v; char pad[56];} there[2] = {}, data = {};
  auto set = [&](void * p, uint64_t v) {
      switch (type) {
        case 0: o.store_u64(p, v); break;
        case 1: o.store_i64(p, static_cast<int64_t>(v)); break;
        case 2: o.store_ptr(p, v); break;
        case 3: o.xchg_u64(p, v); break;
        case 4: o.add_u64(p, 1); break;
        default: o.store_int(p, static_cast<int>(v)); break;
      }
    };
  auto get = [&](void * p) -> uint64_t {
      switch (type) {
        case 0: return o.load_u64(p);
        case 1: return static_cast<uint64_t>(o.load_i64(p));
        case 2: return o.load_ptr(p);
        case 3: {uint64_t e = UINT64_MAX; o.cas_u64(p, &e, 0); return e;}
        case 4: return o.add_u64(p, 0);
        default: return static_cast<uint64_t>(o.load_int(p));
      }
    };
  uint64_t bad = 0;
  // ping-pong: thread 0 writes odd rounds' data, thread 1 the even ones
  run(2, [&](unsigned me) {
      for (unsigned k = 1; k <= rounds; ++k) {
        if (me == 0) {
          data.v = k * 3 + 1;
          set(&there[0], k);
          while (get(&there[1]) < k) {std::this_thread::yield();}
          if (data.v != k * 5 + 2) {bad++;}
        } else {
          while (get(&there[0]) < k) {std::this_thread::yield();}
          if (data.v != k * 3 + 1) {bad++;}
          data.v = k * 5 + 2;
          set(&there[1], k);
        }
      }
    });
  MON_CHECK(bad == 0, "atom.publish", "%s: type %u: %" PRIu64 " of %u hand-overs showed old data", o.name, type, bad, rounds);
  count(fmt("atom.publish%u", type));
  c.mix(type); c.mix(rounds);
  c.interesting();
}

// sequential consistency: of two threads that each write one variable and then read the other, one sees the other's write
static void dekker(Case & c)
{
  Rng & r = c.rng;
  const auto & o = pick(c);
  unsigned type = static_cast<unsigned>(r.below(6)), rounds = 3000;
  struct alignas(64) Line {uint64_t v; char pad[56];};
  std::vector<Line> x(rounds), y(rounds);
  std::vector<uint8_t> seen[2] = {std::vector<uint8_t>(rounds), std::vector<uint8_t>(rounds)};
  memset(static_cast<void *>(x.data()), 0, rounds * sizeof(Line));
  memset(static_cast<void *>(y.data()), 0, rounds * sizeof(Line));
  std::atomic<unsigned> arrived[2] = {{0}, {0}};
  auto step = [&](void * mine, void * other) -> bool {
      switch (type) {
        case 0: o.store_u64(mine, 1); return o.load_u64(other) != 0;
        case 1: o.store_i64(mine, 1); return o.load_i64(other) != 0;
        case 2: o.store_ptr(mine, 1); return o.load_ptr(other) != 0;
        case 3: o.store_bool(mine, true); return o.load_bool(other);
        case 4: o.store_int(mine, 1); return o.load_int(other) != 0;
        default: o.xchg_u64(mine, 1); return o.load_u64(other) != 0;
      }
    };
  run(2, [&](unsigned me) {
      for (unsigned k = 0; k < rounds; ++k) {
        arrived[me].store(k + 1, std::memory_order_relaxed);
        for (unsigned spin = 0; arrived[1 - me].load(std::memory_order_relaxed) < k + 1; ++spin) {
          if (spin > 20000) {std::this_thread::yield();}
        }
        seen[me][k] = me ? step(&y[k], &x[k]) : step(&x[k], &y[k]);
      }
    });
  uint64_t outcomes[4] = {0, 0, 0, 0};
  for (unsigned k = 0; k < rounds; ++k) {outcomes[seen[0][k] * 2 + seen[1][k]]++;}
  MON_CHECK(outcomes[0] == 0, "atom.sequential", "%s: type %u: %" PRIu64 " of %u times both threads missed the other's write", o.name, type, outcomes[0], rounds);
  count("atom.both-seen", outcomes[3]);
  count("atom.first-seen", outcomes[1]);
  count("atom.second-seen", outcomes[2]);
  c.mix(type); c.mix(outcomes[3]); c.mix(outcomes[1]);
  if (outcomes[3] && (outcomes[1] || outcomes[2])) {c.interesting();}
}

static void reg()
{
  section("atom-seq", 4000, 60000, sequential);
  section("atom-count", 150, 3000, counting);
  section("atom-exchange", 150, 3000, exchanging);
  section("atom-lock", 150, 3000, locking);
  section("atom-publish", 150, 3000, publishing);
  section("atom-dekker", 60, 1500, dekker);
}
MON_MAIN(reg)
