// P12 SHA-256, P13 time point strings, P14 clocks.
#include <atomic>
#include <cmath>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <time.h>
#include "mon.hpp"
#include "rcutils/sha256.h"
#include "rcutils/time.h"

using namespace mon;

// ------------------------------------------------------------------ reference SHA-256 (whole message)
static uint32_t K[64], H0[8];
static void constants()
{
  // fractional parts of cube and square roots of the first primes
  int n = 0;
  for (int p = 2; n < 64; ++p) {
    bool prime = true;
    for (int d = 2; d * d <= p; ++d) {if (p % d == 0) {prime = false;}}
    if (!prime) {continue;}
    long double cr = cbrtl(static_cast<long double>(p)), sr = sqrtl(static_cast<long double>(p));
    K[n] = static_cast<uint32_t>((cr - floorl(cr)) * 4294967296.0L);
    if (n < 8) {H0[n] = static_cast<uint32_t>((sr - floorl(sr)) * 4294967296.0L);}
    ++n;
  }
}
static uint32_t ror(uint32_t v, int n) {return (v >> n) | (v << (32 - n));}
static std::string ref_sha(const std::string & msg)
{
  std::string m = msg;
  uint64_t bits = static_cast<uint64_t>(msg.size()) * 8;
  m += '\x80';
  while (m.size() % 64 != 56) {m += '\0';}
  for (int i = 7; i >= 0; --i) {m += static_cast<char>(bits >> (8 * i));}
  uint32_t h[8];
  memcpy(h, H0, sizeof(h));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (size_t i = 0; i < 16; ++i) {
      w[i] = 0;
      for (size_t j = 0; j < 4; ++j) {w[i] = (w[i] << 8) | static_cast<unsigned char>(m[o + 4 * i + j]);}
    }
    for (int i = 16; i < 64; ++i) {
      uint32_t s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8];
    memcpy(v, h, sizeof(v));
    for (int i = 0; i < 64; ++i) {
      uint32_t S1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25);
      uint32_t c = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + c + K[i] + w[i];
      uint32_t S0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22);
      uint32_t t2 = S0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1;
      v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) {h[i] += v[i];}
  }
  std::string out;
  for (int i = 0; i < 8; ++i) {for (int j = 3; j >= 0; --j) {out += static_cast<char>(h[i] >> (8 * j));}}
  return out;
}
static std::string hex(const std::string & s)
{
  std::string r;
  for (unsigned char c : s) {r += fmt("%02x", c);}
  return r;
}

struct Ctx
{
  // exact-size context, digest on the heap: overruns are seen
  rcutils_sha256_ctx_t * c = static_cast<rcutils_sha256_ctx_t *>(malloc(sizeof(rcutils_sha256_ctx_t)));
  Ctx() {memset(c, 0xEE, sizeof(*c)); MON_UNDEFINED(c, sizeof(*c));}
  Ctx(const Ctx &) = delete;
  ~Ctx() {free(c);}
  std::string final()
  {
    uint8_t * d = static_cast<uint8_t *>(malloc(RCUTILS_SHA256_BLOCK_SIZE));
    memset(d, 0x99, RCUTILS_SHA256_BLOCK_SIZE);
    MON_UNDEFINED(d, RCUTILS_SHA256_BLOCK_SIZE);
    rcutils_sha256_final(c, d);
    std::string r(reinterpret_cast<char *>(d), RCUTILS_SHA256_BLOCK_SIZE);
    free(d);
    return r;
  }
  void update(const std::string & s)
  {
    if (s.empty()) {
      rcutils_sha256_update(c, nullptr, 0);
      return;
    }
    Exact e(s, false);
    rcutils_sha256_update(c, reinterpret_cast<const uint8_t *>(e.p), s.size());
    MON_CHECK(memcmp(e.p, s.data(), s.size()) == 0, "sha.input", "update changed its input");
  }
};

static std::vector<std::string> chunks(Rng & r, const std::string & m)
{
  std::vector<std::string> v;
  size_t i = 0;
  int mode = static_cast<int>(r.below(6));
  while (i < m.size()) {
    size_t n;
    switch (mode) {
      case 0: n = m.size(); break;
      case 1: n = 1; break;
      case 2: n = r.pick(std::vector<size_t>{1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129}); break;
      case 3: n = r.below(4) ? 64 : r.below(64); break;
      default: n = r.size(300); break;
    }
    if (r.chance(1, 10)) {v.push_back("");}
    n = std::min(n, m.size() - i);
    v.push_back(m.substr(i, n));
    i += n;
  }
  if (r.chance(1, 4)) {v.push_back("");}
  return v;
}

static void check_digest(const std::string & got, const std::string & m, size_t nchunks)
{
  std::string want = ref_sha(m);
  MON_CHECK(got == want, "sha.digest", "digest of %zu bytes in %zu chunks is %s, expected %s", m.size(), nchunks, hex(got).c_str(), hex(want).c_str());
}

static std::string message(Rng & r)
{
  size_t n;
  switch (r.below(4)) {
    case 0: n = r.below(200); break;
    case 1: n = 64 * r.below(12) + r.pick(std::vector<size_t>{0, 1, 54, 55, 56, 57, 62, 63}); break;
    case 2: n = r.below(20); break;
    default: n = r.size(6000); break;
  }
  switch (r.below(4)) {
    case 0: return std::string(n, '\xff');
    case 1: return std::string(n, '\0');
    default: return r.bytes(n);
  }
}

static void sha_one(Case & c)
{
  Rng & r = c.rng;
  Ctx x;
  int rounds = static_cast<int>(r.range(1, 3));
  for (int k = 0; k < rounds; ++k) {
    // a used context starts afresh after init, also when the previous digest was abandoned
    std::string m = message(r);
    auto v = chunks(r, m);
    c.mix(m); c.mix(v.size());
    rcutils_sha256_init(x.c);
    for (auto & s : v) {x.update(s);}
    tr(fmt("message of %zu bytes in %zu chunks", m.size(), v.size()));
    if (k + 1 < rounds && r.chance(1, 2)) {count("sha.abandoned"); continue;}
    check_digest(x.final(), m, v.size());
    if (k) {count("sha.reused");}
    if (v.size() > 1) {c.interesting();}
    count("sha.chunks", v.size());
  }
  if (c.want_sample()) {c.sample("digest" + tail());}
}

// every length around the padding boundaries, all-at-once and split at every position of the last block
static void sha_lengths(Case & c)
{
  size_t n = c.idx;
  std::string m;
  for (size_t i = 0; i < n; ++i) {m += static_cast<char>(mix64(i + run().seed));}
  std::string want = ref_sha(m);
  size_t from = n > 130 ? n - 130 : 0;
  for (size_t cut = from; cut <= n; ++cut) {
    Ctx x;
    rcutils_sha256_init(x.c);
    x.update(m.substr(0, cut));
    x.update(m.substr(cut));
    std::string got = x.final();
    MON_CHECK(got == want, "sha.digest", "digest of %zu bytes cut at %zu is %s, expected %s", n, cut, hex(got).c_str(), hex(want).c_str());
    count("sha.cuts");
  }
  c.mix(n);
  if (n) {c.interesting();}
}

static void sha_interleaved(Case & c)
{
  Rng & r = c.rng;
  size_t n = r.range(2, 4);
  std::vector<std::unique_ptr<Ctx>> xs;
  std::vector<std::string> ms(n);
  for (size_t i = 0; i < n; ++i) {xs.emplace_back(new Ctx); rcutils_sha256_init(xs[i]->c);}
  size_t steps = r.range(4, 40);
  for (size_t k = 0; k < steps; ++k) {
    size_t i = r.below(n);
    std::string s = r.bytes(r.size(150));
    ms[i] += s;
    xs[i]->update(s);
    c.mix(s); c.mix(i);
  }
  for (size_t i = 0; i < n; ++i) {check_digest(xs[i]->final(), ms[i], 0);}
  count("sha.interleaved", n);
  c.interesting();
}

// contexts of different threads at the same time
static void sha_threads(Case & c)
{
  Rng & r = c.rng;
  const size_t n = 4, rounds = 12;
  std::vector<std::vector<std::string>> parts(n * rounds);
  for (auto & p : parts) {
    size_t k = r.range(1, 6);
    for (size_t i = 0; i < k; ++i) {p.push_back(r.bytes(r.size(2000))); c.mix(p.back());}
  }
  std::vector<std::string> digests(n * rounds);
  std::atomic<size_t> ready{0}, running{0}, overlapped{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t) {
    ts.emplace_back([&, t]() {
        ++ready;
        while (ready < n) {}
        for (size_t k = 0; k < rounds; ++k) {
          rcutils_sha256_ctx_t x;
          uint8_t out[RCUTILS_SHA256_BLOCK_SIZE];
          if (running++) {++overlapped;}
          rcutils_sha256_init(&x);
          for (auto & p : parts[t * rounds + k]) {rcutils_sha256_update(&x, reinterpret_cast<const uint8_t *>(p.data()), p.size());}
          rcutils_sha256_final(&x, out);
          --running;
          digests[t * rounds + k].assign(reinterpret_cast<char *>(out), sizeof(out));
        }
      });
  }
  for (auto & t : ts) {t.join();}
  for (size_t k = 0; k < parts.size(); ++k) {
    std::string m;
    for (auto & p : parts[k]) {m += p;}
    check_digest(digests[k], m, 0);
  }
  count("sha.threads", n);
  count("sha.overlapped", overlapped);
  c.interesting();
}

// more than 2^32 bits
static void sha_long(Case & c)
{
  static const struct {size_t n; const char * d;} known[] = {
    {(size_t(1) << 29) + 1, "7c40fe5ce847740d0f0d0cdde3949d6585804cdec3ae61a15b923165699c8137"},
    {(size_t(1) << 29) - 9, "7afa562a5f16f50ce3df43ba3a42097f6cc4a48989e32bcb3f7031bd71a24430"},
  };
  auto & k = known[c.idx % 2];
  std::string z(size_t(1) << 20, '\0');
  Ctx x;
  rcutils_sha256_init(x.c);
  size_t left = k.n;
  while (left) {
    size_t n = std::min(left, z.size());
    rcutils_sha256_update(x.c, reinterpret_cast<const uint8_t *>(z.data()), n);
    left -= n;
  }
  std::string got = hex(x.final());
  MON_CHECK(got == k.d, "sha.long", "digest of %zu zero bytes is %s", k.n, got.c_str());
  c.mix(k.n);
  c.interesting();
  count("sha.long");
}

static void sha_known(Case & c)
{
  // FIPS 180-4 examples tie the reference to the standard
  MON_CHECK(hex(ref_sha("abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha.reference", "reference is wrong");
  MON_CHECK(hex(ref_sha("")) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "sha.reference", "reference is wrong");
  MON_CHECK(hex(ref_sha("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")) ==
    "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1", "sha.reference", "reference is wrong");
  Ctx x;
  rcutils_sha256_init(x.c);
  x.update("abc");
  check_digest(x.final(), "abc", 1);
  c.interesting();
  c.mix(c.idx);
}

// ------------------------------------------------------------------ P13
typedef rcutils_ret_t (*ToString)(const rcutils_time_point_value_t *, char *, size_t);

static std::string ref_nano(int64_t t)
{
  __int128 v = t;
  bool neg = v < 0;
  if (neg) {v = -v;}
  std::string d;
  for (int i = 0; i < 19; ++i) {d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10;}
  return (neg ? "-" : "") + d;
}
static std::string ref_sec(int64_t t)
{
  std::string s = ref_nano(t);
  return s.substr(0, s.size() - 9) + "." + s.substr(s.size() - 9);
}
static std::string ref_date(int64_t t)
{
  int64_t sec = t / 1000000000, ns = t % 1000000000;
  if (ns < 0) {ns += 1000000000; --sec;}
  time_t tt = sec;
  struct tm tm;
  if (!localtime_r(&tt, &tm)) {return "?";}
  return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
           static_cast<int>(ns / 1000000));
}

static int64_t time_point(Rng & r)
{
  int64_t t;
  switch (r.below(9)) {
    case 0: t = static_cast<int64_t>(r.next()); break;
    case 1: t = static_cast<int64_t>(r.below(2000000000)); break;
    case 2: t = static_cast<int64_t>(r.below(20)) * 1000000000 + static_cast<int64_t>(r.below(1000)); break;
    case 3: t = 1700000000000000000 + static_cast<int64_t>(r.below(1000000000)); break;
    case 4: t = 1700000000000000000 + static_cast<int64_t>(r.below(1000)) * 1000000; break;    // few milliseconds
    case 5: t = INT64_MAX - static_cast<int64_t>(r.below(3)); break;
    case 6: t = INT64_MIN + static_cast<int64_t>(r.below(3)); break;
    case 7: t = static_cast<int64_t>(r.next() % 10000) - 5000; break;
    default: {
        int64_t p = 1;
        uint64_t e = r.below(19);
        while (e--) {p *= 10;}
        t = p + static_cast<int64_t>(r.below(5)) - 2;
        break;
      }
  }
  if (r.chance(1, 4) && t != INT64_MIN) {t = -t;}
  return t;
}

static void one_string(Case & c, ToString fn, const std::string & full, int64_t t, const char * name)
{
  Rng & r = c.rng;
  size_t n;
  switch (r.below(5)) {
    case 0: n = r.below(full.size() + 3); break;
    case 1: n = full.size() + 1; break;
    case 2: n = 32; break;
    case 3: n = r.below(34); break;
    default: n = 33 + r.below(300); break;
  }
  c.mix(n);
  char * b = static_cast<char *>(malloc(n ? n : 1));
  memset(b, 0x6B, n ? n : 1);
  tr(fmt("%s of %" PRId64 " into %zu bytes", name, t, n));
  const int64_t in = t;
  rcutils_ret_t ret = fn(&t, b, n);
  MON_CHECK(t == in, "time.input", "the time point was changed");
  MON_CHECK(ret == RCUTILS_RET_OK, "time.ret", "%s of %" PRId64 " into %zu bytes returned %d", name, in, n, ret);
  if (n == 0) {
    MON_CHECK(b[0] == 0x6B, "time.zero", "an empty buffer was written");
    count("time.empty");
  } else {
    size_t len = strnlen(b, n);
    MON_CHECK(len < n, "time.terminated", "%s of %" PRId64 " into %zu bytes is not terminated", name, in, n);
    std::string got(b, len), want = full.substr(0, n - 1);
    MON_CHECK(got == want, fmt("time.%s", name), "%s of %" PRId64 " into %zu bytes is %s, expected %s", name, in, n, show(got).c_str(), show(want).c_str());
    if (n <= full.size()) {count("time.cut"); c.interesting();} else {count("time.whole");}
  }
  if (in < 0) {count("time.negative");}
  free(b);
}

static void tstrings(Case & c)
{
  Rng & r = c.rng;
  int64_t t = time_point(r);
  c.mix(static_cast<uint64_t>(t));
  one_string(c, rcutils_time_point_value_as_nanoseconds_string, ref_nano(t), t, "nanoseconds");
  one_string(c, rcutils_time_point_value_as_seconds_string, ref_sec(t), t, "seconds");
  // round trip
  char b[64];
  MON_CHECK(rcutils_time_point_value_as_nanoseconds_string(&t, b, sizeof(b)) == RCUTILS_RET_OK, "time.ret", "failed");
  MON_CHECK(strtoll(b, nullptr, 10) == t, "time.roundtrip", "%s does not parse to %" PRId64, b, t);
  MON_CHECK(rcutils_time_point_value_as_seconds_string(&t, b, sizeof(b)) == RCUTILS_RET_OK, "time.ret", "failed");
  std::string s = b;
  s.erase(s.find('.'), 1);
  MON_CHECK(strtoll(s.c_str(), nullptr, 10) == t, "time.roundtrip", "%s does not parse to %" PRId64, b, t);
  c.interesting();
  if (c.want_sample()) {c.sample(fmt("%" PRId64 " -> %s", t, b));}
}

static void dates(Case & c)
{
  Rng & r = c.rng;
  static const char * zones[] = {"UTC0", "XXX-5:30", "YYY+11", "EST5EDT,M3.2.0,M11.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "ZZZ-14"};
  const char * z = zones[r.below(6)];
  setenv("TZ", z, 1);
  tzset();
  int64_t t = time_point(r);
  c.mix(static_cast<uint64_t>(t)); c.mix(std::string(z));
  one_string(c, rcutils_time_point_value_as_date_string, ref_date(t), t, "date");
  c.interesting();
  if (c.want_sample()) {c.sample(fmt("%" PRId64 " in %s -> ", t, z) + ref_date(t));}
}

// ------------------------------------------------------------------ P14
static thread_local struct {bool on; int err; struct timespec ts; clockid_t only; int calls;} inj;

extern "C" int __real_clock_gettime(clockid_t id, struct timespec * ts);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (inj.on) {
    inj.calls++;
    if (inj.err) {errno = inj.err; return -1;}
    *ts = inj.ts;
    return 0;
  }
  return __real_clock_gettime(id, ts);
}

static int64_t real(clockid_t id)
{
  struct timespec ts;
  __real_clock_gettime(id, &ts);
  return static_cast<int64_t>(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}

static void clock_exact(Case & c)
{
  Rng & r = c.rng;
  for (int k = 0; k < 2; ++k) {
    auto fn = k ? rcutils_steady_time_now : rcutils_system_time_now;
    const char * name = k ? "steady" : "system";
    inj = {};
    inj.on = true;
    switch (r.below(4)) {
      case 0: inj.ts.tv_sec = static_cast<time_t>(r.below(9223372036ull)); break;
      case 1: inj.ts.tv_sec = static_cast<time_t>(r.below(3)); break;
      case 2: inj.ts.tv_sec = 4294967295ll + static_cast<time_t>(r.below(3)) - 1; break;
      default: inj.ts.tv_sec = 1700000000 + static_cast<time_t>(r.below(100000000)); break;
    }
    inj.ts.tv_nsec = static_cast<long>(r.chance(1, 4) ? 999999999 - r.below(2) : r.below(1000000000));
    if (r.chance(1, 6)) {inj.ts.tv_nsec = static_cast<long>(r.below(2));}
    int64_t want = static_cast<int64_t>(inj.ts.tv_sec) * 1000000000 + inj.ts.tv_nsec;
    c.mix(static_cast<uint64_t>(want));
    rcutils_time_point_value_t v = -77;
    rcutils_ret_t ret = fn(&v);
    int calls = inj.calls;
    inj.on = false;
    MON_CHECK(calls >= 1, "clock.source", "%s time does not come from clock_gettime", name);
    MON_CHECK(ret == RCUTILS_RET_OK && v == want, "clock.exact", "%s time is %" PRId64 " (ret %d), the clock said %lld.%09ld", name, v, ret,
      static_cast<long long>(inj.ts.tv_sec), inj.ts.tv_nsec);
    MON_CHECK(!rcutils_error_is_set(), "clock.error-set", "an error is set after success");
    count("clock.injected");
    c.interesting();
    // failures
    inj = {};
    inj.on = true;
    bool fail = r.chance(1, 2);
    if (fail) {
      inj.err = r.chance(1, 2) ? EINVAL : EFAULT;
      inj.ts.tv_sec = 5;
    } else {
      inj.ts.tv_sec = r.chance(1, 2) ? -1 - static_cast<time_t>(r.below(1000)) : 0;
      inj.ts.tv_nsec = inj.ts.tv_sec ? static_cast<long>(r.below(1000000000)) : -1 - static_cast<long>(r.below(1000));
      if (r.chance(1, 10)) {inj.ts.tv_sec = INT64_MIN / 1000000000 - 5; inj.ts.tv_nsec = 0;}
    }
    ret = fn(&v);
    inj.on = false;
    MON_CHECK(ret != RCUTILS_RET_OK, "clock.fail-silent", "%s time reports success although the clock %s", name, fail ? "failed" : "is negative");
    MON_CHECK(ret == RCUTILS_RET_ERROR, "clock.fail-code", "%s time reports %d", name, ret);
    MON_CHECK(rcutils_error_is_set(), "clock.no-message", "no error message");
    rcutils_reset_error();
    count(fail ? "clock.failed" : "clock.negative");
    MON_CHECK(fn(nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "clock.null", "NULL accepted");
    rcutils_reset_error();
  }
}

static void clock_real(Case & c)
{
  // bracketed by the operating system's clocks; a clock step between the readings is retried
  for (int k = 0; k < 2; ++k) {
    clockid_t id = k ? CLOCK_MONOTONIC : CLOCK_REALTIME;
    bool good = false;
    int64_t a = 0, b = 0;
    rcutils_time_point_value_t v = 0;
    for (int tries = 0; tries < 20 && !good; ++tries) {
      a = real(id);
      rcutils_ret_t ret = k ? rcutils_steady_time_now(&v) : rcutils_system_time_now(&v);
      b = real(id);
      MON_CHECK(ret == RCUTILS_RET_OK, "clock.ret", "failed");
      good = a <= v && v <= b;
    }
    MON_CHECK(good, "clock.bracket", "%s time %" PRId64 " is not between %" PRId64 " and %" PRId64, k ? "steady" : "system", v, a, b);
    count("clock.bracketed");
  }
  rcutils_time_point_value_t prev = 0, now = 0;
  for (int i = 0; i < 200; ++i) {
    MON_CHECK(rcutils_steady_time_now(&now) == RCUTILS_RET_OK && now >= prev, "clock.backwards", "steady time went from %" PRId64 " to %" PRId64, prev, now);
    prev = now;
  }
  count("clock.steady-readings", 200);
  c.mix(c.idx);
  c.interesting();
}

static void clock_threads(Case & c)
{
  // readings ordered by a mutex never go backwards, whichever thread takes them
  std::mutex mu;
  int64_t last = 0;
  unsigned last_thread = 99;
  uint64_t handovers = 0, readings = 0;
  bool bad = false;
  int64_t was = 0, is = 0;
  auto body = [&](unsigned me) {
      for (int i = 0; i < 400; ++i) {
        std::lock_guard<std::mutex> g(mu);
        rcutils_time_point_value_t v = 0;
        if (rcutils_steady_time_now(&v) != RCUTILS_RET_OK || v < last) {bad = true; was = last; is = v;}
        last = v;
        readings++;
        if (last_thread != me) {handovers++; last_thread = me;}
      }
    };
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < 4; ++i) {ts.emplace_back(body, i);}
  for (auto & t : ts) {t.join();}
  MON_CHECK(!bad, "clock.backwards", "steady time went from %" PRId64 " to %" PRId64 " across threads", was, is);
  count("clock.thread-handovers", handovers);
  count("clock.thread-readings", readings);
  c.mix(handovers);
  c.interesting();
}

static void clock_race(Case & c)
{
  // unsynchronized readers, each under a scripted clock of its own: every reading is exactly what that reader's clock said
  Rng & r = c.rng;
  unsigned n = 2 + static_cast<unsigned>(r.below(4));
  uint64_t base = r.next();
  c.mix(base);
  std::atomic<unsigned> ready{0};
  std::atomic<uint64_t> readings{0}, order{0}, switches{0};
  std::mutex mu;
  std::string bad;
  bool scripted = r.chance(3, 4);
  auto body = [&](unsigned me) {
      Rng q(base + me * 7919);
      ready++;
      while (ready.load() < n) {}
      int64_t last = 0;
      for (int i = 0; i < 300; ++i) {
        bool steady = q.chance(1, 2);
        inj = {};
        inj.on = scripted;
        inj.ts.tv_sec = static_cast<time_t>(q.below(2000000000));
        inj.ts.tv_nsec = static_cast<long>(q.below(1000000000));
        bool fail = scripted && q.chance(1, 10);
        inj.err = fail ? EINVAL : 0;
        int64_t want = static_cast<int64_t>(inj.ts.tv_sec) * 1000000000 + inj.ts.tv_nsec;
        int64_t before = scripted ? 0 : real(steady ? CLOCK_MONOTONIC : CLOCK_REALTIME);
        rcutils_time_point_value_t v = -77;
        rcutils_ret_t ret = (steady ? rcutils_steady_time_now : rcutils_system_time_now)(&v);
        inj.on = false;
        bool ok = ret == (fail ? RCUTILS_RET_ERROR : RCUTILS_RET_OK);
        if (scripted) {ok = ok && (fail || v == want);}
        else if (steady) {
          int64_t after = real(CLOCK_MONOTONIC);
          ok = ok && before <= v && v <= after && last <= v;
          last = v;
        }
        if (fail) {rcutils_reset_error();}
        if (!ok) {
          std::lock_guard<std::mutex> g(mu);
          bad = fmt("thread %u: %s time %" PRId64 " (ret %d), its clock said %" PRId64 "%s", me, steady ? "steady" : "system", v, ret, want,
              scripted ? (fail ? " (failing)" : "") : " (real)");
        }
        char b[64];
        std::string t;
        switch (q.below(3)) {
          case 0: rcutils_time_point_value_as_nanoseconds_string(&want, b, sizeof(b)); t = ref_nano(want); break;
          case 1: rcutils_time_point_value_as_seconds_string(&want, b, sizeof(b)); t = ref_sec(want); break;
          default: b[0] = 0; break;
        }
        if (t != b) {
          std::lock_guard<std::mutex> g(mu);
          bad = fmt("thread %u: %" PRId64 " rendered as %s", me, want, b);
        }
        readings++;
        if (order.exchange(me, std::memory_order_relaxed) != me) {switches++;}
      }
    };
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; ++i) {ts.emplace_back(body, i);}
  for (auto & t : ts) {t.join();}
  MON_CHECK(bad.empty(), "clock.concurrent", "%s", bad.c_str());
  count("clock.concurrent-readings", readings);
  count("clock.concurrent-switches", switches);
  c.mix(switches.load());
  if (switches > n) {c.interesting();}
}

static void reg()
{
  constants();
  section("sha-known", 8, 8, sha_known);
  section("sha", 8000, 150000, sha_one);
  section("sha-lengths", 320, 1200, sha_lengths);
  section("sha-interleaved", 1500, 30000, sha_interleaved);
  section("sha-threads", 120, 3000, sha_threads);
  section("sha-long", 1, 2, sha_long);
  section("strings", 20000, 400000, tstrings);
  section("dates", 20000, 400000, dates);
  section("clock", 10000, 200000, clock_exact);
  section("clock-real", 400, 4000, clock_real);
  section("clock-threads", 16, 200, clock_threads);
  section("clock-race", 80, 1500, clock_race);
}
MON_MAIN(reg)
