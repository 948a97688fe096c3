// Shared runtime-monitoring support for the rcutils harnesses.
//
// A harness defines sections (named families of generated cases).  A case is a deterministic
// function of (VERIF_SEED, section, index).  Oracles are evaluated while the real library runs;
// a failed oracle is recorded as a violation with a stable key and the case that replays it.
#ifndef MON_HPP_
#define MON_HPP_

#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/types/rcutils_ret.h"

// Under memcheck, memory handed out by the checking allocator counts as never written.
#ifdef MON_MEMCHECK
#include <valgrind/memcheck.h>
#define MON_UNDEFINED(p, n) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#else
#define MON_UNDEFINED(p, n) (void)0
#endif

namespace mon
{

// ---------------------------------------------------------------- random numbers
inline uint64_t mix64(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const char * s, size_t n, uint64_t h = 1469598103934665603ull)
{
  for (size_t i = 0; i < n; ++i) {h = (h ^ static_cast<unsigned char>(s[i])) * 1099511628211ull;}
  return mix64(h);
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {s += 0x9E3779B97F4A7C15ull; return mix64(s);}
  // uniform in [0, n)
  uint64_t below(uint64_t n) {return n ? next() % n : 0;}
  // uniform in [lo, hi]
  uint64_t range(uint64_t lo, uint64_t hi) {return lo + below(hi - lo + 1);}
  bool chance(unsigned num, unsigned den) {return below(den) < num;}
  template<class T> const T & pick(const std::vector<T> & v) {return v[below(v.size())];}
  // Sizes that like boundaries: mostly small, sometimes around powers of two.
  size_t size(size_t max)
  {
    switch (below(4)) {
      case 0: return below(std::min<size_t>(max, 4) + 1);
      case 1: return below(std::min<size_t>(max, 20) + 1);
      case 2: {
          unsigned top = 1;
          while ((max >> top) != 0) {++top;}
          size_t p = size_t(1) << below(top + 1);
          size_t v = p + below(5);
          v = v >= 2 ? v - 2 : v;
          return std::min(v, max);
        }
      default: return below(max + 1);
    }
  }
  std::string bytes(size_t n)
  {
    std::string r(n, '\0');
    for (auto & c : r) {c = static_cast<char>(next());}
    return r;
  }
  // a C string (no NUL) over an alphabet
  std::string str(size_t n, const char * alphabet)
  {
    size_t k = strlen(alphabet);
    std::string r(n, ' ');
    for (auto & c : r) {c = alphabet[below(k)];}
    return r;
  }
  // any bytes but NUL
  std::string cstr(size_t n)
  {
    std::string r(n, ' ');
    for (auto & c : r) {c = static_cast<char>(1 + below(255));}
    return r;
  }
};

// ---------------------------------------------------------------- run state
struct Violation {std::string key, msg, section; uint64_t idx;};

struct CaseFailed {};

struct Run
{
  uint64_t seed = 1;
  unsigned shard = 0, nshards = 1;
  bool thorough = false;
  std::string only_section;
  int64_t only_idx = -1;
  double scale = 1.0;
  std::string out;
  std::string scratch;          // private scratch directory of this shard

  std::mutex mu;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> section_cases;
  std::vector<std::string> samples;
  std::map<std::string, unsigned> samples_per_section;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, unsigned> violations_per_key;
  uint64_t evaluations = 0;
  uint64_t nontrivial = 0;

  std::string cur_section;
  uint64_t cur_idx = 0;
  char * progress = nullptr;    // mmap'ed: survives a crash
};

inline Run & run()
{
  static Run r;
  return r;
}

inline std::string vfmt(const char * f, va_list ap)
{
  char buf[4096];
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(buf, sizeof(buf), f, ap2);
  va_end(ap2);
  return std::string(buf, n < 0 ? 0 : std::min<size_t>(static_cast<size_t>(n), sizeof(buf) - 1));
}

__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}

// Printable rendering of arbitrary bytes.
inline std::string show(const std::string & s, size_t max = 160)
{
  std::string r = "\"";
  size_t n = std::min(s.size(), max);
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') {r += '\\'; r += static_cast<char>(c);} else if (c >= 32 && c < 127) {
      r += static_cast<char>(c);
    } else {r += fmt("\\x%02x", c);}
  }
  r += "\"";
  if (s.size() > max) {r += fmt("...(%zu bytes)", s.size());}
  return r;
}
inline std::string show(const char * s) {return s ? show(std::string(s)) : std::string("NULL");}

// A lightweight log of what the current case has done so far (only the tail is kept).
inline std::vector<std::string> & trace()
{
  static std::vector<std::string> t;
  return t;
}
inline void tr(std::string s)
{
  auto & t = trace();
  if (t.size() >= 400) {t.erase(t.begin(), t.begin() + 200);}
  t.push_back(std::move(s));
}

inline void record_violation(const std::string & key, const std::string & msg)
{
  Run & r = run();
#ifdef MON_MEMCHECK
  // Only memcheck judges here: a wrong result is what another property's check reports.
  {
    std::lock_guard<std::mutex> g(r.mu);
    r.counters["judged-elsewhere"] += 1;
  }
  fprintf(stderr, "wrong result, judged elsewhere: %s: %s\n", key.c_str(), msg.c_str());
  return;
#endif
  std::lock_guard<std::mutex> g(r.mu);
  if (r.violations_per_key[key]++ < 3) {
    r.violations.push_back({key, msg, r.cur_section, r.cur_idx});
    fprintf(stderr, "MON-VIOLATION key=%s section=%s idx=%" PRIu64 ": %s\n", key.c_str(),
      r.cur_section.c_str(), r.cur_idx, msg.c_str());
  }
}

// Violations noticed inside callbacks (allocator, output handler) are stored and raised by raise().
struct Pending
{
  std::mutex mu;
  std::vector<std::pair<std::string, std::string>> v;
};
inline Pending & pending() {static Pending p; return p;}
inline void note(const std::string & key, const std::string & msg)
{
  std::lock_guard<std::mutex> g(pending().mu);
  if (pending().v.size() < 20) {pending().v.push_back({key, msg});}
}

inline std::string tail()
{
  std::string r;
  auto & t = trace();
  size_t from = t.size() > 25 ? t.size() - 25 : 0;
  for (size_t i = from; i < t.size(); ++i) {r += (i == from ? " | trace: " : "; ") + t[i];}
  return r;
}

[[noreturn]] inline void fail(const std::string & key, const std::string & msg)
{
  record_violation(key, msg + tail());
  throw CaseFailed();
}

inline void raise()
{
  std::vector<std::pair<std::string, std::string>> v;
  {
    std::lock_guard<std::mutex> g(pending().mu);
    v.swap(pending().v);
  }
  if (!v.empty()) {
    for (size_t i = 1; i < v.size(); ++i) {record_violation(v[i].first, v[i].second + tail());}
    fail(v[0].first, v[0].second);
  }
}

#define MON_CHECK(cond, key, ...) \
  do { \
    ::mon::raise(); \
    if (!(cond)) {::mon::fail((key), ::mon::fmt(__VA_ARGS__));} \
  } while (0)

inline void count(const std::string & name, uint64_t n = 1)
{
  Run & r = run();
  std::lock_guard<std::mutex> g(r.mu);
  r.counters[name] += n;
}

struct Case
{
  uint64_t idx;
  bool thorough;
  Rng rng;
  uint64_t h;
  bool nontrivial = false;
  explicit Case(uint64_t i, uint64_t seed) : idx(i), thorough(run().thorough), rng(seed), h(seed ? 7 : 7) {}
  // Describe the case content (for counting distinct cases).
  void mix(uint64_t v) {h = mix64(h ^ v);}
  void mix(const std::string & s) {h = mix64(h ^ hash_str(s.data(), s.size()));}
  void interesting() {nontrivial = true;}
  bool want_sample()
  {
    Run & r = run();
    return r.samples_per_section[r.cur_section] < 2 && r.samples.size() < 40;
  }
  void sample(const std::string & s)
  {
    Run & r = run();
    if (want_sample()) {
      r.samples_per_section[r.cur_section]++;
      r.samples.push_back(r.cur_section + "#" + std::to_string(idx) + ": " + s.substr(0, 700));
    }
  }
};

struct Section
{
  std::string name;
  uint64_t quick, thorough;
  std::function<void(Case &)> fn;
};
inline std::vector<Section> & sections() {static std::vector<Section> s; return s;}
inline void section(const char * name, uint64_t quick, uint64_t thorough, std::function<void(Case &)> fn)
{
  sections().push_back({name, quick, thorough, std::move(fn)});
}

// ---------------------------------------------------------------- checking allocator
struct CkAlloc;
struct Block {size_t size; CkAlloc * owner; uint64_t serial;};

struct Ledger
{
  std::recursive_mutex mu;
  std::unordered_map<void *, Block> live;
  std::unordered_map<void *, uint64_t> freed;     // recently released (diagnostics only)
  uint64_t serial = 0;
};
inline Ledger & ledger() {static Ledger * l = new Ledger; return *l;}

// Set while the library is running under an API call whose memory must come from the allocator.
inline thread_local int tl_in_ck = 0;

struct CkAlloc
{
  static constexpr uint64_t MAGIC = 0xA110CA7E5EED1234ull;
  uint64_t magic = MAGIC;
  const char * name;
  uint64_t calls = 0;              // allocation attempts (allocate, zero_allocate, reallocate)
  uint64_t frees = 0;
  uint64_t fail_at = UINT64_MAX;   // attempt number that fails (1-based), relative to arm()
  bool fail_forever = false;       // and all later ones
  uint64_t fail_again = UINT64_MAX;   // a second attempt that fails
  uint64_t armed_calls = 0;
  uint64_t failures = 0;
  size_t live_blocks = 0;
  size_t live_bytes = 0;
  size_t max_block = size_t(1) << 28;   // larger requests fail, like an exhausted system
  bool realloc_zero_frees = true;  // realloc(p, 0): free and return NULL (glibc)
  bool closed = false;             // no call is expected any more

  explicit CkAlloc(const char * n = "A") : name(n) {}
  CkAlloc(const CkAlloc &) = delete;
  ~CkAlloc()
  {
    Ledger & l = ledger();
    std::lock_guard<std::recursive_mutex> g(l.mu);
    for (auto it = l.live.begin(); it != l.live.end(); ) {
      if (it->second.owner == this) {
        ::free(it->first);
        it = l.live.erase(it);
      } else {++it;}
    }
    magic = 0;
  }

  void arm(uint64_t nth, bool forever) {fail_at = nth; fail_forever = forever; fail_again = UINT64_MAX; armed_calls = 0; failures = 0;}
  void disarm() {fail_at = fail_again = UINT64_MAX; fail_forever = false;}

  rcutils_allocator_t get()
  {
    rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
    a.allocate = &CkAlloc::s_alloc;
    a.deallocate = &CkAlloc::s_free;
    a.reallocate = &CkAlloc::s_realloc;
    a.zero_allocate = &CkAlloc::s_calloc;
    a.state = this;
    return a;
  }

private:
  static CkAlloc * self(void * st, const char * op)
  {
    CkAlloc * a = static_cast<CkAlloc *>(st);
    if (nullptr == a || a->magic != MAGIC) {
      note("alloc:wrong-state", std::string(op) + " called with a state pointer that is not the allocator's");
      return nullptr;
    }
    if (a->closed) {note("alloc:use-after-close", std::string(op) + " after the last owner was finalized");}
    return a;
  }
  bool should_fail()
  {
    calls++;
    armed_calls++;
    if (armed_calls == fail_at || armed_calls == fail_again || (fail_forever && armed_calls > fail_at)) {failures++; return true;}
    return false;
  }
  void * raw(size_t size, bool zero)
  {
    if (size > max_block) {return nullptr;}
    void * p = ::malloc(size ? size : 1);
    if (!p) {return nullptr;}
    memset(p, zero ? 0 : 0xC5, size ? size : 1);
    if (!zero) {MON_UNDEFINED(p, size);}
    Ledger & l = ledger();
    l.live[p] = Block{size, this, ++l.serial};
    l.freed.erase(p);
    live_blocks++;
    live_bytes += size;
    return p;
  }
  bool drop(void * p, const char * op)
  {
    Ledger & l = ledger();
    auto it = l.live.find(p);
    if (it == l.live.end()) {
      bool was = l.freed.count(p) != 0;
      note(was ? "alloc:double-free" : "alloc:foreign-free",
        std::string(op) + (was ? " of a block already released" : " of a pointer not obtained from the allocator"));
      return false;
    }
    if (it->second.owner != this) {
      note("alloc:wrong-owner", std::string(op) + " through a different allocator than the one that allocated it");
      return false;
    }
    memset(p, 0xDD, it->second.size);
    live_blocks--;
    live_bytes -= it->second.size;
    l.live.erase(it);
    if (l.freed.size() > 100000) {l.freed.clear();}
    l.freed[p] = 1;
    ::free(p);
    return true;
  }
  static void * s_alloc(size_t size, void * st)
  {
    tl_in_ck++;
    void * r = nullptr;
    CkAlloc * a = self(st, "allocate");
    if (a) {
      std::lock_guard<std::recursive_mutex> g(ledger().mu);
      if (!a->should_fail()) {r = a->raw(size, false);}
    }
    tl_in_ck--;
    return r;
  }
  static void * s_calloc(size_t n, size_t e, void * st)
  {
    tl_in_ck++;
    void * r = nullptr;
    CkAlloc * a = self(st, "zero_allocate");
    if (a) {
      std::lock_guard<std::recursive_mutex> g(ledger().mu);
      if (!a->should_fail() && !(e && n > SIZE_MAX / e)) {r = a->raw(n * e, true);}
    }
    tl_in_ck--;
    return r;
  }
  static void s_free(void * p, void * st)
  {
    tl_in_ck++;
    CkAlloc * a = self(st, "deallocate");
    if (a) {
      std::lock_guard<std::recursive_mutex> g(ledger().mu);
      a->frees++;
      if (p) {a->drop(p, "deallocate");}
    }
    tl_in_ck--;
  }
  static void * s_realloc(void * p, size_t size, void * st)
  {
    tl_in_ck++;
    void * r = nullptr;
    CkAlloc * a = self(st, "reallocate");
    if (a) {
      Ledger & l = ledger();
      std::lock_guard<std::recursive_mutex> g(l.mu);
      if (p && size == 0 && a->realloc_zero_frees) {
        a->calls++;
        a->drop(p, "reallocate");
      } else if (!a->should_fail()) {
        if (!p) {
          r = a->raw(size, false);
        } else {
          auto it = l.live.find(p);
          if (it == l.live.end() || it->second.owner != a) {
            a->drop(p, "reallocate");      // reports what is wrong
          } else {
            size_t old = it->second.size;
            void * q = a->raw(size, false);   // always moves
            if (q) {
              memcpy(q, p, std::min(old, size));
              a->drop(p, "reallocate");
              r = q;
            }
          }
        }
      }
    }
    tl_in_ck--;
    return r;
  }
};

// Size of a live block (SIZE_MAX if not one).
inline size_t block_size(const void * p)
{
  Ledger & l = ledger();
  std::lock_guard<std::recursive_mutex> g(l.mu);
  auto it = l.live.find(const_cast<void *>(p));
  return it == l.live.end() ? SIZE_MAX : it->second.size;
}
inline bool owned_by(const void * p, const CkAlloc & a)
{
  Ledger & l = ledger();
  std::lock_guard<std::recursive_mutex> g(l.mu);
  auto it = l.live.find(const_cast<void *>(p));
  return it != l.live.end() && it->second.owner == &a;
}

inline void check_empty(const CkAlloc & a, const char * what)
{
  raise();
  if (a.live_blocks != 0) {
    fail("leak", fmt("%s: %zu blocks (%zu bytes) still allocated from allocator %s", what,
      a.live_blocks, a.live_bytes, a.name));
  }
}

// A heap copy without slack (so that sanitizers see any overrun), optionally without terminator.
struct Exact
{
  char * p;
  size_t n;
  explicit Exact(const std::string & s, bool terminated = true) : p(nullptr), n(s.size() + (terminated ? 1 : 0))
  {
    p = static_cast<char *>(::malloc(n ? n : 1));
    memcpy(p, s.data(), s.size());
    if (terminated) {p[s.size()] = '\0';}
  }
  Exact(const Exact &) = delete;
  ~Exact() {::free(p);}
  operator const char *() const {return p;}
};

// ---------------------------------------------------------------- JSON output and main
inline std::string jstr(const std::string & s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {r += '\\'; r += static_cast<char>(c);} else if (c >= 32 && c < 127) {
      r += static_cast<char>(c);
    } else {r += fmt("\\u%04x", c);}
  }
  return r + "\"";
}

inline void write_results()
{
  Run & r = run();
  if (r.out.empty()) {return;}
  FILE * f = fopen(r.out.c_str(), "w");
  if (!f) {fprintf(stderr, "cannot write %s\n", r.out.c_str()); exit(3);}
  fprintf(f, "{\"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ",\n\"violations\": [", r.evaluations, r.nontrivial);
  for (size_t i = 0; i < r.violations.size(); ++i) {
    auto & v = r.violations[i];
    fprintf(f, "%s{\"key\": %s, \"msg\": %s, \"section\": %s, \"idx\": %" PRIu64 "}", i ? ",\n" : "",
      jstr(v.key).c_str(), jstr(v.msg).c_str(), jstr(v.section).c_str(), v.idx);
  }
  fprintf(f, "],\n\"counters\": {");
  bool first = true;
  for (auto & c : r.counters) {
    fprintf(f, "%s%s: %" PRIu64, first ? "" : ",\n", jstr(c.first).c_str(), c.second);
    first = false;
  }
  fprintf(f, "},\n\"sections\": {");
  first = true;
  for (auto & c : r.section_cases) {
    fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", jstr(c.first).c_str(), c.second);
    first = false;
  }
  fprintf(f, "},\n\"samples\": [");
  for (size_t i = 0; i < r.samples.size(); ++i) {
    fprintf(f, "%s%s", i ? ",\n" : "", jstr(r.samples[i]).c_str());
  }
  fprintf(f, "],\n\"complete\": true}\n");
  fclose(f);
  f = fopen((r.out + ".hashes").c_str(), "wb");
  for (uint64_t h : r.distinct) {fwrite(&h, sizeof(h), 1, f);}
  fclose(f);
}

// Runs f in a thread with a stack of this many bytes, far from anything else; gives the bytes of it that were touched.
inline size_t on_stack(size_t bytes, const std::function<void()> & f)
{
  const size_t guard = size_t(256) << 20;
  static char * base = nullptr;
  static size_t have = 0;
  const unsigned char mark = 0xa7;
  if (have != bytes) {
    if (base) {munmap(base, guard + have + guard);}
    void * m = mmap(nullptr, guard + bytes + guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED || mprotect(static_cast<char *>(m) + guard, bytes, PROT_READ | PROT_WRITE) != 0) {abort();}
    base = static_cast<char *>(m);
    have = bytes;
  }
  char * stack = base + guard;
  memset(stack, mark, bytes);
  pthread_attr_t at;
  pthread_attr_init(&at);
  if (pthread_attr_setstack(&at, stack, bytes) != 0) {abort();}
  pthread_t t;
  if (pthread_create(&t, &at, [](void * q) -> void * {(*static_cast<const std::function<void()> *>(q))(); return nullptr;}, const_cast<std::function<void()> *>(&f)) != 0) {abort();}
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
  size_t i = 0;
  while (i < bytes && static_cast<unsigned char>(stack[i]) == mark) {++i;}
  return bytes - i;
}

inline int main_loop(int argc, char ** argv)
{
  Run & r = run();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") {r.seed = strtoull(v.c_str(), nullptr, 10);} else if (a == "--shard") {
      r.shard = static_cast<unsigned>(atoi(v.c_str()));
    } else if (a == "--nshards") {r.nshards = static_cast<unsigned>(atoi(v.c_str()));} else if (a == "--tier") {
      r.thorough = v == "thorough";
    } else if (a == "--out") {r.out = v;} else if (a == "--section") {r.only_section = v;} else if (a == "--idx") {
      r.only_idx = atoll(v.c_str());
    } else if (a == "--scale") {r.scale = atof(v.c_str());} else if (a == "--scratch") {r.scratch = v;} else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  if (!r.out.empty()) {
    int fd = open((r.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, 256) == 0) {
      void * m = mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) {r.progress = static_cast<char *>(m);}
    }
    if (fd >= 0) {close(fd);}
  }
  // MON_LOCALE: run every case in one of these locales
  std::vector<std::string> locales;
  for (const char * e = getenv("MON_LOCALE"); e && *e; e = *(e + strcspn(e, ",")) ? e + strcspn(e, ",") + 1 : nullptr) {locales.emplace_back(e, strcspn(e, ","));}
  // MON_STACK: run every case in a thread with this much stack
  size_t stack = getenv("MON_STACK") ? strtoul(getenv("MON_STACK"), nullptr, 10) : 0, peak = 0;
  for (auto & s : sections()) {
    // --section NAME or a comma separated list
    if (!r.only_section.empty() &&
      ("," + r.only_section + ",").find("," + s.name + ",") == std::string::npos) {continue;}
    uint64_t n = r.thorough ? s.thorough : s.quick;
    if (r.scale != 1.0) {n = static_cast<uint64_t>(static_cast<double>(n) * r.scale); if (n < 1) {n = 1;}}
    r.cur_section = s.name;
    uint64_t sec_hash = hash_str(s.name.data(), s.name.size());
    unsigned failed = 0;
    uint64_t begin = r.shard, end = n, step = r.nshards;
    if (r.only_idx >= 0) {begin = static_cast<uint64_t>(r.only_idx); end = begin + 1;}
    for (uint64_t i = begin; i < end; i += step) {
      r.cur_idx = i;
      if (r.progress) {snprintf(r.progress, 256, "%s %" PRIu64 "\n", s.name.c_str(), i);}
      trace().clear();
      Case c(i, mix64(r.seed ^ mix64(sec_hash ^ mix64(i))));
      c.h = mix64(sec_hash);
      bool ok = true;
      if (!locales.empty()) {
        const std::string & l = locales[i % locales.size()];
        if (!setlocale(LC_ALL, l.c_str())) {
          fprintf(stderr, "no locale %s\n", l.c_str());
          return 3;
        }
        count("locale." + l);
        tr("locale " + l);
      }
      auto one = [&]() {
          try {
            s.fn(c);
            raise();
          } catch (CaseFailed &) {
            ok = false;
            std::lock_guard<std::mutex> g(pending().mu);
            pending().v.clear();
          }
        };
      if (stack) {
        peak = std::max(peak, on_stack(stack, one));
        count("cases on small stacks");
      } else {
        one();
      }
      rcutils_reset_error();
      r.evaluations++;
      r.section_cases[s.name]++;
      if (c.nontrivial) {
        r.nontrivial++;
        r.distinct.insert(c.h);
      }
      if (!ok && ++failed >= 6) {break;}
    }
  }
  setlocale(LC_ALL, "C");
  if (peak) {r.counters["max stack in use"] = peak;}
  if (r.progress) {snprintf(r.progress, 256, "done 0\n");}
  write_results();
  return r.violations.empty() ? 0 : 1;
}

}  // namespace mon

#define MON_MAIN(register_fn) \
  int main(int argc, char ** argv) \
  { \
    setvbuf(stderr, nullptr, _IOLBF, 0); \
    register_fn(); \
    return ::mon::main_loop(argc, argv); \
  }

#endif  // MON_HPP_
