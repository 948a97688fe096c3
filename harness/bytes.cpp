// P05, P06: char arrays and byte arrays against byte-string models.
#include <cstdarg>
#include "mon.hpp"
#include "rcutils/types/char_array.h"
#include "rcutils/types/uint8_array.h"

using namespace mon;

static rcutils_ret_t ca_printf(rcutils_char_array_t * a, const char * f, ...)
{
  va_list ap, again;
  va_start(ap, f);
  va_copy(again, ap);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, f, ap);
  va_end(ap);
  va_end(again);
  return r;
}

struct CA
{
  CkAlloc A{"chars"};
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  std::string m;                 // exactly buffer_length bytes
  char * foreign = nullptr;      // a buffer the array does not own
  size_t foreign_n = 0;
  std::string foreign_image;     // its content when last written legitimately
};

// m is a terminated C string without inner nulls (or nothing was stored yet)
static bool is_string(const std::string & m)
{
  return m.empty() || (m.back() == '\0' && m.find('\0') == m.size() - 1);
}

static void check(CA & s, const char * when)
{
  rcutils_char_array_t & a = s.a;
  MON_CHECK(a.buffer_capacity >= a.buffer_length, "ca.capacity", "capacity %zu < length %zu %s", a.buffer_capacity, a.buffer_length, when);
  MON_CHECK(a.buffer_length == s.m.size(), "ca.length", "length is %zu, expected %zu %s", a.buffer_length, s.m.size(), when);
  if (a.owns_buffer) {
    if (a.buffer_capacity) {
      size_t bs = block_size(a.buffer);
      MON_CHECK(bs != SIZE_MAX && bs >= a.buffer_capacity, "ca.storage", "capacity %zu but the block has %zd bytes %s",
        a.buffer_capacity, static_cast<ssize_t>(bs), when);
    }
    MON_CHECK(s.A.live_blocks == (a.buffer ? 1u : 0u), "ca.blocks", "%zu blocks allocated %s", s.A.live_blocks, when);
  } else {
    MON_CHECK(a.buffer == s.foreign && a.buffer_capacity <= s.foreign_n, "ca.foreign", "unowned buffer was replaced in place %s", when);
    MON_CHECK(s.A.live_blocks == 0, "ca.blocks", "blocks allocated for an unowned buffer %s", when);
  }
  if (!s.m.empty()) {
    size_t d = 0;
    while (d < s.m.size() && a.buffer[d] == s.m[d]) {++d;}
    MON_CHECK(d == s.m.size(), "ca.content", "byte %zu of %zu is %02x, expected %02x %s", d, s.m.size(),
      static_cast<unsigned char>(a.buffer[d]), static_cast<unsigned char>(s.m[d]), when);
  }
}

static void adopt(CA & s, Rng & r, const std::string & content)
{
  // hand the array a buffer it does not own
  s.foreign_n = content.size() + (r.chance(1, 2) ? 0 : r.below(40));
  s.foreign = static_cast<char *>(::malloc(s.foreign_n ? s.foreign_n : 1));
  memset(s.foreign, 0x7E, s.foreign_n);
  memcpy(s.foreign, content.data(), content.size());
  s.a.buffer = s.foreign;
  s.a.buffer_capacity = s.foreign_n;
  s.a.buffer_length = content.size();
  s.a.owns_buffer = false;
  s.m = content;
}

static std::string text(Rng & r)
{
  switch (r.below(6)) {
    case 0: return "";
    case 1: return r.str(1, "x");
    case 2: return r.str(r.below(8), "abc%");
    case 3: return r.cstr(r.size(300));
    case 4: return r.cstr(r.below(40));
    default: return r.cstr(r.chance(1, 60) ? r.size(150000) : r.size(3000));
  }
}

static void chars(Case & c)
{
  Rng & r = c.rng;
  CA s;
  rcutils_allocator_t al = s.A.get();
  size_t cap = r.chance(1, 4) ? 0 : r.size(200);
  c.mix(cap);
  MON_CHECK(rcutils_char_array_init(&s.a, cap, &al) == RCUTILS_RET_OK, "ca.init", "init(%zu) failed", cap);
  MON_CHECK(s.a.buffer_capacity == cap && s.a.owns_buffer, "ca.init", "capacity after init(%zu) is %zu", cap, s.a.buffer_capacity);
  MON_CHECK(cap == 0 || s.a.buffer[0] == '\0', "ca.init", "fresh buffer is not the empty string");
  check(s, "after init");
  if (r.chance(1, 3)) {
    MON_CHECK(rcutils_char_array_fini(&s.a) == RCUTILS_RET_OK, "ca.fini", "fini failed");
    s.a.allocator = al;
    std::string t = r.chance(1, 3) ? r.bytes(r.below(30)) : text(r) + std::string(1, '\0');
    adopt(s, r, t);
    c.mix(t);
    tr(fmt("unowned buffer of %zu bytes holding %zu", s.foreign_n, t.size()));
    count("unowned");
  }
  size_t nops = r.range(1, 14);
  bool grew = false;
  for (size_t k = 0; k < nops; ++k) {
    size_t cap0 = s.a.buffer_capacity;
    bool owned0 = s.a.owns_buffer;
    uint64_t op = r.below(8);
    std::string before_foreign = s.foreign ? std::string(s.foreign, s.foreign_n) : "";
    c.mix(op);
    switch (op) {
      case 0: {
          std::string t = text(r);
          int v = static_cast<int>(r.next());
          c.mix(t);
          tr(fmt("printf %zu bytes", t.size()));
          int n = snprintf(nullptr, 0, "%s|%d|%5s|%%", t.c_str(), v, "ab");
          std::string want(static_cast<size_t>(n) + 1, '\0');
          snprintf(&want[0], want.size(), "%s|%d|%5s|%%", t.c_str(), v, "ab");
          if (r.chance(1, 4)) {
            n = static_cast<int>(t.size());
            want = t + std::string(1, '\0');
            Exact e(t);
            MON_CHECK(ca_printf(&s.a, "%s", e.p) == RCUTILS_RET_OK, "ca.printf", "vsprintf failed");
          } else {
            Exact e(t);
            MON_CHECK(ca_printf(&s.a, "%s|%d|%5s|%%", e.p, v, "ab") == RCUTILS_RET_OK, "ca.printf", "vsprintf failed");
          }
          s.m = want;
          check(s, "after vsprintf");
          count("vsprintf");
          break;
        }
      case 1: {
          std::string t = text(r);
          c.mix(t);
          Exact e(t);
          tr(fmt("strcpy %zu", t.size()));
          MON_CHECK(rcutils_char_array_strcpy(&s.a, e) == RCUTILS_RET_OK, "ca.strcpy", "strcpy failed");
          s.m = t + std::string(1, '\0');
          check(s, "after strcpy");
          count("strcpy");
          break;
        }
      case 2: {
          std::string t = r.bytes(r.size(600));
          if (t.empty()) {break;}
          c.mix(t);
          Exact e(t, false);
          tr(fmt("memcpy %zu", t.size()));
          MON_CHECK(rcutils_char_array_memcpy(&s.a, e.p, t.size()) == RCUTILS_RET_OK, "ca.memcpy", "memcpy failed");
          s.m = t;
          check(s, "after memcpy");
          count("memcpy");
          break;
        }
      case 3: {
          if (!is_string(s.m)) {break;}
          std::string t = text(r);
          c.mix(t);
          Exact e(t);
          tr(fmt("strcat %zu", t.size()));
          MON_CHECK(rcutils_char_array_strcat(&s.a, e) == RCUTILS_RET_OK, "ca.strcat", "strcat failed");
          if (!s.m.empty()) {s.m.pop_back();}
          s.m += t + std::string(1, '\0');
          check(s, "after strcat");
          count("strcat");
          break;
        }
      case 4: {
          if (!is_string(s.m)) {break;}
          std::string t = text(r);
          size_t n;
          bool term = true;
          switch (r.below(4)) {
            case 0: n = t.size(); term = r.chance(1, 2); break;   // exactly n bytes, no terminator needed
            case 1: n = r.below(t.size() + 1); break;
            case 2: n = t.size() + 1 + r.size(5000); break;      // longer than the source
            default: n = r.chance(1, 6) ? SIZE_MAX - r.below(3) : t.size() + 1 + r.below(3); break;
          }
          if (n < t.size()) {term = r.chance(1, 2);}
          c.mix(t); c.mix(n);
          Exact e(t, term);
          tr(fmt("strncat %zu of %zu%s", n, t.size(), term ? "" : " unterminated"));
          MON_CHECK(rcutils_char_array_strncat(&s.a, e.p, n) == RCUTILS_RET_OK, "ca.strncat", "strncat of at most %zu failed", n);
          if (!s.m.empty()) {s.m.pop_back();}
          s.m += t.substr(0, n) + std::string(1, '\0');
          check(s, "after strncat");
          count(n > t.size() ? "strncat.longer-than-source" : n < t.size() ? "strncat.part" : "strncat.all");
          break;
        }
      case 5: {
          size_t n = r.size(700);
          c.mix(n);
          tr(fmt("resize %zu->%zu", s.a.buffer_capacity, n));
          rcutils_ret_t ret = rcutils_char_array_resize(&s.a, n);
          if (n == 0) {
            MON_CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT, "ca.resize-zero", "resize to zero returned %d", ret);
            rcutils_reset_error();
            MON_CHECK(s.a.buffer_capacity == cap0 && s.a.owns_buffer == owned0, "ca.resize-zero", "rejected resize changed the array");
            check(s, "after rejected resize");
            break;
          }
          MON_CHECK(ret == RCUTILS_RET_OK, "ca.resize", "resize failed with %d", ret);
          MON_CHECK(s.a.buffer_capacity == n, "ca.resize", "capacity is %zu after resize to %zu", s.a.buffer_capacity, n);
          if (n < s.m.size() || (n == s.m.size() && n < cap0)) {
            s.m.resize(n);
            // truncating a buffer that is not owned produces a terminated copy
            if (!owned0 && s.a.buffer[n - 1] == '\0') {s.m[n - 1] = '\0';}
            count("resize.truncate");
          }
          check(s, "after resize");
          count("resize");
          break;
        }
      case 6: {
          size_t n = r.size(700);
          c.mix(n);
          tr(fmt("expand_as_needed %zu (capacity %zu)", n, s.a.buffer_capacity));
          MON_CHECK(rcutils_char_array_expand_as_needed(&s.a, n) == RCUTILS_RET_OK, "ca.expand", "expand failed");
          MON_CHECK(s.a.buffer_capacity >= n && s.a.buffer_capacity >= cap0, "ca.expand", "capacity %zu after expand to %zu",
            s.a.buffer_capacity, n);
          if (n <= cap0) {MON_CHECK(s.a.buffer_capacity == cap0, "ca.expand", "expand resized a buffer that was big enough");}
          check(s, "after expand");
          count("expand");
          break;
        }
      default: {
          // allocation fails: the operation reports it and the array stays usable
          std::string t = r.cstr(s.a.buffer_capacity + r.below(50));
          if (t.size() + 1 <= s.a.buffer_capacity) {break;}
          Exact e(t);
          s.A.arm(1, true);
          tr(fmt("failing growth to %zu", t.size() + 1));
          rcutils_ret_t ret = r.chance(1, 2) ? rcutils_char_array_strcpy(&s.a, e) : ca_printf(&s.a, "%s", e.p);
          s.A.disarm();
          MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC, "ca.bad-alloc", "growth without memory returned %d", ret);
          rcutils_reset_error();
          MON_CHECK(s.a.buffer_length <= s.a.buffer_capacity, "ca.bad-alloc", "length %zu above capacity %zu after failed growth",
            s.a.buffer_length, s.a.buffer_capacity);
          MON_CHECK(!s.a.buffer || !s.a.owns_buffer || block_size(s.a.buffer) != SIZE_MAX, "ca.dangling",
            "after a failed growth the array owns a buffer that was released");
          // continue from whatever it holds now
          (void)!rcutils_char_array_strcpy(&s.a, "recovered");
          s.m = std::string("recovered", 10);
          check(s, "after recovery");
          count("growth.failed");
          break;
        }
    }
    if (s.a.buffer_capacity > cap0) {grew = true; count("growths");}
    if (!owned0 && s.a.owns_buffer) {
      count("unowned.moved");
      MON_CHECK(before_foreign.size() == s.foreign_n, "ca.foreign", "internal");
    }
    if (s.foreign && s.a.owns_buffer && !owned0 && op >= 3) {
      // the array moved away: the caller's buffer keeps what it had
      MON_CHECK(std::string(s.foreign, s.foreign_n) == before_foreign || op == 7, "ca.foreign-written",
        "the buffer the array did not own was changed by an operation that had to move away from it");
    }
  }
  if (grew) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("length %zu capacity %zu", s.a.buffer_length, s.a.buffer_capacity) + tail());}
  size_t blocks = s.A.live_blocks;
  bool owned = s.a.owns_buffer;
  MON_CHECK(rcutils_char_array_fini(&s.a) == RCUTILS_RET_OK, "ca.fini", "fini failed");
  (void)blocks; (void)owned;
  MON_CHECK(!s.a.buffer && !s.a.buffer_length && !s.a.buffer_capacity, "ca.fini-state", "array not empty after fini");
  check_empty(s.A, "char array");
  if (s.foreign) {::free(s.foreign);}     // still the caller's: ASan objects if it was released
}

static void bytes(Case & c)
{
  Rng & r = c.rng;
  CkAlloc A("bytes");
  rcutils_allocator_t al = A.get();
  rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
  size_t top = r.chance(1, 25) ? 200000 : 5000;
  size_t cap = r.chance(1, 6) ? 0 : r.size(top);
  c.mix(cap);
  MON_CHECK(rcutils_uint8_array_init(&a, cap, &al) == RCUTILS_RET_OK, "ua.init", "init failed");
  std::string m;
  auto chk = [&](size_t want_cap, const char * when) {
      MON_CHECK(a.buffer_capacity == want_cap, "ua.capacity", "capacity %zu, expected %zu %s", a.buffer_capacity, want_cap, when);
      MON_CHECK(a.buffer_length == m.size(), "ua.length", "length %zu, expected %zu %s", a.buffer_length, m.size(), when);
      if (want_cap) {
        size_t bs = block_size(a.buffer);
        MON_CHECK(bs != SIZE_MAX && bs >= want_cap, "ua.storage", "block of %zd bytes for capacity %zu %s", static_cast<ssize_t>(bs), want_cap, when);
      }
      MON_CHECK(m.empty() || memcmp(a.buffer, m.data(), m.size()) == 0, "ua.content", "content changed %s", when);
      MON_CHECK(A.live_blocks == (a.buffer ? 1u : 0u), "ua.blocks", "%zu blocks %s", A.live_blocks, when);
    };
  chk(cap, "after init");
  size_t n = r.range(1, 15);
  bool clipped = false, grown = false;
  for (size_t k = 0; k < n; ++k) {
    if (r.chance(1, 2) && a.buffer_capacity) {
      m = r.bytes(r.chance(1, 3) ? a.buffer_capacity : r.below(a.buffer_capacity + 1));
      if (!m.empty()) {memcpy(a.buffer, m.data(), m.size());}
      a.buffer_length = m.size();
      c.mix(m);
      continue;
    }
    size_t want = r.chance(1, 4) ? a.buffer_capacity + r.below(3) - (a.buffer_capacity ? 1 : 0) : r.size(top);
    size_t cap0 = a.buffer_capacity;
    c.mix(want);
    if (r.chance(1, 12) && want && want != cap0) {
      A.arm(1, true);
      rcutils_ret_t ret = rcutils_uint8_array_resize(&a, want);
      A.disarm();
      MON_CHECK(ret == RCUTILS_RET_BAD_ALLOC, "ua.bad-alloc", "resize without memory returned %d", ret);
      rcutils_reset_error();
      MON_CHECK(a.buffer_length <= a.buffer_capacity && (!a.buffer || block_size(a.buffer) != SIZE_MAX) && (a.buffer || !a.buffer_capacity),
        "ua.bad-alloc", "array inconsistent after a failed resize");
      count("resize.failed");
      m = std::string(reinterpret_cast<char *>(a.buffer), a.buffer_length);
      continue;
    }
    tr(fmt("resize %zu->%zu length %zu", cap0, want, m.size()));
    rcutils_ret_t ret = rcutils_uint8_array_resize(&a, want);
    if (want == 0) {
      MON_CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT && rcutils_error_is_set(), "ua.zero", "resize to zero returned %d", ret);
      rcutils_reset_error();
      chk(cap0, "after rejected resize");
      count("resize.zero");
      continue;
    }
    MON_CHECK(ret == RCUTILS_RET_OK, "ua.resize", "resize failed");
    if (want < m.size()) {m.resize(want); clipped = true; count("resize.clipped");}
    if (want > cap0) {grown = true; count("resize.grown");}
    chk(want, "after resize");
  }
  if (clipped || grown) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("length %zu capacity %zu", a.buffer_length, a.buffer_capacity) + tail());}
  MON_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK, "ua.fini", "fini failed");
  MON_CHECK(!a.buffer && !a.buffer_length && !a.buffer_capacity, "ua.fini-state", "array not empty after fini");
  check_empty(A, "byte array");
  MON_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK, "ua.fini", "repeated fini failed");
  check_empty(A, "byte array");
}

static void reg()
{
  section("chars", 20000, 400000, chars);
  section("bytes", 8000, 120000, bytes);
}
MON_MAIN(reg)
