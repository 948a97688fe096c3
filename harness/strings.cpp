// P07 splitting, P08 search/compare/options, P09 replace/duplicate/format, P10 bounded formatting,
// P11 sorting: string utilities against independent definitions.
#include <cstdarg>
#include <climits>
#include <cwchar>
#include <clocale>
#include "mon.hpp"
#include "rcutils/cmdline_parser.h"
#ifdef MON_PORTABLE     // the search functions without the GNU extensions (aux/portable_find.c)
#define rcutils_find portable_find
#define rcutils_findn portable_findn
#define rcutils_find_last portable_find_last
#define rcutils_find_lastn portable_find_lastn
#endif
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/types/string_array.h"

using namespace mon;

// A string in a block of the checking allocator: exact content, terminated inside the block.
static void same_string(const CkAlloc & A, const char * got, const std::string & want, const char * key, const std::string & what)
{
  MON_CHECK(got, key, "%s: NULL, expected %s", what.c_str(), show(want).c_str());
  MON_CHECK(owned_by(got, A), "alloc.foreign-result", "%s: result does not come from the given allocator", what.c_str());
  size_t bs = block_size(got);
  size_t n = strnlen(got, bs);
  MON_CHECK(n < bs, "unterminated", "%s: result is not terminated inside its block", what.c_str());
  MON_CHECK(std::string(got, n) == want, key, "%s: got %s, expected %s", what.c_str(), show(std::string(got, n)).c_str(), show(want).c_str());
}

// ------------------------------------------------------------------ P07
static std::string delimited(Rng & r, char d)
{
  switch (r.below(6)) {
    case 0: return std::string(r.below(6), d);
    case 1: {
        std::string s;
        size_t n = r.below(12);
        for (size_t i = 0; i < n; ++i) {s += r.chance(1, 2) ? d : (d == 'a' ? 'b' : 'a');}
        return s;
      }
    case 2: return r.cstr(r.size(200));
    default: {
        std::string s;
        size_t n = r.below(8);
        for (size_t i = 0; i < n; ++i) {
          s += r.str(r.below(2) ? r.below(40) : r.below(3), "abc%s.- ");
          s += std::string(r.chance(1, 4) ? r.below(4) : 1, d);
        }
        if (r.chance(1, 2)) {s += r.cstr(r.below(5));}
        return s;
      }
  }
}

static void expect_array(CkAlloc & A, rcutils_string_array_t & a, const std::vector<std::string> & want, const std::string & what, const char * key)
{
  MON_CHECK(a.size == want.size(), key, "%s: %zu tokens, expected %zu (first expected %s)", what.c_str(), a.size, want.size(),
    want.empty() ? "-" : show(want[0]).c_str());
  for (size_t i = 0; i < want.size(); ++i) {same_string(A, a.data[i], want[i], key, what + fmt(" token %zu", i));}
  MON_CHECK(A.live_blocks == want.size() + (a.data ? 1 : 0), key, "%s: %zu blocks for %zu tokens", what.c_str(), A.live_blocks, want.size());
}

static void split_one(Case & c, const std::string & s, char d)
{
  CkAlloc A("split");
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<std::string> want;
  std::string cur;
  for (char ch : s) {
    if (ch == d) {
      if (!cur.empty()) {want.push_back(cur); cur.clear();}
    } else {cur += ch;}
  }
  if (!cur.empty()) {want.push_back(cur);}
  Exact e(s);
  std::string what = "split(" + show(s) + ", " + show(std::string(1, d)) + ")";
  MON_CHECK(rcutils_split(e, d, A.get(), &a) == RCUTILS_RET_OK, "split", "%s failed", what.c_str());
  MON_CHECK(s == e.p, "split.input", "%s changed its input", what.c_str());
  expect_array(A, a, want, what, "split");
  if (want.size() > 1) {c.interesting(); count("split.many");}
  if (s.size() && want.empty()) {count("split.only-delimiters");}
  MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "split.fini", "fini failed");
  check_empty(A, "split");
}

// tokens of split_last: one leading and one trailing delimiter are dropped; the text before the last
// inner delimiter (without a second delimiter directly before it) and the text after it
static void split_last_one(Case & c, const std::string & s, char d)
{
  CkAlloc A("split");
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<std::string> want;
  if (!s.empty()) {
    size_t lead = s[0] == d, trail = s.back() == d;
    size_t last = std::string::npos;
    for (size_t i = lead; i + trail < s.size(); ++i) {
      if (s[i] == d) {last = i;}
    }
    if (last == std::string::npos) {
      want.push_back(s.substr(lead));
    } else {
      std::string before = s.substr(lead, last - lead);
      if (!before.empty() && before.back() == d) {before.pop_back();}
      want.push_back(before);
      want.push_back(s.substr(last + 1, s.size() - trail - last - 1));
      count("split_last.two");
      if (before.empty()) {count("split_last.empty-before");}
      c.interesting();
    }
  }
  Exact e(s);
  std::string what = "split_last(" + show(s) + ", " + show(std::string(1, d)) + ")";
  MON_CHECK(rcutils_split_last(e, d, A.get(), &a) == RCUTILS_RET_OK, "split_last", "%s failed", what.c_str());
  MON_CHECK(s == e.p, "split.input", "%s changed its input", what.c_str());
  expect_array(A, a, want, what, "split_last");
  MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "split.fini", "fini failed");
  check_empty(A, "split_last");
}

static void split(Case & c)
{
  Rng & r = c.rng;
  char d = r.pick(std::vector<char>{'/', ',', ' ', 'a', '%', '\xff', '\n', '.', '\x01'});
  std::string s = delimited(r, d);
  c.mix(s); c.mix(static_cast<uint64_t>(d));
  if (c.want_sample()) {c.sample("split " + show(s) + " at " + show(std::string(1, d)));}
  split_one(c, s, d);
  split_last_one(c, s, d);
}

// every string over {delimiter, a, b} up to a length
static void split_small(Case & c)
{
  // case index encodes the string in base 3 with length
  size_t len = 0;
  uint64_t k = c.idx, block = 1;
  while (k >= block) {k -= block; block *= 3; ++len;}
  std::string s;
  for (size_t i = 0; i < len; ++i) {s += "/ab"[k % 3]; k /= 3;}
  c.mix(s);
  split_one(c, s, '/');
  split_last_one(c, s, '/');
}

// many tokens, long tokens, long runs of delimiters
static void split_large(Case & c)
{
  Rng & r = c.rng;
  char d = r.pick(std::vector<char>{'/', 'a', '\xff'});
  std::string s;
  if (r.chance(1, 2)) {
    size_t n = r.size(3000);
    for (size_t i = 0; i < n; ++i) {s += r.str(r.below(4), "bcd"); s += d;}
  } else {
    size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
      s += std::string(r.size(140000), r.chance(1, 2) ? 'b' : '%');
      s += std::string(r.chance(1, 3) ? r.size(70000) : 1, d);
    }
    s += r.str(r.below(3), "bd");
  }
  c.mix(s);
  split_one(c, s, d);
  split_last_one(c, s, d);
  count("split.large");
}

static void split_null(Case & c)
{
  CkAlloc A("split");
  for (int last = 0; last < 2; ++last) {
    rcutils_string_array_t a;
    memset(&a, 0x5A, sizeof(a));
    auto fn = last ? rcutils_split_last : rcutils_split;
    MON_CHECK(fn(c.idx % 2 ? "" : nullptr, '/', A.get(), &a) == RCUTILS_RET_OK, "split.null", "NULL or empty input failed");
    MON_CHECK(a.size == 0 && a.data == nullptr, "split.null", "NULL or empty input gives %zu tokens", a.size);
    MON_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "split.fini", "fini failed");
  }
  c.mix(c.idx % 2);
  c.interesting();
  check_empty(A, "split null");
}

// ------------------------------------------------------------------ P08
static void find(Case & c)
{
  Rng & r = c.rng;
  std::string s = r.chance(1, 2) ? r.str(r.size(100), "ab/") : r.cstr(r.size(300));
  if (r.chance(1, 100)) {
    s = std::string(r.size(200000), 'q') + s + std::string(r.size(200000), 'q');
    count("find.long");
  }
  char d = r.chance(1, 2) ? '/' : r.chance(1, 2) && !s.empty() ? s[r.below(s.size())] : static_cast<char>(1 + r.below(255));
  c.mix(s); c.mix(static_cast<uint64_t>(d));
  {
    Exact e(s);
    size_t f = s.find(d), l = s.rfind(d);
    size_t F = f == std::string::npos ? SIZE_MAX : f, L = l == std::string::npos ? SIZE_MAX : l;
    size_t g = rcutils_find(e, d), h = rcutils_find_last(e, d);
    MON_CHECK(g == F, "find", "find(%s, %02x) = %zd, expected %zd", show(s).c_str(), static_cast<unsigned char>(d), static_cast<ssize_t>(g), static_cast<ssize_t>(F));
    MON_CHECK(h == L, "find_last", "find_last(%s, %02x) = %zd, expected %zd", show(s).c_str(), static_cast<unsigned char>(d), static_cast<ssize_t>(h), static_cast<ssize_t>(L));
    if (F != SIZE_MAX && F != L) {c.interesting();}
    count(F == SIZE_MAX ? "find.absent" : "find.present");
  }
  {
    // bounded: exactly n readable bytes, no terminator
    size_t n = r.below(s.size() + 1);
    std::string p = s.substr(0, n);
    if (r.chance(1, 8) && n) {p[r.below(n)] = '\0';}
    if (r.chance(1, 8)) {d = '\0';}
    Exact e(p, false);
    size_t f = p.find(d), l = p.rfind(d);
    size_t F = f == std::string::npos ? SIZE_MAX : f, L = l == std::string::npos ? SIZE_MAX : l;
    size_t g = rcutils_findn(e.p, d, n), h = rcutils_find_lastn(e.p, d, n);
    // a terminator inside the bounded range ends the string for neither or both definitions:
    // only inputs without one are specified, except that nothing beyond the bound is read
    if (p.find('\0') == std::string::npos) {
      MON_CHECK(g == F, "findn", "findn(%s, %02x, %zu) = %zd, expected %zd", show(p).c_str(), static_cast<unsigned char>(d), n, static_cast<ssize_t>(g), static_cast<ssize_t>(F));
      MON_CHECK(h == L, "find_lastn", "find_lastn(%s, %02x, %zu) = %zd, expected %zd", show(p).c_str(), static_cast<unsigned char>(d), n, static_cast<ssize_t>(h), static_cast<ssize_t>(L));
    } else {
      MON_CHECK(g == SIZE_MAX || (g < n && p[g] == d), "findn", "findn gives an index that is not the character");
      MON_CHECK(h == SIZE_MAX || (h < n && p[h] == d), "find_lastn", "find_lastn gives an index that is not the character");
    }
    count("find.bounded");
  }
  if (c.want_sample()) {c.sample(fmt("find %02x in %s", static_cast<unsigned char>(d), show(s).c_str()));}
}

static int fold(unsigned char ch) {return ch >= 'A' && ch <= 'Z' ? ch - 'A' + 'a' : ch;}
static int ref_casecmp(const std::string & a, const std::string & b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    int x = i < a.size() ? fold(static_cast<unsigned char>(a[i])) : 0;
    int y = i < b.size() ? fold(static_cast<unsigned char>(b[i])) : 0;
    if (x != y) {return x < y ? -1 : 1;}
    if (!x) {return 0;}
  }
  return 0;
}
static int sgn(int v) {return (v > 0) - (v < 0);}

static void casecmp(Case & c)
{
  Rng & r = c.rng;
  std::string a = r.chance(1, 2) ? r.str(r.size(60), "aAbBzZ@[`{_") : r.cstr(r.size(60));
  if (r.chance(1, 100)) {a = r.str(r.size(150000), "aAbBzZ@[`{_") + a; count("casecmp.long");}
  std::string b = a;
  for (auto & ch : b) {if (r.chance(1, 2) && isalpha(static_cast<unsigned char>(ch)) && static_cast<unsigned char>(ch) < 128) {ch ^= 0x20;}}
  if (r.chance(1, 2) && !b.empty()) {
    size_t i = r.below(b.size());
    b[i] = r.chance(1, 2) ? static_cast<char>(1 + r.below(255)) : static_cast<char>(b[i] ^ 0x20);
    if (!b[i]) {b[i] = 'x';}
  }
  if (r.chance(1, 3)) {b.resize(r.below(b.size() + 1));}
  if (r.chance(1, 6)) {b += r.cstr(r.below(4));}
  if (r.chance(1, 2)) {std::swap(a, b);}
  c.mix(a); c.mix(b);
  int v = 4711;
  {
    Exact x(a), y(b);
    MON_CHECK(rcutils_strcasecmp(x, y, &v) == 0, "strcasecmp", "failed");
    int w = ref_casecmp(a, b, SIZE_MAX);
    MON_CHECK(sgn(v) == w, "strcasecmp", "strcasecmp(%s, %s) = %d, expected sign %d", show(a).c_str(), show(b).c_str(), v, w);
    count(w == 0 ? "casecmp.equal" : "casecmp.different");
    if (a != b) {c.interesting();}
  }
  size_t n = r.below(std::max(a.size(), b.size()) + 3);
  c.mix(n);
  // bounded comparison needs no terminator within the first n bytes
  Exact x(a.substr(0, n), a.size() < n), y(b.substr(0, n), b.size() < n);
  v = 4711;
  MON_CHECK(rcutils_strncasecmp(x.p, y.p, n, &v) == 0, "strncasecmp", "failed");
  int w = ref_casecmp(a, b, n);
  MON_CHECK(sgn(v) == w, "strncasecmp", "strncasecmp(%s, %s, %zu) = %d, expected sign %d", show(a).c_str(), show(b).c_str(), n, v, w);
  MON_CHECK(rcutils_strcasecmp(nullptr, "x", &v) != 0 && rcutils_strcasecmp("x", nullptr, &v) != 0 &&
    rcutils_strcasecmp("x", "x", nullptr) != 0, "strcasecmp.null", "NULL accepted");
  MON_CHECK(rcutils_strncasecmp(nullptr, "x", 1, &v) != 0 && rcutils_strncasecmp("x", nullptr, 1, &v) != 0 &&
    rcutils_strncasecmp("x", "x", 1, nullptr) != 0, "strncasecmp.null", "NULL accepted");
  if (c.want_sample()) {c.sample("compare " + show(a) + " with " + show(b));}
}

static void isalnum_all(Case & c)
{
  static const char * locales[] = {"C", "C.UTF-8", "en_US.UTF-8", "de_DE.ISO-8859-1"};
  const char * have = setlocale(LC_ALL, locales[c.idx % 4]);
  for (int i = CHAR_MIN; i <= CHAR_MAX; ++i) {
    char ch = static_cast<char>(i);
    bool want = strchr("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", ch) && ch;
    MON_CHECK(rcutils_isalnum_no_locale(ch) == want, "isalnum", "isalnum_no_locale(%d) is %d", i, !want);
    count("isalnum.values");
  }
  setlocale(LC_ALL, "C");
  c.mix(c.idx % 4);
  if (have) {c.interesting();}
}

static void cli(Case & c)
{
  Rng & r = c.rng;
  std::vector<std::string> pool = {"--foo", "--foobar", "--fo", "-f", "", "--", "value", "--foo=1", "--bar", "-"};
  size_t n = r.chance(1, 60) ? r.size(1200) : r.below(7);
  std::vector<std::string> args;
  if (n > 20) {pool = {"value", "x", "--foobar", "", "-", "--bar"}; count("cli.many");}
  for (size_t i = 0; i < n; ++i) {args.push_back(r.chance(1, 8) ? r.cstr(r.below(6)) : r.pick(pool));}
  std::string opt = r.chance(1, 8) ? r.cstr(r.below(4)) : n > 20 ? "--foo" : r.pick(pool);
  if (n > 20 && r.chance(3, 4)) {args[r.chance(1, 2) ? n - 1 - r.below(3) : r.below(n)] = opt;}
  // exactly n pointers, so that reading beyond the range is noticed
  std::vector<std::unique_ptr<Exact>> own;
  char ** argv = static_cast<char **>(malloc(sizeof(char *) * (n ? n : 1)));
  std::string shown;
  for (size_t i = 0; i < n; ++i) {
    own.emplace_back(new Exact(args[i]));
    argv[i] = own.back()->p;
    c.mix(args[i]);
    shown += " " + show(args[i]);
  }
  c.mix(opt); c.mix(n);
  size_t at = n;
  for (size_t i = n; i-- > 0; ) {if (args[i] == opt) {at = i;}}
  Exact o(opt);
  tr("option " + show(opt) + " in" + shown);
  bool ex = rcutils_cli_option_exist(argv, argv + n, o);
  MON_CHECK(ex == (at < n), "cli.exist", "option_exist is %d", ex);
  char * v = rcutils_cli_get_option(argv, argv + n, o);
  char * want = at + 1 < n ? argv[at + 1] : nullptr;
  MON_CHECK(v == want, "cli.value", "get_option gives %s, expected %s", show(v).c_str(), show(want).c_str());
  if (n == 0) {count("cli.empty-range");}
  if (at < n) {count(want ? "cli.with-value" : "cli.last"); c.interesting();} else {count("cli.absent");}
  if (c.want_sample()) {c.sample("option " + show(opt) + " in" + shown);}
  free(argv);
}

// ------------------------------------------------------------------ P09
static void repl(Case & c)
{
  Rng & r = c.rng;
  static const char * alph[] = {"ab", "a", "abc"};
  const char * al = alph[r.below(3)];
  std::string s, from, to;
  if (r.chance(1, 3)) {
    from = r.cstr(1 + r.below(6));
    size_t n = r.below(r.chance(1, 3) ? 400 : 12);
    for (size_t i = 0; i < n; ++i) {s += r.chance(2, 3) ? from : r.cstr(r.below(4));}
    to = r.cstr(r.below(20));
  } else {
    from = r.str(1 + r.below(4), al);
    s = r.str(r.size(r.chance(1, 4) ? 3000 : 60), al);
    to = r.chance(1, 3) ? "" : r.str(r.below(10), "abX");
  }
  if (r.chance(1, 150)) {
    // many occurrences, or long ones
    if (r.chance(1, 2)) {
      from = r.str(1 + r.below(3), "ab");
      s.clear();
      for (size_t i = r.size(c.thorough ? 1300000 : 90000); i > 0; --i) {s += from;}
      to = r.str(r.below(4), "abX");
      count("repl.very-many");
    } else {
      from = r.str(r.size(70000), "ab") + "c";
      to = r.str(r.size(70000), "xy");
      s = from + r.str(r.size(70000), "ab") + from + from + r.str(r.below(3), "ab");
      count("repl.long");
    }
  }
  c.mix(s); c.mix(from); c.mix(to);
  std::string want;
  size_t hits = 0;
  for (size_t i = 0; i < s.size(); ) {
    if (s.compare(i, from.size(), from) == 0) {want += to; i += from.size(); ++hits;} else {want += s[i++];}
  }
  CkAlloc A("repl");
  rcutils_allocator_t al2 = A.get();
  Exact e(s), f(from), t(to);
  std::string what = "repl_str(" + show(s, 60) + ", " + show(from) + ", " + show(to) + ")";
  char * got = rcutils_repl_str(e, f, t, &al2);
  same_string(A, got, want, "repl", what);
  MON_CHECK(s == e.p && from == f.p && to == t.p, "repl.input", "%s changed an input", what.c_str());
  MON_CHECK(A.live_blocks == 1, "repl.blocks", "%s: %zu blocks live", what.c_str(), A.live_blocks);
  al2.deallocate(got, al2.state);
  check_empty(A, "repl");
  if (hits > 1) {c.interesting();}
  count(hits == 0 ? "repl.none" : hits > 64 ? "repl.over64" : hits > 16 ? "repl.over16" : "repl.some");
  if (c.want_sample()) {c.sample(what + fmt(" %zu occurrences", hits));}
}

static void dups(Case & c)
{
  Rng & r = c.rng;
  std::string s = r.cstr(r.chance(1, 80) ? r.size(300000) : r.size(5000));
  c.mix(s);
  CkAlloc A("dup");
  rcutils_allocator_t al = A.get();
  {
    Exact e(s);
    char * d = rcutils_strdup(e, al);
    same_string(A, d, s, "strdup", "strdup of " + show(s, 40));
    MON_CHECK(d != e.p, "strdup", "not a copy");
    al.deallocate(d, al.state);
  }
  size_t n;
  switch (r.below(4)) {
    case 0: n = r.below(s.size() + 1); break;
    case 1: n = s.size(); break;
    case 2: n = SIZE_MAX - r.below(2); break;
    default: n = s.size() + r.below(100); break;
  }
  c.mix(n);
  Exact e(s.substr(0, n), n > s.size());     // no terminator when the bound ends the text
  char * d = rcutils_strndup(e.p, n, al);
  same_string(A, d, s.substr(0, n), "strndup", fmt("strndup of %zu bytes bounded by %zu", s.size(), n));
  al.deallocate(d, al.state);
  count(n < s.size() ? "strndup.bounded" : "strndup.whole");
  MON_CHECK(rcutils_strdup(nullptr, al) == nullptr && rcutils_strndup(nullptr, 3, al) == nullptr, "strdup.null", "NULL duplicated");
  check_empty(A, "dup");
  if (n < s.size()) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("strndup %zu of ", n) + show(s, 60));}
}

// A formatting request: format and arguments fixed per kind so that the reference can be computed.
struct Req
{
  int kind;
  std::string s;
  int i;
  unsigned long long u;
  double d;
};
static Req request(Case & c)
{
  Rng & r = c.rng;
  Req q;
  q.kind = static_cast<int>(r.below(9));
  q.s = r.chance(1, 5) ? "" : r.cstr(r.size(r.chance(1, 120) ? 200000 : r.chance(1, 3) ? 6000 : 100));
  q.i = static_cast<int>(r.next());
  q.u = r.next();
  q.d = static_cast<double>(static_cast<int64_t>(r.next())) / 1e6;
  c.mix(q.s); c.mix(static_cast<uint64_t>(q.kind)); c.mix(q.u);
  return q;
}
// calls F(format, args...)
template<class F> static auto with(const Req & q, F f)
{
  switch (q.kind) {
    case 0: return f("%s", q.s.c_str());
    case 1: return f("%d:%s", q.i, q.s.c_str());
    case 2: return f("%s%%%llu", q.s.c_str(), q.u);
    case 3: return f("%.3f|%s", q.d, q.s.c_str());
    case 4: return f("%*s", 1 + (q.i & 0x3ff), q.s.c_str());
    case 5: return f("%-20.10s|%x|%c", q.s.c_str(), q.i, 'z');
    case 6: return f("plain text%s", "");
    case 7: return f("%s%s%s", q.s.c_str(), "", q.s.c_str());
    default: return f("%llu%s", q.u, q.s.c_str());
  }
}

static std::string reference(const Req & q)
{
  return with(q, [&](const char * f, auto... a) {
             int n = snprintf(nullptr, 0, f, a ...);
             std::string s(static_cast<size_t>(n) + 1, '\0');
             snprintf(&s[0], s.size(), f, a ...);
             s.pop_back();
             return s;
           });
}

static void format(Case & c)
{
  Rng & r = c.rng;
  Req q = request(c);
  std::string full = reference(q);
  CkAlloc A("fmt");
  rcutils_allocator_t al = A.get();
  size_t limit;
  switch (r.below(5)) {
    case 0: limit = 1 + r.below(full.size() + 2); break;
    case 1: limit = full.size() + 1; break;
    case 2: limit = full.size() + 1 + r.below(1000); break;
    case 3: limit = full.size() ? full.size() : 1; break;
    default: limit = 2048; break;
  }
  c.mix(limit);
  bool implicit = limit == 2048 && r.chance(1, 2);
  char * got = with(q, [&](const char * f, auto... a) {
        return implicit ? rcutils_format_string(al, f, a ...) : rcutils_format_string_limit(al, limit, f, a ...);
      });
  same_string(A, got, full.substr(0, limit - 1), "format_string", fmt("format_string kind %d limit %zu of %zu", q.kind, limit, full.size()));
  al.deallocate(got, al.state);
  count(full.size() + 1 > limit ? "format.cut" : "format.whole");
  if (full.size() + 1 > limit) {c.interesting();}
  MON_CHECK(rcutils_format_string_limit(al, limit, nullptr) == nullptr, "format_string.null", "NULL format accepted");
  if (limit == 1 + full.size()) {
    // a limit without room for a terminator cannot give a string
    char * z = rcutils_format_string_limit(al, 0, "%s", "x");
    if (z) {MON_CHECK(*z == '\0', "format_string.zero", "limit 0 gives %s", show(z).c_str()); al.deallocate(z, al.state);}
    count("format.limit0");
  }
  check_empty(A, "format");
  if (c.want_sample()) {c.sample(fmt("format kind %d limit %zu full length %zu", q.kind, limit, full.size()));}
}

// a conversion the platform formatter rejects: NULL, nothing leaked
static void format_fail(Case & c)
{
  CkAlloc A("fmt");
  rcutils_allocator_t al = A.get();
  wchar_t bad[] = {L'a', static_cast<wchar_t>(0x7fffffff - (c.idx & 0xff)), 0};
  int ref = snprintf(nullptr, 0, "%ls", bad);
  c.mix(c.idx & 0xff);
  if (ref < 0) {
    char * g = rcutils_format_string_limit(al, 100, "%ls", bad);
    MON_CHECK(!g, "format_string.error", "formatting error yields %s", show(g).c_str());
    char buf[20];
    memset(buf, 'x', sizeof(buf));
    MON_CHECK(rcutils_snprintf(buf, sizeof(buf), "%ls", bad) < 0, "snprintf.error", "formatting error not reported");
    count("format.rejected");
    c.interesting();
  }
  check_empty(A, "format_fail");
}

// ------------------------------------------------------------------ P10
static int vs(char * b, size_t n, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = rcutils_vsnprintf(b, n, f, ap);
  va_end(ap);
  return r;
}

static void bounded(Case & c)
{
  Rng & r = c.rng;
  Req q = request(c);
  std::string full = reference(q);
  bool v = r.chance(1, 2);
  int m = with(q, [&](const char * f, auto... a) {return v ? vs(nullptr, 0, f, a ...) : rcutils_snprintf(nullptr, 0, f, a ...);});
  MON_CHECK(m == static_cast<int>(full.size()), "snprintf.measure", "measuring gives %d, expected %zu", m, full.size());
  size_t n;
  switch (r.below(4)) {
    case 0: n = 1 + r.below(full.size() + 2); break;
    case 1: n = full.size() + r.below(3); break;
    case 2: n = 1; break;
    default: n = full.size() + 1 + r.below(200); break;
  }
  if (n == 0) {n = 1;}
  c.mix(n);
  char * b = static_cast<char *>(malloc(n));     // exact size: ASan guards both ends
  memset(b, 0x6B, n);
  int g = with(q, [&](const char * f, auto... a) {return v ? vs(b, n, f, a ...) : rcutils_snprintf(b, n, f, a ...);});
  MON_CHECK(g == static_cast<int>(full.size()), "snprintf.length", "returns %d, the complete text has %zu bytes", g, full.size());
  size_t k = std::min(n - 1, full.size());
  MON_CHECK(b[k] == '\0' && memcmp(b, full.data(), k) == 0, "snprintf.text", "%zu byte buffer holds %s, expected the first %zu of %s",
    n, show(std::string(b, strnlen(b, n))).c_str(), k, show(full).c_str());
  for (size_t i = k + 1; i < n; ++i) {
    MON_CHECK(b[i] == 0x6B, "snprintf.beyond", "byte %zu after the terminator was written", i);
  }
  free(b);
  count(full.size() >= n ? "snprintf.cut" : "snprintf.whole");
  if (full.size() >= n) {c.interesting();}
  char one = 'Q';
  MON_CHECK(rcutils_snprintf(&one, 0, "%s", "abc") != 0 || one == 'Q', "snprintf.zero", "size 0 accepted");
  MON_CHECK(one == 'Q', "snprintf.zero", "a buffer of size 0 was written");
  MON_CHECK(rcutils_snprintf(nullptr, 5, "%s", "abc") < 0, "snprintf.null", "NULL buffer with a size accepted");
  char z[4] = "zzz";
  const char * nofmt = nullptr;
  MON_CHECK(rcutils_snprintf(z, sizeof(z), nofmt) < 0, "snprintf.null", "NULL format accepted");
  if (c.want_sample()) {c.sample(fmt("snprintf kind %d into %zu of %zu", q.kind, n, full.size()));}
}

static void strerr(Case & c)
{
  Rng & r = c.rng;
  int e = r.chance(1, 5) ? static_cast<int>(r.next()) : static_cast<int>(r.below(140));
  char ref[512];
  const char * m = strerror_r(e, ref, sizeof(ref));
  std::string full = m;
  size_t n;
  switch (r.below(4)) {
    case 0: n = r.below(full.size() + 3); break;
    case 1: n = r.below(3); break;
    case 2: n = full.size() + r.below(3); break;
    default: n = 1 + r.below(400); break;
  }
  c.mix(static_cast<uint64_t>(static_cast<unsigned>(e))); c.mix(n);
  char * b = static_cast<char *>(malloc(n ? n : 1));
  memset(b, 0x6B, n ? n : 1);
  char * end = static_cast<char *>(malloc(n + 16));
  char * tight = b;
  if (n == 0) {
    // nothing may be written before or after the (empty) buffer
    memset(end, 0x6B, 16);
    tight = end + 8;
  }
  tr(fmt("strerror errno %d into %zu bytes", e, n));
  errno = e;
  rcutils_strerror(tight, n);
  if (n) {
    size_t k = std::min(n - 1, full.size());
    MON_CHECK(strnlen(b, n) < n, "strerror.terminated", "not terminated");
    std::string got(b, strnlen(b, n));
    // text of unknown numbers may be cut in any terminated way by the C library
    MON_CHECK(got == full.substr(0, k), "strerror.text", "got %s, expected the first %zu of %s", show(got).c_str(), k, show(full).c_str());
  } else {
    for (int i = 0; i < 16; ++i) {MON_CHECK(end[i] == 0x6B, "strerror.zero", "an empty buffer was written (offset %d)", i - 8);}
    count("strerror.empty");
  }
  count(full.compare(0, 7, "Unknown") == 0 ? "strerror.unknown" : "strerror.known");
  if (n <= full.size()) {c.interesting(); count("strerror.cut");}
  free(b); free(end);
  errno = 0;
}

// ------------------------------------------------------------------ P11
static size_t g_size;
static int g_key;       // comparison considers the first g_key bytes
static uint64_t g_calls;
static int cmp_prefix(const void * a, const void * b) {g_calls++; return memcmp(a, b, static_cast<size_t>(g_key));}
static int cmp_reverse(const void * a, const void * b) {g_calls++; return memcmp(b, a, static_cast<size_t>(g_key));}
static int cmp_equal(const void *, const void *) {g_calls++; return 0;}
static int cmp_never(const void *, const void *) {note("qsort.called", "comparison called for a rejected array"); return 0;}

static void sort(Case & c)
{
  Rng & r = c.rng;
  size_t size = r.chance(1, 10) ? 1 + r.below(600) : r.pick(std::vector<size_t>{1, 2, 3, 4, 7, 8, 12, 16, 24, 31, 32, 33, 40, 64, 100});
  size_t n = r.size(r.chance(1, 10) ? 3000 : 200);
  if (size <= 16 && r.chance(1, 60)) {n = r.size(80000); count("qsort.large");}
  std::string data;
  switch (r.below(4)) {
    case 0: data = r.bytes(n * size); break;
    case 1: data = r.str(n * size, "ab"); break;
    case 2: {                       // sorted, then a few swaps
        for (size_t i = 0; i < n; ++i) {
          std::string e(size, static_cast<char>(i >> 8));
          if (size > 1) {e[0] = static_cast<char>(i >> 8); e[1] = static_cast<char>(i);}
          data += e;
        }
        break;
      }
    default: {
        for (size_t i = 0; i < n; ++i) {data += std::string(size, static_cast<char>(n - i));}
        break;
      }
  }
  g_size = size;
  g_key = static_cast<int>(r.chance(1, 2) ? size : 1 + r.below(size));
  c.mix(data); c.mix(size); c.mix(static_cast<uint64_t>(g_key));
  auto f = r.pick(std::vector<int (*)(const void *, const void *)>{cmp_prefix, cmp_prefix, cmp_reverse, cmp_equal});
  // n elements with no slack on the right, canaries on the left
  char * blk = static_cast<char *>(malloc(64 + data.size()));
  memset(blk, 0x3C, 64);
  memcpy(blk + 64, data.data(), data.size());
  g_calls = 0;
  MON_CHECK(rcutils_qsort(blk + 64, n, size, f) == RCUTILS_RET_OK, "qsort", "failed for %zu elements of %zu bytes", n, size);
  std::multiset<std::string> before, after;
  for (size_t i = 0; i < n; ++i) {
    before.insert(data.substr(i * size, size));
    after.insert(std::string(blk + 64 + i * size, size));
    if (i) {
      MON_CHECK(f(blk + 64 + (i - 1) * size, blk + 64 + i * size) <= 0, "qsort.order", "elements %zu and %zu of %zu (%zu bytes) are out of order", i - 1, i, n, size);
    }
  }
  MON_CHECK(before == after, "qsort.permutation", "result of sorting %zu elements of %zu bytes is not a permutation", n, size);
  for (int i = 0; i < 64; ++i) {MON_CHECK(blk[i] == 0x3C, "qsort.bounds", "byte before the array was written");}
  if (n > 2) {c.interesting();}
  count("qsort.elements", n);
  if (n <= 1) {count("qsort.trivial");}
  // rejected calls leave the array alone
  if (n > 1) {
    std::string img(blk + 64, data.size());
    MON_CHECK(rcutils_qsort(blk + 64, n, size, nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "qsort.null", "NULL comparison accepted");
    rcutils_reset_error();
    MON_CHECK(rcutils_qsort(nullptr, n, size, cmp_never) == RCUTILS_RET_INVALID_ARGUMENT, "qsort.null", "NULL array accepted");
    rcutils_reset_error();
    MON_CHECK(img == std::string(blk + 64, data.size()), "qsort.null", "rejected call changed the array");
    count("qsort.rejected");
  }
  if (n <= 1) {
    std::string img(blk + 64, data.size());
    MON_CHECK(rcutils_qsort(blk + 64, n, size, nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "qsort.null", "NULL comparison accepted for %zu elements", n);
    MON_CHECK(rcutils_error_is_set(), "qsort.null", "no error message for a NULL comparison");
    rcutils_reset_error();
    MON_CHECK(img == std::string(blk + 64, data.size()), "qsort.null", "rejected call changed the array");
    MON_CHECK(rcutils_qsort(nullptr, 0, size, nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "qsort.null", "NULL comparison accepted for a NULL array");
    rcutils_reset_error();
    count("qsort.rejected-trivial");
  }
  MON_CHECK(rcutils_qsort(nullptr, 0, size, cmp_never) == RCUTILS_RET_OK, "qsort.empty", "empty NULL array rejected");
  MON_CHECK(rcutils_qsort(blk + 64, 0, size, cmp_never) == RCUTILS_RET_OK, "qsort.empty", "empty array rejected");
  free(blk);
  if (c.want_sample()) {c.sample(fmt("%zu elements of %zu bytes, key %d bytes, %" PRIu64 " comparisons", n, size, g_key, g_calls));}
}

static void reg()
{
  section("split", 12000, 250000, split);
  section("split-small", 29524, 265720, split_small);    // all strings up to length 9 (11) over {/, a, b}
  section("split-large", 100, 2000, split_large);
  section("split-null", 16, 16, split_null);
  section("find", 12000, 200000, find);
  section("casecmp", 12000, 200000, casecmp);
  section("isalnum", 16, 16, isalnum_all);
  section("cli", 12000, 200000, cli);
  section("repl", 10000, 200000, repl);
  section("dup", 8000, 100000, dups);
  section("format", 10000, 150000, format);
  section("format-fail", 64, 256, format_fail);
  section("bounded", 14000, 250000, bounded);
  section("strerror", 14000, 150000, strerr);
  section("sort", 5000, 80000, sort);
}
MON_MAIN(reg)
