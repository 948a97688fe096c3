// P36: the helper macros of the public headers, at call sites compiled as C and C++, with and without fault injection.
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <thread>

#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "rcutils/testing/fault_injection.h"
#include "aux/helper_sites.h"

using namespace mon;

extern "C" {
void * hs_p(struct hs * x) {x->evals++; return x->p;}
int64_t hs_v(struct hs * x) {x->evals++; return x->v;}
int hs_sel(struct hs * x) {x->evals++; return x->sel;}
const char * hs_s(struct hs * x) {x->evals++; return x->s;}
rcutils_allocator_t * hs_a(struct hs * x) {x->evals++; return x->a;}
static std::string unmet;   // the format of a notice that took more arguments than there were
int hs_printf(int given, const char * format, ...)
{
  int taken = 0;
  for (const char * p = format; *p; ++p) {
    if (*p == '%' && *++p != '%') {++taken;}
    if (!*p) {break;}
  }
  va_list l;
  va_start(l, format);
  int r;
  if (taken > given) {
    unmet = format;
    bool place = given == 2 && strncmp(format, "%s:%d ", 6) == 0;
    const char * f = place ? va_arg(l, const char *) : "";
    r = place ? fprintf(stdout, "%s:%d %s", f, va_arg(l, int), format + 6) : fputs(format, stdout);
  } else {
    r = vprintf(format, l);
  }
  va_end(l);
  return r;
}
}

namespace
{
struct Table {const char * name; bool faults; const struct hs_site * s; size_t n; std::string file;};
const std::vector<Table> & tables()
{
  static std::vector<Table> t;
  if (t.empty()) {
    struct {const char * name; bool faults; const struct hs_site * (* f)(size_t *, const char **);} all[] = {
      {"C", true, hs_c}, {"C++", true, hs_cpp}, {"C without faults", false, hs_c_nofault}, {"C++ without faults", false, hs_cpp_nofault}};
    for (auto & a : all) {
      size_t n;
      const char * file;
      const struct hs_site * s = a.f(&n, &file);
      t.push_back({a.name, a.faults, s, n, file});
    }
  }
  return t;
}
const size_t MSG = RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1, FIL = RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1, STR = RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1;

std::string where(const Table & t, const struct hs_site & s) {return std::string(s.name) + " (" + t.name + ")";}
void check_error(const Table & t, const struct hs_site & s, const std::string & message, size_t line)
{
  std::string w = where(t, s);
  const rcutils_error_state_t * e = rcutils_get_error_state();
  MON_CHECK(rcutils_error_is_set(), "helper.unset", "%s: no error set", w.c_str());
  MON_CHECK(message.substr(0, MSG) == e->message, "helper.message", "%s: message %s, should be %s", w.c_str(), show(e->message).c_str(), show(message).c_str());
  MON_CHECK(t.file.substr(0, FIL) == e->file, "helper.file", "%s: file %s", w.c_str(), show(e->file).c_str());
  MON_CHECK(e->line_number == line, "helper.line", "%s: line %" PRIu64 ", should be %zu", w.c_str(), e->line_number, line);
}
std::vector<int64_t> converted(const struct hs & x)
{
  typedef __int128 L;
  const L S = 1000000000, M = 1000000, U = 1000;
  L v = x.v, w = x.w, i = x.i32, u = x.u8, a = static_cast<int64_t>(static_cast<uint64_t>(x.v) * 2654435761u),
    b = static_cast<int64_t>(static_cast<uint64_t>(x.w) << 31);
  std::vector<L> e = {v * S, v * M, v * U, i * S, i * M, i * U, u * S, u * M, u * U, (v + w) * S, (v - w) * M, (x.sel ? v : w) * U, -((v - i) * S),
    w - (i - u) * M, i * U * (u + 1), 3 * (i - u) * U, v * S, a / S, a / M, a / U, (a / 2 + b / 2) / S, (a / 2 - b / 2) / M, (x.sel ? a : b) / U, a / S % 60,
    a / M * 3, -(a / U), a % S, a / (M * 10), b / ((a | (L(1) << 40)) / S), b % ((a | (L(1) << 40)) / M), b / ((a | (L(1) << 40)) / U), b % ((i | 1) * U), i * M - u * M, v, w, i, i * 1000, i / S, i / U, v / U, 8, 8, 5 * S + 7 * M - 9 * U, w == 1000, 0, 1};
  std::vector<int64_t> r;
  for (L k : e) {r.push_back(static_cast<int64_t>(k));}
  return r;
}
bool near(double a, double b) {return a == b || std::fabs(a - b) <= 1e-12 * std::fabs(b);}

void helpers(Case & c)
{
  Rng & g = c.rng;
  rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
  rcutils_reset_error();
  if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {fail("helper.setup", "logging shutdown");}
  unsigned held = 0, not_held = 0;
  for (unsigned round = 0; round < 40; ++round) {
    const Table & t = g.pick(tables());
    const struct hs_site & s = t.s[g.below(t.n)];
    std::string w = where(t, s);
    CkAlloc A("a"), B("b");
    struct hs x;
    memset(&x, 0, sizeof(x));
    std::string st = g.chance(1, 4) ? g.cstr(g.size(1500)) : g.str(g.size(1500), "abc %sdn"), tt = g.str(g.size(60), "xyz%d ");
    Exact es(st), et(tt);
    int some;
    x.s = es.p;
    x.t = et.p;
    x.p = g.chance(1, 2) ? &some : nullptr;
    x.q = g.chance(1, 2) ? &some : nullptr;
    x.sel = g.chance(1, 2) ? 0 : static_cast<int>(g.range(1, 3));
    auto wide = [&] {return g.chance(1, 8) ? 1000 : static_cast<int64_t>(g.next() % 8000000001ull) - 4000000000ll;};
    x.v = g.chance(1, 3) ? wide() % 100 : wide();
    x.w = g.chance(1, 3) ? wide() % 100 : wide();
    x.i32 = static_cast<int32_t>(g.chance(1, 3) ? wide() % 50 : wide() % 2000000000);
    x.u8 = static_cast<uint8_t>(g.range(1, 200));
    x.d = static_cast<double>(static_cast<int32_t>(g.next())) / 1000;
    rcutils_allocator_t a[2] = {A.get(), B.get()};
    for (auto & y : a) {
      if (g.chance(1, 2)) {
        unsigned k = static_cast<unsigned>(g.range(1, 15));
        if (k & 1) {y.allocate = nullptr;}
        if (k & 2) {y.deallocate = nullptr;}
        if (k & 4) {y.reallocate = nullptr;}
        if (k & 8) {y.zero_allocate = nullptr;}
      }
    }
    bool deref = s.kind == HS_AUTOINIT;
    x.a = !deref && g.chance(1, 4) ? nullptr : &a[0];
    x.b = !deref && g.chance(1, 4) ? nullptr : &a[1];
    auto usable = [](const rcutils_allocator_t * y) {return y && y->allocate && y->deallocate && y->reallocate && y->zero_allocate;};
    // the error set before
    bool preset = g.chance(1, 2);
    std::string prev_message = "before", prev;
    rcutils_reset_error();
    if (preset) {
      if (g.chance(1, 3)) {prev_message = g.str(g.size(900), "ab %s");}
      rcutils_set_error_state(prev_message.c_str(), "before.c", 7);
    }
    prev = rcutils_get_error_string().str;
    int64_t armed = -1;
    if (s.kind == HS_FAULT) {
      armed = static_cast<int64_t>(g.below(4)) - 1;
      rcutils_fault_injection_set_count(armed);
    }
    bool init_before = false;
    if (s.kind == HS_AUTOINIT && g.chance(1, 3)) {
      init_before = true;
      if (rcutils_logging_initialize_with_allocator(B.get()) != RCUTILS_RET_OK) {fail("helper.setup", "logging");}
    }
    bool starved = s.kind == HS_AUTOINIT && g.chance(1, 4);
    if (starved) {A.arm(1, true); B.arm(1, true);}
    int r;
    std::string err, out;
    {
      Capture o(stdout, 1);
      Capture e(stderr, 2);
      r = s.fn(&x);
      err = e.stop();
      out = o.stop();
    }
    tr(fmt("%s: sel %d, p %s, q %s -> %d", w.c_str(), x.sel, x.p ? "set" : "NULL", x.q ? "set" : "NULL", r));
    c.mix(s.name); c.mix(static_cast<uint64_t>(r)); c.mix(static_cast<uint64_t>(x.sel != 0)); c.mix(x.p != nullptr); c.mix(x.q != nullptr); c.mix(preset);
    count(fmt("kind.%d", s.kind));
    count(std::string("as.") + t.name);
    char ch = s.chosen;
    if (ch == 'u') {ch = 'p';}
    bool first = ch == 's' ? x.sel != 0 : ch == 'n' ? x.sel == 0 : ch == 'p';
    bool untouched_error = true;        // the error state stays as it was
    switch (s.kind) {
      case HS_ARGUMENT: case HS_NULLMSG: {
          bool is_null = (first ? x.p : x.q) == nullptr;
          if (s.chosen == 'u' && !x.sel) {is_null = false;}
          int want = !is_null ? HS_THROUGH : s.value == -21 ? (x.sel ? 21 : 22) : s.value;
          MON_CHECK(r == want, "helper.null", "%s: the value is%s NULL, returned %d, should be %d", w.c_str(), is_null ? "" : " not", r, want);
          if (is_null) {check_error(t, s, s.kind == HS_ARGUMENT ? std::string(s.text) + " argument is null" : x.text, x.line); untouched_error = false;}
          MON_CHECK(x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++(is_null ? held : not_held);
          break;
        }
      case HS_ALLOCATOR: case HS_ALLOCATOR_MSG: {
          // "negated" choices pick through the same pair
          bool ok = usable(first ? x.a : x.b);
          int want = ok ? HS_THROUGH : s.value;
          MON_CHECK(r == want, "helper.allocator", "%s: the allocator is %svalid, returned %d, should be %d", w.c_str(), ok ? "" : "in", r, want);
          if (!ok && s.kind == HS_ALLOCATOR_MSG) {check_error(t, s, x.text, x.line); untouched_error = false;}
          MON_CHECK(x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++(ok ? not_held : held);
          break;
        }
      case HS_SET: case HS_FORMAT: case HS_APPEND: case HS_FORMAT_APPEND: {
          std::string m = x.want;
          if (s.kind == HS_APPEND || s.kind == HS_FORMAT_APPEND) {m += ": " + prev;}
          if (s.kind != HS_SET) {m = m.substr(0, STR);}
          check_error(t, s, m, x.line);
          untouched_error = false;
          MON_CHECK(x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++held;
          break;
        }
      case HS_STDERR: case HS_STDERR_FORMAT: case HS_STDERR_APPEND: case HS_STDERR_FORMAT_APPEND: {
          std::string m = x.want;
          if (s.kind == HS_STDERR_FORMAT || s.kind == HS_STDERR_FORMAT_APPEND) {m = m.substr(0, STR);}
          if (s.kind == HS_STDERR_APPEND || s.kind == HS_STDERR_FORMAT_APPEND) {
            m += (": " + prev).substr(0, STR);
            untouched_error = false;
            MON_CHECK(!rcutils_error_is_set(), "helper.reset", "%s: the error is still set", w.c_str());
          }
          MON_CHECK(err == m, "helper.stderr", "%s: wrote %s, should be %s", w.c_str(), show(err).c_str(), show(m).c_str());
          MON_CHECK(x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++held;
          break;
        }
      case HS_FAULT: {
          int64_t left = rcutils_fault_injection_get_count();
          rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
          bool fires = t.faults && armed == 0;
          int want = fires ? s.value : HS_THROUGH;
          bool goes_on = !fires || strstr(s.name, "CAN_FAIL_WITH") != nullptr;
          MON_CHECK(r == want, "helper.fault", "%s: armed at %" PRId64 ", returned %d, should be %d", w.c_str(), armed, r, want);
          MON_CHECK(x.ran == (goes_on ? 1u : 0u), "helper.fault", "%s: the rest ran %u times", w.c_str(), x.ran);
          if (!unmet.empty()) {
            const char * verb = unmet.find("returning") != std::string::npos ? ".returning" : unmet.find("executing") != std::string::npos ? ".executing" : "";
            record_violation(std::string("helper.fault-format") + verb, fmt("%s: the notice was printed with the format %s", w.c_str(), show(unmet).c_str()));
            unmet.clear();
          }
          int64_t wl = !t.faults || armed < 0 ? armed : armed - 1;
          MON_CHECK(left == wl, "helper.fault-count", "%s: the counter is %" PRId64 " after %" PRId64, w.c_str(), left, armed);
          if (fires) {
            MON_CHECK(out.find(t.file + ":" + std::to_string(x.line)) != std::string::npos, "helper.fault-where", "%s: printed %s", w.c_str(), show(out).c_str());
            MON_CHECK(out.find(s.text) != std::string::npos, "helper.fault-text", "%s: printed %s instead of %s", w.c_str(), show(out).c_str(), show(s.text).c_str());
            MON_CHECK(out.back() == '\n' && std::count(out.begin(), out.end(), '\n') == 1, "helper.fault-lines", "%s: printed %s", w.c_str(), show(out).c_str());
            if (s.chosen == 'm') {check_error(t, s, "Injecting 14", x.line); untouched_error = false;}
            if (x.text) {MON_CHECK(strcmp(x.text, "20% %s %n") == 0, "helper.fault-code", "%s: the code did something else", w.c_str());}
            ++held;
          } else {
            MON_CHECK(out.empty(), "helper.fault-quiet", "%s: printed %s", w.c_str(), show(out).c_str());
            ++not_held;
          }
          break;
        }
      case HS_LOOP: {
          bool ok = x.ncounts == x.u8 + 1u && r == x.u8 && x.ran == 0 && x.evals == 0;
          for (unsigned k = 0; k < x.ncounts && ok; ++k) {ok = x.counts[k] == k;}
          MON_CHECK(ok, "helper.loop", "%s: %u points: %u runs, %d failures, %u while paused", w.c_str(), x.u8, x.ncounts, r, x.ran + x.evals);
          MON_CHECK(rcutils_fault_injection_get_count() < 0, "helper.loop-end", "%s: still armed", w.c_str());
          ++held;
          break;
        }
      case HS_PAUSE: {
          unsigned n = x.ncounts;
          MON_CHECK(n == (x.sel ? 2u : 1u) && x.counts[n - 1] == x.v && x.ran == 0 && (n == 1 || x.counts[0] < 0), "helper.pause",
            "%s: %" PRId64 " after, %" PRId64 " before", w.c_str(), x.counts[n ? n - 1 : 0], x.v);
          ++held;
          break;
        }
      case HS_CONVERT: {
          auto want = converted(x);
          MON_CHECK(x.n == want.size(), "helper.convert", "%u values", x.n);
          for (unsigned k = 0; k < x.n; ++k) {
            MON_CHECK(x.got[k] == want[k], "helper.convert", "%s: value %u is %" PRId64 ", should be %" PRId64 " (v %" PRId64 ", w %" PRId64 ", i %d, u %u)", w.c_str(), k,
              x.got[k], want[k], x.v, x.w, x.i32, x.u8);
          }
          const double d[] = {x.d * 1e9, x.d * 1e6, x.d * 1e3, x.d / 1e9, static_cast<double>(x.v) / 1e6};
          for (unsigned k = 0; k < 5; ++k) {
            MON_CHECK(near(x.dgot[k], d[k]), "helper.convert-double", "%s: value %u is %g, should be %g", w.c_str(), k, x.dgot[k], d[k]);
          }
          MON_CHECK(x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++held;
          break;
        }
      case HS_BOOLEAN: {
          int sa = x.sel, sb = x.i32 > 0, sc = x.u8 > 99;
          const int64_t want[] = {sa, sa, x.i32, x.i32, !sa, (sa || sb) && sc, (sa && sb) || sc, sa == 2 ? 5 : 6, sa ? sb : sc, !x.p, !x.p, x.v > x.w, 10};
          for (unsigned k = 0; k < x.n && k < 13; ++k) {
            bool same = k < 4 ? (x.got[k] != 0) == (want[k] != 0) : x.got[k] == want[k];
            MON_CHECK(same, "helper.likely", "%s: value %u is %" PRId64 ", should be %" PRId64, w.c_str(), k, x.got[k], want[k]);
          }
          MON_CHECK(x.n == 13 && x.evals == s.evals, "helper.evaluations", "%s: %u evaluations, should be %u", w.c_str(), x.evals, s.evals);
          ++held;
          break;
        }
      case HS_TEXT: {
          const char * want = "two words|a \"b\\n\" % d|joined|xy|257|10";
          MON_CHECK(strcmp(x.want, want) == 0, "helper.text", "%s: %s", w.c_str(), show(x.want).c_str());
          MON_CHECK(x.text && x.text == std::to_string(x.line) && x.got[0] == 3, "helper.text", "%s: line %s", w.c_str(), x.text);
          ++held;
          break;
        }
      case HS_AUTOINIT: {
          const rcutils_allocator_t * y = first ? x.a : x.b;
          CkAlloc & used = first ? A : B;
          bool ok = init_before || (usable(y) && !starved);
          A.disarm();
          B.disarm();
          MON_CHECK(x.evals == (init_before ? 0 : s.evals), "helper.evaluations", "%s: %u evaluations", w.c_str(), x.evals);
          MON_CHECK(g_rcutils_logging_initialized == ok, "helper.autoinit", "%s: logging is %sinitialized", w.c_str(), ok ? "not " : "");
          MON_CHECK(x.ran == 0, "helper.autoinit", "%s: the alternative ran", w.c_str());
          if (!ok) {
            std::string head = "[rcutils|" + t.file + ":" + std::to_string(x.line) + "] error initializing logging: ";
            size_t at = err.find(head);
            MON_CHECK(at != std::string::npos && err.size() > at + head.size() + 1 && err.back() == '\n', "helper.autoinit-report", "%s: reported %s", w.c_str(), show(err).c_str());
            MON_CHECK(err.find("error not set") == std::string::npos, "helper.autoinit-report", "%s: reported without the reason: %s", w.c_str(), show(err).c_str());
            MON_CHECK(!rcutils_error_is_set(), "helper.reset", "%s: the error is still set", w.c_str());
            untouched_error = false;
            ++held;
            count("autoinit.failed");
            // and again, with what works
            if (g.chance(1, 2)) {
              a[0] = A.get();
              a[1] = B.get();
              x.a = &a[0];
              x.b = &a[1];
              x.evals = 0;
              preset = false;
              prev = "error not set";
              untouched_error = true;
              if (s.fn(&x) != 0 || !g_rcutils_logging_initialized || x.evals != s.evals) {fail("helper.autoinit-again", w + ": not initialized at the second attempt");}
              ok = true;
              count("autoinit.again");
            }
          } else {
            MON_CHECK(err.empty(), "helper.autoinit-quiet", "%s: reported %s", w.c_str(), show(err).c_str());
            ++not_held;
          }
          if (ok) {
            CkAlloc & owner = init_before ? B : used;
            size_t before = owner.live_blocks;
            uint64_t calls = owner.calls;
            if (rcutils_logging_set_logger_level("some.logger", 20) != RCUTILS_RET_OK) {fail("helper.autoinit-use", w + ": cannot set a level");}
            MON_CHECK(owner.calls > calls && owner.live_blocks > before, "helper.autoinit-allocator", "%s: the given allocator is not used", w.c_str());
            CkAlloc & other = &owner == &A ? B : A;
            MON_CHECK(other.live_blocks == 0, "helper.autoinit-allocator", "%s: another allocator is used", w.c_str());
          }
          MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "helper.autoinit", "%s: shutdown failed", w.c_str());
          break;
        }
      default: fail("helper.kind", "unknown kind");
    }
    if (untouched_error) {
      MON_CHECK(rcutils_error_is_set() == preset && prev == rcutils_get_error_string().str, "helper.error-state", "%s: changed the error to %s", w.c_str(),
        show(rcutils_get_error_string().str).c_str());
    }
    check_empty(A, s.name);
    check_empty(B, s.name);
    raise();
    rcutils_reset_error();
  }
  c.mix(held);
  count("held", held);
  count("not-held", not_held);
  if (held && not_held) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("40 call sites, condition held at %u", held));}
}

// Thread-local variables declared with the macro are one per thread.
#define _Thread_local thread_local
RCUTILS_THREAD_LOCAL int per_thread = 5;
#undef _Thread_local
void thread_local_variable(Case & c)
{
  Rng & g = c.rng;
  unsigned n = static_cast<unsigned>(g.range(2, 6));
  std::vector<std::thread> t;
  std::vector<int> seen(n);
  std::vector<int *> at(n);
  std::atomic<unsigned> ready{0};
  int mine = per_thread = static_cast<int>(g.below(1000));
  for (unsigned i = 0; i < n; ++i) {
    t.emplace_back([&, i] {
      int start = per_thread;
      per_thread += static_cast<int>(i) + 1;
      ++ready;
      while (ready < n) {std::this_thread::yield();}
      seen[i] = start == 5 ? per_thread : -1;
      at[i] = &per_thread;
      ++ready;
      while (ready < 2 * n) {std::this_thread::yield();}
    });
  }
  for (auto & x : t) {x.join();}
  std::set<int *> distinct(at.begin(), at.end());
  distinct.insert(&per_thread);
  for (unsigned i = 0; i < n; ++i) {MON_CHECK(seen[i] == 5 + static_cast<int>(i) + 1, "helper.thread-local", "thread %u saw %d", i, seen[i]);}
  MON_CHECK(distinct.size() == n + 1 && per_thread == mine, "helper.thread-local", "%zu variables for %u threads", distinct.size(), n + 1);
  per_thread = 5;
  count("thread-local");
  c.mix(g.next());
  c.interesting();
}

void reg()
{
  section("helpers", 4000, 60000, helpers);
  section("thread-local", 40, 400, thread_local_variable);
}
}  // namespace
MON_MAIN(reg)
