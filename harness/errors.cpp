// P15: the error state of one thread against a model.  P16: error states of many threads.
#include <thread>

#include "capture.hpp"
#include "mon.hpp"
using namespace mon;

namespace
{
constexpr size_t MSG = RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH;
constexpr size_t FIL = RCUTILS_ERROR_STATE_FILE_MAX_LENGTH;

struct Model
{
  bool set = false;
  std::string msg, file;
  uint64_t line = 0;
  void put(const std::string & m, const std::string & f, uint64_t l)
  {
    set = true;
    msg = m.substr(0, MSG - 1);
    file = f.substr(0, FIL - 1);
    line = l;
  }
  std::string str() const {return set ? msg + ", at " + file + ":" + std::to_string(line) : "error not set";}
  void clear() {set = false; msg.clear(); file.clear(); line = 0;}
};

std::string zstr(const char * p, size_t n) {return std::string(p, strnlen(p, n));}

// "" when the thread's error state is what the model says
std::string differs(const Model & m, unsigned how)
{
  if (rcutils_error_is_set() != m.set) {return fmt("error_is_set is %d, model %d", !m.set, m.set);}
  // order of the queries varies: formatting the string is lazy
  for (unsigned k = 0; k < 2; ++k) {
    if ((how ^ k) & 1) {
      rcutils_error_string_t s = rcutils_get_error_string();
      if (strnlen(s.str, sizeof(s.str)) >= sizeof(s.str)) {return "error string is not terminated";}
      if (m.str() != s.str) {return "error string is " + show(std::string(s.str)) + ", model " + show(m.str());}
    } else {
      const rcutils_error_state_t * e = rcutils_get_error_state();
      if (m.set) {
        if (!e) {return "no error state although an error is set";}
        if (strnlen(e->message, MSG) >= MSG || strnlen(e->file, FIL) >= FIL) {return "unterminated message or file";}
        if (m.msg != zstr(e->message, MSG)) {
          return "message is " + show(zstr(e->message, MSG)) + ", model " + show(m.msg);
        }
        if (m.file != zstr(e->file, FIL)) {return "file is " + show(zstr(e->file, FIL)) + ", model " + show(m.file);}
        if (m.line != e->line_number) {return fmt("line is %" PRIu64 ", model %" PRIu64, e->line_number, m.line);}
      } else if (e && (e->message[0] || e->file[0] || e->line_number)) {
        return "a stale error state is shown although none is set";
      }
    }
  }
  return "";
}

std::string message(Rng & g)
{
  static const size_t edge[] = {0, 1, 2, 100, MSG - 2, MSG - 1, MSG, MSG + 1, MSG + 100, 1020, 1022, 1023, 1024, 1025, 1500, 4095, 5000};
  size_t n = g.chance(1, 2) ? edge[g.below(sizeof(edge) / sizeof(edge[0]))] : g.below(60);
  std::string s = g.chance(1, 4) ? g.cstr(n) : g.str(n, "abc %s%d:,");
  return s;
}
std::string filename(Rng & g)
{
  static const size_t edge[] = {0, 1, 10, FIL - 2, FIL - 1, FIL, FIL + 1, 300, 1023, 1024, 3000};
  size_t n = g.chance(1, 2) ? edge[g.below(sizeof(edge) / sizeof(edge[0]))] : g.below(60);
  return g.chance(1, 4) ? g.cstr(n) : g.str(n, "/abcd.");
}
uint64_t line(Rng & g)
{
  switch (g.below(6)) {
    case 0: return 0;
    case 1: return UINT64_MAX - g.below(3);
    case 2: return g.next();
    case 3: {uint64_t p = 1; for (uint64_t i = g.below(20); i > 0; --i) {p *= 10;} return p - g.below(2);}
    default: return g.below(3000);
  }
}

// the text of a "%s"-style formatting macro: cut to its local buffer
std::string cut(const std::string & s) {return s.substr(0, RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1);}

void errors(Case & c)
{
  Rng & g = c.rng;
  rcutils_reset_error();
  Model m;
  unsigned steps = static_cast<unsigned>(g.range(1, 25));
  unsigned cuts = 0, overwrites = 0;
  for (unsigned i = 0; i < steps; ++i) {
    Model before = m;
    std::string given, err;
    unsigned op = static_cast<unsigned>(g.below(14));
    bool is_set_op = true;
    c.mix(op);
    Capture cap(stderr, 2);
    switch (op) {
      case 0: case 1: case 2: case 3: {
          given = message(g);
          if (g.chance(1, 5) && m.set) {given = m.msg;}
          if (g.chance(1, 5) && m.set) {                           // nearly the old one, as set or as formatted
            given = g.chance(1, 2) ? m.msg : m.str();
            size_t at = given.empty() ? 0 : g.chance(1, 3) ? given.size() - 1 : g.below(given.size());
            switch (given.empty() ? 2 : g.below(4)) {
              case 0: given[at] = given[at] == '~' ? '+' : '~'; break;
              case 1: given.resize(at); break;
              case 2: given += g.str(g.range(1, 20), "abc "); break;
              default: given.erase(at, 1);
            }
            count("errors.nearly-same");
          }
          std::string f = filename(g);
          uint64_t l = line(g);
          Exact em(given), ef(f);
          rcutils_set_error_state(em, ef, l);
          m.put(given, f, l);
          tr(fmt("set(%zu chars, file %zu chars, %" PRIu64 ")", given.size(), f.size(), l));
          break;
        }
      case 4: {   // a message that is the current message, file or string itself
          const rcutils_error_state_t * e = rcutils_get_error_state();
          const char * p = e->message + (m.msg.size() ? g.below(m.msg.size()) : 0);
          given = p;
          const char * f = g.chance(1, 2) ? e->file : "x.c";
          std::string fs = f;
          uint64_t l = line(g);
          rcutils_set_error_state(p, f, l);
          m.put(given, fs, l);
          tr("set(own message)");
          break;
        }
      case 5: {
          rcutils_error_string_t s = rcutils_get_error_string();
          given = s.str;
          uint64_t l = line(g);
          rcutils_set_error_state(s.str, "again.c", l);
          m.put(given, "again.c", l);
          tr("set(own string)");
          break;
        }
      case 6: {
          std::string a = message(g);
          uint64_t n = g.next() % 100000;
          int at = 0;
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("<%s|%" PRIu64 ">", a.c_str(), n); at = __LINE__;
          given = cut("<" + a + "|" + std::to_string(n) + ">");
          m.put(given, __FILE__, static_cast<uint64_t>(at));
          tr("format");
          break;
        }
      case 7: {
          int at = 0;
          given = cut("while doing it: " + m.str());
          RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("while doing it"); at = __LINE__;
          m.put(given, __FILE__, static_cast<uint64_t>(at));
          before.clear();     // the macro resets first: nothing is overwritten
          count("errors.appended");
          tr("append");
          break;
        }
      case 8: {
          int at = 0;
          std::string a = message(g);
          given = cut("in " + a + ": " + m.str());
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("in %s", a.c_str()); at = __LINE__;
          m.put(given, __FILE__, static_cast<uint64_t>(at));
          before.clear();
          count("errors.appended");
          tr("format and append");
          break;
        }
      case 9: {
          is_set_op = false;
          bool nullmsg = g.chance(1, 2);
          rcutils_set_error_state(nullmsg ? nullptr : "m", nullmsg && g.chance(1, 2) ? "f" : nullptr, 3);
          count("errors.null");
          tr("set(NULL)");
          break;
        }
      case 10: case 11: {
          is_set_op = false;
          rcutils_reset_error();
          m.clear();
          tr("reset");
          break;
        }
      case 12: {   // the reporting macros print and clear
          is_set_op = false;
          std::string a = message(g);
          std::string want;
          if (g.chance(1, 2)) {
            Exact ea(a);
            std::string prev = m.str();
            RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(ea.p);
            want = a + cut(": " + prev);
          } else {
            std::string prev = m.str();
            RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("[%s]", a.c_str());
            want = cut("[" + a + "]") + cut(": " + prev);
          }
          m.clear();
          err = cap.stop();
          MON_CHECK(err == want, "errors:stderr-macro", "standard error received %s, expected %s", show(err).c_str(), show(want).c_str());
          tr("fwrite and append");
          break;
        }
      default: {   // the storage is initialized on demand and never loses a set error afterwards
          is_set_op = false;
          rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator());
          static thread_local bool first = true;
          if (first) {first = false; m.clear();}
          MON_CHECK(r == RCUTILS_RET_OK, "errors:init", "initializing thread-local storage returned %d", r);
          tr("init");
          break;
        }
    }
    if (op != 12) {err = cap.stop();}
    if (is_set_op) {
      if (given.size() >= MSG) {cuts++;}
      bool report = err.find("being overwritten") != std::string::npos;
      if (before.set && before.str().substr(0, MSG - 1) != given.substr(0, MSG - 1) && before.msg != given.substr(0, MSG - 1)) {
        overwrites++;
        MON_CHECK(report, "errors:overwrite-not-reported", "error %s was overwritten by %s without a report on standard error (got %s)",
          show(before.str()).c_str(), show(given).c_str(), show(err).c_str());
        size_t old_at = err.find("'" + before.str() + "'"), new_at = old_at == std::string::npos ? old_at : err.find("'" + m.str() + "'", old_at + before.str().size() + 2);
        MON_CHECK(new_at != std::string::npos,
          "errors:overwrite-report", "the report does not show both errors: %s (old %s, new %s)", show(err, 3000).c_str(),
          show(before.str(), 900).c_str(), show(m.str(), 900).c_str());
        count("errors.overwritten");
      } else if (!before.set || before.msg == given) {
        MON_CHECK(!report, "errors:false-report", "an overwrite was reported although %s",
          before.set ? "the same error was set again" : "no error was set");
        if (before.set) {count("errors.same-again");}
      }
    }
    std::string d = differs(m, static_cast<unsigned>(g.below(2)));
    MON_CHECK(d.empty(), "errors:state", "%s", d.c_str());
    d = differs(m, static_cast<unsigned>(g.below(2)));    // stays so
    MON_CHECK(d.empty(), "errors:state-changed", "after reading it once: %s", d.c_str());
    if (m.set) {c.mix(m.str());}
  }
  if (cuts) {count("errors.cut");}
  if (overwrites || cuts) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps, %u cut, %u overwrites, finally %s", steps, cuts, overwrites, show(m.str()).c_str()));}
  rcutils_reset_error();
}

// first use in a fresh thread: invalid allocators are refused, valid ones leave no error behind
void errors_init(Case & c)
{
  std::string why;
  std::thread t([&]() {
      Capture cap(stderr, 2);
      rcutils_allocator_t none = rcutils_get_zero_initialized_allocator();
      if (rcutils_error_is_set()) {why = "an error is set in a fresh thread";}
      if (std::string("error not set") != rcutils_get_error_string().str) {why = "fresh thread's error string is not 'error not set'";}
      if (rcutils_initialize_error_handling_thread_local_storage(none) != RCUTILS_RET_INVALID_ARGUMENT) {
        why = "invalid allocator accepted";
      }
      if (rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator()) != RCUTILS_RET_OK) {
        why = "initialization failed";
      }
      Model m;
      std::string d = differs(m, static_cast<unsigned>(c.idx));
      if (!d.empty()) {why = "after initialization: " + d;}
      rcutils_set_error_state("m", "f", 1);
      m.put("m", "f", 1);
      if (rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator()) != RCUTILS_RET_OK) {
        why = "second initialization failed";
      }
      d = differs(m, 1);
      if (!d.empty()) {why = "second initialization changed the error: " + d;}
    });
  t.join();
  MON_CHECK(why.empty(), "errors:thread-init", "%s", why.c_str());
  count("errors.thread-init");
  c.mix(c.idx);
  c.interesting();
}

// ---------------------------------------------------------------- P16
void threads(Case & c)
{
  Rng & g = c.rng;
  rcutils_reset_error();
  unsigned n = static_cast<unsigned>(g.range(2, 6));
  unsigned steps = static_cast<unsigned>(g.range(20, c.thorough ? 300 : 120));
  std::atomic<unsigned> ready{0};
  std::atomic<uint64_t> seq{0};
  std::vector<unsigned char> order(n * steps, 255);
  std::vector<std::string> why(n);
  Capture cap(stderr, 2);
  Model mine;
  std::string mm = "main thread's error " + std::to_string(g.next());
  bool main_first = g.chance(1, 2);
  if (main_first) {rcutils_set_error_state(mm.c_str(), "main.c", 1); mine.put(mm, "main.c", 1);}
  std::vector<std::thread> ts;
  uint64_t seed = g.next();
  for (unsigned t = 0; t < n; ++t) {
    ts.emplace_back([&, t]() {
        Rng r(seed + 77 * t);
        Model m;
        ready++;
        while (ready.load() < n) {}
        const rcutils_error_state_t * held = nullptr;
        for (unsigned i = 0; i < steps && why[t].empty(); ++i) {
          uint64_t at = seq.fetch_add(1, std::memory_order_relaxed);
          order[at] = static_cast<unsigned char>(t);
          std::string d = differs(m, static_cast<unsigned>(r.below(2)));
          if (!d.empty()) {why[t] = fmt("thread %u, step %u: ", t, i) + d; break;}
          if (held && (m.set ? m.msg : std::string()) != held->message) {
            why[t] = fmt("thread %u, step %u: the state obtained earlier now shows %s", t, i, held->message);
            break;
          }
          switch (r.below(6)) {
            case 0: case 1: case 2: {
                std::string msg = fmt("t%u step %u %s", t, i, r.str(r.below(40), "xyz").c_str());
                std::string f = fmt("file%u.c", t);
                uint64_t l = r.next();
                rcutils_set_error_state(msg.c_str(), f.c_str(), l);
                m.put(msg, f, l);
                break;
              }
            case 3: rcutils_reset_error(); m.clear(); break;
            case 4: held = rcutils_get_error_state(); break;
            default: {
                std::string prev = m.str();
                int at_line = 0;
                RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("outer"); at_line = __LINE__;
                m.put(cut("outer: " + prev), __FILE__, static_cast<uint64_t>(at_line));
                break;
              }
          }
          if (r.chance(1, 8)) {std::this_thread::yield();}
        }
        std::string d = differs(m, 0);
        if (why[t].empty() && !d.empty()) {why[t] = fmt("thread %u at its end: ", t) + d;}
      });
  }
  if (!main_first) {rcutils_set_error_state(mm.c_str(), "main.c", 1); mine.put(mm, "main.c", 1);}
  for (unsigned i = 0; i < 20; ++i) {
    std::string d = differs(mine, i);
    if (!d.empty() && why[0].empty()) {why[0] = "main thread: " + d;}
    std::this_thread::yield();
  }
  for (auto & t : ts) {t.join();}
  std::string d = differs(mine, 1);
  cap.stop();
  for (auto & w : why) {MON_CHECK(w.empty(), "errors:threads", "%s", w.c_str());}
  MON_CHECK(d.empty(), "errors:threads", "main thread after the others: %s", d.c_str());
  uint64_t switches = 0;
  for (size_t i = 1; i < seq.load() && i < order.size(); ++i) {if (order[i] != order[i - 1]) {switches++;}}
  for (unsigned char o : order) {c.mix(o);}
  count("threads.switches", switches);
  count("threads.steps", seq.load());
  if (switches > n) {c.interesting(); count("threads.interleaved");}
  // a thread created while this one has an error sees none
  bool late = true;
  std::thread([&]() {late = rcutils_error_is_set() || rcutils_get_error_state()->message[0];}).join();
  MON_CHECK(!late, "errors:inherited", "a new thread sees the error of another thread");
  if (c.want_sample()) {c.sample(fmt("%u threads x %u steps, %" PRIu64 " observed switches", n, steps, switches));}
  rcutils_reset_error();
}

void reg()
{
  section("errors", 24000, 600000, errors);
  section("errors-init", 64, 256, errors_init);
  section("threads", 1600, 30000, threads);
}
}  // namespace
MON_MAIN(reg)
