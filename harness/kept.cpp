// P15: an error stays as it was set until it is reset or another one is set; operations that succeed do neither.
// All kinds of work with an error set beforehand. Where the work itself resets errors (after failures it provoked), that error is set again.
#include "mon.hpp"
#include "capture.hpp"
#include "rcutils/logging_macros.h"
using namespace mon;

static uint64_t g_looked = 0;
static void mark()
{
  rcutils_reset_error();
  rcutils_set_error_state("what was set before", "before.c", 4242);
}
static void look(const char * what, bool string)
{
  const rcutils_error_state_t * e = rcutils_get_error_state();
  g_looked++;
  MON_CHECK(rcutils_error_is_set() && !strcmp(e->message, "what was set before") && !strcmp(e->file, "before.c") && e->line_number == 4242, "kept.error",
    "after %s, which succeeded, the error set before is %s at %s:%zu", what, rcutils_error_is_set() ? show(e->message).c_str() : "gone", e->file, static_cast<size_t>(e->line_number));
  MON_CHECK(!string || !strcmp(rcutils_get_error_string().str, "what was set before, at before.c:4242"), "kept.error", "after %s, the error string is %s", what,
    show(rcutils_get_error_string().str).c_str());
}
#define WORKS_OK
#define OK(x) \
  do { \
    rcutils_ret_t r_ = (x); \
    if (r_ != RCUTILS_RET_OK) {fail("kept.operation", fmt("%s: %d: %s", #x, r_, rcutils_get_error_string().str));} \
    look(#x, false); \
  } while (0)
#define rcutils_reset_error mark
#include "works.hpp"
#undef rcutils_reset_error

static void kept(Case & c)
{
  Rng & g = c.rng;
  // those that set errors of their own or work in other threads say nothing here
  static const unsigned kinds[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14};
  unsigned k = kinds[c.idx % (sizeof(kinds) / sizeof(kinds[0]))];
  uint64_t before = g_looked;
  bool asked = g.chance(1, 2);
  const char * what = "";
  try {
    Capture quiet_stderr(stderr, 2);      // what failing operations overwrite is reported there
    mark();
    if (asked) {(void)rcutils_get_error_string();}
    auto w = make(g, k);
    what = w->what;
    look(what, asked);
    for (int i = 0; i < 3; ++i) {
      mark();
      w->cycle(g);
      look(what, true);
    }
    mark();
    w.reset();
    look(what, true);
  } catch (CaseFailed &) {throw;}
  rcutils_reset_error();
  count(std::string("kept.") + what);
  count("kept.looked", g_looked - before);
  c.mix(k); c.mix(g.next());
  c.interesting();
}

// without works: single operations of other kinds
static void kept_single(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("A");
  rcutils_allocator_t a = A.get();
  (void)!rcutils_logging_shutdown();
  if (g.chance(1, 2)) {(void)!rcutils_logging_initialize_with_allocator(a);}
  rcutils_logging_set_output_handler(quiet);
  mark();
  const char * v = nullptr;
  int r = 0;
  char b[64];
  rcutils_time_point_value_t now = 0;
  std::string d = run().scratch;
  char * argv[] = {const_cast<char *>("a"), const_cast<char *>("--b"), const_cast<char *>("c")};
  for (int i = 0; i < 12; ++i) {
    const char * what = "";
    switch (g.below(16)) {
      case 0: what = "a record"; RCUTILS_LOG_INFO_NAMED("n", "%d", i); break;
      case 1: what = "a record through the first call of logging"; RCUTILS_LOG_ERROR("%d", i); break;
      case 2: what = "a level asked for"; (void)rcutils_logging_get_logger_effective_level("x.y"); break;
      case 3: what = "predicates"; (void)(rcutils_exists(d.c_str()) + rcutils_is_file(d.c_str()) + rcutils_is_directory(d.c_str()) + rcutils_is_readable(d.c_str()) + rcutils_is_writable(d.c_str())); break;
      case 4: what = "a missing path"; (void)(rcutils_exists((d + "/none").c_str()) + rcutils_is_file((d + "/none").c_str())); break;
      case 5: what = "options"; (void)rcutils_cli_option_exist(argv, argv + 3, "--b"); (void)rcutils_cli_get_option(argv, argv + 3, "--x"); break;
      case 6: what = "a library's name"; (void)!rcutils_get_platform_library_name("x", b, sizeof(b), false); break;
      case 7: what = "the environment"; (void)rcutils_get_env("KEPT_NONE", &v); (void)rcutils_set_env("KEPT_VAR", "x"); (void)rcutils_get_home_dir(); break;
      case 8: what = "the environment, no overwriting"; (void)rcutils_set_env_overwrite("KEPT_VAR", "y", true); break;
      case 9: what = "system error text"; errno = ENOENT; rcutils_strerror(b, sizeof(b)); break;
      case 10: what = "clocks"; (void)!rcutils_steady_time_now(&now); (void)!rcutils_time_point_value_as_nanoseconds_string(&now, b, sizeof(b)); break;
      case 11: what = "severity names"; (void)!rcutils_logging_severity_level_from_string("FATAL", a, &r); break;
      case 12: what = "a missing key"; {
          rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
          uint64_t k = 5;
          if (rcutils_hash_map_init(&m, 2, 8, 8, whash, wcmp, &a) != RCUTILS_RET_OK || rcutils_hash_map_get(&m, &k, &k) != RCUTILS_RET_NOT_FOUND ||
            rcutils_hash_map_key_exists(&m, &k) || rcutils_hash_map_unset(&m, &k) != RCUTILS_RET_OK || rcutils_hash_map_fini(&m) != RCUTILS_RET_OK)
          {
            fail("kept.operation", "hash map");
          }
          break;
        }
      case 13: what = "string map lookups"; {
          rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
          if (rcutils_string_map_init(&m, 1, a) != RCUTILS_RET_OK || rcutils_string_map_set(&m, "k", "v") != RCUTILS_RET_OK || rcutils_string_map_get(&m, "x") || rcutils_string_map_key_exists(&m, "y") ||
            rcutils_string_map_set(&m, "l", "v") != RCUTILS_RET_OK || rcutils_string_map_reserve(&m, 9) != RCUTILS_RET_OK || rcutils_string_map_fini(&m) != RCUTILS_RET_OK)
          {
            fail("kept.operation", "string map");
          }
          break;
        }
      case 14: what = "logging started or stopped"; {
          if (g_rcutils_logging_initialized) {r = rcutils_logging_shutdown();} else {r = rcutils_logging_initialize_with_allocator(a);}
          if (r != RCUTILS_RET_OK) {fail("kept.operation", "logging");}
          rcutils_logging_set_output_handler(quiet);
          break;
        }
      default: what = "a directory"; {
          rcutils_dir_iter_t * it = rcutils_dir_iter_start(d.c_str(), a);
          while (it && rcutils_dir_iter_next(it)) {}
          if (it) {rcutils_dir_iter_end(it);}
          break;
        }
    }
    tr(what);
    look(what, g.chance(1, 2));
    count("kept.single");
  }
  rcutils_reset_error();
  (void)!rcutils_logging_shutdown();
  rcutils_reset_error();
  check_empty(A, "operations");
  c.mix(g.next());
  c.interesting();
}

static void reg()
{
  section("kept", 420, 14000, kept);
  section("kept-single", 2000, 60000, kept_single);
}
MON_MAIN(reg)
