/* Call sites of every logging macro, compiled as C and C++ for every compile-time minimum severity. */
#include "rcutils/logging_macros.h"
#include "aux/macro_sites.h"

#ifdef __cplusplus
#define CLOCK [](rcutils_time_point_value_t * t) -> rcutils_ret_t {return mon_clock(t);}
#else
#define CLOCK mon_clock
#endif

#define SITE(function_name, ...) \
  static void function_name(struct site_pass * x) \
  { \
    x->line = __LINE__; x->function = __func__; x->file = __FILE__; \
    if (x->number >= 0) \
      __VA_ARGS__; \
    else \
      mon_argument(x); \
  }

#define SEVERITY(S) \
  SITE(on_ ## S, RCUTILS_LOG_ ## S("%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _named, RCUTILS_LOG_ ## S ## _NAMED(x->name, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _once, RCUTILS_LOG_ ## S ## _ONCE("%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _once_named, RCUTILS_LOG_ ## S ## _ONCE_NAMED(x->name, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _expression, RCUTILS_LOG_ ## S ## _EXPRESSION(mon_condition(x), "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _expression_two, \
    RCUTILS_LOG_ ## S ## _EXPRESSION(mon_condition(x) || x->number == -5, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _expression_named, \
    RCUTILS_LOG_ ## S ## _EXPRESSION_NAMED(mon_condition(x), x->name, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _function, RCUTILS_LOG_ ## S ## _FUNCTION(&mon_filter, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _function_bare, RCUTILS_LOG_ ## S ## _FUNCTION(mon_filter, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _function_named, RCUTILS_LOG_ ## S ## _FUNCTION_NAMED(&mon_filter, x->name, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _skipfirst, RCUTILS_LOG_ ## S ## _SKIPFIRST("%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## _skipfirst_named, RCUTILS_LOG_ ## S ## _SKIPFIRST_NAMED(x->name, "%s|%d", x->text, mon_argument(x)))

#define THROTTLED(S, N, D) \
  SITE(on_ ## S ## N ## _throttle, RCUTILS_LOG_ ## S ## _THROTTLE(CLOCK, D, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## N ## _throttle_named, RCUTILS_LOG_ ## S ## _THROTTLE_NAMED(CLOCK, D, x->name, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## N ## _skipfirst_throttle, RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE(CLOCK, D, "%s|%d", x->text, mon_argument(x))) \
  SITE(on_ ## S ## N ## _skipfirst_throttle_named, \
    RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE_NAMED(CLOCK, D, x->name, "%s|%d", x->text, mon_argument(x)))

#define D0 0
#define D1 1
#define D2 2 + 3
#define D3 86400000 * 365LL
#define D4 4000000000u
#define D5 (1 == 1 ? 500 : 7)
#define DURATIONS(X, S) X(S, _0, D0) X(S, _1, D1) X(S, _2, D2) X(S, _3, D3) X(S, _4, D4) X(S, _5, D5)

SEVERITY(DEBUG)
DURATIONS(THROTTLED, DEBUG)
SEVERITY(INFO)
DURATIONS(THROTTLED, INFO)
SEVERITY(WARN)
DURATIONS(THROTTLED, WARN)
SEVERITY(ERROR)
DURATIONS(THROTTLED, ERROR)
SEVERITY(FATAL)
DURATIONS(THROTTLED, FATAL)

#define PLAIN_ENTRIES(I, S) \
  {I, 0, 0, on_ ## S}, {I, F_NAMED, 0, on_ ## S ## _named}, \
  {I, F_ONCE, 0, on_ ## S ## _once}, {I, F_ONCE | F_NAMED, 0, on_ ## S ## _once_named}, \
  {I, F_EXPRESSION, 0, on_ ## S ## _expression}, {I, F_EXPRESSION, 0, on_ ## S ## _expression_two}, \
  {I, F_EXPRESSION | F_NAMED, 0, on_ ## S ## _expression_named}, \
  {I, F_FUNCTION, 0, on_ ## S ## _function}, {I, F_FUNCTION, 0, on_ ## S ## _function_bare}, \
  {I, F_FUNCTION | F_NAMED, 0, on_ ## S ## _function_named}, \
  {I, F_SKIPFIRST, 0, on_ ## S ## _skipfirst}, {I, F_SKIPFIRST | F_NAMED, 0, on_ ## S ## _skipfirst_named},
#define THROTTLED_ENTRIES(I, S, N, D) \
  {I, F_THROTTLE, D, on_ ## S ## N ## _throttle}, {I, F_THROTTLE | F_NAMED, D, on_ ## S ## N ## _throttle_named}, \
  {I, F_THROTTLE | F_SKIPFIRST, D, on_ ## S ## N ## _skipfirst_throttle}, \
  {I, F_THROTTLE | F_SKIPFIRST | F_NAMED, D, on_ ## S ## N ## _skipfirst_throttle_named},
#define ENTRIES(I, S) PLAIN_ENTRIES(I, S) THROTTLED_ENTRIES(I, S, _0, D0) THROTTLED_ENTRIES(I, S, _1, D1) \
  THROTTLED_ENTRIES(I, S, _2, D2) THROTTLED_ENTRIES(I, S, _3, D3) THROTTLED_ENTRIES(I, S, _4, D4) THROTTLED_ENTRIES(I, S, _5, D5)

static const struct site all[] = {
  ENTRIES(0, DEBUG) ENTRIES(1, INFO) ENTRIES(2, WARN) ENTRIES(3, ERROR) ENTRIES(4, FATAL)
};

#ifdef __cplusplus
extern "C"
#endif
const struct site * mon_sites(size_t * n)
{
  *n = sizeof(all) / sizeof(all[0]);
  return all;
}
