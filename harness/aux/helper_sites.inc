// The call sites themselves, as C or C++, with or without fault injection compiled in.  HS_TABLE names the table.
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "rcutils/macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/time.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/types/rcutils_ret.h"
#include "helper_sites.h"

// A notice whose format takes more arguments than it is given is told apart before it is printed.
#define HS_COUNT_(a, b, c, d, e, f, g, h, n, ...) n
#define HS_COUNT(...) HS_COUNT_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define printf(...) hs_printf(HS_COUNT(__VA_ARGS__) - 1, __VA_ARGS__)

// names a user might well have given to variables of his own
#define LOCALS \
  void * value = x->p, * argument = x->q, * msg = x->p, * allocator_ = x->q; \
  int ret = (int)x->v, output = x->sel, error_return_type = (int)x->w; \
  const char * output_msg = x->s, * error_string = x->t, * format_string = x->s; \
  rcutils_allocator_t * allocator = x->a, * alloc = x->b; \
  (void)value; (void)argument; (void)msg; (void)allocator_; (void)ret; (void)output; (void)error_return_type; (void)output_msg; (void)error_string; \
  (void)format_string; (void)allocator; (void)alloc;

// ---- checks for NULL
#define ARG(name, arg, retv) \
  static int name(struct hs * x) {LOCALS x->line = __LINE__; RCUTILS_CHECK_ARGUMENT_FOR_NULL(arg, retv); return HS_THROUGH;}
ARG(arg_member, x->p, RCUTILS_RET_INVALID_ARGUMENT)
ARG(arg_value, value, 5)
ARG(arg_argument, argument, 6)
ARG(arg_msg, msg, 7)
ARG(arg_call, hs_p(x), 8)
ARG(arg_choice, x->sel ? x->p : x->q, 9)
ARG(arg_negated, !x->sel ? value : argument, 10)
ARG(arg_cast, (char *)x->p, -1)
ARG(arg_return_choice, x->p, x->sel ? 21 : 22)
static int arg_unbraced(struct hs * x)
{
  LOCALS
  x->line = __LINE__ + 2;
  if (x->sel)
    RCUTILS_CHECK_ARGUMENT_FOR_NULL(x->p, 12);
  else
    return HS_THROUGH;
  return HS_THROUGH;
}
static const char * give_text(struct hs * x) {x->line = __LINE__; RCUTILS_CHECK_ARGUMENT_FOR_NULL(x->q, NULL); return "x";}
static int arg_pointer(struct hs * x) {return give_text(x) ? HS_THROUGH : 13;}
static bool give_bool(struct hs * x) {x->line = __LINE__; RCUTILS_CHECK_ARGUMENT_FOR_NULL(x->q, false); return true;}
static int arg_bool(struct hs * x) {return give_bool(x) ? HS_THROUGH : 14;}
static void give_nothing(struct hs * x) {x->line = __LINE__; RCUTILS_CHECK_ARGUMENT_FOR_NULL(x->q, ); x->ran++;}
static int arg_void(struct hs * x) {give_nothing(x); return x->ran ? HS_THROUGH : 15;}

static int null_literal(struct hs * x)
{
  LOCALS
  x->text = "it is 100% NULL: %s%n";
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, "it is 100% NULL: %s%n", return 30);
  return HS_THROUGH;
}
static int null_variable(struct hs * x)
{
  LOCALS
  x->text = x->s;
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(hs_p(x), output_msg, return 31);
  return HS_THROUGH;
}
static int null_choice(struct hs * x)
{
  LOCALS
  int r = HS_THROUGH;
  x->text = x->sel ? x->s : x->t;
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(x->sel ? value : argument, x->sel ? output_msg : error_string, r = 32);
  return r;
}
static int null_goto(struct hs * x)
{
  LOCALS
  int r = 33;
  x->text = x->t;
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(argument, error_string, goto done);
  r = HS_THROUGH;
done:
  return r;
}
static int null_statements(struct hs * x)
{
  LOCALS
  int r = HS_THROUGH;
  x->text = "two statements";
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(msg, "two statements", r = 30; r += 4);
  return r;
}
static int null_declares(struct hs * x)
{
  LOCALS
  int r = HS_THROUGH;
  x->text = "declares";
  x->line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(x->q, "declares", {int k = 35; r = k;});
  return r;
}
static int null_unbraced(struct hs * x)
{
  LOCALS
  int r = HS_THROUGH;
  x->text = "unbraced";
  x->line = __LINE__ + 2;
  if (!x->sel)
    RCUTILS_CHECK_FOR_NULL_WITH_MSG(x->q, "unbraced", r = 36);
  else
    RCUTILS_CHECK_FOR_NULL_WITH_MSG(x->p, "unbraced", r = 36);
  if (x->sel) {x->line += 2;}
  return r;
}

// ---- allocators
static int alloc_member(struct hs * x) {LOCALS RCUTILS_CHECK_ALLOCATOR(x->a, return 40); return HS_THROUGH;}
static int alloc_local(struct hs * x) {LOCALS RCUTILS_CHECK_ALLOCATOR(allocator, return 41); return HS_THROUGH;}
static int alloc_call(struct hs * x) {LOCALS int r = HS_THROUGH; RCUTILS_CHECK_ALLOCATOR(hs_a(x), r = 40; r += 2) return r;}
static int alloc_choice(struct hs * x) {LOCALS RCUTILS_CHECK_ALLOCATOR(x->sel ? x->a : x->b, return 43); return HS_THROUGH;}
static int alloc_value(struct hs * x)
{
  rcutils_allocator_t copy = rcutils_get_zero_initialized_allocator();
  if (x->a) {copy = *x->a;}
  RCUTILS_CHECK_ALLOCATOR(&copy, return 44);
  return HS_THROUGH;
}
static int allocm_literal(struct hs * x)
{
  LOCALS
  x->text = "20% %s";
  x->line = __LINE__; RCUTILS_CHECK_ALLOCATOR_WITH_MSG(allocator, "20% %s", return 45);
  return HS_THROUGH;
}
static int allocm_call(struct hs * x)
{
  LOCALS
  x->text = x->s;
  x->line = __LINE__; RCUTILS_CHECK_ALLOCATOR_WITH_MSG(hs_a(x), output_msg, return 46);
  return HS_THROUGH;
}
static int allocm_choice(struct hs * x)
{
  LOCALS
  int r = HS_THROUGH;
  x->text = x->t;
  x->line = __LINE__; RCUTILS_CHECK_ALLOCATOR_WITH_MSG(!x->sel ? x->b : x->a, error_string, r = 40; r += 7)
  return r;
}

// ---- messages
#define WANT(...) snprintf(x->want, sizeof(x->want), __VA_ARGS__)
static int set_variable(struct hs * x) {LOCALS WANT("%s", x->s); x->line = __LINE__; RCUTILS_SET_ERROR_MSG(output_msg); return 0;}
static int set_percent(struct hs * x) {WANT("%s", "100% %s %n"); x->line = __LINE__; RCUTILS_SET_ERROR_MSG("100% %s %n"); return 0;}
static int set_call(struct hs * x) {WANT("%s", x->s); x->line = __LINE__; RCUTILS_SET_ERROR_MSG(hs_s(x)); return 0;}
static int set_choice(struct hs * x) {LOCALS WANT("%s", x->sel ? x->s : x->t); x->line = __LINE__; RCUTILS_SET_ERROR_MSG(x->sel ? x->s : error_string); return 0;}
static int set_unbraced(struct hs * x)
{
  WANT("%s", x->sel ? x->t : x->s);
  x->line = __LINE__ + (x->sel ? 2 : 4);
  if (x->sel)
    RCUTILS_SET_ERROR_MSG(x->t);
  else
    RCUTILS_SET_ERROR_MSG(x->s);
  return 0;
}
#define FMT(name, macro, ...) \
  static int name(struct hs * x) {LOCALS WANT(__VA_ARGS__); x->evals = 0; x->line = __LINE__; macro(__VA_ARGS__); return 0;}
#define FMTS(suffix, macro) \
  FMT(plain ## suffix, macro, "%s %d", x->s, x->i32) \
  FMT(locals ## suffix, macro, "%d %s|%s", ret, output_msg, error_string) \
  FMT(ret ## suffix, macro, "failed with %d", ret) \
  FMT(output ## suffix, macro, "%d %s %s", output, format_string, output_msg) \
  FMT(calls ## suffix, macro, "%s %lld", hs_s(x), (long long)hs_v(x)) \
  FMT(choice ## suffix, macro, "%s", x->sel ? x->s : x->t) \
  FMT(percent ## suffix, macro, "100%% of %s", x->t) \
  FMT(wide ## suffix, macro, "%c%5.2f%*d%p", 'x', x->d, x->u8 % 20, ret, value)
FMTS(_set, RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING)
FMTS(_err, RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING)
// appending keeps the arguments as they are, but for the previous error's own string
FMTS(_app, RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR)
FMTS(_erp, RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR)
static int nested_set(struct hs * x)
{
  WANT("<%s>", rcutils_get_error_string().str);
  x->line = __LINE__; RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("<%s>", rcutils_get_error_string().str);
  return 0;
}
static int unbraced_set(struct hs * x)
{
  LOCALS
  WANT("%d", ret + x->sel);
  x->line = __LINE__ + (x->sel ? 2 : 4);
  if (x->sel)
    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d", ret + x->sel);
  else
    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d", ret);
  return 0;
}
static int append_literal(struct hs * x) {WANT("%s", "outer"); x->line = __LINE__; RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("outer"); return 0;}
static int stderr_variable(struct hs * x) {LOCALS WANT("%s", x->s); RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); return 0;}
static int stderr_percent(struct hs * x) {WANT("%s", "5% %d %n\n"); RCUTILS_SAFE_FWRITE_TO_STDERR("5% %d %n\n"); return 0;}
static int stderr_choice(struct hs * x) {LOCALS WANT("%s", x->sel ? x->s : x->t); RCUTILS_SAFE_FWRITE_TO_STDERR(x->sel ? x->s : error_string); return 0;}
static int stderr_append(struct hs * x) {LOCALS WANT("%s", x->s); RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(output_msg); return 0;}
static int stderr_append_choice(struct hs * x)
{
  WANT("%s", x->sel ? x->t : x->s);
  RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(x->sel ? x->t : x->s);
  return 0;
}

// ---- fault points
#define FAULT(name, retv) \
  static int name(struct hs * x) {LOCALS int s = x->u8; (void)s; x->line = __LINE__; RCUTILS_CAN_RETURN_WITH_ERROR_OF(retv) x->ran++; return HS_THROUGH;}
FAULT(fault_plain, 60)
FAULT(fault_macro, RCUTILS_RET_NOT_ENOUGH_SPACE)
FAULT(fault_choice, x->sel ? 61 : 61)
FAULT(fault_percent, 62 + 0 * (1000 % s))
FAULT(fault_local, error_return_type * 0 + 63)
static const char * fault_text_(struct hs * x) {x->line = __LINE__; RCUTILS_CAN_RETURN_WITH_ERROR_OF("50% %s \" done") x->ran++; return NULL;}
static int fault_text(struct hs * x)
{
  const char * r = fault_text_(x);
  return !r ? HS_THROUGH : strcmp(r, "50% %s \" done") == 0 ? 64 : -5;
}
static void fault_void_(struct hs * x) {x->line = __LINE__; RCUTILS_CAN_RETURN_WITH_ERROR_OF() x->ran++;}
static int fault_void(struct hs * x) {fault_void_(x); return x->ran ? HS_THROUGH : 65;}
static int fault_message(struct hs * x)
{
  x->line = __LINE__; RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RCUTILS_RET_NOT_FOUND) x->ran++;
  return HS_THROUGH;
}
static int fault_code(struct hs * x)
{
  int s = x->u8, r = HS_THROUGH;
  x->line = __LINE__; RCUTILS_CAN_FAIL_WITH({int k = 66 + 0 * (77 % s); r = k;})
  x->ran++;
  return r;
}
static int fault_code_quotes(struct hs * x)
{
  int r = HS_THROUGH;
  x->line = __LINE__; RCUTILS_CAN_FAIL_WITH({x->text = "20% %s %n"; r = 67;})
  x->ran++;
  return r;
}
static int fault_direct(struct hs * x)
{
#ifdef RCUTILS_ENABLE_FAULT_INJECTION
  x->line = __LINE__; RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(68)
#endif
  x->ran++;
  return HS_THROUGH;
}
// a test loop over x->u8 points, with a paused stretch, noting the counter
static int loop(struct hs * x)
{
  unsigned points = x->u8, fired = 0;
  RCUTILS_FAULT_INJECTION_TEST({
    int64_t count = rcutils_fault_injection_get_count();
    if (x->ncounts < 400) {x->counts[x->ncounts++] = count;}
    for (unsigned k = 0; k < points; ++k) {if (_rcutils_fault_injection_maybe_fail() == 0) {++fired;}}
    RCUTILS_NO_FAULT_INJECTION({
      for (unsigned k = 0; k < 3; ++k) {if (_rcutils_fault_injection_maybe_fail() == 0) {x->ran++;}}
      RCUTILS_NO_FAULT_INJECTION(x->evals += _rcutils_fault_injection_maybe_fail() == 0;);
    });
  });
  return (int)fired;
}
static int loop_unbraced(struct hs * x)
{
  unsigned points = x->u8, fired = 0;
  if (x->sel < 1000)
    RCUTILS_FAULT_INJECTION_TEST(
      if (x->ncounts < 400) {x->counts[x->ncounts++] = rcutils_fault_injection_get_count();}
      for (unsigned k = 0; k < points; ++k) {if (_rcutils_fault_injection_maybe_fail() == 0) {++fired;}}
    );
  else
    return -7;
  return (int)fired;
}
static int pause_restores(struct hs * x)
{
  rcutils_fault_injection_set_count(x->v);
  if (x->sel)
    RCUTILS_NO_FAULT_INJECTION(x->ran += _rcutils_fault_injection_maybe_fail() == 0; x->counts[x->ncounts++] = rcutils_fault_injection_get_count());
  else
    RCUTILS_NO_FAULT_INJECTION(;);
  x->counts[x->ncounts++] = rcutils_fault_injection_get_count();
  rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
  return 0;
}

// ---- conversions
static const int64_t constant = RCUTILS_S_TO_NS(5) + RCUTILS_MS_TO_NS(7) - RCUTILS_US_TO_NS(9);
static int convert(struct hs * x)
{
  int64_t v = x->v, w = x->w, * o = x->got;
  int32_t i = x->i32;
  uint8_t u = x->u8;
  unsigned n = 0;
  o[n++] = RCUTILS_S_TO_NS(v);
  o[n++] = RCUTILS_MS_TO_NS(v);
  o[n++] = RCUTILS_US_TO_NS(v);
  o[n++] = RCUTILS_S_TO_NS(i);
  o[n++] = RCUTILS_MS_TO_NS(i);
  o[n++] = RCUTILS_US_TO_NS(i);
  o[n++] = RCUTILS_S_TO_NS(u);
  o[n++] = RCUTILS_MS_TO_NS(u);
  o[n++] = RCUTILS_US_TO_NS(u);
  o[n++] = RCUTILS_S_TO_NS(v + w);
  o[n++] = RCUTILS_MS_TO_NS(v - w);
  o[n++] = RCUTILS_US_TO_NS(x->sel ? v : w);
  o[n++] = -RCUTILS_S_TO_NS(v - i);
  o[n++] = w - RCUTILS_MS_TO_NS(i - u);
  o[n++] = RCUTILS_US_TO_NS(i) * (u + 1);
  o[n++] = 3 * RCUTILS_US_TO_NS(i - u);
  o[n++] = RCUTILS_S_TO_NS(hs_v(x));
  int64_t a = (int64_t)((uint64_t)v * 2654435761u), b = (int64_t)((uint64_t)w << 31);
  o[n++] = RCUTILS_NS_TO_S(a);
  o[n++] = RCUTILS_NS_TO_MS(a);
  o[n++] = RCUTILS_NS_TO_US(a);
  o[n++] = RCUTILS_NS_TO_S(a / 2 + b / 2);
  o[n++] = RCUTILS_NS_TO_MS(a / 2 - b / 2);
  o[n++] = RCUTILS_NS_TO_US(x->sel ? a : b);
  o[n++] = RCUTILS_NS_TO_S(a) % 60;
  o[n++] = RCUTILS_NS_TO_MS(a) * 3;
  o[n++] = -RCUTILS_NS_TO_US(a);
  o[n++] = a % RCUTILS_S_TO_NS(1);
  o[n++] = a / RCUTILS_MS_TO_NS(10);
  o[n++] = b / RCUTILS_NS_TO_S(a | (1LL << 40));
  o[n++] = b % RCUTILS_NS_TO_MS(a | (1LL << 40));
  o[n++] = b / RCUTILS_NS_TO_US(a | (1LL << 40));
  o[n++] = b % RCUTILS_US_TO_NS(i | 1);
  o[n++] = RCUTILS_NS_TO_US(RCUTILS_S_TO_NS(i)) - RCUTILS_MS_TO_NS(u);
  o[n++] = RCUTILS_NS_TO_S(RCUTILS_S_TO_NS(v));
  o[n++] = RCUTILS_NS_TO_MS(RCUTILS_MS_TO_NS(w));
  o[n++] = RCUTILS_NS_TO_US(RCUTILS_US_TO_NS(i));
  o[n++] = RCUTILS_NS_TO_MS(RCUTILS_S_TO_NS(i));
  o[n++] = RCUTILS_NS_TO_S(i);
  o[n++] = RCUTILS_NS_TO_US(i);
  o[n++] = RCUTILS_NS_TO_US(hs_v(x));
  o[n++] = (int64_t)sizeof(RCUTILS_S_TO_NS(i));
  o[n++] = (int64_t)sizeof(RCUTILS_NS_TO_S(i));
  o[n++] = constant;
  switch ((long long)w) {case RCUTILS_US_TO_NS(1): o[n++] = 1; break; default: o[n++] = 0;}
  o[n++] = v + RCUTILS_S_TO_NS(1) - 1 < v ? 1 : 0;
  x->n = n;
  x->dgot[0] = RCUTILS_S_TO_NS(x->d);
  x->dgot[1] = RCUTILS_MS_TO_NS(x->d);
  x->dgot[2] = RCUTILS_US_TO_NS(x->d);
  x->dgot[3] = RCUTILS_NS_TO_S(x->d);
  x->dgot[4] = RCUTILS_NS_TO_MS((double)v);
  rcutils_time_point_value_t t = 0;
  o[n++] = RCUTILS_STEADY_TIME(&t) == RCUTILS_RET_OK && t > 0;
  x->n = n;
  return 0;
}
static int boolean(struct hs * x)
{
  int64_t * o = x->got;
  int a = x->sel, b = x->i32 > 0, c = x->u8 > 99;
  unsigned n = 0;
  o[n++] = RCUTILS_LIKELY(a);
  o[n++] = RCUTILS_UNLIKELY(a);
  o[n++] = RCUTILS_LIKELY(x->i32);
  o[n++] = RCUTILS_UNLIKELY(x->i32);
  o[n++] = !RCUTILS_LIKELY(a);
  o[n++] = RCUTILS_LIKELY(a || b) && c;
  o[n++] = RCUTILS_UNLIKELY(a && b) || c;
  o[n++] = RCUTILS_LIKELY(hs_sel(x) == 2) ? 5 : 6;
  o[n++] = RCUTILS_UNLIKELY(a ? b : c);
  o[n++] = RCUTILS_UNLIKELY(NULL == x->p);
  o[n++] = RCUTILS_LIKELY(!x->p);
  if (RCUTILS_UNLIKELY(x->v > x->w)) {o[n++] = 1;} else {o[n++] = 0;}
  while (RCUTILS_LIKELY(a < 10)) {++a;}
  o[n++] = a;
  RCUTILS_UNUSED(a);
  RCUTILS_UNUSED(a + b);
  RCUTILS_UNUSED(a ? b : c);
  if (x->sel) RCUTILS_UNUSED(b); else RCUTILS_UNUSED(c);
  x->n = n;
  return 0;
}
#define TEXT_ONE two words
#define TEXT_NUMBER 0x10
#define TEXT_JOIN joi
static int text(struct hs * x)
{
  x->line = __LINE__; x->text = RCUTILS_STRINGIFY(__LINE__); int RCUTILS_JOIN(at_, __LINE__) = 3; x->got[0] = RCUTILS_JOIN(at_, __LINE__);
  snprintf(x->want, sizeof(x->want), "%s|%s|%s|%s|%d|%d", RCUTILS_STRINGIFY(TEXT_ONE), RCUTILS_STRINGIFY(a "b\n" % d),
    RCUTILS_STRINGIFY(RCUTILS_JOIN(TEXT_JOIN, ned)), RCUTILS_EXPAND("x") "y", RCUTILS_JOIN(TEXT_NUMBER, 1), RCUTILS_EXPAND((2 + 3)) * 2);
  return 0;
}
static int autoinit(struct hs * x)
{
  x->line = __LINE__; RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(*hs_a(x));
  return 0;
}
static int autoinit_choice(struct hs * x)
{
  LOCALS
  x->line = __LINE__; RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(*(x->sel ? hs_a(x) : (x->evals++, alloc)));
  return 0;
}
static int autoinit_unbraced(struct hs * x)
{
  LOCALS
  x->line = __LINE__ + 2;
  if (x->i32 || !x->i32)
    RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(*hs_a(x));
  else
    x->ran++;
  return 0;
}

static const struct hs_site table[] = {
  {"CHECK_ARGUMENT_FOR_NULL(member)", HS_ARGUMENT, arg_member, 'p', 11, 0, "x->p"}, {"CHECK_ARGUMENT_FOR_NULL(value)", HS_ARGUMENT, arg_value, 'p', 5, 0, "value"},
  {"CHECK_ARGUMENT_FOR_NULL(argument)", HS_ARGUMENT, arg_argument, 'q', 6, 0, "argument"}, {"CHECK_ARGUMENT_FOR_NULL(msg)", HS_ARGUMENT, arg_msg, 'p', 7, 0, "msg"},
  {"CHECK_ARGUMENT_FOR_NULL(call)", HS_ARGUMENT, arg_call, 'p', 8, 1, "hs_p(x)"},
  {"CHECK_ARGUMENT_FOR_NULL(choice)", HS_ARGUMENT, arg_choice, 's', 9, 0, "x->sel ? x->p : x->q"},
  {"CHECK_ARGUMENT_FOR_NULL(negated)", HS_ARGUMENT, arg_negated, 'n', 10, 0, "!x->sel ? value : argument"},
  {"CHECK_ARGUMENT_FOR_NULL(cast)", HS_ARGUMENT, arg_cast, 'p', -1, 0, "(char *)x->p"},
  {"CHECK_ARGUMENT_FOR_NULL(, choice)", HS_ARGUMENT, arg_return_choice, 'p', -21, 0, "x->p"},
  {"CHECK_ARGUMENT_FOR_NULL unbraced", HS_ARGUMENT, arg_unbraced, 'u', 12, 0, "x->p"},
  {"CHECK_ARGUMENT_FOR_NULL(, NULL)", HS_ARGUMENT, arg_pointer, 'q', 13, 0, "x->q"}, {"CHECK_ARGUMENT_FOR_NULL(, false)", HS_ARGUMENT, arg_bool, 'q', 14, 0, "x->q"},
  {"CHECK_ARGUMENT_FOR_NULL(, )", HS_ARGUMENT, arg_void, 'q', 15, 0, "x->q"},
  {"CHECK_FOR_NULL_WITH_MSG(, literal)", HS_NULLMSG, null_literal, 'p', 30, 0, ""}, {"CHECK_FOR_NULL_WITH_MSG(call)", HS_NULLMSG, null_variable, 'p', 31, 1, ""},
  {"CHECK_FOR_NULL_WITH_MSG(choice)", HS_NULLMSG, null_choice, 's', 32, 0, ""}, {"CHECK_FOR_NULL_WITH_MSG(, goto)", HS_NULLMSG, null_goto, 'q', 33, 0, ""},
  {"CHECK_FOR_NULL_WITH_MSG(, statements)", HS_NULLMSG, null_statements, 'p', 34, 0, ""},
  {"CHECK_FOR_NULL_WITH_MSG(, declaration)", HS_NULLMSG, null_declares, 'q', 35, 0, ""}, {"CHECK_FOR_NULL_WITH_MSG unbraced", HS_NULLMSG, null_unbraced, 's', 36, 0, ""},
  {"CHECK_ALLOCATOR(member)", HS_ALLOCATOR, alloc_member, 'p', 40, 0, ""}, {"CHECK_ALLOCATOR(local)", HS_ALLOCATOR, alloc_local, 'p', 41, 0, ""},
  {"CHECK_ALLOCATOR(call)", HS_ALLOCATOR, alloc_call, 'p', 42, 1, ""}, {"CHECK_ALLOCATOR(choice)", HS_ALLOCATOR, alloc_choice, 's', 43, 0, ""},
  {"CHECK_ALLOCATOR(address)", HS_ALLOCATOR, alloc_value, 'p', 44, 0, ""}, {"CHECK_ALLOCATOR_WITH_MSG(literal)", HS_ALLOCATOR_MSG, allocm_literal, 'p', 45, 0, ""},
  {"CHECK_ALLOCATOR_WITH_MSG(call)", HS_ALLOCATOR_MSG, allocm_call, 'p', 46, 1, ""},
  {"CHECK_ALLOCATOR_WITH_MSG(choice)", HS_ALLOCATOR_MSG, allocm_choice, 's', 47, 0, ""},
  {"SET_ERROR_MSG(variable)", HS_SET, set_variable, 0, 0, 0, ""}, {"SET_ERROR_MSG(percent)", HS_SET, set_percent, 0, 0, 0, ""},
  {"SET_ERROR_MSG(call)", HS_SET, set_call, 0, 0, 1, ""}, {"SET_ERROR_MSG(choice)", HS_SET, set_choice, 0, 0, 0, ""},
  {"SET_ERROR_MSG unbraced", HS_SET, set_unbraced, 0, 0, 0, ""},
#define ROWS(suffix, kind) \
  {"plain " #kind, kind, plain ## suffix, 0, 0, 0, ""}, {"variables named like the macro's " #kind, kind, locals ## suffix, 0, 0, 0, ""}, \
  {"variable ret " #kind, kind, ret ## suffix, 0, 0, 0, ""}, {"variable output " #kind, kind, output ## suffix, 0, 0, 0, ""}, \
  {"calls " #kind, kind, calls ## suffix, 0, 0, 2, ""}, {"choice " #kind, kind, choice ## suffix, 0, 0, 0, ""}, \
  {"percent " #kind, kind, percent ## suffix, 0, 0, 0, ""}, {"conversions " #kind, kind, wide ## suffix, 0, 0, 0, ""}
  ROWS(_set, HS_FORMAT), ROWS(_err, HS_STDERR_FORMAT), ROWS(_app, HS_FORMAT_APPEND), ROWS(_erp, HS_STDERR_FORMAT_APPEND),
  {"previous error in HS_FORMAT", HS_FORMAT, nested_set, 0, 0, 0, ""}, {"unbraced HS_FORMAT", HS_FORMAT, unbraced_set, 0, 0, 0, ""},
  {"SET_ERROR_MSG_AND_APPEND_PREV_ERROR", HS_APPEND, append_literal, 0, 0, 0, ""}, {"SAFE_FWRITE_TO_STDERR(variable)", HS_STDERR, stderr_variable, 0, 0, 0, ""},
  {"SAFE_FWRITE_TO_STDERR(percent)", HS_STDERR, stderr_percent, 0, 0, 0, ""}, {"SAFE_FWRITE_TO_STDERR(choice)", HS_STDERR, stderr_choice, 0, 0, 0, ""},
  {"SAFE_FWRITE_TO_STDERR_AND_APPEND(variable)", HS_STDERR_APPEND, stderr_append, 0, 0, 0, ""},
  {"SAFE_FWRITE_TO_STDERR_AND_APPEND(choice)", HS_STDERR_APPEND, stderr_append_choice, 0, 0, 0, ""},
  {"CAN_RETURN_WITH_ERROR_OF(number)", HS_FAULT, fault_plain, 0, 60, 0, "60"}, {"CAN_RETURN_WITH_ERROR_OF(macro)", HS_FAULT, fault_macro, 0, 12, 0, ""},
  {"CAN_RETURN_WITH_ERROR_OF(choice)", HS_FAULT, fault_choice, 0, 61, 0, "x->sel ? 61 : 61"},
  {"CAN_RETURN_WITH_ERROR_OF(percent)", HS_FAULT, fault_percent, 0, 62, 0, "62 + 0 * (1000 % s)"},
  {"CAN_RETURN_WITH_ERROR_OF(local)", HS_FAULT, fault_local, 0, 63, 0, "error_return_type * 0 + 63"},
  {"CAN_RETURN_WITH_ERROR_OF(text)", HS_FAULT, fault_text, 0, 64, 0, "\"50% %s \\\" done\""}, {"CAN_RETURN_WITH_ERROR_OF()", HS_FAULT, fault_void, 0, 65, 0, ""},
  {"CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF", HS_FAULT, fault_message, 'm', 14, 0, ""}, {"CAN_FAIL_WITH(code)", HS_FAULT, fault_code, 0, 66, 0, "(77 % s)"},
  {"CAN_FAIL_WITH(quotes)", HS_FAULT, fault_code_quotes, 0, 67, 0, "\"20% %s %n\""},
#ifdef RCUTILS_ENABLE_FAULT_INJECTION
  {"MAYBE_RETURN_ERROR", HS_FAULT, fault_direct, 0, 68, 0, "68"},
#endif
  {"FAULT_INJECTION_TEST", HS_LOOP, loop, 0, 0, 0, ""}, {"FAULT_INJECTION_TEST unbraced", HS_LOOP, loop_unbraced, 0, 0, 0, ""},
  {"NO_FAULT_INJECTION", HS_PAUSE, pause_restores, 0, 0, 0, ""}, {"conversions", HS_CONVERT, convert, 0, 0, 2, ""}, {"LIKELY", HS_BOOLEAN, boolean, 0, 0, 1, ""},
  {"STRINGIFY", HS_TEXT, text, 0, 0, 0, ""}, {"LOGGING_AUTOINIT(call)", HS_AUTOINIT, autoinit, 'p', 0, 1, ""},
  {"LOGGING_AUTOINIT(choice)", HS_AUTOINIT, autoinit_choice, 's', 0, 1, ""}, {"LOGGING_AUTOINIT unbraced", HS_AUTOINIT, autoinit_unbraced, 'p', 0, 1, ""}};

#ifdef __cplusplus
extern "C"
#endif
const struct hs_site * HS_TABLE(size_t * n, const char ** file)
{
  *file = __FILE__;
  *n = sizeof(table) / sizeof(table[0]);
  return table;
}
