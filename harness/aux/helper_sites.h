// Call sites of the helper macros of the public headers (P36): shared between the sites and the harness.
#ifndef HELPER_SITES_H_
#define HELPER_SITES_H_
#include <stddef.h>
#include <stdint.h>
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
#define HS_THROUGH (-1000)
#define HS_VALUES 64
struct hs
{
  // given
  void * p, * q;
  int sel;
  int64_t v, w;
  int32_t i32;
  uint8_t u8;
  double d;
  const char * s, * t;
  rcutils_allocator_t * a, * b;
  // produced
  unsigned evals;             // evaluations of counted arguments
  unsigned ran;               // executions of a statement
  size_t line, line2;
  char want[4096];            // what the formatted arguments should come to
  const char * text;
  int64_t got[HS_VALUES];
  double dgot[8];
  unsigned n;
  int64_t counts[400];
  unsigned ncounts;
};
enum hs_kind
{
  HS_ARGUMENT, HS_NULLMSG, HS_ALLOCATOR, HS_ALLOCATOR_MSG, HS_SET, HS_FORMAT, HS_APPEND, HS_FORMAT_APPEND, HS_STDERR, HS_STDERR_FORMAT, HS_STDERR_APPEND,
  HS_STDERR_FORMAT_APPEND, HS_FAULT, HS_LOOP, HS_PAUSE, HS_CONVERT, HS_BOOLEAN, HS_TEXT, HS_AUTOINIT, HS_KINDS
};
struct hs_site
{
  const char * name;
  enum hs_kind kind;
  int (* fn)(struct hs *);
  char chosen;                // which value decides: p, q, s (sel ? p : q), n (sel ? q : p)
  int value;                  // what is returned when the condition holds
  unsigned evals;             // evaluations expected
  const char * text;          // source text of the argument
};
void * hs_p(struct hs * x);
int64_t hs_v(struct hs * x);
int hs_sel(struct hs * x);
const char * hs_s(struct hs * x);
rcutils_allocator_t * hs_a(struct hs * x);
int hs_printf(int given, const char * format, ...);
const struct hs_site * hs_c(size_t * n, const char ** file);
const struct hs_site * hs_c_nofault(size_t * n, const char ** file);
const struct hs_site * hs_cpp(size_t * n, const char ** file);
const struct hs_site * hs_cpp_nofault(size_t * n, const char ** file);
#ifdef __cplusplus
}
#endif
#endif
