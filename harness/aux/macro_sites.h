// What a call site of a logging macro and the harness tell each other.
#ifndef MACRO_SITES_H_
#define MACRO_SITES_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct site_pass
{
  // in
  const char * name;      // logger name for the _NAMED macros
  const char * text;
  int number;
  bool condition;
  // out
  unsigned arguments, conditions;
  int line;
  const char * function, * file;
};
struct site
{
  int severity;           // index 0..4
  unsigned features;
  int64_t duration;       // in milliseconds
  void (* run)(struct site_pass *);
};
enum
{
  F_NAMED = 1, F_ONCE = 2, F_EXPRESSION = 4, F_FUNCTION = 8, F_SKIPFIRST = 16, F_THROTTLE = 32
};
// In the harness.
extern struct site_pass * mon_current_pass;
int mon_argument(struct site_pass *);
bool mon_condition(struct site_pass *);
bool mon_filter(void);
int mon_clock(int64_t *);
// In the library of call sites.
const struct site * mon_sites(size_t *);
typedef const struct site * (* mon_sites_t)(size_t *);
#ifdef __cplusplus
}
#endif
#endif
