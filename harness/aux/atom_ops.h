// Table of the atomic helpers, for one way of compiling them. Shared by C and C++.
#ifndef ATOM_OPS_H_
#define ATOM_OPS_H_
#include <stdbool.h>
#include <stdint.h>
struct atom_ops
{
  const char * name;
  bool (* load_bool)(void *);
  int64_t (* load_i64)(void *);
  uint64_t (* load_u64)(void *);
  uintptr_t (* load_ptr)(void *);
  void (* store_bool)(void *, bool);
  void (* store_i64)(void *, int64_t);
  void (* store_u64)(void *, uint64_t);
  void (* store_ptr)(void *, uintptr_t);
  bool (* xchg_bool)(void *, bool);
  int64_t (* xchg_i64)(void *, int64_t);
  uint64_t (* xchg_u64)(void *, uint64_t);
  uintptr_t (* xchg_ptr)(void *, uintptr_t);
  bool (* cas_u64)(void *, uint64_t *, uint64_t);
  uint64_t (* add_u64)(void *, uint64_t);
  // the generic macros, on other types
  int (* add_int)(void *, int);
  int (* xchg_int)(void *, int);
  int (* load_int)(void *);
  void (* store_int)(void *, int);
  bool (* cas_int)(void *, int *, int);
  int64_t (* add_i64)(void *, int64_t);
  bool (* cas_i64)(void *, int64_t *, int64_t);
  // number of times the arguments of the macros are evaluated too often
  int (* evaluations)(void);
};
#endif
