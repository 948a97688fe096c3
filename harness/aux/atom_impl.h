// Included by one file per way of compiling the helpers; ATOM names it.
#include "rcutils/stdatomic_helper.h"
#include "atom_ops.h"
static bool load_bool(void * p) {return rcutils_atomic_load_bool((atomic_bool *)p);}
static int64_t load_i64(void * p) {return rcutils_atomic_load_int64_t((atomic_int_least64_t *)p);}
static uint64_t load_u64(void * p) {return rcutils_atomic_load_uint64_t((atomic_uint_least64_t *)p);}
static uintptr_t load_ptr(void * p) {return rcutils_atomic_load_uintptr_t((atomic_uintptr_t *)p);}
static void store_bool(void * p, bool v) {rcutils_atomic_store((atomic_bool *)p, v);}
static void store_i64(void * p, int64_t v) {rcutils_atomic_store((atomic_int_least64_t *)p, v);}
static void store_u64(void * p, uint64_t v) {rcutils_atomic_store((atomic_uint_least64_t *)p, v);}
static void store_ptr(void * p, uintptr_t v) {rcutils_atomic_store((atomic_uintptr_t *)p, v);}
static bool xchg_bool(void * p, bool v) {return rcutils_atomic_exchange_bool((atomic_bool *)p, v);}
static int64_t xchg_i64(void * p, int64_t v) {return rcutils_atomic_exchange_int64_t((atomic_int_least64_t *)p, v);}
static uint64_t xchg_u64(void * p, uint64_t v) {return rcutils_atomic_exchange_uint64_t((atomic_uint_least64_t *)p, v);}
static uintptr_t xchg_ptr(void * p, uintptr_t v) {return rcutils_atomic_exchange_uintptr_t((atomic_uintptr_t *)p, v);}
static bool cas_u64(void * p, uint64_t * e, uint64_t v)
{
  return rcutils_atomic_compare_exchange_strong_uint_least64_t((atomic_uint_least64_t *)p, e, v);
}
static uint64_t add_u64(void * p, uint64_t v) {return rcutils_atomic_fetch_add_uint64_t((atomic_uint_least64_t *)p, v);}
static int add_int(void * p, int v) {int r; rcutils_atomic_fetch_add((atomic_int *)p, r, v); return r;}
static int xchg_int(void * p, int v) {int r; rcutils_atomic_exchange((atomic_int *)p, r, v); return r;}
static int load_int(void * p) {int r; rcutils_atomic_load((atomic_int *)p, r); return r;}
static void store_int(void * p, int v) {rcutils_atomic_store((atomic_int *)p, v);}
static bool cas_int(void * p, int * e, int v) {bool r; rcutils_atomic_compare_exchange_strong((atomic_int *)p, r, e, v); return r;}
static int64_t add_i64(void * p, int64_t v) {int64_t r; rcutils_atomic_fetch_add((atomic_int_least64_t *)p, r, v); return r;}
static bool cas_i64(void * p, int64_t * e, int64_t v)
{
  bool r;
  rcutils_atomic_compare_exchange_strong((atomic_int_least64_t *)p, r, e, v);
  return r;
}
static int evaluations(void)
{
  atomic_int a[16];
  int n = 0, obj = 0, val = 0, out[16] = {0}, o = 0;
  for (int i = 0; i < 16; ++i) {rcutils_atomic_store(&a[i], i);}
  rcutils_atomic_store(&a[obj++], val++);
  n += obj != 1 || val != 1;
  rcutils_atomic_load(&a[obj++], out[o++]);
  n += obj != 2 || o != 1 || out[0] != 1;
  rcutils_atomic_exchange(&a[obj++], out[o++], val++);
  n += obj != 3 || o != 2 || val != 2 || out[1] != 2;
  rcutils_atomic_fetch_add(&a[obj++], out[o++], val++);
  n += obj != 4 || o != 3 || val != 3 || out[2] != 3;
  int e[2] = {4, 9}, ei = 0;
  rcutils_atomic_compare_exchange_strong(&a[obj++], out[o++], &e[ei++], val++);
  n += obj != 5 || o != 4 || val != 4 || ei != 1 || out[3] != 1;
  return n;
}
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
const struct atom_ops CAT(atom_ops_, ATOM) = {STR(ATOM), load_bool, load_i64, load_u64, load_ptr, store_bool, store_i64, store_u64,
  store_ptr, xchg_bool, xchg_i64, xchg_u64, xchg_ptr, cas_u64, add_u64, add_int, xchg_int, load_int, store_int, cas_int, add_i64,
  cas_i64, evaluations};
