// the bundled replacement for <stdatomic.h>, as the compiler at hand would use it
#define ATOM compat
#define __CLANG_STDATOMIC_H
#define _STDATOMIC_H
#include "rcutils/stdatomic_helper/gcc/stdatomic.h"
#include "atom_impl.h"
