// the bundled replacement for <stdatomic.h>, over the __atomic builtins
#define ATOM gnu
#define __CLANG_STDATOMIC_H
#define _STDATOMIC_H
#define __GNUC_ATOMICS
#include "rcutils/stdatomic_helper/gcc/stdatomic.h"
#include "atom_impl.h"
