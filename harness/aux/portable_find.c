// The search functions as compiled on platforms without the GNU extensions, under names of their own.
#undef _GNU_SOURCE
#define rcutils_find portable_find
#define rcutils_findn portable_findn
#define rcutils_find_last portable_find_last
#define rcutils_find_lastn portable_find_lastn
#include "../src/find.c"
