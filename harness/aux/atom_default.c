#define ATOM native
#include "atom_impl.h"
