#undef RCUTILS_ENABLE_FAULT_INJECTION
#define HS_TABLE hs_c_nofault
#include "helper_sites.inc"
