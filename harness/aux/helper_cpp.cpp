#define HS_TABLE hs_cpp
#include "helper_sites.inc"
