#define HS_TABLE hs_c
#include "helper_sites.inc"
