#define VQ_NATIVE
#define VQ_TAG n128
#define VQ_BIGPOW 7
#include "bigint_tu.inc"
