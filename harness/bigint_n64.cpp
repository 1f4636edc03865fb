#define VQ_NATIVE
#define VQ_TAG n64
#define VQ_BIGPOW 6
#include "bigint_tu.inc"
