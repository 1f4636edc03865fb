
#define VQ_TAG w512
#define VQ_BIGPOW 9
#include "bigint_tu.inc"
