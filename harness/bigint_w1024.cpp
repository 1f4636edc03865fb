
#define VQ_TAG w1024
#define VQ_BIGPOW 10
#include "bigint_tu.inc"
