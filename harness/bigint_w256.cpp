
#define VQ_TAG w256
#define VQ_BIGPOW 8
#include "bigint_tu.inc"
