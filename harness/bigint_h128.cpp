#define VQ_NO128
#define VQ_TAG h128
#define VQ_BIGPOW 7
#include "bigint_tu.inc"
