#define VQ_NO128
#define VQ_TAG h256
#define VQ_BIGPOW 8
#include "bigint_tu.inc"
