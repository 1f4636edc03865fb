// Build configuration of the wide-integer copies: the standard one with another qubit-capacity exponent.
#include "../../cfg/common/config.h"
#undef QBCAPPOW
#define QBCAPPOW VQ_BIGPOW
