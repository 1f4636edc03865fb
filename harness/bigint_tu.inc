// One copy of Qrack's integer code (functions.cpp, big_integer.cpp) under VQ_BIGPOW; every name is made unique by VQ_TAG.
#include "bigapi.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <emmintrin.h>
#include <pmmintrin.h>
#include <immintrin.h>
#include <random>
#include <math.h>
#ifdef VQ_NO128
#undef __SIZEOF_INT128__
#endif
#define VQ_CAT2(a, b) a##b
#define VQ_CAT(a, b) VQ_CAT2(a, b)
#define Qrack VQ_CAT(QrackBig, VQ_TAG)
#define BigInteger VQ_CAT(BigInteger, VQ_TAG)
#define VQ_STR2(x) #x
#define VQ_STR(x) VQ_STR2(x)
#ifdef VQ_NATIVE
// the bi_* helpers of the built-in types are global inline functions: keep the copies apart
namespace VQ_CAT(nat, VQ_TAG) {
#endif
#include "src/common/functions.cpp"
#ifndef VQ_NATIVE
#include "src/common/big_integer.cpp"
#endif
namespace {
using namespace Qrack;
typedef bitCapInt Int;
constexpr int BITS = 8 * (int)sizeof(Int);
Int mk(const vq::Limbs& l)
{
    Int r = ZERO_BCI;
    std::memcpy((void*)&r, l.data(), std::min(sizeof(Int), l.size() * 8));
    return r;
}
vq::Limbs un(const Int& v)
{
    vq::Limbs l((sizeof(Int) + 7) / 8, 0);
    std::memcpy(l.data(), (const void*)&v, sizeof(Int));
    return l;
}
vq::BigOut eval(const vq::BigIn& in)
{
    vq::BigOut o;
    const std::string& op = in.op;
    Int a = mk(in.a), b = mk(in.b), q = ZERO_BCI, r = ZERO_BCI;
    const uint64_t s = in.s;
    if (op == "add") o.x = un(a + b);
    else if (op == "add_ip") { bi_add_ip(&a, b); o.x = un(a); }
    else if (op == "sub") o.x = un(a - b);
    else if (op == "sub_ip") { bi_sub_ip(&a, b); o.x = un(a); }
    else if (op == "inc") { bi_increment(&a, s); o.x = un(a); }
    else if (op == "dec") { bi_decrement(&a, s); o.x = un(a); }
    else if (op == "preinc") { q = ++a; o.x = un(a); o.y = un(q); }
    else if (op == "predec") { q = --a; o.x = un(a); o.y = un(q); }
    else if (op == "mul") o.x = un(a * b);
    else if (op == "div") { bi_div_mod(a, b, &q, &r); o.x = un(q); o.y = un(r); }
    else if (op == "divq") { bi_div_mod(a, b, &q, nullptr); o.x = un(q); }
    else if (op == "divr") { bi_div_mod(a, b, nullptr, &r); o.x = un(r); }
    else if (op == "shl") o.x = un(a << s);
    else if (op == "shl_ip") { bi_lshift_ip(&a, s); o.x = un(a); }
    else if (op == "shr") o.x = un(a >> s);
    else if (op == "shr_ip") { bi_rshift_ip(&a, s); o.x = un(a); }
    else if (op == "and") o.x = un(a & b);
    else if (op == "and_ip") { bi_and_ip(&a, b); o.x = un(a); }
    else if (op == "or") o.x = un(a | b);
    else if (op == "or_ip") { bi_or_ip(&a, b); o.x = un(a); }
    else if (op == "xor") o.x = un(a ^ b);
    else if (op == "xor_ip") { bi_xor_ip(&a, b); o.x = un(a); }
    else if (op == "not") o.x = un(~a);
    else if (op == "not_ip") { bi_not_ip(&a); o.x = un(a); }
    else if (op == "cmp") o.i = bi_compare(a, b);
    else if (op == "cmp0") o.i = bi_compare_0(a);
    else if (op == "cmp1") o.i = bi_compare_1(a);
    else if (op == "rel") o.i = (a == b ? 1 : 0) | (a < b ? 2 : 0) | (a <= b ? 4 : 0) | (a > b ? 8 : 0) | (a >= b ? 16 : 0);
    else if (op == "log2") o.i = bi_log2(a);
    else if (op == "log2f") o.i = Qrack::log2(a);
    else if (op == "and1") o.i = bi_and_1(a);
    else if (op == "dbl") o.d = bi_to_double(a);
    else if (op == "pow2") o.x = un(pow2((bitLenInt)s));
    else if (op == "pow2Mask") o.x = un(pow2Mask((bitLenInt)s));
    else if (op == "bitSlice") o.x = un(bitSlice((bitLenInt)s, a));
    else if (op == "bitRegMask") o.x = un(bitRegMask((bitLenInt)s, (bitLenInt)in.t));
    else if (op == "isPow2") o.i = isPowerOfTwo(a);
    else if (op == "push") {
        std::vector<bitCapInt> sk;
        for (int k : in.list) sk.push_back(pow2((bitLenInt)k));
        o.x = un(pushApartBits(a, sk));
    } else if (op == "intPow") o.x = un(intPow(a, mk(vq::Limbs{ s })));
    else if (op == "intPowMod") o.x = un(intPowMod(a, mk(vq::Limbs{ s }), b));
    else if (op == "u64") o.x = vq::Limbs{ (uint64_t)a };
    else if (op == "u32") o.x = vq::Limbs{ (uint64_t)(uint32_t)a };
#if QBCAPPOW > 6
    else if (op == "print") {
        std::ostringstream ss;
        ss << a;
        o.text = ss.str();
    } else if (op == "parse") {
        std::istringstream ss(in.text);
        ss >> a;
        o.x = un(a);
    }
#endif
#if QBCAPPOW > 6 || defined(VQ_NATIVE)
    else if (op == "divsmall") {
#ifdef __SIZEOF_INT128__
        uint64_t rm = 0;
        const uint64_t d = s;
#else
        uint32_t rm = 0;
        const uint32_t d = (uint32_t)s;
#endif
        bi_div_mod_small(a, d, &q, &rm);
        o.x = un(q);
        o.y = vq::Limbs{ rm };
    }
#endif
#ifndef VQ_NATIVE
    else if (op == "divsmallr") {
        BIG_INTEGER_HALF_WORD rm = 0;
        bi_div_mod_small(a, (BIG_INTEGER_HALF_WORD)s, nullptr, &rm);
        o.y = vq::Limbs{ rm };
    } else if (op == "mulsmall") o.x = un(a * (BIG_INTEGER_HALF_WORD)s);
    else if (op == "copy") { bi_copy_ip(bi_copy(a), &q); o.x = un(q); }
    else if (op == "set0") { bi_set_0(&a); o.x = un(a); }
    else if (op == "load") { q = bi_load(a.bits); o.x = un(q); }
    else if (op == "fromword") { q = Int((BIG_INTEGER_WORD)s); o.x = un(q); }
    else if (op == "shlw") o.x = un(bi_lshift_word(a, s));
    else if (op == "shlw_ip") { bi_lshift_word_ip(&a, s); o.x = un(a); }
    else if (op == "shrw") o.x = un(bi_rshift_word(a, s));
    else if (op == "shrw_ip") { bi_rshift_word_ip(&a, s); o.x = un(a); }
#endif
    else o.has = false;
    return o;
}
#ifdef VQ_NATIVE
vq::BigReg reg(VQ_STR(VQ_TAG), vq::BigCfg{ BITS, BITS, true, eval });
#else
vq::BigReg reg(VQ_STR(VQ_TAG), vq::BigCfg{ BITS, (int)BIG_INTEGER_WORD_BITS, false, eval });
#endif
} // namespace
#ifdef VQ_NATIVE
}
#endif
