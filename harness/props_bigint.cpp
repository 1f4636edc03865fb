// C19: integer types of wide registers and bit helpers against schoolbook arithmetic on digit vectors.
#include "bigapi.hpp"
#include "core.hpp"
#include "common/qrack_functions.hpp"
#include <cstring>
using namespace vq;
namespace vq {
std::map<std::string, BigCfg>& bigConfigs()
{
    static std::map<std::string, BigCfg> m;
    return m;
}
} // namespace vq
namespace {
// ---- reference: little-endian 32-bit digits, everything modulo 2^W
typedef std::vector<uint32_t> D;
D dig(const Limbs& l, int bits)
{
    D d(std::max(1, bits / 32), 0);
    for (size_t i = 0; i < d.size(); ++i)
        if (i / 2 < l.size()) d[i] = (uint32_t)(l[i / 2] >> (32 * (i & 1)));
    return d;
}
Limbs limbs(const D& d)
{
    Limbs l((d.size() + 1) / 2, 0);
    for (size_t i = 0; i < d.size(); ++i) l[i / 2] |= (u64)d[i] << (32 * (i & 1));
    return l;
}
D dsmall(u64 v, size_t n)
{
    D d(n, 0);
    d[0] = (uint32_t)v;
    if (n > 1) d[1] = (uint32_t)(v >> 32);
    return d;
}
bool dbit(const D& d, int i) { return (d[i / 32] >> (i % 32)) & 1; }
void dset(D& d, int i) { d[i / 32] |= 1u << (i % 32); }
D dadd(const D& a, const D& b)
{
    D r(a.size());
    u64 c = 0;
    for (size_t i = 0; i < a.size(); ++i) { c += (u64)a[i] + b[i]; r[i] = (uint32_t)c; c >>= 32; }
    return r;
}
D dsub(const D& a, const D& b)
{
    D r(a.size());
    i64 c = 0;
    for (size_t i = 0; i < a.size(); ++i) { c += (i64)a[i] - (i64)b[i]; r[i] = (uint32_t)c; c >>= 32; }
    return r;
}
D dmul(const D& a, const D& b)
{
    D r(a.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) {
        u64 c = 0;
        for (size_t j = 0; i + j < a.size(); ++j) { c += (u64)a[i] * b[j] + r[i + j]; r[i + j] = (uint32_t)c; c >>= 32; }
    }
    return r;
}
int dcmp(const D& a, const D& b)
{
    for (size_t i = a.size(); i-- > 0;)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
bool dzero(const D& a)
{
    for (auto x : a) if (x) return false;
    return true;
}
D dshl(const D& a, u64 s)
{
    D r(a.size(), 0);
    for (int i = 0; i < (int)a.size() * 32; ++i)
        if (dbit(a, i) && i + s < a.size() * 32) dset(r, (int)(i + s));
    return r;
}
D dshr(const D& a, u64 s)
{
    D r(a.size(), 0);
    for (int i = 0; i < (int)a.size() * 32; ++i)
        if (dbit(a, i) && (u64)i >= s) dset(r, (int)(i - s));
    return r;
}
int dlog2(const D& a)
{
    for (int i = (int)a.size() * 32; i-- > 0;)
        if (dbit(a, i)) return i;
    return 0;
}
void ddiv(const D& a, const D& b, D& q, D& r)
{ // one extra digit so that the running remainder never wraps
    D R(a.size() + 1, 0), B(b);
    B.push_back(0);
    q.assign(a.size(), 0);
    for (int i = (int)a.size() * 32; i-- > 0;) {
        R = dshl(R, 1);
        if (dbit(a, i)) R[0] |= 1;
        if (dcmp(R, B) >= 0) { R = dsub(R, B); dset(q, i); }
    }
    R.pop_back();
    r = R;
}
std::string ddec(D a)
{
    if (dzero(a)) return "0";
    std::string s;
    while (!dzero(a)) {
        u64 rem = 0;
        for (size_t i = a.size(); i-- > 0;) { rem = (rem << 32) | a[i]; a[i] = (uint32_t)(rem / 10); rem %= 10; }
        s.push_back((char)('0' + rem));
    }
    std::reverse(s.begin(), s.end());
    return s;
}
double ddbl(const D& a)
{
    long double v = 0;
    for (size_t i = a.size(); i-- > 0;) v = v * 4294967296.0L + a[i];
    return (double)v;
}
std::string hex(const D& d)
{
    std::string s = "0x";
    for (size_t i = d.size(); i-- > 0;) s += fmt("%08x", d[i]);
    return s;
}
const std::vector<std::string> OPS{ "add", "add_ip", "sub", "sub_ip", "inc", "dec", "preinc", "predec", "mul", "div", "divq", "divr", "shl", "shl_ip", "shr", "shr_ip",
    "and", "and_ip", "or", "or_ip", "xor", "xor_ip", "not", "not_ip", "cmp", "cmp0", "cmp1", "rel", "log2", "log2f", "and1", "dbl", "pow2", "pow2Mask", "bitSlice",
    "bitRegMask", "isPow2", "push", "intPow", "intPowMod", "u64", "u32", "print", "parse", "divsmall", "divsmallr", "mulsmall", "copy", "set0", "load", "fromword", "shlw",
    "shlw_ip", "shrw", "shrw_ip", "div", "divr", "mul", "add", "sub", "div" };
// structured operand: runs of zeros and ones, sparse bits, powers of two and neighbours, small values
Limbs operand(Rng& r, int bits)
{
    const int n = (bits + 63) / 64;
    Limbs l(n, 0);
    const u64 top = bits % 64 ? ((1ULL << (bits % 64)) - 1) : ~0ULL;
    auto addOne = [&]() { for (auto& x : l) if (++x) break; };
    auto subOne = [&]() { for (auto& x : l) if (x--) break; };
    switch (r.below(9)) {
    case 0: l[0] = r.below(20); break;
    case 1: { int b = (int)r.below(bits); l[b / 64] |= 1ULL << (b % 64); } break;
    case 2: { int b = (int)r.below(bits); l[b / 64] |= 1ULL << (b % 64); subOne(); } break;
    case 3: { int b = (int)r.below(bits); l[b / 64] |= 1ULL << (b % 64); addOne(); } break;
    case 4: for (auto& x : l) x = r.next(); break;
    case 5: for (auto& x : l) x = r.chance(0.4) ? ~0ULL : (r.chance(0.5) ? 0 : r.next()); break;
    case 6: for (auto& x : l) x = r.chance(0.3) ? (1ULL << 63) : (r.chance(0.4) ? (0xFFFFFFFFULL << (r.below(2) * 32)) : r.below(3)); break;
    case 7: { int k = r.range(1, n); for (int i = 0; i < k; ++i) l[i] = r.next(); if (r.chance(0.5)) l[k - 1] >>= r.below(64); } break;
    default: for (auto& x : l) x = ~0ULL; if (r.chance(0.6)) l[r.below(n)] ^= 1ULL << r.below(64); break;
    }
    l[n - 1] &= top;
    return l;
}
u64 shiftAmount(Rng& r, int bits, int word)
{
    switch (r.below(5)) {
    case 0: return r.below(bits);
    case 1: return std::min<u64>(bits - 1, word * r.below(bits / word + 1));
    case 2: return (u64)std::min<i64>(bits - 1, std::max<i64>(0, (i64)(word * r.below(bits / word + 1)) + r.range(-1, 1)));
    case 3: return r.below(3);
    default: return bits - 1 - r.below(3);
    }
}
void checkBig(const Case& c, const Step& st, Stats& S)
{
    auto it = bigConfigs().find(c.stack);
    if (it == bigConfigs().end()) fail("harness", "unknown integer configuration " + c.stack);
    const BigCfg& cfg = it->second;
    const int n64 = (cfg.bits + 63) / 64;
    BigIn in;
    in.op = st.op;
    in.s = (u64)st.v[0];
    in.t = (u64)st.v[1];
    for (int i = 0; i < n64; ++i) in.a.push_back((u64)st.v[2 + i]);
    for (int i = 0; i < n64; ++i) in.b.push_back((u64)st.v[2 + n64 + i]);
    in.list = st.q;
    const D a = dig(in.a, cfg.bits), b = dig(in.b, cfg.bits);
    const size_t n = a.size();
    const D zero(n, 0), one = dsmall(1, n);
    if (in.op == "parse") in.text = ddec(a);
    if ((in.op == "div" || in.op == "divq" || in.op == "divr" || in.op == "intPowMod") && dzero(b)) return;
    const BigOut o = cfg.fn(in);
    if (!o.has) return;
    S.label("op:" + in.op);
    const std::string& op = in.op;
    D q, r;
    auto want = [&](const D& w, const Limbs& got, const char* what = "result") {
        const D g = dig(got, cfg.bits);
        if (g != w)
            fail("int:" + op, fmt("%s of %s on the %d-bit integer (words of %d bits): a=%s b=%s s=%llu: got %s, exact arithmetic gives %s", what, op.c_str(), cfg.bits,
                                  cfg.wordBits, hex(a).c_str(), hex(b).c_str(), (unsigned long long)in.s, hex(g).c_str(), hex(w).c_str()));
    };
    auto wanti = [&](long w) {
        if (o.i != w)
            fail("int:" + op, fmt("%s on the %d-bit integer (words of %d bits): a=%s b=%s: got %ld, expected %ld", op.c_str(), cfg.bits, cfg.wordBits, hex(a).c_str(),
                                  hex(b).c_str(), o.i, w));
    };
    auto sgn = [](long v) { return v < 0 ? -1L : v > 0 ? 1L : 0L; };
    if (op == "add" || op == "add_ip") want(dadd(a, b), o.x);
    else if (op == "sub" || op == "sub_ip") want(dsub(a, b), o.x);
    else if (op == "inc") want(dadd(a, dsmall(in.s, n)), o.x);
    else if (op == "dec") want(dsub(a, dsmall(in.s, n)), o.x);
    else if (op == "preinc") { want(dadd(a, one), o.x); want(dadd(a, one), o.y, "value"); }
    else if (op == "predec") { want(dsub(a, one), o.x); want(dsub(a, one), o.y, "value"); }
    else if (op == "mul") want(dmul(a, b), o.x);
    else if (op == "mulsmall") want(dmul(a, dsmall(cfg.wordBits == 64 ? (uint32_t)in.s : in.s, n)), o.x);
    else if (op == "div") { ddiv(a, b, q, r); want(q, o.x, "quotient"); want(r, o.y, "remainder"); }
    else if (op == "divq") { ddiv(a, b, q, r); want(q, o.x, "quotient"); }
    else if (op == "divr") { ddiv(a, b, q, r); want(r, o.x, "remainder"); }
    else if (op == "divsmall" || op == "divsmallr") {
        ddiv(a, dsmall(cfg.wordBits == 64 && !cfg.native ? (uint32_t)in.s : in.s, n), q, r);
        if (op == "divsmall") want(q, o.x, "quotient");
        want(r, o.y, "remainder");
    } else if (op == "shl" || op == "shl_ip") want(dshl(a, in.s), o.x);
    else if (op == "shr" || op == "shr_ip") want(dshr(a, in.s), o.x);
    else if (op == "shlw" || op == "shlw_ip") want(dshl(a, in.s * cfg.wordBits), o.x);
    else if (op == "shrw" || op == "shrw_ip") want(dshr(a, in.s * cfg.wordBits), o.x);
    else if (op == "and" || op == "and_ip" || op == "or" || op == "or_ip" || op == "xor" || op == "xor_ip" || op == "not" || op == "not_ip") {
        D w(n);
        for (size_t i = 0; i < n; ++i) w[i] = op[0] == 'a' ? a[i] & b[i] : op[0] == 'o' ? a[i] | b[i] : op[0] == 'x' ? a[i] ^ b[i] : ~a[i];
        want(w, o.x);
    } else if (op == "cmp") { if (sgn(o.i) != dcmp(a, b)) wanti(dcmp(a, b)); }
    else if (op == "cmp0") { if (sgn(o.i) != dcmp(a, zero)) wanti(dcmp(a, zero)); }
    else if (op == "cmp1") { if (sgn(o.i) != dcmp(a, one)) wanti(dcmp(a, one)); }
    else if (op == "rel") {
        const int k = dcmp(a, b);
        wanti((k == 0 ? 1 : 0) | (k < 0 ? 2 : 0) | (k <= 0 ? 4 : 0) | (k > 0 ? 8 : 0) | (k >= 0 ? 16 : 0));
    } else if (op == "log2") { if (!dzero(a)) wanti(dlog2(a)); }
    else if (op == "log2f") { if (!dzero(a)) wanti(dlog2(a)); }
    else if (op == "and1") wanti(a[0] & 1);
    else if (op == "dbl") {
        if (std::abs(o.d - ddbl(a)) > 1e-14 * ddbl(a)) fail("int:dbl", fmt("bi_to_double(%s) = %.17g, expected %.17g", hex(a).c_str(), o.d, ddbl(a)));
    } else if (op == "pow2") want(dshl(one, in.s), o.x);
    else if (op == "pow2Mask") want(dsub(dshl(one, in.s), one), o.x);
    else if (op == "bitSlice") { D w(n, 0); if (dbit(a, (int)in.s)) dset(w, (int)in.s); want(w, o.x); }
    else if (op == "bitRegMask") want(dshl(dsub(dshl(one, in.t), one), in.s), o.x);
    else if (op == "isPow2") { int k = 0; for (auto x : a) k += __builtin_popcount(x); wanti(k == 1); }
    else if (op == "push") { // insert zero bits at the (sorted) positions
        D w(n, 0);
        int src = 0;
        for (int i = 0; i < cfg.bits; ++i) {
            if (std::find(st.q.begin(), st.q.end(), i) != st.q.end()) continue;
            if (dbit(a, src)) dset(w, i);
            ++src;
        }
        want(w, o.x);
    } else if (op == "intPow") { D w = one; for (u64 i = 0; i < in.s; ++i) w = dmul(w, a); want(w, o.x); }
    else if (op == "intPowMod") {
        D w;
        ddiv(one, b, q, w);
        D base;
        ddiv(a, b, q, base);
        for (u64 i = 0; i < in.s; ++i) { ddiv(dmul(w, base), b, q, r); w = r; }
        want(w, o.x);
    } else if (op == "u64") { if (o.x[0] != in.a[0]) fail("int:u64", "conversion to 64 bits"); }
    else if (op == "u32") { if (o.x[0] != (uint32_t)in.a[0]) fail("int:u32", "conversion to 32 bits"); }
    else if (op == "print") { if (o.text != ddec(a)) fail("int:print", "printing " + hex(a) + " gives '" + o.text.substr(0, 400) + "', expected '" + ddec(a) + "'"); }
    else if (op == "parse") want(a, o.x);
    else if (op == "copy" || op == "load") want(a, o.x);
    else if (op == "set0") want(zero, o.x);
    else if (op == "fromword") want(dsmall(in.s, n), o.x);
}
// ---- helpers on machine words and 2x2 matrices
const std::vector<std::string> HOPS{ "log2Ocl", "popCountOcl", "pow2Ocl", "pow2MaskOcl", "bitSliceOcl", "bitRegMaskOcl", "isPow2Ocl", "badBitRange", "badPermRange", "intPowOcl",
    "intPowModOcl", "ovAdd", "ovSub", "idArray", "mul2x2", "inv2x2", "exp2x2", "log2x2" };
void matIn(const Step& st, cd* m) { for (int i = 0; i < 4; ++i) m[i] = cd(st.r[2 * i], st.r[2 * i + 1]); }
void checkHelper(const Step& st, Stats& S)
{
    using namespace Qrack;
    const std::string& op = st.op;
    S.label("op:" + op);
    const u64 a = (u64)st.v[0], b = (u64)st.v[1], s = (u64)st.v[2], t = (u64)st.v[3];
    auto want = [&](u64 got, u64 w) {
        if (got != w)
            fail("helper:" + op, fmt("%s(a=0x%llx b=0x%llx s=%llu t=%llu) = 0x%llx, expected 0x%llx", op.c_str(), (unsigned long long)a, (unsigned long long)b,
                                     (unsigned long long)s, (unsigned long long)t, (unsigned long long)got, (unsigned long long)w));
    };
    if (op == "log2Ocl") { if (a) { u64 k = 0; while (k < 63 && (a >> (k + 1))) ++k; want(log2Ocl(a), k); } }
    else if (op == "popCountOcl") { u64 k = 0; for (int i = 0; i < 64; ++i) k += (a >> i) & 1; want(popCountOcl(a), k); }
    else if (op == "pow2Ocl") want(pow2Ocl((bitLenInt)s), 1ULL << s);
    else if (op == "pow2MaskOcl") want(pow2MaskOcl((bitLenInt)s), (1ULL << s) - 1);
    else if (op == "bitSliceOcl") want(bitSliceOcl((bitLenInt)s, a), a & (1ULL << s));
    else if (op == "bitRegMaskOcl") { u64 w = 0; for (u64 i = 0; i < t; ++i) w |= 1ULL << (s + i); want(bitRegMaskOcl((bitLenInt)s, (bitLenInt)t), w); }
    else if (op == "isPow2Ocl") want(isPowerOfTwoOcl(a), __builtin_popcountll(a) == 1);
    else if (op == "badBitRange") want(isBadBitRange((bitLenInt)s, (bitLenInt)t, (bitLenInt)(a & 255)), (s & 255) + (t & 255) > (a & 255));
    else if (op == "badPermRange") {
        const u64 cap = 1ULL << s;
        want(isBadPermRange(a, b, cap), (unsigned __int128)a + b > cap);
    } else if (op == "intPowOcl") { u64 w = 1; for (u64 i = 0; i < s; ++i) w *= a; want(intPowOcl(a, s), w); }
    else if (op == "intPowModOcl") {
        const u64 m = (b & 0xffffffffULL) ? (b & 0xffffffffULL) : 1; // products of residues fit in 64 bits
        u64 w = 1 % m;
        for (u64 i = 0; i < s; ++i) w = (u64)((unsigned __int128)w * (a % m) % m);
        want(intPowModOcl(a, s, m), w);
    } else if (op == "ovAdd" || op == "ovSub") {
        const int L = (int)(1 + s % 62);
        const u64 pw = 1ULL << L, x = a & (pw - 1), y = b & (pw - 1), sign = pw >> 1;
        const i64 xs = (x & sign) ? (i64)x - (i64)pw : (i64)x, ys = (y & sign) ? (i64)y - (i64)pw : (i64)y;
        const i64 v = op == "ovAdd" ? xs + ys : xs - ys;
        want(op == "ovAdd" ? isOverflowAdd(x, y, sign, pw) : isOverflowSub(x, y, sign, pw), v >= (i64)sign || v < -(i64)sign);
    } else if (op == "idArray") {
        std::vector<bitLenInt> v;
        std::set<int> seen;
        bool bad = false;
        const int n = (int)(s % 129);
        for (int x : st.q) { v.push_back((bitLenInt)x); if (x >= n || !seen.insert(x).second) bad = true; }
        bool threw = false;
        try { ThrowIfQbIdArrayIsBad(v, (bitLenInt)n, "test"); } catch (const std::invalid_argument&) { threw = true; }
        want(threw, bad);
    } else { // 2x2 matrices
        cd m[4], k[4];
        matIn(st, m);
        complex M[4], K[4], O[4], T[4];
        for (int i = 0; i < 4; ++i) M[i] = complex((real1)m[i].real(), (real1)m[i].imag());
        auto cmp = [&](const complex* got, const cd* w, double tol) {
            double sc = 0, d = 0;
            for (int i = 0; i < 4; ++i) { sc = std::max(sc, std::abs(w[i])); d = std::max(d, std::abs(cd(got[i].real(), got[i].imag()) - w[i])); }
            if (!(d <= tol * std::max(1.0, sc)))
                fail("helper:" + op, fmt("%s of (%.4f%+.4fi %.4f%+.4fi; %.4f%+.4fi %.4f%+.4fi) is off by %g", op.c_str(), m[0].real(), m[0].imag(), m[1].real(), m[1].imag(),
                                         m[2].real(), m[2].imag(), m[3].real(), m[3].imag(), d));
        };
        auto mm = [](const cd* x, const cd* y, cd* o) { o[0] = x[0] * y[0] + x[1] * y[2]; o[1] = x[0] * y[1] + x[1] * y[3]; o[2] = x[2] * y[0] + x[3] * y[2]; o[3] = x[2] * y[1] + x[3] * y[3]; };
        for (int i = 0; i < 4; ++i) m[i] = cd(M[i].real(), M[i].imag());
        const cd I4[4] = { 1, 0, 0, 1 };
        if (op == "mul2x2") {
            for (int i = 0; i < 4; ++i) { K[i] = complex((real1)st.r[8 + 2 * i], (real1)st.r[9 + 2 * i]); k[i] = cd(K[i].real(), K[i].imag()); }
            mul2x2(M, K, O);
            cd w[4];
            mm(m, k, w);
            cmp(O, w, 1e-5);
        } else if (op == "inv2x2") {
            if (std::abs(m[0] * m[3] - m[1] * m[2]) < 0.1) return;
            inv2x2(M, O);
            const cd det = m[0] * m[3] - m[1] * m[2];
            const cd w[4] = { m[3] / det, -m[1] / det, -m[2] / det, m[0] / det };
            cmp(O, w, 1e-4);
        } else { // Hermitian h from the generated numbers
            cd h[4] = { m[0].real(), m[1], std::conj(m[1]), m[3].real() };
            if (st.q[0]) { h[1] = h[2] = 0; }
            else if (std::abs(h[1]) < 0.3) { h[1] += 1.0; h[2] = std::conj(h[1]); }
            cd w[4] = { 1, 0, 0, 1 }, term[4] = { 1, 0, 0, 1 }, ih[4], tmp[4];
            for (int i = 0; i < 4; ++i) ih[i] = cd(0, 1) * h[i];
            for (int j = 1; j < 60; ++j) {
                mm(term, ih, tmp);
                for (int i = 0; i < 4; ++i) { term[i] = tmp[i] / (double)j; w[i] += term[i]; }
            }
            if (op == "exp2x2") {
                for (int i = 0; i < 4; ++i) M[i] = complex((real1)ih[i].real(), (real1)ih[i].imag());
                exp2x2(M, O);
                cmp(O, w, 1e-4);
            } else { // logarithm of the unitary: exponentiating it (independently) gives the unitary back
                if (std::norm(w[1]) + std::norm(w[2]) > 1e-12 && std::abs(w[1]) < 0.2) return; // ill-conditioned eigenvectors in single precision
                for (int i = 0; i < 4; ++i) M[i] = complex((real1)w[i].real(), (real1)w[i].imag());
                log2x2(M, O);
                cd L[4], e[4] = { 1, 0, 0, 1 }, te[4] = { 1, 0, 0, 1 };
                for (int i = 0; i < 4; ++i) L[i] = cd(O[i].real(), O[i].imag());
                for (int j = 1; j < 80; ++j) {
                    mm(te, L, tmp);
                    for (int i = 0; i < 4; ++i) { te[i] = tmp[i] / (double)j; e[i] += te[i]; }
                }
                complex E[4];
                for (int i = 0; i < 4; ++i) E[i] = complex((real1)e[i].real(), (real1)e[i].imag());
                cmp(E, w, 3e-4);
            }
            (void)I4; (void)T;
        }
    }
}
Reg c19(Property{ "C19", [](bool th) -> u64 { return th ? 3000000 : 120000; },
    [](Rng& r, u64, bool) {
        Case c;
        static const std::vector<std::string> cfgs{ "n128", "n128", "w256", "w256", "w512", "w1024", "h128", "h256", "n64", "helpers", "helpers" };
        c.stack = r.pick(cfgs);
        c.kind = c.stack == "helpers" ? "helper" : "int";
        const int k = r.range(4, 16);
        for (int i = 0; i < k; ++i) {
            Step st;
            if (c.kind == "helper") {
                st.op = r.pick(HOPS);
                Limbs a = operand(r, 64), b = operand(r, 64);
                u64 s = r.below(64), t = r.below(64 - s);
                if (st.op == "bitRegMaskOcl") { t = r.below(64); s = r.below(64 - t); }
                if (st.op == "badBitRange") { s = r.chance(0.5) ? r.below(256) : r.below(10); t = r.chance(0.5) ? r.below(256) : r.below(10); a[0] = r.chance(0.5) ? r.below(256) : s + t + r.range(-1, 1); a[0] &= 255; }
                if (st.op == "badPermRange") { s = r.below(64); if (r.chance(0.4)) { a[0] = (1ULL << s) - r.below(3); b[0] = r.below(4); } if (r.chance(0.2)) b[0] = ~0ULL - r.below(4); }
                if (st.op == "intPowOcl" || st.op == "intPowModOcl") s = r.below(70);
                if (st.op == "idArray") { int n = r.range(0, 12); for (int j = 0; j < n; ++j) st.q.push_back((int)r.below(r.chance(0.5) ? 14 : 200)); s = r.below(130); }
                st.v = { (i64)a[0], (i64)b[0], (i64)s, (i64)t };
                if (st.op.size() > 3 && st.op.find("2x2") != std::string::npos) {
                    for (int j = 0; j < 16; ++j) st.r.push_back(std::round((r.unit() * 4 - 2) * 64) / 64);
                    st.q = { r.chance(0.3) ? 1 : 0 };
                }
            } else {
                const BigCfg& cfg = bigConfigs()[c.stack];
                st.op = r.pick(OPS);
                Limbs a = operand(r, cfg.bits), b = operand(r, cfg.bits);
                if (r.chance(0.1)) b = a;
                if (r.chance(0.15)) { b = a; b[r.below(b.size())] += r.range(-1, 1); }
                if (r.chance(0.3)) { for (size_t j = b.size() - r.below(b.size()); j < b.size(); ++j) b[j] = 0; }
                u64 s = shiftAmount(r, cfg.bits, std::min(cfg.wordBits, 64)), t = 0;
                if (st.op == "inc" || st.op == "dec" || st.op == "divsmall" || st.op == "divsmallr" || st.op == "mulsmall" || st.op == "fromword") {
                    s = operand(r, 64)[0];
                    if (st.op[0] == 'd' && st.op[1] == 'i' && !(uint32_t)s) s |= 1 + r.below(100);
                }
                if (st.op.compare(0, 3, "shl") == 0 && st.op.find('w') != std::string::npos) s = r.below(cfg.bits / cfg.wordBits);
                if (st.op.compare(0, 3, "shr") == 0 && st.op.find('w') != std::string::npos) s = r.below(cfg.bits / cfg.wordBits);
                if (st.op == "bitRegMask") { t = shiftAmount(r, cfg.bits, 64); s = r.below(cfg.bits - t); if (cfg.bits > 256) t &= 0xffff; }
                if (st.op == "intPow") s = r.below(12);
                if (st.op == "intPowMod") {
                    s = r.below(40);
                    const int half = cfg.bits / 2;
                    for (size_t j = 0; j < b.size(); ++j) if ((int)j * 64 >= half) b[j] = 0;
                    if (half < 64) b[0] &= (1ULL << half) - 1;
                    if (std::all_of(b.begin(), b.end(), [](u64 x) { return !x; })) b[0] = 7;
                    if (cfg.bits > 256 && s > 12) s = 12;
                }
                if (st.op == "push") {
                    int kk = r.range(0, 6);
                    std::set<int> p;
                    for (int j = 0; j < kk; ++j) p.insert((int)r.below(r.chance(0.5) ? 12 : cfg.bits));
                    st.q.assign(p.begin(), p.end());
                    // the value must fit beside the inserted bits
                    for (int j = 0; j < (int)p.size(); ++j) { const int bit = cfg.bits - 1 - j; a[bit / 64] &= ~(1ULL << (bit % 64)); }
                }
                st.v = { (i64)s, (i64)t };
                for (u64 x : a) st.v.push_back((i64)x);
                for (u64 x : b) st.v.push_back((i64)x);
            }
            c.steps.push_back(st);
        }
        return c;
    },
    [](const Case& c, Stats& S) -> bool {
        for (const auto& st : c.steps) {
            if (c.kind == "helper") checkHelper(st, S);
            else checkBig(c, st, S);
        }
        S.label("config:" + c.stack);
        return c.steps.size() > 0;
    },
    "at least one integer or helper operation was evaluated and compared with the schoolbook result", 
    "Division by zero, shifts by the full width or more and the logarithm of zero are outside the documented domain; BigInteger is exercised in separately configured copies of the working tree's sources (128/256/512/1024 bits, 64- and 128-bit words), since the default build uses the compiler's 128-bit integer." });
} // namespace
