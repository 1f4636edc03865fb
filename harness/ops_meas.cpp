// Measurement, reset, queries, sampling, hints, state import/export, shifts, logic and Fourier transforms.
#include "ops_int.hpp"
using namespace Qrack;
namespace vq {
typedef std::vector<int> VI;
static std::vector<bitCapInt> pows(const VI& q)
{
    std::vector<bitCapInt> o;
    for (int p : q) o.push_back(bci((u128)1 << p));
    return o;
}
// physical measurement mask -> logical value, over the listed physical positions; foreign bits must be 0
static u64 toLogical(const Slot& s, u128 res, const VI& ps, const char* what)
{
    u64 v = 0;
    u128 m = 0;
    for (int p : ps) {
        m |= (u128)1 << p;
        if ((res >> p) & 1) v |= s.bit(p);
    }
    if (res & ~m) fail("meas-mask", fmt("%s returned bits outside the measured positions: %llx", what, (unsigned long long)(res & ~m)));
    return v;
}
static void collapse(Slot& s, u64 mask, u64 val, const char* what)
{
    double p = s.ref.probMask(mask, val);
    if (!(p > 1e-5)) fail("impossible", fmt("%s returned an outcome of probability %.2g", what, p));
    s.ref.project(mask, val);
}
static bool gMask(GenCtx& g, Step& t, int mx = 5)
{
    if (g.mapped.empty()) return false;
    t.q = g.qs(g.r.range(1, (int)std::min<size_t>(g.mapped.size(), mx)));
    return true;
}
static bool gRange(GenCtx& g, Step& t, int mx)
{
    int len = g.r.range(1, mx), st;
    while (len > 0 && !g.contig(len, st)) --len;
    if (!len) return false;
    t.v = { st, len };
    return true;
}
static void parts(const Slot& s, const VI& bits, std::vector<Ref>& cand, const std::function<void(Ref&, u64)>& post)
{
    // every positive-probability projection of the logical bits, then post(value)
    for (u64 v = 0; v < (1ULL << bits.size()); ++v) {
        u64 m = 0;
        for (int b : bits) m |= 1ULL << b;
        u64 val = rset(0, bits, v);
        if (s.ref.probMask(m, val) < 1e-6) continue;
        Ref c = s.ref;
        c.project(m, val);
        post(c, v);
        cand.push_back(c);
    }
}
static void flipTo(Ref& c, const VI& bits, u64 from, u64 to)
{
    u64 x = rset(0, bits, from ^ to);
    c.permute([x](u64 i) { return i ^ x; });
}
static void rolRef(Ref& c, const VI& b, int sh)
{
    int L = (int)b.size();
    c.permute([&](u64 i) {
        u64 v = rget(i, b), o = 0;
        for (int k = 0; k < L; ++k)
            if ((v >> k) & 1) o |= 1ULL << ((k + sh) % L);
        return rset(i, b, o);
    });
}
static void checkDist(const std::vector<u64>& cnt, const std::vector<double>& p, u64 shots, const char* what)
{
    double chi = 0, ep = 0;
    u64 op = 0;
    int df = -1;
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i] < 1e-10 && cnt[i] >= 2) fail("impossible", fmt("%s drew outcome %zu, which has probability %.2g, %llu times", what, i, p[i], (unsigned long long)cnt[i]));
        double e = p[i] * shots;
        if (e < 8) {
            ep += e;
            op += cnt[i];
            continue;
        }
        double d = cnt[i] - e;
        chi += d * d / e;
        ++df;
    }
    if (std::fabs(op - ep) > 7 * std::sqrt(ep + 1) + 6)
        fail("dist", fmt("%s: the rare outcomes were drawn %llu times, expected %.2f of %llu", what, (unsigned long long)op, ep, (unsigned long long)shots));
    if (df < 0) df = 0;
    double L = 32; // P < e^-32 for a chi-square variate
    double lim = df + 2 * std::sqrt((df + 1) * L) + 2 * L;
    if (chi > lim) {
        std::string s;
        for (size_t i = 0; i < p.size() && i < 16; ++i) s += fmt(" %zu:%llu/%.1f", i, (unsigned long long)cnt[i], p[i] * shots);
        fail("dist", fmt("%s: sample does not follow the state's distribution (chi-square %.1f over %d degrees); drawn/expected%s", what, chi, df, s.c_str()));
    }
}
static std::vector<cd> drawState(int n, int kind, u64 seed)
{
    Rng r(seed * 77 + kind);
    std::vector<cd> v((size_t)1 << n);
    auto gs = [&] {
        double a = std::sqrt(-2 * std::log(r.unit() + 1e-12)), b = 2 * M_PI * r.unit();
        return cd(a * std::cos(b), a * std::sin(b));
    };
    if (kind == 0)
        for (auto& x : v) x = gs();
    else if (kind == 1) {
        for (auto& x : v) x = 0;
        int k = r.range(1, 4);
        for (int i = 0; i < k; ++i) v[r.below(v.size())] = gs();
    } else {
        for (auto& x : v) x = 1;
        for (int q = 0; q < n; ++q) {
            cd a = gs(), b = gs();
            int z = r.range(0, 5);
            if (z == 0) a = 0;
            if (z == 1) b = 0;
            if (z == 2) b = a;
            for (u64 i = 0; i < v.size(); ++i) v[i] *= ((i >> q) & 1) ? b : a;
        }
    }
    double t = 0;
    for (auto& x : v) t += std::norm(x);
    if (!(t > 1e-9)) {
        for (auto& x : v) x = 0;
        v[0] = 1;
        t = 1;
    }
    for (auto& x : v) x /= std::sqrt(t);
    return v;
}
void regMeas()
{
    const unsigned MS = O_MEAS | O_CLIFF;
    addOp("M", MS, 1, 0, 0, gQ(1), [](World&, Slot& s, const Step& t) {
        bool r = s.q->M((bitLenInt)t.q[0]);
        collapse(s, s.bit(t.q[0]), r ? s.bit(t.q[0]) : 0, "M");
    });
    addOp("ForceM", MS | O_FORCE, 1, 0, 3, // v = result, doForce, doApply
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            t.v = { g.r.range(0, 1), g.r.chance(0.7), g.r.chance(0.75) };
            return !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) {
            bool want = t.v[0] & 1, force = t.v[1] & 1, app = t.v[2] & 1;
            u64 b = s.bit(t.q[0]);
            if (force && s.ref.probMask(b, want ? b : 0) < 0.01) throw Invalid{ "improbable" };
            bool r = s.q->ForceM((bitLenInt)t.q[0], want, force, app);
            if (force && r != want) fail("force", fmt("ForceM forced to %d returned %d", want, r));
            if (s.ref.probMask(b, r ? b : 0) < 1e-5) fail("impossible", "ForceM returned an impossible outcome");
            if (app) collapse(s, b, r ? b : 0, "ForceM");
        });
    addOp("MReg", MS | O_CONTIG, 0, 0, 2, [](GenCtx& g, Step& t) { return gRange(g, t, 4); },
        [](World&, Slot& s, const Step& t) {
            auto b = s.reg(t.v[0], t.v[1]);
            if (b.empty()) throw Invalid{ "len" };
            u128 r = (u128)s.q->MReg((bitLenInt)t.v[0], (bitLenInt)t.v[1]);
            if (r >> t.v[1]) fail("meas-mask", "MReg returned a value wider than the register");
            u64 m = 0;
            for (int x : b) m |= 1ULL << x;
            collapse(s, m, rset(0, b, (u64)r), "MReg");
        });
    addOp("ForceMReg", MS | O_FORCE | O_CONTIG, 0, 0, 5, // start, len, value, doForce, doApply
        [](GenCtx& g, Step& t) {
            if (!gRange(g, t, 4)) return false;
            t.v.push_back((i64)g.r.below(1ULL << t.v[1]));
            t.v.push_back(g.r.chance(0.7));
            t.v.push_back(g.r.chance(0.8));
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            auto b = s.reg(t.v[0], t.v[1]);
            if (b.empty()) throw Invalid{ "len" };
            bool force = t.v[3] & 1, app = t.v[4] & 1;
            u64 m = 0, want = (u64)t.v[2] & ((1ULL << b.size()) - 1);
            for (int x : b) m |= 1ULL << x;
            if (force && s.ref.probMask(m, rset(0, b, want)) < 0.01) throw Invalid{ "improbable" };
            u128 r = (u128)s.q->ForceMReg((bitLenInt)t.v[0], (bitLenInt)t.v[1], bci(want), force, app);
            if (r >> t.v[1]) fail("meas-mask", "ForceMReg returned a value wider than the register");
            if (force && (u64)r != want) fail("force", fmt("ForceMReg forced to %llu returned %llu", (unsigned long long)want, (unsigned long long)r));
            if (app) collapse(s, m, rset(0, b, (u64)r), "ForceMReg");
            else if (!force) // per-qubit draws: each bit must be individually possible
                for (size_t i = 0; i < b.size(); ++i)
                    if (s.ref.probMask(1ULL << b[i], ((r >> i) & 1) ? 1ULL << b[i] : 0) < 1e-5) fail("impossible", "ForceMReg returned an impossible bit");
        });
    addOp("MBits", MS, 1, 0, 0, [](GenCtx& g, Step& t) { return gMask(g, t); },
        [](World&, Slot& s, const Step& t) {
            u128 r = (u128)s.q->M(bl(t.q));
            u64 v = toLogical(s, r, t.q, "M(bits)");
            collapse(s, lmask(s, t.q), v, "M(bits)");
        });
    addOp("ForceMBits", MS | O_FORCE, 1, 0, 2, // v = values mask (list order), doApply
        [](GenCtx& g, Step& t) {
            if (!gMask(g, t)) return false;
            t.v = { (i64)g.r.below(1ULL << t.q.size()), g.r.chance(0.75) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            std::vector<bool> vals;
            u64 want = 0, m = lmask(s, t.q);
            for (size_t i = 0; i < t.q.size(); ++i) {
                bool x = (t.v[0] >> i) & 1;
                vals.push_back(x);
                if (x) want |= s.bit(t.q[i]);
            }
            if (s.ref.probMask(m, want) < 0.01) throw Invalid{ "improbable" };
            u128 r = (u128)s.q->ForceM(bl(t.q), vals, (bool)(t.v[1] & 1));
            u64 v = toLogical(s, r, t.q, "ForceM(bits)");
            if (v != want) fail("force", "ForceM(bits) returned a different value from the forced one");
            if (t.v[1] & 1) collapse(s, m, v, "ForceM(bits)");
        });
    addOp("PeekMBits", MS, 1, 0, 0, [](GenCtx& g, Step& t) { return gMask(g, t); },
        [](World&, Slot& s, const Step& t) { // unforced, unapplied: a possible outcome in the physical positions, state untouched
            u128 r = (u128)s.q->ForceM(bl(t.q), std::vector<bool>(), false);
            u64 v = toLogical(s, r, t.q, "ForceM(bits, unapplied)");
            if (s.ref.probMask(lmask(s, t.q), v) < 1e-5) fail("impossible", "ForceM(bits, unapplied) returned an impossible outcome");
        });
    addOp("MAll", MS, 0, 0, 0, [](GenCtx&, Step&) { return true; },
        [](World&, Slot& s, const Step&) {
            u128 r = (u128)s.q->MAll();
            u64 v = toLogical(s, r, s.mapped(), "MAll");
            collapse(s, ((1ULL << s.ref.n) - 1), v, "MAll");
        });
    addOp("MParity", O_MEAS | O_PARITY, 1, 0, 3, // v = result, doForce, plain
        [](GenCtx& g, Step& t) {
            if (!gMask(g, t)) return false;
            t.v = { g.r.range(0, 1), g.r.range(0, 1), g.r.range(0, 1) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            auto p = std::dynamic_pointer_cast<QParity>(s.q);
            if (!p) throw Invalid{ "parity" };
            u64 m = lmask(s, t.q);
            auto pr = [&](bool v) {
                double x = 0;
                for (u64 i = 0; i < s.ref.a.size(); ++i)
                    if ((bool)__builtin_parityll(i & m) == v) x += std::norm(s.ref.a[i]);
                return x;
            };
            bool want = t.v[0] & 1, force = t.v[1] & 1, r;
            if (force && pr(want) < 0.01) throw Invalid{ "improbable" };
            if (!force && (t.v[2] & 1)) r = p->MParity(bci(pmask(t.q)));
            else r = p->ForceMParity(bci(pmask(t.q)), want, force);
            if (force && r != want) fail("force", "ForceMParity returned a different value from the forced one");
            if (pr(r) < 1e-5) fail("impossible", "MParity returned an impossible outcome");
            for (u64 i = 0; i < s.ref.a.size(); ++i)
                if ((bool)__builtin_parityll(i & m) != r) s.ref.a[i] = 0;
            s.ref.normalize();
        });
    addOp("SetBit", O_RESET | O_CLIFF, 1, 0, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            t.v = { g.r.range(0, 1) };
            return !t.q.empty();
        },
        [](World& w, Slot& s, const Step& t) {
            s.q->SetBit((bitLenInt)t.q[0], (bool)(t.v[0] & 1));
            VI b{ s.L(t.q[0]) };
            std::vector<Ref> c;
            parts(s, b, c, [&](Ref& x, u64 v) { flipTo(x, b, v, t.v[0] & 1); });
            w.resolve(s, c, "SetBit");
        });
    addOp("SetReg", O_RESET | O_CLIFF | O_CONTIG, 0, 0, 3,
        [](GenCtx& g, Step& t) {
            if (!gRange(g, t, 4)) return false;
            t.v.push_back((i64)g.r.below(1ULL << t.v[1]));
            return true;
        },
        [](World& w, Slot& s, const Step& t) {
            auto b = s.reg(t.v[0], t.v[1]);
            if (b.empty()) throw Invalid{ "len" };
            u64 want = (u64)t.v[2] & ((1ULL << b.size()) - 1);
            s.q->SetReg((bitLenInt)t.v[0], (bitLenInt)t.v[1], bci(want));
            std::vector<Ref> c;
            parts(s, b, c, [&](Ref& x, u64 v) { flipTo(x, b, v, want); });
            w.resolve(s, c, "SetReg");
        });
    addOp("SetPermutation", O_RESET | O_CLIFF, 0, 0, 1,
        [](GenCtx& g, Step& t) {
            t.v = { (i64)(g.r.next() & 0xffffffffu) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            u64 v = (u64)t.v[0] & ((1ULL << s.ref.n) - 1);
            u128 p = 0;
            for (int k : s.mapped())
                if ((v >> s.L(k)) & 1) p |= (u128)1 << k;
            s.q->SetPermutation(bci(p));
            s.ref.setPerm(v);
        });
    // ---- rotations and shifts of a register
    auto genShift = [](GenCtx& g, Step& t) {
        if (!gRange(g, t, 6)) return false;
        t.v.push_back(g.r.range(0, (int)t.v[1] + 1));
        return true;
    };
    addOp("ROL", O_SHIFT | O_CLIFF | O_CONTIG, 0, 0, 3, genShift, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        if (b.empty() || t.v[2] < 0 || t.v[2] > 250) throw Invalid{ "len" };
        s.q->ROL((bitLenInt)t.v[2], (bitLenInt)t.v[0], (bitLenInt)t.v[1]);
        rolRef(s.ref, b, (int)t.v[2]);
    });
    addOp("ROR", O_SHIFT | O_CLIFF | O_CONTIG, 0, 0, 3, genShift, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        if (b.empty() || t.v[2] < 0 || t.v[2] > 250) throw Invalid{ "len" };
        s.q->ROR((bitLenInt)t.v[2], (bitLenInt)t.v[0], (bitLenInt)t.v[1]);
        rolRef(s.ref, b, (int)(b.size() - t.v[2] % b.size()));
    });
    auto shiftOp = [&](const char* name, int kind) { // 0 LSL, 1 LSR, 2 ASL, 3 ASR
        addOp(name, O_SHIFT | O_RESET | O_CLIFF | O_CONTIG, 0, 0, 3, genShift, [kind](World& w, Slot& s, const Step& t) {
            auto b = s.reg(t.v[0], t.v[1]);
            int L = (int)b.size(), sh = (int)t.v[2];
            if (L < 1 || sh < 0 || sh > 200 || (kind >= 2 && L < 2)) throw Invalid{ "len" };
            bitLenInt S = (bitLenInt)sh, st = (bitLenInt)t.v[0], ln = (bitLenInt)t.v[1];
            if (kind == 0) s.q->LSL(S, st, ln);
            else if (kind == 1) s.q->LSR(S, st, ln);
            else if (kind == 2) s.q->ASL(S, st, ln);
            else s.q->ASR(S, st, ln);
            if (!sh) return;
            VI lost; // the bits shifted out (logical), in the frame before the shift
            auto sw = [&](Ref& r) {
                if (kind >= 2) r.permute([&](u64 i) {
                    u64 v = rget(i, b), hi = (v >> (L - 1)) & 1, lo = (v >> (L - 2)) & 1;
                    v = (v & ~(3ULL << (L - 2))) | (lo << (L - 1)) | (hi << (L - 2));
                    return rset(i, b, v);
                });
            };
            std::vector<Ref> c;
            Slot tmp;
            tmp.ref = s.ref;
            if (sh >= L) {
                parts(s, b, c, [&](Ref& x, u64 v) { flipTo(x, b, v, 0); });
            } else {
                sw(tmp.ref);
                bool left = !(kind & 1);
                rolRef(tmp.ref, b, left ? sh : L - sh);
                // positions to clear after the rotation
                for (int k = 0; k < sh; ++k) {
                    int pos = left ? k : kind == 1 ? L - sh + k : L - sh - 1 + k;
                    lost.push_back(b[pos]);
                }
                parts(tmp, lost, c, [&](Ref& x, u64 v) {
                    flipTo(x, lost, v, 0);
                    sw(x);
                });
            }
            w.resolve(s, c, "shift");
        });
    };
    shiftOp("LSL", 0);
    shiftOp("LSR", 1);
    shiftOp("ASL", 2);
    shiftOp("ASR", 3);

    // ---- logic
    struct LG {
        const char* n;
        void (QInterface::*f)(bitLenInt, bitLenInt, bitLenInt);
        int k;
    };
    static const LG lgs[] = { { "AND", &QInterface::AND, 0 }, { "OR", &QInterface::OR, 1 }, { "XOR", &QInterface::XOR, 2 }, { "NAND", &QInterface::NAND, 3 },
        { "NOR", &QInterface::NOR, 4 }, { "XNOR", &QInterface::XNOR, 5 } };
    for (auto& l : lgs) {
        auto f = l.f;
        int k = l.k;
        addOp(l.n, O_LOGIC | ((k % 3) == 2 ? O_CLIFF : 0) | O_DUPQ, 3, 0, 0,
            [k](GenCtx& g, Step& t) { // q = in1,in2,out
                int z = g.r.range(0, 5);
                auto d = g.qs(3);
                if (d.size() < 3) return false;
                if (z == 0) t.q = { d[0], d[0], d[2] };
                else if (z == 1 && k % 3 == 2) t.q = { d[0], d[1], d[0] };
                else if (z == 2 && k % 3 == 2) t.q = { d[0], d[1], d[1] };
                else t.q = d;
                return true;
            },
            [f, k](World&, Slot& s, const Step& t) {
                if (t.q.size() != 3) throw Invalid{ "arity" };
                int a = t.q[0], b = t.q[1], o = t.q[2];
                if ((k % 3) != 2 && (a == o || b == o)) throw Invalid{ "alias" };
                if (a == b && b == o) throw Invalid{ "alias" };
                ((*s.q).*f)((bitLenInt)a, (bitLenInt)b, (bitLenInt)o);
                int la = s.L(a), lb = s.L(b), lo = s.L(o);
                s.ref.permute([&](u64 i) {
                    int x = (i >> la) & 1, y = (i >> lb) & 1, r = (k % 3) == 0 ? (x & y) : (k % 3) == 1 ? (x | y) : (x ^ y);
                    // in-place XOR replaces the target with a xor b
                    u64 out;
                    if (a == o || b == o) out = r ^ (k >= 3);
                    else out = ((i >> lo) & 1) ^ r ^ (k >= 3);
                    return (i & ~(1ULL << lo)) | (out << lo);
                });
            });
    }
    struct CLG {
        const char* n;
        void (QInterface::*f)(bitLenInt, bool, bitLenInt);
        int k;
    };
    static const CLG clgs[] = { { "CLAND", &QInterface::CLAND, 0 }, { "CLOR", &QInterface::CLOR, 1 }, { "CLXOR", &QInterface::CLXOR, 2 },
        { "CLNAND", &QInterface::CLNAND, 3 }, { "CLNOR", &QInterface::CLNOR, 4 }, { "CLXNOR", &QInterface::CLXNOR, 5 } };
    for (auto& l : clgs) {
        auto f = l.f;
        int k = l.k;
        addOp(l.n, O_LOGIC | O_CLIFF, 2, 0, 1,
            [](GenCtx& g, Step& t) {
                t.q = g.qs(2);
                t.v = { g.r.range(0, 1) };
                return !t.q.empty();
            },
            [f, k](World&, Slot& s, const Step& t) {
                if (t.q.size() != 2) throw Invalid{ "arity" };
                int y = t.v[0] & 1;
                ((*s.q).*f)((bitLenInt)t.q[0], (bool)y, (bitLenInt)t.q[1]);
                int la = s.L(t.q[0]), lo = s.L(t.q[1]);
                s.ref.permute([&](u64 i) {
                    int x = (i >> la) & 1, r = (k % 3) == 0 ? (x & y) : (k % 3) == 1 ? (x | y) : (x ^ y);
                    return i ^ ((u64)(r ^ (k >= 3)) << lo);
                });
            });
    }
    // ---- Fourier transforms
    auto dft = [](Ref& ref, const VI& b, bool invr) {
        int L = (int)b.size();
        u64 D = 1ULL << L;
        auto rev = [L](u64 x) {
            u64 o = 0;
            for (int i = 0; i < L; ++i) o |= ((x >> i) & 1) << (L - 1 - i);
            return o;
        };
        u64 m = 0;
        for (int x : b) m |= 1ULL << x;
        std::vector<cd> o(ref.a.size(), cd(0, 0));
        for (u64 i = 0; i < ref.a.size(); ++i) {
            if (i & m) continue;
            for (u64 x = 0; x < D; ++x) {
                cd a = ref.a[rset(i, b, x)];
                if (a == cd(0, 0)) continue;
                a /= std::sqrt((double)D);
                for (u64 y = 0; y < D; ++y) {
                    double ang = 2 * M_PI * (double)((invr ? y * rev(x) : x * rev(y)) % D) / (double)D;
                    o[rset(i, b, y)] += a * std::polar(1.0, invr ? ang : -ang); // built on the documented -2*pi/2^N phase roots
                }
            }
        }
        ref.a.swap(o);
    };
    for (int k = 0; k < 2; ++k) {
        addOp(k ? "IQFT" : "QFT", O_QFT | O_CONTIG, 0, 0, 3,
            [](GenCtx& g, Step& t) {
                if (!gRange(g, t, 5)) return false;
                t.v.push_back(g.r.chance(0.25));
                return true;
            },
            [k, dft](World&, Slot& s, const Step& t) {
                auto b = s.reg(t.v[0], t.v[1]);
                if (b.empty()) throw Invalid{ "len" };
                if (k) s.q->IQFT((bitLenInt)t.v[0], (bitLenInt)t.v[1], (bool)(t.v[2] & 1));
                else s.q->QFT((bitLenInt)t.v[0], (bitLenInt)t.v[1], (bool)(t.v[2] & 1));
                dft(s.ref, b, k);
            });
        addOp(k ? "IQFTR" : "QFTR", O_QFT, 1, 0, 1,
            [](GenCtx& g, Step& t) {
                if (!gMask(g, t)) return false;
                t.v = { g.r.chance(0.25) };
                return true;
            },
            [k, dft](World&, Slot& s, const Step& t) {
                if (k) s.q->IQFTR(bl(t.q), (bool)(t.v[0] & 1));
                else s.q->QFTR(bl(t.q), (bool)(t.v[0] & 1));
                dft(s.ref, s.Ls(t.q), k);
            });
    }
    // ---- queries
    const unsigned Q1 = O_QUERY | O_CLIFF, QH = O_QUERY | O_CLIFF | O_HEAVYQ;
    addOp("Prob", Q1, 1, 0, 0, gQ(1), [](World& w, Slot& s, const Step& t) { w.checkNum("Prob", s.q->Prob((bitLenInt)t.q[0]), s.ref.prob(s.L(t.q[0])), w.ptol); });
    addOp("ProbRdm", Q1 | O_RDM, 1, 0, 0, gQ(1),
        [](World& w, Slot& s, const Step& t) { w.checkNum("ProbRdm", s.q->ProbRdm((bitLenInt)t.q[0]), s.ref.prob(s.L(t.q[0])), w.ptol); });
    addOp("CondProb", Q1 | O_COND, 2, 0, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(2);
            t.v = { g.r.range(0, 1) };
            return !t.q.empty();
        },
        [](World& w, Slot& s, const Step& t) {
            u64 c = s.bit(t.q[0]), x = s.bit(t.q[1]);
            u64 cv = (t.v[0] & 1) ? c : 0;
            double pc = s.ref.probMask(c, cv);
            if (pc < 0.05) throw Invalid{ "improbable" };
            double g = cv ? s.q->CProb((bitLenInt)t.q[0], (bitLenInt)t.q[1]) : s.q->ACProb((bitLenInt)t.q[0], (bitLenInt)t.q[1]);
            w.checkNum(cv ? "CProb" : "ACProb", g, s.ref.probMask(c | x, cv | x) / pc, 10 * w.ptol);
        });
    addOp("ProbAll", Q1, 0, 0, 2,
        [](GenCtx& g, Step& t) {
            t.v = { (i64)(g.r.next() & 0xffffffu), g.r.range(0, 2) };
            return true;
        },
        [](World& w, Slot& s, const Step& t) {
            u64 v = (u64)t.v[0] & ((1ULL << s.ref.n) - 1);
            u128 p = 0;
            for (int k : s.mapped())
                if ((v >> s.L(k)) & 1) p |= (u128)1 << k;
            double want = std::norm(s.ref.a[v]);
            w.checkNum("ProbAll", s.q->ProbAll(bci(p)), want, w.ptol);
            auto c = s.q->GetAmplitude(bci(p));
            w.checkNum("|GetAmplitude|^2", std::norm(c), want, w.ptol);
        });
    addOp("GetAmps", Q1, 0, 0, 0, [](GenCtx&, Step&) { return true; },
        [](World& w, Slot& s, const Step&) { // every amplitude one at a time, and the bulk read agree with the reference
            if (s.ref.n > 6) throw Invalid{ "big" };
            auto ph = s.phys();
            std::vector<cd> o((size_t)1 << s.ref.n);
            for (u64 k = 0; k < o.size(); ++k) {
                u128 i = 0;
                for (int j = 0; j < s.ref.n; ++j)
                    if ((k >> j) & 1) i |= (u128)1 << ph[j];
                auto c = s.q->GetAmplitude(bci(i));
                o[k] = cd(c.real(), c.imag());
            }
            double d = stateDiff(s.ref.a, o);
            if (!(d <= w.tol)) fail("query", fmt("the amplitudes read one at a time differ from the state by %.5f", d));
        });
    addOp("GetProbs", QH, 0, 0, 0, [](GenCtx&, Step&) { return true; },
        [](World& w, Slot& s, const Step&) {
            if (s.n() > 12) throw Invalid{ "big" };
            std::vector<float> b((size_t)1 << s.n(), -1);
            s.q->GetProbs(b.data());
            std::vector<int> lg;
            u64 un = 0;
            for (int p = 0; p < s.n(); ++p)
                if (s.log[p] < 0) un |= 1ULL << p;
            for (u64 i = 0; i < b.size(); ++i) {
                u64 l = 0;
                for (int p = 0; p < s.n(); ++p)
                    if (s.log[p] >= 0 && ((i >> p) & 1)) l |= 1ULL << s.log[p];
                w.checkNum("GetProbs entry", b[i], (i & un) ? 0 : std::norm(s.ref.a[l]), w.ptol);
            }
        });
    addOp("ProbReg", QH | O_CONTIG, 0, 0, 3,
        [](GenCtx& g, Step& t) {
            if (!gRange(g, t, 4)) return false;
            t.v.push_back((i64)g.r.below(1ULL << t.v[1]));
            return true;
        },
        [](World& w, Slot& s, const Step& t) {
            auto b = s.reg(t.v[0], t.v[1]);
            if (b.empty() || s.n() > 12) throw Invalid{ "len" };
            u64 m = 0, v = (u64)t.v[2] & ((1ULL << b.size()) - 1);
            for (int x : b) m |= 1ULL << x;
            w.checkNum("ProbReg", s.q->ProbReg((bitLenInt)t.v[0], (bitLenInt)t.v[1], bci(v)), s.ref.probMask(m, rset(0, b, v)), w.ptol);
        });
    for (int k = 0; k < 2; ++k)
        addOp(k ? "ProbMaskRdm" : "ProbMask", QH | (k ? (unsigned)O_RDM : 0u), 1, 0, 2,
            [](GenCtx& g, Step& t) {
                if (!gMask(g, t)) return false;
                t.v = { (i64)g.r.below(1ULL << t.q.size()), g.r.range(0, 1) };
                return true;
            },
            [k](World& w, Slot& s, const Step& t) {
                if (s.n() > 12) throw Invalid{ "big" };
                u128 val = 0;
                u64 lv = 0;
                for (size_t i = 0; i < t.q.size(); ++i)
                    if ((t.v[0] >> i) & 1) {
                        val |= (u128)1 << t.q[i];
                        lv |= s.bit(t.q[i]);
                    }
                double g = k ? s.q->ProbMaskRdm((bool)(t.v[1] & 1), bci(pmask(t.q)), bci(val)) : s.q->ProbMask(bci(pmask(t.q)), bci(val));
                w.checkNum(k ? "ProbMaskRdm" : "ProbMask", g, s.ref.probMask(lmask(s, t.q), lv), w.ptol);
            });
    addOp("ProbAllRdm", Q1 | O_RDM, 0, 0, 2,
        [](GenCtx& g, Step& t) {
            t.v = { (i64)(g.r.next() & 0xffffffu), g.r.range(0, 1) };
            return true;
        },
        [](World& w, Slot& s, const Step& t) {
            u64 v = (u64)t.v[0] & ((1ULL << s.ref.n) - 1);
            u128 p = 0;
            for (int k : s.mapped())
                if ((v >> s.L(k)) & 1) p |= (u128)1 << k;
            w.checkNum("ProbAllRdm", s.q->ProbAllRdm((bool)(t.v[1] & 1), bci(p)), std::norm(s.ref.a[v]), w.ptol);
        });
    addOp("ProbMaskAll", QH, 1, 0, 0, [](GenCtx& g, Step& t) { return gMask(g, t, 4); },
        [](World& w, Slot& s, const Step& t) {
            if (s.n() > 12) throw Invalid{ "big" };
            VI q = t.q;
            std::sort(q.begin(), q.end());
            std::vector<float> o((size_t)1 << q.size(), -7);
            s.q->ProbMaskAll(bci(pmask(q)), o.data());
            auto m = s.ref.marginal(s.Ls(q));
            for (size_t i = 0; i < o.size(); ++i) w.checkNum("ProbMaskAll entry", o[i], m[i], w.ptol);
        });
    addOp("ProbBitsAll", QH, 1, 0, 0, [](GenCtx& g, Step& t) { return gMask(g, t, g.r.chance(0.3) ? 8 : 4); },
        [](World& w, Slot& s, const Step& t) {
            if (s.n() > 12) throw Invalid{ "big" };
            std::vector<float> o((size_t)1 << t.q.size(), -7);
            s.q->ProbBitsAll(bl(t.q), o.data());
            auto m = s.ref.marginal(s.Ls(t.q));
            for (size_t i = 0; i < o.size(); ++i) w.checkNum("ProbBitsAll entry", o[i], m[i], w.ptol);
        });
    addOp("ProbParity", O_QUERY | O_PARITY, 1, 0, 0, [](GenCtx& g, Step& t) { return gMask(g, t, 6); },
        [](World& w, Slot& s, const Step& t) {
            auto p = std::dynamic_pointer_cast<QParity>(s.q);
            if (!p) throw Invalid{ "parity" };
            u64 m = lmask(s, t.q);
            double x = 0;
            for (u64 i = 0; i < s.ref.a.size(); ++i)
                if (__builtin_parityll(i & m)) x += std::norm(s.ref.a[i]);
            w.checkNum("ProbParity", p->ProbParity(bci(pmask(t.q))), x, w.ptol);
        });
    // expectation and variance of a weighted sum over qubits
    auto moments = [](const Ref& ref, const VI& l, const std::vector<double>& wt, double off, double& mean, double& var, double& mag) {
        mean = var = 0;
        mag = 0;
        for (u64 i = 0; i < ref.a.size(); ++i) {
            double p = std::norm(ref.a[i]), x = off;
            for (size_t k = 0; k < l.size(); ++k) x += wt[2 * k + ((i >> l[k]) & 1)];
            mean += p * x;
            mag = std::max(mag, std::fabs(x));
        }
        for (u64 i = 0; i < ref.a.size(); ++i) {
            double p = std::norm(ref.a[i]), x = off;
            for (size_t k = 0; k < l.size(); ++k) x += wt[2 * k + ((i >> l[k]) & 1)];
            var += p * (x - mean) * (x - mean);
        }
    };
    for (int rdm = 0; rdm < 2; ++rdm)
        for (int isVar = 0; isVar < 2; ++isVar) {
            std::string suf = std::string(isVar ? "Var" : "Exp") + (rdm ? "Rdm" : "");
            unsigned fl = QH | (rdm ? (unsigned)O_RDM : 0u);
            addOp("BitsAll" + suf, fl, 1, 0, 2,
                [](GenCtx& g, Step& t) {
                    if (!gMask(g, t, 4)) return false;
                    t.v = { g.r.chance(0.5) ? 0 : g.r.range(0, 20), g.r.range(0, 1) };
                    return true;
                },
                [=](World& w, Slot& s, const Step& t) {
                    if (s.n() > 12 || t.v[0] < 0) throw Invalid{ "big" };
                    std::vector<double> wt;
                    for (size_t i = 0; i < t.q.size(); ++i) {
                        wt.push_back(0);
                        wt.push_back((double)(1ULL << i));
                    }
                    double me, va, mg;
                    moments(s.ref, s.Ls(t.q), wt, (double)t.v[0], me, va, mg);
                    bitCapInt of = bci(t.v[0]);
                    bool rr = t.v[1] & 1;
                    double g = isVar ? (rdm ? s.q->VarianceBitsAllRdm(rr, bl(t.q), of) : s.q->VarianceBitsAll(bl(t.q), of))
                                     : (rdm ? s.q->ExpectationBitsAllRdm(rr, bl(t.q), of) : s.q->ExpectationBitsAll(bl(t.q), of));
                    w.checkNum(("BitsAll" + suf).c_str(), g, isVar ? va : me, w.ptol * 2 * (isVar ? (mg + 1) * (mg + 1) : mg + 1));
                });
            addOp("BitsFact" + suf, fl, 1, 0, 4,
                [](GenCtx& g, Step& t) {
                    if (!gMask(g, t, 4)) return false;
                    t.v = { g.r.chance(0.5) ? 0 : g.r.range(0, 9), g.r.range(0, 1) };
                    for (size_t i = 0; i < 2 * t.q.size(); ++i) t.v.push_back(g.r.range(0, 12));
                    return true;
                },
                [=](World& w, Slot& s, const Step& t) {
                    if (s.n() > 12 || t.v[0] < 0 || t.v.size() < 2 + 2 * t.q.size()) throw Invalid{ "big" };
                    std::vector<double> wt;
                    std::vector<bitCapInt> pm;
                    for (size_t i = 0; i < 2 * t.q.size(); ++i) {
                        i64 x = std::max<i64>(0, t.v[2 + i]);
                        wt.push_back((double)x);
                        pm.push_back(bci(x));
                    }
                    double me, va, mg;
                    moments(s.ref, s.Ls(t.q), wt, (double)t.v[0], me, va, mg);
                    bitCapInt of = bci(t.v[0]);
                    bool rr = t.v[1] & 1;
                    double g = isVar ? (rdm ? s.q->VarianceBitsFactorizedRdm(rr, bl(t.q), pm, of) : s.q->VarianceBitsFactorized(bl(t.q), pm, of))
                                     : (rdm ? s.q->ExpectationBitsFactorizedRdm(rr, bl(t.q), pm, of) : s.q->ExpectationBitsFactorized(bl(t.q), pm, of));
                    w.checkNum(("BitsFact" + suf).c_str(), g, isVar ? va : me, w.ptol * 2 * (isVar ? (mg + 1) * (mg + 1) : mg + 1));
                });
            addOp("FloatsFact" + suf, fl, 1, 2, 1,
                [](GenCtx& g, Step& t) {
                    if (!gMask(g, t, 4)) return false;
                    t.v = { g.r.range(0, 1) };
                    for (size_t i = 0; i < 2 * t.q.size(); ++i) t.r.push_back(g.r.range(-12, 12) / 4.0);
                    return true;
                },
                [=](World& w, Slot& s, const Step& t) {
                    if (s.n() > 12 || t.r.size() < 2 * t.q.size()) throw Invalid{ "big" };
                    std::vector<double> wt(t.r.begin(), t.r.begin() + 2 * t.q.size());
                    std::vector<real1_f> wf(wt.begin(), wt.end());
                    double me, va, mg;
                    moments(s.ref, s.Ls(t.q), wt, 0, me, va, mg);
                    bool rr = t.v[0] & 1;
                    double g = isVar ? (rdm ? s.q->VarianceFloatsFactorizedRdm(rr, bl(t.q), wf) : s.q->VarianceFloatsFactorized(bl(t.q), wf))
                                     : (rdm ? s.q->ExpectationFloatsFactorizedRdm(rr, bl(t.q), wf) : s.q->ExpectationFloatsFactorized(bl(t.q), wf));
                    w.checkNum(("FloatsFact" + suf).c_str(), g, isVar ? va : me, w.ptol * 2 * (isVar ? (mg + 1) * (mg + 1) : mg + 1));
                });
        }
    // rotated single-qubit bases: the i-th outcome's weight is measured in the basis given by the columns of the i-th matrix
    static const double R2 = std::sqrt(0.5);
    for (int isVar = 0; isVar < 2; ++isVar) {
        std::string suf = isVar ? "Var" : "Exp";
        addOp("Pauli" + suf, QH, 1, 0, 1,
            [](GenCtx& g, Step& t) {
                if (!gMask(g, t, 4)) return false;
                for (size_t i = 0; i < t.q.size(); ++i) t.v.push_back(g.r.range(0, 3));
                return true;
            },
            [=](World& w, Slot& s, const Step& t) {
                if (s.n() > 12 || t.v.size() < t.q.size()) throw Invalid{ "big" };
                std::vector<Pauli> ps;
                Ref r = s.ref;
                VI l;
                std::vector<double> wt;
                cd I(0, 1), hm[4] = { R2, R2, R2, -R2 }, ym[4] = { R2, -I* R2, R2, I* R2 };
                for (size_t i = 0; i < t.q.size(); ++i) {
                    int k = (int)(t.v[i] & 3);
                    ps.push_back(k == 0 ? PauliI : k == 1 ? PauliX : k == 2 ? PauliY : PauliZ);
                    if (!k) continue;
                    int q = s.L(t.q[i]);
                    if (k == 1) r.apply(hm, q);
                    if (k == 2) r.apply(ym, q);
                    l.push_back(q);
                    wt.push_back(1);
                    wt.push_back(-1);
                }
                double me, va, mg;
                moments(r, l, wt, 0, me, va, mg);
                if (l.empty()) throw Invalid{ "identity" };
                double g = isVar ? s.q->VariancePauliAll(bl(t.q), ps) : s.q->ExpectationPauliAll(bl(t.q), ps);
                w.checkNum(("Pauli" + suf).c_str(), g, isVar ? va : me, w.ptol * 2 * (isVar ? (mg + 1) * (mg + 1) : mg + 1));
            });
        for (int mat = 0; mat < 2; ++mat)
            addOp(std::string(mat ? "UMat" : "UPar") + suf, O_QUERY | O_HEAVYQ, 1, 5, 1,
                [](GenCtx& g, Step& t) {
                    if (!gMask(g, t, 3)) return false;
                    t.v = { g.r.range(0, 1) }; // default eigenvalues?
                    for (size_t i = 0; i < 3 * t.q.size(); ++i) t.r.push_back(g.angle());
                    for (size_t i = 0; i < 2 * t.q.size(); ++i) t.r.push_back(g.r.range(-12, 12) / 4.0);
                    return true;
                },
                [=](World& w, Slot& s, const Step& t) {
                    size_t k = t.q.size();
                    if (s.n() > 12 || t.r.size() < 5 * k) throw Invalid{ "big" };
                    Ref r = s.ref;
                    std::vector<double> wt;
                    std::vector<real1_f> ev, par;
                    std::vector<std::shared_ptr<Qrack::complex>> ms;
                    for (size_t i = 0; i < k; ++i) {
                        double th = fl_(t.r[3 * i]), p = fl_(t.r[3 * i + 1]), la = fl_(t.r[3 * i + 2]);
                        double c = std::cos(th / 2), sn = std::sin(th / 2);
                        cd m[4] = { c, -std::polar(1.0, la) * sn, std::polar(1.0, p) * sn, std::polar(1.0, p + la) * c };
                        cd d[4] = { std::conj(m[0]), std::conj(m[2]), std::conj(m[1]), std::conj(m[3]) };
                        r.apply(d, s.L(t.q[i]));
                        std::shared_ptr<Qrack::complex> z(new Qrack::complex[4], std::default_delete<Qrack::complex[]>());
                        for (int j = 0; j < 4; ++j) z.get()[j] = Qrack::complex((float)m[j].real(), (float)m[j].imag());
                        ms.push_back(z);
                        par.push_back((float)th);
                        par.push_back((float)p);
                        par.push_back((float)la);
                        for (int j = 0; j < 2; ++j) {
                            double e = (t.v[0] & 1) ? (j ? -1 : 1) : t.r[3 * k + 2 * i + j];
                            wt.push_back(e);
                            if (!(t.v[0] & 1)) ev.push_back((float)e);
                        }
                    }
                    double me, va, mg;
                    moments(r, s.Ls(t.q), wt, 0, me, va, mg);
                    double g;
                    if (mat) g = isVar ? s.q->VarianceUnitaryAll(bl(t.q), ms, ev) : s.q->ExpectationUnitaryAll(bl(t.q), ms, ev);
                    else g = isVar ? s.q->VarianceUnitaryAll(bl(t.q), par, ev) : s.q->ExpectationUnitaryAll(bl(t.q), par, ev);
                    w.checkNum((std::string(mat ? "UMat" : "UPar") + suf).c_str(), g, isVar ? va : me, w.ptol * 2 * (isVar ? (mg + 1) * (mg + 1) : mg + 1));
                });
    }
    addOp("SelfCompare", QH, 0, 0, 0, [](GenCtx&, Step&) { return true; },
        [](World& w, Slot& s, const Step&) {
            if (s.n() > 10) throw Invalid{ "big" };
            auto c = s.q->Clone();
            w.checkNum("SumSqrDiff with own clone", s.q->SumSqrDiff(c), 0, 5 * w.ptol);
            if (!s.q->ApproxCompare(c, 0.02f)) fail("query", "ApproxCompare with an own clone is false");
        });
    addOp("DiffCompare", QH, 1, 0, 0, gQ(1),
        [](World& w, Slot& s, const Step& t) {
            if (s.n() > 10) throw Invalid{ "big" };
            auto c = s.q->Clone();
            c->X((bitLenInt)t.q[0]);
            cd ip = 0;
            u64 b = s.bit(t.q[0]);
            for (u64 i = 0; i < s.ref.a.size(); ++i) ip += std::conj(s.ref.a[i]) * s.ref.a[i ^ b];
            w.checkNum("SumSqrDiff with X-flipped clone", s.q->SumSqrDiff(c), 1 - std::norm(ip), 5 * w.ptol);
        });
    // ---- multi-shot sampling
    for (int arr = 0; arr < 2; ++arr)
        addOp(arr ? "ShotsArray" : "Shots", O_SAMPLE | O_CLIFF, 1, 0, 1,
            [](GenCtx& g, Step& t) {
                if (!gMask(g, t, 4)) return false;
                t.v = { g.r.pick(std::vector<int>{ 1, 40, 200, 500 }) };
                return true;
            },
            [arr](World&, Slot& s, const Step& t) {
                if (t.v[0] < 1 || t.v[0] > 5000) throw Invalid{ "shots" };
                unsigned shots = (unsigned)t.v[0];
                std::vector<u64> cnt((size_t)1 << t.q.size(), 0);
                u64 tot = 0;
                if (arr) {
                    std::vector<unsigned long long> o(shots, ~0ULL);
                    s.q->MultiShotMeasureMask(pows(t.q), shots, o.data());
                    for (auto x : o) {
                        if (x >= cnt.size()) fail("sample-range", fmt("a shot holds %llu, outside the %zu measured bits", x, t.q.size()));
                        ++cnt[x];
                        ++tot;
                    }
                } else {
                    auto m = s.q->MultiShotMeasureMask(pows(t.q), shots);
                    for (auto& kv : m) {
                        if (kv.first >= (bitCapInt)cnt.size() || kv.second < 0) fail("sample-range", "a sample key is outside the measured bits");
                        cnt[(u64)kv.first] += kv.second;
                        tot += kv.second;
                    }
                }
                if (tot != shots) fail("sample-count", fmt("%u shots requested, %llu returned", shots, (unsigned long long)tot));
                checkDist(cnt, s.ref.marginal(s.Ls(t.q)), shots, arr ? "MultiShotMeasureMask(array)" : "MultiShotMeasureMask");
            });
    // ---- hints that must not change the state
    addOp("Hint", O_HINT | O_CLIFF, 1, 0, 1,
        [](GenCtx& g, Step& t) {
            t.v = { g.r.range(0, 9) };
            t.q = g.qs((t.v[0] == 1 || t.v[0] == 2) ? 2 : 1);
            if (t.q.empty()) t.q = g.qs(1);
            return !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) {
            switch (t.v[0]) {
            case 0: s.q->TrySeparate((bitLenInt)t.q[0]); break;
            case 1:
                if (t.q.size() < 2) throw Invalid{ "arity" };
                s.q->TrySeparate((bitLenInt)t.q[0], (bitLenInt)t.q[1]);
                break;
            case 2: s.q->TrySeparate(bl(t.q), 1e-6f); break;
            case 3: s.q->Finish(); break;
            case 4: s.q->isFinished(); break;
            case 5: s.q->UpdateRunningNorm(); break;
            case 6: s.q->NormalizeState(); break;
            case 7: (void)s.q->GetUnitaryFidelity(); break;
            case 8: (void)s.q->isClifford(); (void)s.q->isClifford((bitLenInt)t.q[0]); (void)s.q->isBinaryDecisionTree(); break;
            case 9: s.q->SetReactiveSeparate(!s.q->GetReactiveSeparate()); break;
            default: throw Invalid{ "v" };
            }
        });
    // ---- state import/export
    addOp("SetState", O_IO | O_HEAVYQ, 0, 0, 2,
        [](GenCtx& g, Step& t) {
            t.v = { g.r.range(0, 2), (i64)(g.r.next() & 0xffffff) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            if (s.n() > 10 || s.ref.n != s.n() || t.v[0] < 0 || t.v[0] > 2) throw Invalid{ "big" };
            auto v = drawState(s.ref.n, (int)t.v[0], (u64)t.v[1]);
            auto ph = s.phys();
            std::vector<Qrack::complex> b(v.size());
            for (u64 k = 0; k < v.size(); ++k) {
                u64 i = 0;
                for (int j = 0; j < s.ref.n; ++j)
                    if ((k >> j) & 1) i |= 1ULL << ph[j];
                b[i] = Qrack::complex((float)v[k].real(), (float)v[k].imag());
            }
            s.q->SetQuantumState(b.data());
            s.ref.a = v;
        });
    // amplitude-wise rewrite: multiply each amplitude by a phase through GetAmplitude/SetAmplitude
    addOp("SetAmps", O_IO | O_HEAVYQ, 0, 0, 1,
        [](GenCtx& g, Step& t) {
            t.v = { (i64)(g.r.next() & 0xffffff) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            if (s.n() > 6 || s.ref.n != s.n()) throw Invalid{ "big" };
            auto ph = s.phys();
            Rng r((u64)t.v[0]);
            std::vector<cd> nw(s.ref.a.size());
            for (u64 k = 0; k < nw.size(); ++k) {
                u64 i = 0;
                for (int j = 0; j < s.ref.n; ++j)
                    if ((k >> j) & 1) i |= 1ULL << ph[j];
                cd e = std::polar(1.0, r.range(-8, 8) * M_PI / 8);
                cd x = s.ref.a[k] * e; // every amplitude is rewritten: a global phase between reads is not specified
                s.q->SetAmplitude(bci(i), Qrack::complex((float)x.real(), (float)x.imag()));
                s.ref.a[k] *= e;
            }
        });
}
} // namespace vq
