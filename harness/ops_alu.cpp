// Arithmetic operations.  Registers are contiguous physical ranges; the reference works on logical bits.
#include "ops_int.hpp"
using namespace Qrack;
namespace vq {
typedef std::vector<int> VI;
static u64 lowm(int L) { return (1ULL << L) - 1; }
// disjoint contiguous ranges of the given lengths over usable qubits
static bool layout(GenCtx& g, const VI& lens, VI& starts)
{
    std::vector<char> m(g.n, 0);
    for (int p : g.mapped) m[p] = 1;
    for (int tries = 0; tries < 60; ++tries) {
        std::vector<char> u = m;
        starts.clear();
        bool ok = true;
        // place in random order
        VI ord = g.r.perm((int)lens.size());
        starts.assign(lens.size(), -1);
        for (int k : ord) {
            VI c;
            for (int s = 0; s + lens[k] <= g.n; ++s) {
                bool f = true;
                for (int i = 0; i < lens[k] && f; ++i) f = u[s + i];
                if (f) c.push_back(s);
            }
            if (c.empty()) {
                ok = false;
                break;
            }
            starts[k] = g.r.pick(c);
            for (int i = 0; i < lens[k]; ++i) u[starts[k] + i] = 0;
        }
        if (ok) return true;
    }
    return false;
}
static bool onSupport(const Ref& r, const std::function<bool(u64)>& f)
{
    for (u64 i = 0; i < r.a.size(); ++i)
        if (std::norm(r.a[i]) > 1e-10 && !f(i)) return false;
    return true;
}
static void clean(Ref& r)
{
    for (auto& x : r.a)
        if (std::norm(x) < 1e-14) x = 0;
}
static std::shared_ptr<QAlu> alu(Slot& s)
{
    auto a = std::dynamic_pointer_cast<QAlu>(s.q);
    if (!a) throw Invalid{ "no ALU" };
    return a;
}
static void distinctOrInvalid(const std::vector<VI>& regs)
{
    u64 seen = 0;
    for (auto& r : regs)
        for (int b : r) {
            if ((seen >> b) & 1) throw Invalid{ "overlap" };
            seen |= 1ULL << b;
        }
}
static u64 powmod(u64 b, u64 e, u64 m)
{
    unsigned __int128 r = 1 % m, x = b % m;
    while (e) {
        if (e & 1) r = r * x % m;
        x = x * x % m;
        e >>= 1;
    }
    return (u64)r;
}
static VI tl(const VI& q, size_t f) { return VI(q.begin() + f, q.end()); }
// candidates: every measured outcome of `bits` (positive probability), followed by f(ref, value)
static void branch(World& w, Slot& s, const VI& bits, const std::function<void(Ref&, u64)>& f, const char* what)
{
    std::vector<Ref> c;
    u64 m = 0;
    for (int b : bits) m |= 1ULL << b;
    for (u64 v = 0; v < (1ULL << bits.size()); ++v) {
        u64 val = rset(0, bits, v);
        if (s.ref.probMask(m, val) < 1e-6) continue;
        Ref x = s.ref;
        x.project(m, val);
        clean(x);
        f(x, v);
        c.push_back(x);
    }
    w.resolve(s, c, what);
}
// results that are written "out of place" are specified for a register that starts from |0>
static void clearReg(World& w, Slot& s, int start, const VI& y)
{
    s.q->SetReg((bitLenInt)start, (bitLenInt)y.size(), bci(0));
    if (onSupport(s.ref, [&](u64 i) { return rget(i, y) == 0; })) {
        clean(s.ref);
        return;
    }
    branch(w, s, y, [&](Ref& r, u64 v) {
        u64 cl = rset(0, y, v);
        r.permute([&](u64 i) { return i ^ cl; });
    }, "SetReg");
}
static bool ovf(u64 x, u64 add, int L)
{
    i64 sgn = 1LL << (L - 1), a = (i64)x, b = (i64)add;
    if (a >= sgn) a -= 2 * sgn;
    if (b >= sgn) b -= 2 * sgn;
    i64 t = a + b;
    return t >= sgn || t < -sgn;
}
static std::vector<unsigned char> table(const std::vector<u64>& vals, int bits)
{
    int by = (bits + 7) / 8;
    std::vector<unsigned char> o(vals.size() * by + 64, 0);
    for (size_t i = 0; i < vals.size(); ++i)
        for (int j = 0; j < by; ++j) o[i * by + j] = (unsigned char)(vals[i] >> (8 * j));
    return o;
}
static void ctlPermute(Slot& s, u64 cm, const std::function<u64(u64)>& f)
{
    s.ref.permute([&](u64 i) { return (i & cm) == cm ? f(i) : i; });
}
void regAlu()
{
    const unsigned A = O_ALU | O_CONTIG;
    // v = value, start, len
    auto gInc = [](int nc, bool ctrls, int minL) {
        return [=](GenCtx& g, Step& t) {
            int L = g.r.range(minL, std::min(6, (int)g.mapped.size() - nc));
            if (L < minL) return false;
            VI lens{ L };
            for (int i = 0; i < nc; ++i) lens.push_back(1);
            int c = ctrls ? g.r.range(0, std::min(3, (int)g.mapped.size() - L - nc)) : 0;
            for (int i = 0; i < c; ++i) lens.push_back(1);
            VI st;
            if (!layout(g, lens, st)) return false;
            i64 val = (i64)g.r.below(1ULL << L);
            int z = g.r.range(0, 9);
            if (z == 0) val = 0;
            if (z == 1) val = (1LL << L) - 1;
            if (z == 2) val = 1LL << (L - 1);
            t.v = { val, st[0], L };
            for (size_t i = 1; i < st.size(); ++i) t.q.push_back(st[i]);
            return true;
        };
    };
    struct P {
        VI b;
        int L;
        u64 val;
        bitLenInt st, len;
    };
    auto pr = [](Slot& s, const Step& t) {
        P p;
        p.b = s.reg((int)t.v[1], (int)t.v[2]);
        p.L = (int)p.b.size();
        if (!p.L || p.L > 20 || t.v[0] < 0 || t.v[0] > (i64)lowm(p.L)) throw Invalid{ "len" };
        p.val = (u64)t.v[0];
        p.st = (bitLenInt)t.v[1];
        p.len = (bitLenInt)t.v[2];
        VI o = s.Ls(t.q);
        distinctOrInvalid({ p.b, o });
        return p;
    };
    for (int neg = 0; neg < 2; ++neg) {
        addOp(neg ? "DEC" : "INC", A, 0, 0, 3, gInc(0, false, 1), [=](World&, Slot& s, const Step& t) {
            P p = pr(s, t);
            if (neg) s.q->DEC(bci(p.val), p.st, p.len);
            else s.q->INC(bci(p.val), p.st, p.len);
            s.ref.permute([&](u64 i) { return rset(i, p.b, (rget(i, p.b) + (neg ? (1ULL << p.L) - p.val : p.val)) & lowm(p.L)); });
        });
        addOp(neg ? "CDEC" : "CINC", A, 0, 0, 3, gInc(0, true, 1), [=](World&, Slot& s, const Step& t) {
            P p = pr(s, t);
            if (neg) s.q->CDEC(bci(p.val), p.st, p.len, bl(t.q));
            else s.q->CINC(bci(p.val), p.st, p.len, bl(t.q));
            u64 cm = lmask(s, t.q);
            ctlPermute(s, cm, [&](u64 i) { return rset(i, p.b, (rget(i, p.b) + (neg ? (1ULL << p.L) - p.val : p.val)) & lowm(p.L)); });
        });
        addOp(neg ? "DECC" : "INCC", A | O_RESET, 1, 0, 3, gInc(1, false, 1), [=](World& w, Slot& s, const Step& t) {
            if (t.q.size() != 1) throw Invalid{ "arity" };
            P p = pr(s, t);
            int c = s.L(t.q[0]);
            if (neg) s.q->DECC(bci(p.val), p.st, p.len, (bitLenInt)t.q[0]);
            else s.q->INCC(bci(p.val), p.st, p.len, (bitLenInt)t.q[0]);
            branch(w, s, { c }, [&](Ref& r, u64 ci) {
                u64 add = neg ? (1ULL << p.L) - p.val - (1 - ci) : p.val + ci;
                r.permute([&](u64 i) {
                    u64 sum = rget(i, p.b) + add;
                    u64 o = rset(i, p.b, sum & lowm(p.L)) & ~(1ULL << c);
                    return o | (((sum >> p.L) & 1) << c);
                });
            }, neg ? "DECC" : "INCC");
        });
        // signed add: phase flip on signed overflow where the overflow qubit is set
        addOp(neg ? "DECS" : "INCS", A, 1, 0, 3, gInc(1, false, 2), [=](World&, Slot& s, const Step& t) {
            if (t.q.size() != 1) throw Invalid{ "arity" };
            auto a = alu(s);
            P p = pr(s, t);
            if (p.L < 2) throw Invalid{ "len" };
            int c = s.L(t.q[0]);
            if (neg) a->DECS(bci(p.val), p.st, p.len, (bitLenInt)t.q[0]);
            else a->INCS(bci(p.val), p.st, p.len, (bitLenInt)t.q[0]);
            u64 add = (neg ? (1ULL << p.L) - p.val : p.val) & lowm(p.L);
            s.ref.phase([&](u64 i) { return (((i >> c) & 1) && ovf(rget(i, p.b), add, p.L)) ? cd(-1, 0) : cd(1, 0); });
            s.ref.permute([&](u64 i) { return rset(i, p.b, (rget(i, p.b) + add) & lowm(p.L)); });
        });
        // q = [carry] or [overflow, carry]
        for (int two = 0; two < 2; ++two)
            addOp(std::string(neg ? "DECSC" : "INCSC") + (two ? "2" : "1"), A | O_RESET, 1 + two, 0, 3, gInc(1 + two, false, 2),
                [=](World& w, Slot& s, const Step& t) {
                    if ((int)t.q.size() != 1 + two) throw Invalid{ "arity" };
                    auto a = alu(s);
                    P p = pr(s, t);
                    if (p.L < 2) throw Invalid{ "len" };
                    int c = s.L(t.q[two]), o = two ? s.L(t.q[0]) : 0;
                    bitLenInt pc = (bitLenInt)t.q[two], po = (bitLenInt)t.q[0];
                    if (neg) {
                        if (two) a->DECSC(bci(p.val), p.st, p.len, po, pc);
                        else a->DECSC(bci(p.val), p.st, p.len, pc);
                    } else {
                        if (two) a->INCSC(bci(p.val), p.st, p.len, po, pc);
                        else a->INCSC(bci(p.val), p.st, p.len, pc);
                    }
                    branch(w, s, { c }, [&](Ref& r, u64 ci) {
                        u64 full = neg ? (1ULL << p.L) - p.val - (1 - ci) : p.val + ci;
                        u64 add = full & lowm(p.L);
                        r.phase([&](u64 i) { return ((!two || ((i >> o) & 1)) && ovf(rget(i, p.b), add, p.L)) ? cd(-1, 0) : cd(1, 0); });
                        r.permute([&](u64 i) {
                            u64 sum = rget(i, p.b) + full;
                            return (rset(i, p.b, sum & lowm(p.L)) & ~(1ULL << c)) | (((sum >> p.L) & 1) << c);
                        });
                    }, "INCSC");
                });
    }
    // ---- multiplication: v = mul, start, carryStart, len ; q = controls
    auto gMul = [](bool ctrls) {
        return [=](GenCtx& g, Step& t) {
            int mx = std::min(4, (int)g.mapped.size() / 2);
            if (mx < 1) return false;
            int L = g.r.range(1, mx);
            int c = ctrls ? g.r.range(0, std::min(2, (int)g.mapped.size() - 2 * L)) : 0;
            VI lens{ L, L }, st;
            for (int i = 0; i < c; ++i) lens.push_back(1);
            if (!layout(g, lens, st)) return false;
            t.v = { (i64)g.r.range(1, (1 << L) - 1), st[0], st[1], L };
            for (int i = 0; i < c; ++i) t.q.push_back(st[2 + i]);
            return true;
        };
    };
    for (int ctr = 0; ctr < 2; ++ctr)
        for (int div = 0; div < 2; ++div) {
            std::string nm = std::string(ctr ? "C" : "") + (div ? "DIV" : "MUL");
            addOp(nm, A | (div ? 0 : O_RESET), 0, 0, 4, gMul(ctr), [=](World& w, Slot& s, const Step& t) {
                auto a = alu(s);
                VI x = s.reg((int)t.v[1], (int)t.v[3]), y = s.reg((int)t.v[2], (int)t.v[3]);
                int L = (int)x.size();
                distinctOrInvalid({ x, y, s.Ls(t.q) });
                if (!L || L > 10 || t.v[0] < 1 || t.v[0] > (i64)lowm(L) || (!ctr && !t.q.empty())) throw Invalid{ "len" };
                u64 m = (u64)t.v[0], cm = lmask(s, t.q);
                bitLenInt S = (bitLenInt)t.v[1], C = (bitLenInt)t.v[2], N = (bitLenInt)L;
                auto fwd = [&](u64 i) {
                    u64 pz = rget(i, x) * m;
                    return rset(rset(i, x, pz & lowm(L)), y, pz >> L);
                };
                if (!div) {
                    // (the carry register starts from |0>, as for every out-of-place result)
                    clearReg(w, s, (int)t.v[2], y);
                    if (ctr) a->CMUL(bci(m), S, C, N, bl(t.q));
                    else a->MUL(bci(m), S, C, N);
                    ctlPermute(s, cm, fwd);
                } else {
                    if (!onSupport(s.ref, [&](u64 i) {
                            if ((i & cm) != cm) return rget(i, y) == 0;
                            u64 pz = rget(i, x) | (rget(i, y) << L);
                            return pz % m == 0 && pz / m <= lowm(L);
                        })) throw Invalid{ "image" };
                    clean(s.ref);
                    if (ctr) a->CDIV(bci(m), S, C, N, bl(t.q));
                    else a->DIV(bci(m), S, C, N);
                    ctlPermute(s, cm, [&](u64 i) {
                        u64 pz = rget(i, x) | (rget(i, y) << L);
                        return rset(rset(i, x, pz / m), y, 0);
                    });
                }
            });
        }
    // ---- modular: v = mul, modN, inStart, outStart, len ; q = controls
    auto gMod = [](bool ctrls) {
        return [=](GenCtx& g, Step& t) {
            int mx = std::min(4, (int)g.mapped.size() / 2);
            if (mx < 1) return false;
            int L = g.r.range(1, mx);
            int c = ctrls ? g.r.range(0, std::min(2, (int)g.mapped.size() - 2 * L)) : 0;
            VI lens{ L, L }, st;
            for (int i = 0; i < c; ++i) lens.push_back(1);
            if (!layout(g, lens, st)) return false;
            i64 modN = g.r.chance(0.4) ? (1LL << g.r.range(1, L)) : g.r.range(2, 1 << L);
            t.v = { (i64)g.r.range(1, (1 << L)), modN, st[0], st[1], L, g.r.chance(0.1) ? (i64)g.r.range(20, 3000) : 0 };
            for (int i = 0; i < c; ++i) t.q.push_back(st[2 + i]);
            return true;
        };
    };
    for (int ctr = 0; ctr < 2; ++ctr)
        for (int kind = 0; kind < 3; ++kind) { // 0 mul, 1 inverse mul, 2 pow
            std::string nm = std::string(ctr ? "C" : "") + (kind == 0 ? "MULModNOut" : kind == 1 ? "IMULModNOut" : "POWModNOut");
            addOp(nm, A | (kind == 1 ? 0 : O_RESET), 0, 0, 6, gMod(ctr), [=](World& w, Slot& s, const Step& t) {
                VI x = s.reg((int)t.v[2], (int)t.v[4]), y = s.reg((int)t.v[3], (int)t.v[4]);
                int L = (int)x.size();
                distinctOrInvalid({ x, y, s.Ls(t.q) });
                u64 m = (u64)(kind == 2 && t.v[5] > 0 ? t.v[5] : t.v[0]), N = (u64)t.v[1], cm = lmask(s, t.q);
                if (!L || L > 10 || m < 1 || t.v[1] < 2 || N > (1ULL << L) || (!ctr && !t.q.empty())) throw Invalid{ "len" };
                auto al = std::dynamic_pointer_cast<QAlu>(s.q);
                bitLenInt I = (bitLenInt)t.v[2], O = (bitLenInt)t.v[3], Ln = (bitLenInt)L;
                auto val = [&](u64 i) { return kind == 2 ? powmod(m, rget(i, x), N) : (rget(i, x) * m) % N; };
                auto zeroOut = [&](u64 i) { return rget(i, y) == 0; };
                if (kind == 0 && al) {
                    clearReg(w, s, (int)t.v[3], y);
                    if (ctr) al->CMULModNOut(bci(m), bci(N), I, O, Ln, bl(t.q));
                    else al->MULModNOut(bci(m), bci(N), I, O, Ln);
                    ctlPermute(s, cm, [&](u64 i) { return rset(i, y, val(i)); });
                    return;
                }
                if (kind == 2 && !al) throw Invalid{ "no ALU" };
                if (kind == 2) clearReg(w, s, (int)t.v[3], y);
                if (kind == 1) {
                    if (!onSupport(s.ref, [&](u64 i) { return (i & cm) == cm ? rget(i, y) == val(i) : zeroOut(i); })) throw Invalid{ "image" };
                } else if (!onSupport(s.ref, zeroOut)) throw Invalid{ "out not zero" };
                clean(s.ref);
                if (kind == 0) { // circuit form
                    if (ctr) s.q->CMULModNOut(bci(m), bci(N), I, O, Ln, bl(t.q));
                    else s.q->MULModNOut(bci(m), bci(N), I, O, Ln);
                } else if (kind == 1) {
                    if (al) {
                        if (ctr) al->CIMULModNOut(bci(m), bci(N), I, O, Ln, bl(t.q));
                        else al->IMULModNOut(bci(m), bci(N), I, O, Ln);
                    } else if (ctr) s.q->CIMULModNOut(bci(m), bci(N), I, O, Ln, bl(t.q));
                    else s.q->IMULModNOut(bci(m), bci(N), I, O, Ln);
                } else {
                    if (ctr) al->CPOWModNOut(bci(m), bci(N), I, O, Ln, bl(t.q));
                    else al->POWModNOut(bci(m), bci(N), I, O, Ln);
                }
                ctlPermute(s, cm, [&](u64 i) { return rset(i, y, kind == 1 ? 0 : val(i)); });
            });
        }
    // ---- table lookups: v = indexStart, indexLen, valueStart, valueLen, seed, reset ; q = [carry]
    auto gIdx = [](bool carry) {
        return [=](GenCtx& g, Step& t) {
            int M = (int)g.mapped.size() - (carry ? 1 : 0);
            if (M < 2) return false;
            int vl = g.r.chance(0.15) ? g.r.range(1, 10) : g.r.range(1, 4);
            vl = std::min(vl, M - 1);
            int il = g.r.range(1, std::min(4, M - vl));
            VI lens{ il, vl }, st;
            if (carry) lens.push_back(1);
            if (!layout(g, lens, st)) return false;
            t.v = { st[0], il, st[1], vl, (i64)(g.r.next() & 0xffffff), g.r.chance(0.7) };
            if (carry) t.q = { st[2] };
            return true;
        };
    };
    auto vals = [](int il, int vl, u64 seed) {
        Rng r(seed + 5);
        std::vector<u64> v;
        for (u64 i = 0; i < (1ULL << il); ++i) v.push_back(r.below(1ULL << vl));
        return v;
    };
    addOp("IndexedLDA", A | O_RESET, 0, 0, 6, gIdx(false), [=](World& w, Slot& s, const Step& t) {
        auto a = alu(s);
        VI x = s.reg((int)t.v[0], (int)t.v[1]), y = s.reg((int)t.v[2], (int)t.v[3]);
        distinctOrInvalid({ x, y });
        if (x.empty() || y.empty() || x.size() > 8 || y.size() > 20) throw Invalid{ "len" };
        auto tv = vals((int)x.size(), (int)y.size(), (u64)t.v[4]);
        auto tb = table(tv, (int)y.size());
        bool reset = t.v[5] & 1;
        if (!reset && !onSupport(s.ref, [&](u64 i) { return rget(i, y) == 0; })) throw Invalid{ "value not zero" };
        clean(s.ref);
        a->IndexedLDA((bitLenInt)t.v[0], (bitLenInt)t.v[1], (bitLenInt)t.v[2], (bitLenInt)t.v[3], tb.data(), reset);
        if (!reset) {
            s.ref.permute([&](u64 i) { return rset(i, y, tv[rget(i, x)]); });
            return;
        }
        branch(w, s, y, [&](Ref& r, u64 v) {
            u64 cl = rset(0, y, v);
            r.permute([&](u64 i) { i ^= cl; return rset(i, y, tv[rget(i, x)]); });
        }, "IndexedLDA");
    });
    for (int sb = 0; sb < 2; ++sb)
        addOp(sb ? "IndexedSBC" : "IndexedADC", A | O_RESET, 1, 0, 6, gIdx(true), [=](World& w, Slot& s, const Step& t) {
            auto a = alu(s);
            if (t.q.size() != 1) throw Invalid{ "arity" };
            VI x = s.reg((int)t.v[0], (int)t.v[1]), y = s.reg((int)t.v[2], (int)t.v[3]);
            int c = s.L(t.q[0]), L = (int)y.size();
            distinctOrInvalid({ x, y, { c } });
            if (x.empty() || y.empty() || x.size() > 8 || y.size() > 20) throw Invalid{ "len" };
            auto tv = vals((int)x.size(), L, (u64)t.v[4]);
            auto tb = table(tv, L);
            if (sb) a->IndexedSBC((bitLenInt)t.v[0], (bitLenInt)t.v[1], (bitLenInt)t.v[2], (bitLenInt)t.v[3], (bitLenInt)t.q[0], tb.data());
            else a->IndexedADC((bitLenInt)t.v[0], (bitLenInt)t.v[1], (bitLenInt)t.v[2], (bitLenInt)t.v[3], (bitLenInt)t.q[0], tb.data());
            branch(w, s, { c }, [&](Ref& r, u64 ci) {
                r.permute([&](u64 i) {
                    u64 k = tv[rget(i, x)], sum = rget(i, y) + (sb ? (1ULL << L) - k - (1 - ci) : k + ci);
                    return (rset(i, y, sum & lowm(L)) & ~(1ULL << c)) | (((sum >> L) & 1) << c);
                });
            }, sb ? "IndexedSBC" : "IndexedADC");
        });
    addOp("Hash", A, 0, 0, 3,
        [](GenCtx& g, Step& t) {
            int L = g.r.range(1, std::min(10, (int)g.mapped.size())), st;
            if (!g.contig(L, st)) return false;
            t.v = { st, L, (i64)(g.r.next() & 0xffffff) };
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            auto a = alu(s);
            VI x = s.reg((int)t.v[0], (int)t.v[1]);
            if (x.empty() || x.size() > 12) throw Invalid{ "len" };
            Rng r((u64)t.v[2] + 3);
            VI p = r.perm(1 << x.size());
            std::vector<u64> tv(p.begin(), p.end());
            auto tb = table(tv, (int)x.size());
            a->Hash((bitLenInt)t.v[0], (bitLenInt)t.v[1], tb.data());
            s.ref.permute([&](u64 i) { return rset(i, x, tv[rget(i, x)]); });
        });
    for (int ctr = 0; ctr < 2; ++ctr)
        addOp(ctr ? "CPhaseFlipIfLess" : "PhaseFlipIfLess", A, ctr, 0, 3,
            [ctr](GenCtx& g, Step& t) {
                int M = (int)g.mapped.size() - ctr;
                if (M < 1) return false;
                int L = g.r.range(1, std::min(5, M));
                VI lens{ L }, st;
                if (ctr) lens.push_back(1);
                if (!layout(g, lens, st)) return false;
                t.v = { (i64)g.r.range(0, 1 << L), st[0], L };
                if (ctr) t.q = { st[1] };
                return true;
            },
            [ctr](World&, Slot& s, const Step& t) {
                auto a = alu(s);
                VI x = s.reg((int)t.v[1], (int)t.v[2]);
                if (x.empty() || t.v[0] < 0 || t.v[0] > (1LL << x.size()) || (int)t.q.size() != ctr) throw Invalid{ "len" };
                if (ctr) distinctOrInvalid({ x, { s.L(t.q[0]) } });
                if (ctr) a->CPhaseFlipIfLess(bci(t.v[0]), (bitLenInt)t.v[1], (bitLenInt)t.v[2], (bitLenInt)t.q[0]);
                else a->PhaseFlipIfLess(bci(t.v[0]), (bitLenInt)t.v[1], (bitLenInt)t.v[2]);
                u64 f = ctr ? s.bit(t.q[0]) : 0;
                s.ref.phase([&](u64 i) { return ((i & f) == f && rget(i, x) < (u64)t.v[0]) ? cd(-1, 0) : cd(1, 0); });
            });
    // ---- quantum-quantum adders: q = in1, in2, carryIn/sum, carryOut, controls...
    for (int ctr = 0; ctr < 2; ++ctr)
        for (int inv = 0; inv < 2; ++inv) {
            std::string nm = std::string(ctr ? "C" : "") + (inv ? "I" : "") + "FullAdd";
            addOp(nm, O_ALU, 4, 0, 0,
                [ctr](GenCtx& g, Step& t) {
                    if (g.mapped.size() < 4) return false;
                    int c = ctr ? g.r.range(0, std::min(2, (int)g.mapped.size() - 4)) : 0;
                    t.q = g.qs(4 + c);
                    return true;
                },
                [=](World&, Slot& s, const Step& t) {
                    if (!ctr && t.q.size() != 4) throw Invalid{ "arity" };
                    int a = s.L(t.q[0]), b = s.L(t.q[1]), c = s.L(t.q[2]), o = s.L(t.q[3]);
                    u64 cm = lmask(s, t.q, 4);
                    auto sum = [&](u64 i, int ci) { return (int)(((i >> a) & 1) + ((i >> b) & 1) + ci); };
                    if (!inv) {
                        if (!onSupport(s.ref, [&](u64 i) { return !((i >> o) & 1); })) throw Invalid{ "carry-out not zero" };
                    } else if (!onSupport(s.ref, [&](u64 i) {
                                   if ((i & cm) != cm) return !((i >> o) & 1);
                                   for (int ci = 0; ci < 2; ++ci)
                                       if ((u64)sum(i, ci) == (((i >> c) & 1) | (((i >> o) & 1) << 1))) return true;
                                   return false;
                               })) throw Invalid{ "image" };
                    clean(s.ref);
                    bitLenInt A_ = (bitLenInt)t.q[0], B_ = (bitLenInt)t.q[1], C_ = (bitLenInt)t.q[2], O_ = (bitLenInt)t.q[3];
                    if (ctr) {
                        if (inv) s.q->CIFullAdd(bl(t.q, 4), A_, B_, C_, O_);
                        else s.q->CFullAdd(bl(t.q, 4), A_, B_, C_, O_);
                    } else if (inv) s.q->IFullAdd(A_, B_, C_, O_);
                    else s.q->FullAdd(A_, B_, C_, O_);
                    ctlPermute(s, cm, [&](u64 i) {
                        VI co{ c, o };
                        if (!inv) return rset(i, co, (u64)sum(i, (i >> c) & 1));
                        u64 got = ((i >> c) & 1) | (((i >> o) & 1) << 1);
                        return rset(i, co, (u64)sum(i, 0) == got ? 0 : 1);
                    });
                });
            std::string na = std::string(ctr ? "C" : "") + (inv ? "I" : "") + "ADC";
            // v = in1, in2, out, len ; q = carry, controls...
            addOp(na, O_ALU | O_CONTIG, 1, 0, 4,
                [ctr](GenCtx& g, Step& t) {
                    int M = (int)g.mapped.size();
                    int mx = std::min(3, (M - 1) / 3);
                    if (mx < 1) return false;
                    int L = g.r.range(1, mx), c = ctr ? g.r.range(0, std::min(2, M - 1 - 3 * L)) : 0;
                    VI lens{ L, L, L, 1 }, st;
                    for (int i = 0; i < c; ++i) lens.push_back(1);
                    if (!layout(g, lens, st)) return false;
                    t.v = { st[0], st[1], st[2], L };
                    for (size_t i = 3; i < st.size(); ++i) t.q.push_back(st[i]);
                    return true;
                },
                [=](World&, Slot& s, const Step& t) {
                    if (!ctr && t.q.size() != 1) throw Invalid{ "arity" };
                    VI x = s.reg((int)t.v[0], (int)t.v[3]), y = s.reg((int)t.v[1], (int)t.v[3]), o = s.reg((int)t.v[2], (int)t.v[3]);
                    distinctOrInvalid({ x, y, o, s.Ls(t.q) });
                    int L = (int)x.size(), c = s.L(t.q[0]);
                    if (!L) throw Invalid{ "len" };
                    u64 cm = lmask(s, t.q, 1);
                    VI oc = o;
                    oc.push_back(c);
                    if (!inv) {
                        if (!onSupport(s.ref, [&](u64 i) { return rget(i, o) == 0; })) throw Invalid{ "out not zero" };
                    } else if (!onSupport(s.ref, [&](u64 i) {
                                   if ((i & cm) != cm) return rget(i, o) == 0;
                                   u64 z = rget(i, x) + rget(i, y);
                                   return rget(i, oc) == z || rget(i, oc) == z + 1;
                               })) throw Invalid{ "image" };
                    clean(s.ref);
                    bitLenInt a1 = (bitLenInt)t.v[0], a2 = (bitLenInt)t.v[1], ao = (bitLenInt)t.v[2], l = (bitLenInt)t.v[3], ca = (bitLenInt)t.q[0];
                    if (ctr) {
                        if (inv) s.q->CIADC(bl(t.q, 1), a1, a2, ao, l, ca);
                        else s.q->CADC(bl(t.q, 1), a1, a2, ao, l, ca);
                    } else if (inv) s.q->IADC(a1, a2, ao, l, ca);
                    else s.q->ADC(a1, a2, ao, l, ca);
                    ctlPermute(s, cm, [&](u64 i) {
                        u64 z = rget(i, x) + rget(i, y);
                        if (!inv) return rset(i, oc, z + ((i >> c) & 1));
                        u64 ci = rget(i, oc) == z ? 0 : 1;
                        return rset(rset(i, o, 0), { c }, ci);
                    });
                });
        }
}
} // namespace vq
