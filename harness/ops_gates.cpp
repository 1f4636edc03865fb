#include "ops_int.hpp"
using namespace Qrack;
namespace vq {
static const cd I1(0, 1);
static const double R2 = std::sqrt(0.5);
struct M2 {
    cd m[4];
};
static M2 mm(cd a, cd b, cd c, cd d) { return M2{ { a, b, c, d } }; }
static M2 ph(cd a, cd b) { return mm(a, 0, 0, b); }
static M2 inv_(cd tr, cd bl) { return mm(0, tr, bl, 0); }
static M2 dag(const M2& a) { return mm(std::conj(a.m[0]), std::conj(a.m[2]), std::conj(a.m[1]), std::conj(a.m[3])); }
static const M2 mX = mm(0, 1, 1, 0), mY = mm(0, -I1, I1, 0), mZ = ph(1, -1), mH = mm(R2, R2, R2, -R2), mS = ph(1, I1), mIS = ph(1, -I1),
                mT = ph(1, std::polar(1.0, M_PI / 4)), mIT = ph(1, std::polar(1.0, -M_PI / 4)),
                mSX = mm(cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5)), mISX = dag(mSX),
                mSY = mm(cd(.5, .5), cd(-.5, -.5), cd(.5, .5), cd(.5, .5)), mISY = dag(mSY),
                mSH = mm(R2, R2, I1* R2, -I1* R2), mHIS = dag(mSH), mSW = mm(R2, cd(-.5, -.5), cd(.5, -.5), R2), mISW = dag(mSW);
// principal square root of H: ((1+i)I + (1-i)H)/2
static const M2 mSqH = mm((cd(1, 1) + cd(1, -1) * R2) / 2.0, cd(1, -1) * R2 / 2.0, cd(1, -1) * R2 / 2.0, (cd(1, 1) - cd(1, -1) * R2) / 2.0);
static cd snap(cd x)
{
    double r = x.real(), i = x.imag();
    if (std::fabs(r) < 1e-7) r = 0;
    if (std::fabs(i) < 1e-7) i = 0;
    return cd(r, i);
}
static M2 mU(double t, double p, double l)
{
    double c = std::cos(t / 2), s = std::sin(t / 2);
    return mm(snap(c), snap(-std::polar(1.0, l) * s), snap(std::polar(1.0, p) * s), snap(std::polar(1.0, p + l) * c));
}
static M2 mAI(double a, double i)
{
    double c = std::cos(i / 2), s = std::sin(i / 2);
    return mm(c, -std::polar(1.0, -a) * s, std::polar(1.0, a) * s, c);
}
static M2 mRX(double t) { return mm(std::cos(t / 2), -I1 * std::sin(t / 2), -I1 * std::sin(t / 2), std::cos(t / 2)); }
static M2 mRY(double t) { return mm(std::cos(t / 2), -std::sin(t / 2), std::sin(t / 2), std::cos(t / 2)); }
static M2 mRZ(double t) { return ph(std::polar(1.0, -t / 2), std::polar(1.0, t / 2)); }
static M2 mPR(int n, bool inv)
{
    if (!n) return ph(1, 1);
    double a = M_PI / (double)(1ULL << (n - 1));
    return ph(1, std::polar(1.0, inv ? a : -a)); // documented as a -2*pi/2^N phase rotation
}
// general 2x2 unitary from parameters (theta, phi, lambda, global): kind 0 general, 1 diagonal, 2 antidiagonal
static M2 genM(const std::vector<double>& r, size_t o, int kind)
{
    double t = r[o], p = r[o + 1], l = r[o + 2], g = r[o + 3];
    cd e = std::polar(1.0, g);
    M2 u;
    if (kind == 1) u = ph(snap(std::polar(1.0, p)), snap(std::polar(1.0, l)));
    else if (kind == 2) u = inv_(snap(std::polar(1.0, p)), snap(std::polar(1.0, l)));
    else {
        u = mU(t, p, l);
        for (auto& x : u.m) x = snap(x * e);
    }
    return u;
}
struct QM {
    Qrack::complex m[4];
    QM(const M2& a)
    {
        for (int i = 0; i < 4; ++i) m[i] = Qrack::complex((float)a.m[i].real(), (float)a.m[i].imag());
    }
};
static bool drawMat(GenCtx& g, Step& t)
{
    for (int i = 0; i < 4; ++i) t.r.push_back(g.angle());
    t.v.push_back(g.r.chance(0.4) ? 0 : g.r.range(1, 2));
    return true;
}
static void ctl(Slot& s, const M2& m, int target, const std::vector<int>& cs, bool anti)
{
    u64 k = lmask(s, cs);
    s.ref.apply(m.m, s.L(target), k, anti ? 0 : k);
}
static std::vector<int> tail(const std::vector<int>& q, size_t from) { return std::vector<int>(q.begin() + from, q.end()); }
typedef std::function<void(QInterface&, const std::vector<int>&, const std::vector<double>&)> Fn;
// fixed gates on q[0] with controls q[1..]
static void fixed(const char* name, unsigned fl, int nc, const M2& m, bool anti, Fn f)
{
    addOp(name, fl, nc + 1, 0, 0, gQ(nc + 1), [=](World&, Slot& s, const Step& t) {
        if ((int)t.q.size() != nc + 1) throw Invalid{ "arity" };
        f(*s.q, t.q, t.r);
        ctl(s, m, t.q[0], tail(t.q, 1), anti);
    });
}
static void para(const char* name, unsigned fl, int nc, int nr, std::function<M2(const std::vector<double>&)> mf, bool anti, Fn f)
{
    addOp(name, fl, nc + 1, nr, 0, gQ(nc + 1, nr), [=](World&, Slot& s, const Step& t) {
        if ((int)t.q.size() != nc + 1) throw Invalid{ "arity" };
        std::vector<double> r;
        for (double x : t.r) r.push_back(fl_(x));
        f(*s.q, t.q, r);
        ctl(s, mf(r), t.q[0], tail(t.q, 1), anti);
    });
}
// 4x4 gates on q0,q1
static void swp(const char* name, unsigned fl, int nr, bool controlled, bool anti, std::function<void(const std::vector<double>&, cd*)> mf,
    std::function<void(QInterface&, const std::vector<int>&, const std::vector<double>&)> f)
{
    addOp(name, fl, 2, nr, 0, controlled ? gTC(2, 0, 3, nr) : gQ(2, nr), [=](World&, Slot& s, const Step& t) {
        if (!controlled && t.q.size() != 2) throw Invalid{ "arity" };
        std::vector<double> r;
        for (double x : t.r) r.push_back(fl_(x));
        f(*s.q, t.q, r);
        cd m[16];
        for (auto& x : m) x = 0;
        mf(r, m);
        u64 k = lmask(s, t.q, 2);
        s.ref.apply4(m, s.L(t.q[0]), s.L(t.q[1]), k, anti ? 0 : k);
    });
}
#define F1(G) [](QInterface& q, const std::vector<int>& b, const std::vector<double>&) { q.G(b[0]); }
#define F2(G) [](QInterface& q, const std::vector<int>& b, const std::vector<double>&) { q.G(b[1], b[0]); }
#define F3(G) [](QInterface& q, const std::vector<int>& b, const std::vector<double>&) { q.G(b[1], b[2], b[0]); }
void regGates()
{
    const unsigned C1 = O_1Q | O_CLIFF, N1 = O_1Q;
    fixed("X", C1, 0, mX, false, F1(X));
    fixed("Y", C1, 0, mY, false, F1(Y));
    fixed("Z", C1, 0, mZ, false, F1(Z));
    fixed("H", C1, 0, mH, false, F1(H));
    fixed("S", C1, 0, mS, false, F1(S));
    fixed("IS", C1, 0, mIS, false, F1(IS));
    fixed("T", N1, 0, mT, false, F1(T));
    fixed("IT", N1, 0, mIT, false, F1(IT));
    fixed("SqrtX", C1, 0, mSX, false, F1(SqrtX));
    fixed("ISqrtX", C1, 0, mISX, false, F1(ISqrtX));
    fixed("SqrtY", C1, 0, mSY, false, F1(SqrtY));
    fixed("ISqrtY", C1, 0, mISY, false, F1(ISqrtY));
    fixed("SqrtW", N1, 0, mSW, false, F1(SqrtW));
    fixed("ISqrtW", N1, 0, mISW, false, F1(ISqrtW));
    fixed("SqrtH", N1, 0, mSqH, false, F1(SqrtH));
    fixed("SH", C1, 0, mSH, false, F1(SH));
    fixed("HIS", C1, 0, mHIS, false, F1(HIS));
    const unsigned C2 = O_CTRL | O_CLIFF, N2 = O_CTRL, N3 = O_CTRL | O_MULTI;
    fixed("CNOT", C2, 1, mX, false, F2(CNOT));
    fixed("AntiCNOT", C2, 1, mX, true, F2(AntiCNOT));
    fixed("CY", C2, 1, mY, false, F2(CY));
    fixed("AntiCY", C2, 1, mY, true, F2(AntiCY));
    fixed("CZ", C2, 1, mZ, false, F2(CZ));
    fixed("AntiCZ", C2, 1, mZ, true, F2(AntiCZ));
    fixed("CCNOT", N3, 2, mX, false, F3(CCNOT));
    fixed("AntiCCNOT", N3, 2, mX, true, F3(AntiCCNOT));
    fixed("CCY", N3, 2, mY, false, F3(CCY));
    fixed("AntiCCY", N3, 2, mY, true, F3(AntiCCY));
    fixed("CCZ", N3, 2, mZ, false, F3(CCZ));
    fixed("AntiCCZ", N3, 2, mZ, true, F3(AntiCCZ));
    fixed("CH", N2, 1, mH, false, F2(CH));
    fixed("AntiCH", N2, 1, mH, true, F2(AntiCH));
    fixed("CS", N2, 1, mS, false, F2(CS));
    fixed("AntiCS", N2, 1, mS, true, F2(AntiCS));
    fixed("CIS", N2, 1, mIS, false, F2(CIS));
    fixed("AntiCIS", N2, 1, mIS, true, F2(AntiCIS));
    fixed("CT", N2, 1, mT, false, F2(CT));
    fixed("CIT", N2, 1, mIT, false, F2(CIT));
    typedef const std::vector<double>& R;
    typedef const std::vector<int>& B;
    const unsigned P1 = O_1Q | O_ROT, P2 = O_CTRL | O_ROT;
    para("U", P1 | O_CLIFFP, 0, 3, [](R r) { return mU(r[0], r[1], r[2]); }, false, [](QInterface& q, B b, R r) { q.U(b[0], r[0], r[1], r[2]); });
    para("U2", P1 | O_CLIFFP, 0, 2, [](R r) { return mU(M_PI / 2, r[0], r[1]); }, false, [](QInterface& q, B b, R r) { q.U2(b[0], r[0], r[1]); });
    para("IU2", P1 | O_CLIFFP, 0, 2, [](R r) { return dag(mU(M_PI / 2, r[0], r[1])); }, false,
        [](QInterface& q, B b, R r) { q.IU2(b[0], r[0], r[1]); });
    para("AI", P1 | O_CLIFFP, 0, 2, [](R r) { return mAI(r[0], r[1]); }, false, [](QInterface& q, B b, R r) { q.AI(b[0], r[0], r[1]); });
    para("IAI", P1 | O_CLIFFP, 0, 2, [](R r) { return dag(mAI(r[0], r[1])); }, false, [](QInterface& q, B b, R r) { q.IAI(b[0], r[0], r[1]); });
    para("CAI", P2, 1, 2, [](R r) { return mAI(r[0], r[1]); }, false, [](QInterface& q, B b, R r) { q.CAI(b[1], b[0], r[0], r[1]); });
    para("AntiCAI", P2, 1, 2, [](R r) { return mAI(r[0], r[1]); }, true, [](QInterface& q, B b, R r) { q.AntiCAI(b[1], b[0], r[0], r[1]); });
    para("CIAI", P2, 1, 2, [](R r) { return dag(mAI(r[0], r[1])); }, false, [](QInterface& q, B b, R r) { q.CIAI(b[1], b[0], r[0], r[1]); });
    para("AntiCIAI", P2, 1, 2, [](R r) { return dag(mAI(r[0], r[1])); }, true,
        [](QInterface& q, B b, R r) { q.AntiCIAI(b[1], b[0], r[0], r[1]); });
    para("RT", P1 | O_CLIFFP, 0, 1, [](R r) { return ph(1, std::polar(1.0, r[0] / 2)); }, false, [](QInterface& q, B b, R r) { q.RT(r[0], b[0]); });
    para("RX", P1 | O_CLIFFP, 0, 1, [](R r) { return mRX(r[0]); }, false, [](QInterface& q, B b, R r) { q.RX(r[0], b[0]); });
    para("RY", P1 | O_CLIFFP, 0, 1, [](R r) { return mRY(r[0]); }, false, [](QInterface& q, B b, R r) { q.RY(r[0], b[0]); });
    para("RZ", P1 | O_CLIFFP, 0, 1, [](R r) { return mRZ(r[0]); }, false, [](QInterface& q, B b, R r) { q.RZ(r[0], b[0]); });
    para("CRY", P2, 1, 1, [](R r) { return mRY(r[0]); }, false, [](QInterface& q, B b, R r) { q.CRY(r[0], b[1], b[0]); });
    para("CRZ", P2, 1, 1, [](R r) { return mRZ(r[0]); }, false, [](QInterface& q, B b, R r) { q.CRZ(r[0], b[1], b[0]); });
    // ---- phase roots (v = [n])
    auto proot = [](const char* name, int nc, bool invr, bool anti, Fn f) {
        addOp(name, (nc ? O_CTRL : O_1Q) | O_ROT, nc + 1, 0, 1,
            [nc](GenCtx& g, Step& t) {
                t.q = g.qs(nc + 1);
                t.v = { g.style == 0 ? g.r.range(0, 2) : g.r.range(0, 6) };
                return !t.q.empty();
            },
            [=](World&, Slot& s, const Step& t) {
                if (t.v[0] < 0 || t.v[0] > 8) throw Invalid{ "n" };
                std::vector<double> r{ (double)t.v[0] };
                f(*s.q, t.q, r);
                ctl(s, mPR((int)t.v[0], invr), t.q[0], tail(t.q, 1), anti);
            });
    };
    proot("PhaseRootN", 0, false, false, [](QInterface& q, B b, R r) { q.PhaseRootN((bitLenInt)r[0], b[0]); });
    proot("CPhaseRootN", 1, false, false, [](QInterface& q, B b, R r) { q.CPhaseRootN((bitLenInt)r[0], b[1], b[0]); });
    proot("AntiCPhaseRootN", 1, false, true, [](QInterface& q, B b, R r) { q.AntiCPhaseRootN((bitLenInt)r[0], b[1], b[0]); });
    proot("CIPhaseRootN", 1, true, false, [](QInterface& q, B b, R r) { q.CIPhaseRootN((bitLenInt)r[0], b[1], b[0]); });
    proot("AntiCIPhaseRootN", 1, true, true, [](QInterface& q, B b, R r) { q.AntiCIPhaseRootN((bitLenInt)r[0], b[1], b[0]); });
    // ---- general matrices
    addOp("Mtrx", P1 | O_CLIFFP, 1, 4, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            return drawMat(g, t) && !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) {
            M2 m = genM(t.r, 0, (int)t.v[0]);
            s.q->Mtrx(QM(m).m, (bitLenInt)t.q[0]);
            s.ref.apply(m.m, s.L(t.q[0]));
        });
    addOp("Phase", P1 | O_CLIFFP, 1, 4, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            return drawMat(g, t) && !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) {
            M2 m = genM(t.r, 0, 1);
            QM q(m);
            s.q->Phase(q.m[0], q.m[3], (bitLenInt)t.q[0]);
            s.ref.apply(m.m, s.L(t.q[0]));
        });
    addOp("Invert", P1 | O_CLIFFP, 1, 4, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            return drawMat(g, t) && !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) {
            M2 m = genM(t.r, 0, 2);
            QM q(m);
            s.q->Invert(q.m[1], q.m[2], (bitLenInt)t.q[0]);
            s.ref.apply(m.m, s.L(t.q[0]));
        });
    auto genMC = [](GenCtx& g, Step& t) {
        if (!gTC(1, 0, 4)(g, t)) return false;
        drawMat(g, t);
        t.v.push_back((i64)g.r.below(1ULL << (t.q.size() - 1)));
        return true;
    };
    struct MC {
        const char* n;
        int shape;
        bool anti;
        bool uc;
    };
    for (const MC& c : std::vector<MC>{ { "MCMtrx", 0, false, false }, { "MACMtrx", 0, true, false }, { "UCMtrx", 0, false, true }, { "MCPhase", 1, false, false },
             { "MACPhase", 1, true, false }, { "UCPhase", 1, false, true }, { "MCInvert", 2, false, false }, { "MACInvert", 2, true, false },
             { "UCInvert", 2, false, true } }) {
        const MC k = c;
        addOp(k.n, O_CTRL | O_ROT | (k.uc ? O_UC : 0u), 1, 4, 2, genMC, [k](World&, Slot& s, const Step& t) {
            M2 m = genM(t.r, 0, k.shape ? k.shape : (int)t.v[0]);
            QM q(m);
            std::vector<bitLenInt> cs = bl(t.q, 1);
            const bitLenInt tg = (bitLenInt)t.q[0];
            u64 perm = (u64)t.v[1] & ((1ULL << cs.size()) - 1);
            u64 mask = lmask(s, t.q, 1), val = k.anti ? 0 : mask;
            if (k.uc) {
                val = 0;
                for (size_t i = 0; i < cs.size(); ++i)
                    if ((perm >> i) & 1) val |= s.bit(cs[i]);
            }
            const std::string n = k.n;
            if (n == "MCMtrx") s.q->MCMtrx(cs, q.m, tg);
            else if (n == "MACMtrx") s.q->MACMtrx(cs, q.m, tg);
            else if (n == "UCMtrx") s.q->UCMtrx(cs, q.m, tg, bci(perm));
            else if (n == "MCPhase") s.q->MCPhase(cs, q.m[0], q.m[3], tg);
            else if (n == "MACPhase") s.q->MACPhase(cs, q.m[0], q.m[3], tg);
            else if (n == "UCPhase") s.q->UCPhase(cs, q.m[0], q.m[3], tg, bci(perm));
            else if (n == "MCInvert") s.q->MCInvert(cs, q.m[1], q.m[2], tg);
            else if (n == "MACInvert") s.q->MACInvert(cs, q.m[1], q.m[2], tg);
            else s.q->UCInvert(cs, q.m[1], q.m[2], tg, bci(perm));
            s.ref.apply(m.m, s.L(t.q[0]), mask, val);
        });
    }
    auto genCU = [](GenCtx& g, Step& t) { return gTC(1, 0, 3, 3)(g, t); };
    for (int anti = 0; anti < 2; ++anti)
        addOp(anti ? "AntiCU" : "CU", P2, 1, 3, 0, genCU, [anti](World&, Slot& s, const Step& t) {
            float a = t.r[0], b = t.r[1], c = t.r[2];
            if (anti) s.q->AntiCU(bl(t.q, 1), t.q[0], a, b, c);
            else s.q->CU(bl(t.q, 1), t.q[0], a, b, c);
            ctl(s, mU(a, b, c), t.q[0], tail(t.q, 1), anti);
        });
    // Clifford-valued controlled gates (one control, Pauli payload times i^k on the active block)
    for (int kind = 0; kind < 3; ++kind) {
        static const char* nm[3] = { "CliffMC", "CliffMAC", "CliffUC" };
        addOp(nm[kind], O_CTRL | O_CLIFF, 2, 0, 3,
            [](GenCtx& g, Step& t) {
                t.q = g.qs(2);
                t.v = { g.r.range(0, 3), g.r.range(0, 3), g.r.range(0, 1) };
                return !t.q.empty();
            },
            [kind](World&, Slot& s, const Step& t) {
                static const M2 pa[4] = { ph(1, 1), mX, mY, mZ };
                static const cd ik[4] = { 1, cd(0, 1), -1, cd(0, -1) };
                if (t.v[0] < 0 || t.v[0] > 3 || t.v[1] < 0 || t.v[1] > 3) throw Invalid{ "v" };
                M2 m = pa[t.v[0]];
                for (auto& x : m.m) x *= ik[t.v[1]];
                QM q(m);
                u64 k = s.bit(t.q[1]), val = kind == 0 ? k : kind == 1 ? 0 : (t.v[2] & 1) ? k : 0;
                if (kind == 0) s.q->MCMtrx(bl(t.q, 1), q.m, t.q[0]);
                else if (kind == 1) s.q->MACMtrx(bl(t.q, 1), q.m, t.q[0]);
                else s.q->UCMtrx(bl(t.q, 1), q.m, t.q[0], bci(t.v[2] & 1));
                s.ref.apply(m.m, s.L(t.q[0]), k, val);
            });
    }
    // ---- uniformly controlled
    auto genUC = [](int per) {
        return [per](GenCtx& g, Step& t) {
            if (!gTC(1, 0, 3)(g, t)) return false;
            size_t k = 1ULL << (t.q.size() - 1);
            for (size_t i = 0; i < k * per; ++i) t.r.push_back(g.angle());
            for (size_t i = 0; i < k; ++i) t.v.push_back(g.r.range(0, 2));
            return true;
        };
    };
    addOp("UCRY", O_UC | O_ROT, 1, 1, 0, genUC(1), [](World&, Slot& s, const Step& t) {
        size_t k = 1ULL << (t.q.size() - 1);
        if (t.r.size() < k) throw Invalid{ "arity" };
        std::vector<float> a(t.r.begin(), t.r.begin() + k);
        s.q->UniformlyControlledRY(bl(t.q, 1), t.q[0], a.data());
        u64 mask = lmask(s, t.q, 1);
        std::vector<int> cl = s.Ls(tail(t.q, 1));
        for (size_t i = 0; i < k; ++i) s.ref.apply(mRY(a[i]).m, s.L(t.q[0]), mask, rset(0, cl, i));
    });
    addOp("UCRZ", O_UC | O_ROT, 1, 1, 0, genUC(1), [](World&, Slot& s, const Step& t) {
        size_t k = 1ULL << (t.q.size() - 1);
        if (t.r.size() < k) throw Invalid{ "arity" };
        std::vector<float> a(t.r.begin(), t.r.begin() + k);
        s.q->UniformlyControlledRZ(bl(t.q, 1), t.q[0], a.data());
        u64 mask = lmask(s, t.q, 1);
        std::vector<int> cl = s.Ls(tail(t.q, 1));
        for (size_t i = 0; i < k; ++i) s.ref.apply(mRZ(a[i]).m, s.L(t.q[0]), mask, rset(0, cl, i));
    });
    addOp("UCSingle", O_UC | O_ROT, 1, 4, 1, genUC(4), [](World&, Slot& s, const Step& t) {
        size_t k = 1ULL << (t.q.size() - 1);
        if (t.r.size() < 4 * k || t.v.size() < k) throw Invalid{ "arity" };
        std::vector<Qrack::complex> ms;
        u64 mask = lmask(s, t.q, 1);
        std::vector<int> cl = s.Ls(tail(t.q, 1));
        for (size_t i = 0; i < k; ++i) {
            M2 m = genM(t.r, 4 * i, (int)t.v[i]);
            QM q(m);
            ms.insert(ms.end(), q.m, q.m + 4);
            s.ref.apply(m.m, s.L(t.q[0]), mask, rset(0, cl, i));
        }
        s.q->UniformlyControlledSingleBit(bl(t.q, 1), t.q[0], ms.data());
    });
    // with skip powers: matrices indexed by the pushed-apart control permutation | skip value
    addOp("UCSingleSkip", O_UC | O_ROT, 1, 8, 4, 
        [](GenCtx& g, Step& t) {
            if (!gTC(1, 0, 2)(g, t)) return false;
            size_t nc = t.q.size() - 1;
            size_t k = 2ULL << nc; // one skipped index bit
            t.v = { g.r.range(0, (int)nc), g.r.range(0, 1) };
            for (size_t i = 0; i < k * 4; ++i) t.r.push_back(g.angle());
            for (size_t i = 0; i < k; ++i) t.v.push_back(g.r.range(0, 2));
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            size_t nc = t.q.size() - 1, k = 2ULL << nc;
            if (t.r.size() < 4 * k || t.v.size() < k + 2 || t.v[0] < 0 || t.v[0] > (i64)nc || (t.v[1] & ~1LL)) throw Invalid{ "arity" };
            std::vector<Qrack::complex> ms;
            for (size_t i = 0; i < k; ++i) {
                QM q(genM(t.r, 4 * i, (int)t.v[2 + i]));
                ms.insert(ms.end(), q.m, q.m + 4);
            }
            u64 mask = lmask(s, t.q, 1);
            std::vector<int> cl = s.Ls(tail(t.q, 1));
            for (size_t i = 0; i < k / 2; ++i) {
                u64 lo = i & ((1ULL << t.v[0]) - 1), hi = i >> t.v[0];
                u64 ix = lo | ((u64)t.v[1] << t.v[0]) | (hi << (t.v[0] + 1));
                s.ref.apply(genM(t.r, 4 * ix, (int)t.v[2 + ix]).m, s.L(t.q[0]), mask, rset(0, cl, i));
            }
            s.q->UniformlyControlledSingleBit(bl(t.q, 1), t.q[0], ms.data(), std::vector<bitCapInt>{ bci((u128)1 << t.v[0]) }, bci((u128)t.v[1] << t.v[0]));
        });
    // ---- swaps
    typedef const std::vector<double>& RR;
    auto swapM = [](RR, cd* m) { m[0] = m[15] = 1; m[4 * 1 + 2] = m[4 * 2 + 1] = 1; };
    auto iswapM = [](RR, cd* m) { m[0] = m[15] = 1; m[4 * 1 + 2] = m[4 * 2 + 1] = I1; };
    auto iiswapM = [](RR, cd* m) { m[0] = m[15] = 1; m[4 * 1 + 2] = m[4 * 2 + 1] = -I1; };
    auto sqM = [](RR, cd* m) { m[0] = m[15] = 1; m[5] = m[10] = cd(.5, .5); m[6] = m[9] = cd(.5, -.5); };
    auto isqM = [](RR, cd* m) { m[0] = m[15] = 1; m[5] = m[10] = cd(.5, -.5); m[6] = m[9] = cd(.5, .5); };
    auto fsM = [](RR r, cd* m) {
        m[0] = 1;
        m[5] = m[10] = std::cos(r[0]);
        m[6] = m[9] = cd(0, -std::sin(r[0]));
        m[15] = std::polar(1.0, -r[1]);
    };
    swp("Swap", O_SWAP | O_CLIFF, 0, false, false, swapM, [](QInterface& q, B b, R) { q.Swap(b[0], b[1]); });
    swp("ISwap", O_SWAP | O_CLIFF, 0, false, false, iswapM, [](QInterface& q, B b, R) { q.ISwap(b[0], b[1]); });
    swp("IISwap", O_SWAP | O_CLIFF, 0, false, false, iiswapM, [](QInterface& q, B b, R) { q.IISwap(b[0], b[1]); });
    swp("SqrtSwap", O_SWAP, 0, false, false, sqM, [](QInterface& q, B b, R) { q.SqrtSwap(b[0], b[1]); });
    swp("ISqrtSwap", O_SWAP, 0, false, false, isqM, [](QInterface& q, B b, R) { q.ISqrtSwap(b[0], b[1]); });
    swp("FSim", O_SWAP | O_ROT, 2, false, false, fsM, [](QInterface& q, B b, R r) { q.FSim(r[0], r[1], b[0], b[1]); });
    swp("CSwap", O_SWAP | O_CTRL, 0, true, false, swapM, [](QInterface& q, B b, R) { q.CSwap(bl(b, 2), b[0], b[1]); });
    swp("AntiCSwap", O_SWAP | O_CTRL, 0, true, true, swapM, [](QInterface& q, B b, R) { q.AntiCSwap(bl(b, 2), b[0], b[1]); });
    swp("CSqrtSwap", O_SWAP | O_CTRL, 0, true, false, sqM, [](QInterface& q, B b, R) { q.CSqrtSwap(bl(b, 2), b[0], b[1]); });
    swp("AntiCSqrtSwap", O_SWAP | O_CTRL, 0, true, true, sqM, [](QInterface& q, B b, R) { q.AntiCSqrtSwap(bl(b, 2), b[0], b[1]); });
    swp("CISqrtSwap", O_SWAP | O_CTRL, 0, true, false, isqM, [](QInterface& q, B b, R) { q.CISqrtSwap(bl(b, 2), b[0], b[1]); });
    swp("AntiCISqrtSwap", O_SWAP | O_CTRL, 0, true, true, isqM, [](QInterface& q, B b, R) { q.AntiCISqrtSwap(bl(b, 2), b[0], b[1]); });
    addOp("SwapSame", O_SWAP | O_CLIFF, 1, 0, 1,
        [](GenCtx& g, Step& t) {
            t.q = g.qs(1);
            t.v = { g.r.range(0, 4) };
            return !t.q.empty();
        },
        [](World&, Slot& s, const Step& t) { // exchanging a qubit with itself is the identity
            bitLenInt b = t.q[0];
            switch (t.v[0]) {
            case 0: s.q->Swap(b, b); break;
            case 1: s.q->ISwap(b, b); break;
            case 2: s.q->IISwap(b, b); break;
            case 3: s.q->SqrtSwap(b, b); break;
            default: s.q->ISqrtSwap(b, b); break;
            }
        });
    // ---- masks
    auto genMask = [](int nr, int nv) {
        return [nr, nv](GenCtx& g, Step& t) {
            if (g.mapped.empty()) return false;
            t.q = g.qs(g.r.range(1, (int)std::min<size_t>(g.mapped.size(), 6)));
            for (int i = 0; i < nr; ++i) t.r.push_back(g.angle());
            for (int i = 0; i < nv; ++i) t.v.push_back(g.r.range(0, 4));
            return true;
        };
    };
    auto maskOp = [&](const char* n, const M2& m, void (QInterface::*f)(const bitCapInt&)) {
        const M2 k = m;
        addOp(n, O_MASK | O_CLIFF, 1, 0, 0, genMask(0, 0), [k, f](World&, Slot& s, const Step& t) {
            ((*s.q).*f)(bci(pmask(t.q)));
            for (int p : t.q) s.ref.apply(k.m, s.L(p));
        });
    };
    maskOp("XMask", mX, &QInterface::XMask);
    maskOp("YMask", mY, &QInterface::YMask);
    maskOp("ZMask", mZ, &QInterface::ZMask);
    addOp("PhaseRootNMask", O_MASK | O_ROT, 1, 0, 1, genMask(0, 1), [](World&, Slot& s, const Step& t) {
        if (t.v[0] < 0 || t.v[0] > 8) throw Invalid{ "n" };
        s.q->PhaseRootNMask((bitLenInt)t.v[0], bci(pmask(t.q)));
        for (int p : t.q) s.ref.apply(mPR((int)t.v[0], false).m, s.L(p));
    });
    addOp("PhaseParity", O_MASK | O_ROT | O_CLIFFP, 1, 1, 0, genMask(1, 0), [](World&, Slot& s, const Step& t) {
        double a = fl_(t.r[0]);
        s.q->PhaseParity(a, bci(pmask(t.q)));
        u64 m = lmask(s, t.q);
        s.ref.phase([&](u64 i) { return std::polar(1.0, __builtin_parityll(i & m) ? a / 2 : -a / 2); });
    });
    // QParity interface
    addOp("UniformParityRZ", O_MASK | O_ROT | O_PARITY, 1, 1, 0, genMask(1, 0), [](World&, Slot& s, const Step& t) {
        auto p = std::dynamic_pointer_cast<QParity>(s.q);
        if (!p) throw Invalid{ "parity" };
        double a = fl_(t.r[0]);
        p->UniformParityRZ(bci(pmask(t.q)), a);
        u64 m = lmask(s, t.q);
        s.ref.phase([&](u64 i) { return std::polar(1.0, __builtin_parityll(i & m) ? a : -a); });
    });
    addOp("CUniformParityRZ", O_MASK | O_ROT | O_PARITY | O_CTRL, 2, 1, 1,
        [](GenCtx& g, Step& t) {
            int m = (int)g.mapped.size();
            if (m < 2) return false;
            t.q = g.qs(g.r.range(2, std::min(m, 6)));
            t.r = { g.angle() };
            t.v = { g.r.range(0, (int)t.q.size() - 1) };
            return true;
        },
        [](World&, Slot& s, const Step& t) { // v[0] controls first, then the parity set
            auto p = std::dynamic_pointer_cast<QParity>(s.q);
            if (!p) throw Invalid{ "parity" };
            if (t.v[0] < 0 || t.v[0] >= (i64)t.q.size()) throw Invalid{ "v" };
            std::vector<int> c(t.q.begin(), t.q.begin() + t.v[0]), b(t.q.begin() + t.v[0], t.q.end());
            double a = fl_(t.r[0]);
            p->CUniformParityRZ(bl(c), bci(pmask(b)), a);
            u64 m = lmask(s, b), cm = lmask(s, c);
            s.ref.phase([&](u64 i) { return (i & cm) != cm ? cd(1, 0) : std::polar(1.0, __builtin_parityll(i & m) ? a : -a); });
        });
    // ---- ranges
    auto genRange = [](GenCtx& g, Step& t) {
        int len = g.r.range(1, 5), st;
        if (!g.contig(len, st)) {
            len = 1;
            if (!g.contig(len, st)) return false;
        }
        t.v = { st, len };
        return true;
    };
    addOp("HReg", O_RANGE | O_CLIFF | O_CONTIG, 0, 0, 2, genRange, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        s.q->H((bitLenInt)t.v[0], (bitLenInt)t.v[1]);
        for (int x : b) s.ref.apply(mH.m, x);
    });
    addOp("XReg", O_RANGE | O_CLIFF | O_CONTIG, 0, 0, 2, genRange, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        if (b.empty()) throw Invalid{ "len" };
        s.q->XMask(bitRegMask((bitLenInt)t.v[0], (bitLenInt)t.v[1]));
        for (int x : b) s.ref.apply(mX.m, x);
    });
    addOp("ZeroPhaseFlip", O_RANGE | O_CONTIG, 0, 0, 2, genRange, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        if (b.empty()) throw Invalid{ "len" };
        s.q->ZeroPhaseFlip((bitLenInt)t.v[0], (bitLenInt)t.v[1]);
        s.ref.phase([&](u64 i) { return rget(i, b) ? cd(1, 0) : cd(-1, 0); });
    });
    addOp("PhaseFlip", O_RANGE | O_CLIFF, 0, 0, 0, [](GenCtx&, Step&) { return true; },
        [](World&, Slot& s, const Step&) { s.q->PhaseFlip(); });
    addOp("Reverse", O_RANGE | O_CLIFF | O_CONTIG | O_SHIFT, 0, 0, 2, genRange, [](World&, Slot& s, const Step& t) {
        auto b = s.reg(t.v[0], t.v[1]);
        if (b.empty()) throw Invalid{ "len" };
        s.q->Reverse((bitLenInt)t.v[0], (bitLenInt)(t.v[0] + t.v[1]));
        std::vector<int> rb(b.rbegin(), b.rend());
        s.ref.permute([&](u64 i) { return rset(i, b, rget(i, rb)); });
    });
    // ---- Hamiltonian evolution
    addOp("TimeEvolve", O_EVO | O_ROT, 1, 6, 3,
        [](GenCtx& g, Step& t) {
            if (!gTC(1, 0, 2)(g, t)) return false;
            size_t nc = t.q.size() - 1;
            t.v = { g.r.range(0, 2), (i64)g.r.below(1ULL << nc), g.r.range(0, 1) }; // mode (plain, anti, uniform), toggles, toggles present
            t.r = { g.r.range(1, 24) / 8.0 }; // time
            size_t k = t.v[0] == 2 ? (1ULL << nc) : 1;
            for (size_t i = 0; i < 4 * k; ++i) t.r.push_back(g.r.range(-8, 8) / 8.0);
            while (t.r.size() < 6) t.r.push_back(0.5);
            return true;
        },
        [](World&, Slot& s, const Step& t) {
            size_t nc = t.q.size() - 1, k = t.v[0] == 2 ? (1ULL << nc) : 1;
            if (t.r.size() < 1 + 4 * k || t.v[0] < 0 || t.v[0] > 2 || !(t.r[0] > 0.01)) throw Invalid{ "arity" };
            double tm = t.r[0];
            BitOp op(new Qrack::complex[4 * k], std::default_delete<Qrack::complex[]>());
            std::vector<M2> es;
            for (size_t i = 0; i < k; ++i) {
                double a = t.r[1 + 4 * i], b = t.r[2 + 4 * i], c = t.r[3 + 4 * i], d = t.r[4 + 4 * i];
                cd h01(c, d);
                op.get()[4 * i] = Qrack::complex(a, 0);
                op.get()[4 * i + 1] = Qrack::complex(c, d);
                op.get()[4 * i + 2] = Qrack::complex(c, -d);
                op.get()[4 * i + 3] = Qrack::complex(b, 0);
                // exp(-i t (m + D)), D traceless with D^2 = w^2
                double m = (a + b) / 2, z = (a - b) / 2, w = std::sqrt(z * z + std::norm(h01));
                double sn = w < 1e-12 ? tm : std::sin(w * tm) / w, cs = std::cos(w * tm);
                cd e = std::polar(1.0, -m * tm);
                es.push_back(mm(e * (cs - I1 * sn * z), e * (-I1 * sn * h01), e * (-I1 * sn * std::conj(h01)), e * (cs + I1 * sn * z)));
            }
            std::vector<bitLenInt> cs = bl(t.q, 1);
            HamiltonianOpPtr ho;
            std::vector<bool> tog;
            bool useTog = t.v[0] != 2 && (t.v[2] & 1) && nc;
            for (size_t i = 0; i < nc; ++i) tog.push_back((t.v[1] >> i) & 1);
            if (t.v[0] == 2) ho = std::make_shared<UniformHamiltonianOp>(cs, (bitLenInt)t.q[0], op);
            else if (nc == 0) ho = std::make_shared<HamiltonianOp>((bitLenInt)t.q[0], op);
            else ho = std::make_shared<HamiltonianOp>(cs, (bitLenInt)t.q[0], op, t.v[0] == 1, useTog ? tog : std::vector<bool>());
            s.q->TimeEvolve(Hamiltonian{ ho }, (float)tm);
            u64 mask = lmask(s, t.q, 1);
            std::vector<int> cl = s.Ls(tail(t.q, 1));
            for (size_t i = 0; i < k; ++i) {
                u64 val = 0;
                if (t.v[0] == 2) val = rset(0, cl, i);
                else
                    for (size_t j = 0; j < nc; ++j)
                        if ((t.v[0] == 0) != (useTog && tog[j])) val |= 1ULL << cl[j];
                s.ref.apply(es[i].m, s.L(t.q[0]), mask, val);
            }
        });
}
} // namespace vq
