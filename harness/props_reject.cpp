// C16: one argument of a call is out of its documented range (or a list names a qubit twice, or has the wrong length);
// the call must throw and the register must keep its width and state, and stay usable.
#include "gen.hpp"
#include "qalu.hpp"
#include "qparity.hpp"
#include "qengine.hpp"
using namespace vq;
using namespace Qrack;
namespace {
typedef std::vector<bitLenInt> VB;
typedef std::vector<bitCapInt> VP;
struct A { // hands out arguments; the one numbered `which` is bad
    int n;
    Rng r;
    int which, cnt = 0;
    std::vector<int> pool;
    std::string note;
    A(int n_, u64 seed, int w) : n(n_), r(seed), which(w), pool(r.perm(n_)) {}
    bool bad() { return cnt++ == which; }
    bitLenInt badQ()
    {
        int b = r.chance(0.5) ? n : r.chance(0.5) ? n + r.range(0, 3) : r.pick(std::vector<int>{ 63, 64, 127, 128, 200, 254, 255 });
        if (b < n) b = n;
        note = fmt("qubit %d of %d", b, n);
        return (bitLenInt)b;
    }
    bitLenInt take()
    {
        if (pool.empty()) throw Invalid{ "width" };
        const int x = pool.back();
        pool.pop_back();
        return (bitLenInt)x;
    }
    bitLenInt Q() { return bad() ? badQ() : take(); }
    // `k` controls; the list as a whole is one argument
    VB L(int k)
    {
        const bool b = bad();
        VB o;
        for (int i = 0; i < k; ++i) o.push_back(take());
        if (b) {
            if (o.size() > 1 && r.chance(0.25)) {
                o[r.below(o.size() - 1)] = o.back();
                note = "duplicate in list";
            } else o[r.below(o.size())] = badQ();
        }
        return o;
    }
    VB Lb(int k) // list whose members may only be out of bounds, not duplicated
    {
        const bool b = bad();
        VB o;
        for (int i = 0; i < k; ++i) o.push_back(take());
        if (b) o[r.below(o.size())] = badQ();
        return o;
    }
    // range starts; the ranges of one call lie one after the other in the valid register
    int at = 0;
    bitLenInt R(int len)
    {
        if (bad()) {
            int s;
            if (r.chance(0.6)) s = n - len + 1 + (int)r.below(len);
            else s = r.pick(std::vector<int>{ n, n + 1, 64, 128, 255 - len, 256 - len, 254, 255 });
            if (s + len <= n || s > 255) s = n;
            note = fmt("range %d+%d of %d", s, len, n);
            return (bitLenInt)s;
        }
        if (at + len > n) throw Invalid{ "width" };
        const int s = at;
        at += len;
        return (bitLenInt)s;
    }
    // a qubit after the ranges
    bitLenInt F()
    {
        if (bad()) return badQ();
        if (at >= n) throw Invalid{ "width" };
        return (bitLenInt)at++;
    }
    VB FL(int k)
    {
        const bool b = bad();
        VB o;
        for (int i = 0; i < k; ++i) {
            if (at >= n) throw Invalid{ "width" };
            o.push_back((bitLenInt)at++);
        }
        if (b) {
            if (o.size() > 1 && r.chance(0.25)) o[0] = o[1], note = "duplicate in list";
            else o[r.below(o.size())] = badQ();
        }
        return o;
    }
    bitCapInt M()
    {
        const bool b = bad();
        u128 m = r.below(1ULL << n);
        if (r.chance(0.3)) m = 1;
        if (b) {
            const int k = r.chance(0.5) ? n : n + (int)r.below(60 - n);
            m |= (u128)1 << k;
            note = fmt("mask bit %d of %d", k, n);
        } else if (!m) m = 1;
        return bci(m);
    }
    bitCapInt P()
    {
        const bool b = bad();
        u128 p = r.below(1ULL << n);
        if (b) {
            p = r.chance(0.5) ? (u128)1 << n : ((u128)1 << n) + r.below(1000);
            if (r.chance(0.1)) p = ((u128)1 << 40) | p;
            note = fmt("basis index of %d qubits", n);
        }
        return bci(p);
    }
};
struct Kind {
    const char* name;
    int nargs;
    std::function<void(QInterfacePtr, A&)> f;
    unsigned cls; // 1 ALU, 2 parity
};
const complex mt[4] = { complex(0.6f, 0), complex(0.8f, 0), complex(-0.8f, 0), complex(0.6f, 0) };
const complex hx[4] = { complex(0, 0), complex(1, 0), complex(1, 0), complex(0, 0) };
const complex dg[4] = { complex(1, 0), complex(0, 0), complex(0, 0), complex(0, 1) };
std::shared_ptr<QAlu> alu(QInterfacePtr q)
{
    auto a = std::dynamic_pointer_cast<QAlu>(q);
    if (!a) throw Invalid{ "no arithmetic" };
    return a;
}
std::shared_ptr<QParity> par(QInterfacePtr q)
{
    auto a = std::dynamic_pointer_cast<QParity>(q);
    if (!a) throw Invalid{ "no parity" };
    return a;
}
std::vector<Kind>& kinds()
{
    static std::vector<Kind> k;
    if (!k.empty()) return k;
#define K(NAME, N, ...) k.push_back(Kind{ NAME, N, [](QInterfacePtr q, A& a) { __VA_ARGS__; }, 0 })
#define KA(NAME, N, ...) k.push_back(Kind{ NAME, N, [](QInterfacePtr q, A& a) { auto u = alu(q); __VA_ARGS__; }, 1 })
#define KP(NAME, N, ...) k.push_back(Kind{ NAME, N, [](QInterfacePtr q, A& a) { auto u = par(q); __VA_ARGS__; }, 2 })
    // one qubit
    K("H", 1, q->H(a.Q()));
    K("X", 1, q->X(a.Q()));
    K("Y", 1, q->Y(a.Q()));
    K("Z", 1, q->Z(a.Q()));
    K("S", 1, q->S(a.Q()));
    K("IS", 1, q->IS(a.Q()));
    K("T", 1, q->T(a.Q()));
    K("SqrtX", 1, q->SqrtX(a.Q()));
    K("ISqrtY", 1, q->ISqrtY(a.Q()));
    K("SH", 1, q->SH(a.Q()));
    K("U", 1, q->U(a.Q(), 0.3f, 0.4f, 0.5f));
    K("RX", 1, q->RX(0.7f, a.Q()));
    K("RZ", 1, q->RZ(0.7f, a.Q()));
    K("RT", 1, q->RT(0.7f, a.Q()));
    K("Mtrx", 1, q->Mtrx(mt, a.Q()));
    K("MtrxX", 1, q->Mtrx(hx, a.Q()));
    K("MtrxS", 1, q->Mtrx(dg, a.Q()));
    K("Phase", 1, q->Phase(ONE_CMPLX, I_CMPLX, a.Q()));
    K("Invert", 1, q->Invert(ONE_CMPLX, I_CMPLX, a.Q()));
    K("PhaseRootN", 1, q->PhaseRootN(3, a.Q()));
    // controlled
    K("CNOT", 2, { auto x = a.Q(), y = a.Q(); q->CNOT(x, y); });
    K("AntiCNOT", 2, { auto x = a.Q(), y = a.Q(); q->AntiCNOT(x, y); });
    K("CY", 2, { auto x = a.Q(), y = a.Q(); q->CY(x, y); });
    K("CZ", 2, { auto x = a.Q(), y = a.Q(); q->CZ(x, y); });
    K("AntiCZ", 2, { auto x = a.Q(), y = a.Q(); q->AntiCZ(x, y); });
    K("CH", 2, { auto x = a.Q(), y = a.Q(); q->CH(x, y); });
    K("CCNOT", 3, { auto x = a.Q(), y = a.Q(), z = a.Q(); q->CCNOT(x, y, z); });
    K("CCZ", 3, { auto x = a.Q(), y = a.Q(), z = a.Q(); q->CCZ(x, y, z); });
    K("MCMtrx", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MCMtrx(l, mt, t); });
    K("MCMtrxX", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MCMtrx(l, hx, t); });
    K("MCMtrxS", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MCMtrx(l, dg, t); });
    K("MACMtrx", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MACMtrx(l, mt, t); });
    K("MCPhase", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MCPhase(l, ONE_CMPLX, -ONE_CMPLX, t); });
    K("MACPhase", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MACPhase(l, ONE_CMPLX, -ONE_CMPLX, t); });
    K("MCInvert", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MCInvert(l, ONE_CMPLX, ONE_CMPLX, t); });
    K("MACInvert", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->MACInvert(l, ONE_CMPLX, ONE_CMPLX, t); });
    K("UCMtrx", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->UCMtrx(l, mt, t, bci(1)); });
    K("UCPhase", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->UCPhase(l, ONE_CMPLX, -ONE_CMPLX, t, bci(1)); });
    K("UCInvert", 2, { auto l = a.L(a.r.range(1, 3)); auto t = a.Q(); q->UCInvert(l, ONE_CMPLX, ONE_CMPLX, t, bci(0)); });
    K("UniformlyControlled", 2, {
        auto l = a.L(a.r.range(1, 2));
        auto t = a.Q();
        std::vector<complex> m;
        for (size_t i = 0; i < (1U << l.size()); ++i) m.insert(m.end(), i & 1 ? mt : hx, (i & 1 ? mt : hx) + 4);
        q->UniformlyControlledSingleBit(l, t, m.data());
    });
    // swaps
    K("Swap", 2, { auto x = a.Q(), y = a.Q(); q->Swap(x, y); });
    K("ISwap", 2, { auto x = a.Q(), y = a.Q(); q->ISwap(x, y); });
    K("IISwap", 2, { auto x = a.Q(), y = a.Q(); q->IISwap(x, y); });
    K("SqrtSwap", 2, { auto x = a.Q(), y = a.Q(); q->SqrtSwap(x, y); });
    K("ISqrtSwap", 2, { auto x = a.Q(), y = a.Q(); q->ISqrtSwap(x, y); });
    K("FSim", 2, { auto x = a.Q(), y = a.Q(); q->FSim(0.3f, 0.4f, x, y); });
    K("CSwap", 3, { auto l = a.L(a.r.range(1, 2)); auto x = a.Q(), y = a.Q(); q->CSwap(l, x, y); });
    K("AntiCSwap", 3, { auto l = a.L(a.r.range(1, 2)); auto x = a.Q(), y = a.Q(); q->AntiCSwap(l, x, y); });
    K("CSqrtSwap", 3, { auto l = a.L(a.r.range(1, 2)); auto x = a.Q(), y = a.Q(); q->CSqrtSwap(l, x, y); });
    // masks
    K("XMask", 1, q->XMask(a.M()));
    K("YMask", 1, q->YMask(a.M()));
    K("ZMask", 1, q->ZMask(a.M()));
    K("PhaseParity", 1, q->PhaseParity(0.7f, a.M()));
    K("PhaseRootNMask", 1, q->PhaseRootNMask(3, a.M()));
    KP("UniformParityRZ", 1, u->UniformParityRZ(a.M(), 0.7f));
    KP("CUniformParityRZ", 2, { auto l = a.L(a.r.range(1, 2)); auto m = a.M(); u->CUniformParityRZ(l, m, 0.7f); });
    KP("ProbParity", 1, (void)u->ProbParity(a.M()));
    KP("ForceMParity", 1, (void)u->ForceMParity(a.M(), a.r.chance(0.5), false));
    // measurement and queries
    K("Prob", 1, (void)q->Prob(a.Q()));
    K("M", 1, (void)q->M(a.Q()));
    K("ForceM", 1, (void)q->ForceM(a.Q(), a.r.chance(0.5), true, a.r.chance(0.5)));
    K("SetBit", 1, q->SetBit(a.Q(), a.r.chance(0.5)));
    K("ForceMReg", 1, { int l = a.r.range(1, 3); (void)q->MReg(a.R(l), l); });
    K("MVec", 1, (void)q->M(a.Lb(a.r.range(1, 3))));
    K("SetReg", 1, { int l = a.r.range(1, 3); q->SetReg(a.R(l), l, bci(a.r.below(1 << l))); });
    K("ProbReg", 1, { int l = a.r.range(1, 3); (void)q->ProbReg(a.R(l), l, bci(a.r.below(1 << l))); });
    K("ProbMask", 1, { auto m = a.M(); (void)q->ProbMask(m, m); });
    K("ProbAll", 1, (void)q->ProbAll(a.P()));
    K("GetAmplitude", 1, (void)q->GetAmplitude(a.P()));
    K("SetAmplitude", 1, q->SetAmplitude(a.P(), complex(0.5f, 0.1f)));
    K("ExpBits", 1, (void)q->ExpectationBitsAll(a.L(a.r.range(1, 3))));
    K("VarBits", 1, (void)q->VarianceBitsAll(a.L(a.r.range(1, 3))));
    K("ProbBitsAll", 1, { auto l = a.L(a.r.range(1, 3)); real1 p[8]; q->ProbBitsAll(l, p); });
    K("ExpPauli", 1, { auto l = a.L(a.r.range(1, 3)); (void)q->ExpectationPauliAll(l, std::vector<Pauli>(l.size(), PauliX)); });
    K("VarPauli", 1, { auto l = a.L(a.r.range(1, 3)); (void)q->VariancePauliAll(l, std::vector<Pauli>(l.size(), PauliY)); });
    K("ExpUnitary", 1, { auto l = a.L(a.r.range(1, 3)); std::vector<real1_f> b(3 * l.size(), 0.4f); (void)q->ExpectationUnitaryAll(l, b); });
    K("ExpBitsFact", 2, {
        auto l = a.L(a.r.range(1, 3));
        const bool b = a.bad();
        (void)q->ExpectationBitsFactorized(l, VP(b ? 2 * l.size() - a.r.range(1, (int)l.size()) : 2 * l.size(), bci(3)));
    });
    K("ExpFloatsFact", 2, {
        auto l = a.L(a.r.range(1, 3));
        const bool b = a.bad();
        (void)q->ExpectationFloatsFactorized(l, std::vector<real1_f>(b ? 2 * l.size() - a.r.range(1, (int)l.size()) : 2 * l.size(), 0.5f));
    });
    K("VarBitsFact", 2, {
        auto l = a.L(a.r.range(1, 3));
        const bool b = a.bad();
        (void)q->VarianceBitsFactorized(l, VP(b ? 2 * l.size() - a.r.range(1, (int)l.size()) : 2 * l.size(), bci(3)));
    });
    K("VarFloatsFact", 2, {
        auto l = a.L(a.r.range(1, 3));
        const bool b = a.bad();
        (void)q->VarianceFloatsFactorized(l, std::vector<real1_f>(b ? 2 * l.size() - a.r.range(1, (int)l.size()) : 2 * l.size(), 0.5f));
    });
    K("MultiShot", 1, {
        auto l = a.Lb(a.r.range(1, 3));
        VP p;
        for (auto x : l) p.push_back(bci((u128)1 << std::min<int>(x, 126)));
        (void)q->MultiShotMeasureMask(p, 20);
    });
    K("MultiShotArr", 1, {
        auto l = a.Lb(a.r.range(1, 3));
        VP p;
        for (auto x : l) p.push_back(bci((u128)1 << std::min<int>(x, 126)));
        unsigned long long o[20];
        q->MultiShotMeasureMask(p, 20, o);
    });
    K("TrySeparate1", 1, (void)q->TrySeparate(a.Q()));
    K("TrySeparate2", 2, { auto x = a.Q(), y = a.Q(); (void)q->TrySeparate(x, y); });
    // structure
    K("Compose", 1, { auto o = makeSim("cpu", 1, 0, 5); auto s = a.bad() ? a.badQ() : (bitLenInt)0; if (s == a.n) throw std::invalid_argument("the end is valid"); q->Compose(q->Clone(), s); });
    K("Allocate", 1, { auto s = a.bad() ? a.badQ() : (bitLenInt)0; if (s == a.n) throw std::invalid_argument("the end is valid"); q->Allocate(s, 1); });
    K("DecomposeLen", 1, { int l = a.r.range(1, 2); (void)q->Decompose(a.R(l), (bitLenInt)l); });
    K("Dispose", 1, { int l = a.r.range(1, 2); q->Dispose(a.R(l), (bitLenInt)l); });
    K("DisposePerm", 1, { int l = a.r.range(1, 2); q->Dispose(a.R(l), (bitLenInt)l, ZERO_BCI); });
    // logic, shifts, transforms
    K("AND", 3, { auto x = a.Q(), y = a.Q(), z = a.Q(); q->AND(x, y, z); });
    K("OR", 3, { auto x = a.Q(), y = a.Q(), z = a.Q(); q->OR(x, y, z); });
    K("XOR", 3, { auto x = a.Q(), y = a.Q(), z = a.Q(); q->XOR(x, y, z); });
    K("ANDself", 1, { auto x = a.take(), y = a.take(); a.bad(); a.note = "output is an input"; q->AND(x, y, a.r.chance(0.5) ? x : y); });
    K("ORself", 1, { auto x = a.take(), y = a.take(); a.bad(); a.note = "output is an input"; q->OR(x, y, a.r.chance(0.5) ? x : y); });
    K("QFT", 1, { int l = a.r.range(1, 3); q->QFT(a.R(l), l); });
    K("QFTR", 1, q->QFTR(a.Lb(a.r.range(1, 3))));
    K("ROL", 1, { int l = a.r.range(2, 3); q->ROL(1, a.R(l), l); });
    K("ROR", 1, { int l = a.r.range(2, 3); q->ROR(1, a.R(l), l); });
    K("INC", 1, { int l = a.r.range(1, 3); q->INC(bci(1), a.R(l), l); });
    K("DEC", 1, { int l = a.r.range(1, 3); q->DEC(bci(1), a.R(l), l); });
    K("CINC", 2, { int l = a.r.range(1, 3); auto s = a.R(l); auto c = a.FL(a.r.range(1, 2)); q->CINC(bci(1), s, l, c); });
    K("INCC", 2, { int l = a.r.range(1, 3); auto s = a.R(l); auto c = a.F(); q->INCC(bci(1), s, l, c); });
    K("INCS", 2, { int l = a.r.range(1, 3); auto s = a.R(l); auto c = a.F(); q->INCS(bci(1), s, l, c); });
    K("ZeroPhaseFlip", 1, { int l = a.r.range(1, 3); q->ZeroPhaseFlip(a.R(l), l); });
    KA("INCDECC", 2, { int l = a.r.range(1, 3); auto s = a.R(l); auto c = a.F(); u->INCDECC(bci(1), s, l, c); });
    KA("INCDECSC", 2, { int l = a.r.range(2, 3); auto s = a.R(l); auto c = a.F(); u->INCDECSC(bci(1), s, l, c); });
    KA("INCDECSC2", 3, { int l = 2; auto s = a.R(l); auto o = a.F(), c = a.F(); u->INCDECSC(bci(1), s, l, o, c); });
    KA("MUL", 2, { int l = a.r.range(1, 2); auto s = a.R(l), c = a.R(l); u->MUL(bci(3), s, c, l); });
    KA("DIV", 2, { int l = a.r.range(1, 2); auto s = a.R(l), c = a.R(l); u->DIV(bci(3), s, c, l); });
    KA("DIV0", 1, { a.bad(); a.note = "divisor 0"; u->DIV(bci(0), 0, 2, 2); });
    KA("CMUL", 3, { int l = a.r.range(1, 2); auto s = a.R(l), c = a.R(l); auto x = a.FL(1); u->CMUL(bci(3), s, c, l, x); });
    KA("CDIV", 3, { int l = a.r.range(1, 2); auto s = a.R(l), c = a.R(l); auto x = a.FL(1); u->CDIV(bci(3), s, c, l, x); });
    KA("CDIV0", 1, { a.bad(); a.note = "divisor 0"; u->CDIV(bci(0), 0, 2, 2, VB{ 4 }); });
    KA("MULModNOut", 2, { auto s = a.R(2), c = a.R(2); u->MULModNOut(bci(3), bci(3 + a.r.below(2)), s, c, 2); });
    KA("IMULModNOut", 2, { auto s = a.R(2), c = a.R(2); u->IMULModNOut(bci(3), bci(3 + a.r.below(2)), s, c, 2); });
    KA("POWModNOut", 2, { auto s = a.R(2), c = a.R(2); u->POWModNOut(bci(3), bci(3 + a.r.below(2)), s, c, 2); });
    KA("CMULModNOut", 3, { auto s = a.R(2), c = a.R(2); auto x = a.FL(1); u->CMULModNOut(bci(3), bci(3 + a.r.below(2)), s, c, 2, x); });
    KA("CPOWModNOut", 3, { auto s = a.R(2), c = a.R(2); auto x = a.FL(1); u->CPOWModNOut(bci(3), bci(3 + a.r.below(2)), s, c, 2, x); });
    KA("IndexedLDA", 2, { auto s = a.R(2), v = a.R(2); unsigned char t[4] = { 1, 2, 3, 0 }; u->IndexedLDA(s, 2, v, 2, t, false); });
    KA("IndexedADC", 3, { auto s = a.R(2), v = a.R(2); auto c = a.F(); unsigned char t[4] = { 1, 2, 3, 0 }; u->IndexedADC(s, 2, v, 2, c, t); });
    KA("IndexedSBC", 3, { auto s = a.R(2), v = a.R(2); auto c = a.F(); unsigned char t[4] = { 1, 2, 3, 0 }; u->IndexedSBC(s, 2, v, 2, c, t); });
    KA("Hash", 1, { unsigned char t[4] = { 1, 2, 3, 0 }; u->Hash(a.R(2), 2, t); });
    KA("PhaseFlipIfLess", 1, { u->PhaseFlipIfLess(bci(2), a.R(2), 2); });
    KA("CPhaseFlipIfLess", 2, { auto s = a.R(2); auto f = a.F(); u->CPhaseFlipIfLess(bci(2), s, 2, f); });
    K("FullAdd", 4, { auto x = a.Q(), y = a.Q(), z = a.Q(), w = a.Q(); q->FullAdd(x, y, z, w); });
    K("IFullAdd", 4, { auto x = a.Q(), y = a.Q(), z = a.Q(), w = a.Q(); q->IFullAdd(x, y, z, w); });
    k.push_back(Kind{ "AmplitudePage", 1, [](QInterfacePtr q, A& a) {
        auto e = std::dynamic_pointer_cast<QEngine>(q);
        if (!e) throw Invalid{ "no pages" };
        const u64 N = 1ULL << a.n;
        u64 off = 0, len = 1 + a.r.below(N);
        if (a.bad()) {
            off = a.r.chance(0.5) ? N - len + 1 + a.r.below(3) : N + a.r.below(5);
            a.note = "page";
        } else off = a.r.below(N - len + 1);
        std::vector<complex> b(len);
        if (a.r.chance(0.5)) e->GetAmplitudePage(b.data(), off, len);
        else e->SetAmplitudePage(b.data(), off, len);
    }, 0 });
    return k;
}
const Kind* findKind(const std::string& n)
{
    for (auto& k : kinds())
        if (n == k.name) return &k;
    return nullptr;
}
// How a refusal is judged: 0 the call throws and nothing changes; 1 a composite operation, which throws but may have
// applied some of its valid parts first, so the case ends there; 2 not part of the property (see DESIGN.md)
int outside(const std::string& st, const Kind& k, int which)
{
    const std::string n = k.name;
    const bool cl = isCliffStack(st);
    if (n.compare(0, 11, "TrySeparate") == 0) return (cl || st.compare(0, 5, "qunit") == 0) ? 0 : 2;
    if (n == "MVec" || n == "QFT" || n == "QFTR" || n == "INCC" || n == "OR" || n == "XOR" || n == "FullAdd" || n == "IFullAdd") return 1;
    if (cl && (n == "ISqrtSwap" || n == "SqrtSwap" || n == "AntiCSwap" || n == "INCS")) return 1;
    (void)which;
    return 0;
}
Reg c16(Property{ "C16", [](bool t) -> u64 { return t ? 4000000 : 250000; },
    [](Rng& r, u64 idx, bool) {
        static const std::vector<std::string> st = { "cpu", "qunit-cpu", "pager", "pager1", "pager2", "qunit-pager2", "stab", "ucliff" };
        Case c;
        c.prop = "C16";
        c.kind = "reject";
        c.stack = st[idx % st.size()];
        c.seed = r.next() & 0x7fffffff;
        const Kind* fk = nullptr;
        int fw = 0;
        if (const char* e = getenv("VQ_C16")) { // development: one stack, kind and argument
            char a[64], b[64];
            if (sscanf(e, "%63[^:]:%63[^:]:%d", a, b, &fw) == 3) c.stack = a, fk = findKind(b);
        }
        const int n = r.range(4, 7);
        c.p["n"] = n;
        c.p["perm"] = (long long)r.below(1 << n);
        GenCtx g = ctxOf(c, r);
        g.style = isCliffStack(c.stack) ? 0 : 3;
        genSteps(c, g, ctxMixer(c.stack), r.range(1, 8));
        const int bads = r.range(1, 4);
        for (int i = 0; i < bads; ++i) {
            Step t;
            const Kind& k = fk ? *fk : r.pick(kinds());
            t.op = std::string("BAD") + k.name;
            t.v = { (long long)r.below(1 << 30), fk ? fw : (long long)r.below(k.nargs) };
            c.steps.insert(c.steps.begin() + r.range(0, (int)c.steps.size()), t);
        }
        Step e;
        if (drawStep(g, ctxMixer(c.stack).draw(r), e)) c.steps.push_back(e);
        return c;
    },
    [](const Case& c, Stats& st) {
        World w;
        setupWorld(w, c, st);
        w.mayRefuse = isCliffStack(c.stack);
        int rejected = 0;
        for (const Step& t : c.steps) {
            if (t.op.compare(0, 3, "BAD")) {
                try {
                    w.exec(t);
                    ++w.executed;
                } catch (const Invalid&) {
                } catch (const Viol&) {
                    throw;
                } catch (const std::exception& e) {
                    const OpDef* o = findOp(t.op);
                    if (w.mayRefuse && o && !(o->flags & O_CLIFF)) return rejected > 0 && w.executed > 0; // refused for its angle
                    fail("exception:" + t.op, fmt("a valid call %s threw %s", t.str().c_str(), e.what()));
                }
                continue;
            }
            const Kind* k = findKind(t.op.substr(3));
            if (!k || t.v.size() < 2) continue;
            const int which = (int)(t.v[1] % k->nargs);
            const int mode = outside(c.stack, *k, which);
            if (mode == 2) continue;
            Slot& s = w.slot(0);
            A a(s.n(), (u64)t.v[0] + 77, which);
            const std::string tag = fmt("%s:%s:%d", c.stack.c_str(), k->name, which);
            bool threw = false;
            std::string what;
            try {
                k->f(s.q, a);
            } catch (const Invalid&) {
                st.label("not applicable here");
                continue;
            } catch (const std::exception& e) {
                threw = true;
                what = e.what();
            }
            const std::string when = fmt("%s(argument %d: %s)", k->name, which, a.note.c_str());
            if (!threw) fail("accepted:" + tag, when + " was accepted");
            ++rejected;
            st.label("rejected calls");
            if ((int)s.q->GetQubitCount() != s.n()) fail("width:" + tag, when + " threw but the width changed");
            if (mode == 1) {
                st.label("composite calls");
                return w.executed > 0;
            }
            try {
                w.compareAll(("after refusing " + when).c_str());
            } catch (Viol& v) {
                v.sig = "changed:" + tag;
                throw;
            }
        }
        w.compareAll("at the end");
        return rejected > 0 && w.executed > 0;
    },
    "at least one call with an invalid argument was refused on a register prepared by valid calls",
    "one invalid argument per call; registers of 4 to 7 qubits" });
} // namespace
