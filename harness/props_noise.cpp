// C20: the noisy wrapper.  zero: whole operation table at strength 0 against the reference.  traj: at positive strength every
// noise event must be one of the two outcomes of entangling the qubit with a fresh ancilla and measuring it, outcomes are drawn with
// their Born probability (z-score over the whole history), and the fidelity estimate is the product of the survival factors.
// strong/weak: the two channel calls on bare simulators.  depol: what the documentation calls the channel.
#include "gen.hpp"
#include "qinterface_noisy.hpp"
using namespace vq;
using namespace Qrack;
namespace {
struct NG {
    const char* name;
    int nq; // qubits used (controls first for controlled ones)
    int nr;
    int ctl; // number of leading controls
    int noise; // 0: target only, 1: all qubits listed
};
const std::vector<NG>& gates()
{
    static const std::vector<NG> v{ { "X", 1, 0, 0, 0 }, { "Y", 1, 0, 0, 0 }, { "Z", 1, 0, 0, 0 }, { "H", 1, 0, 0, 0 }, { "S", 1, 0, 0, 0 }, { "T", 1, 0, 0, 0 },
        { "U", 1, 3, 0, 0 }, { "Ph", 1, 2, 0, 0 }, { "Inv", 1, 2, 0, 0 }, { "CNOT", 2, 0, 1, 0 }, { "CZ", 2, 0, 1, 0 }, { "CCNOT", 3, 0, 2, 0 }, { "CU", 2, 3, 1, 0 },
        { "ACU", 3, 3, 2, 0 }, { "Swap", 2, 0, 0, 1 }, { "ISwap", 2, 0, 0, 1 }, { "IISwap", 2, 0, 0, 1 }, { "SqrtSwap", 2, 0, 0, 1 }, { "ISqrtSwap", 2, 0, 0, 1 },
        { "FSim", 2, 2, 0, 1 }, { "CSwap", 3, 0, 1, 1 }, { "AntiCSwap", 3, 0, 1, 1 }, { "CSqrtSwap", 3, 0, 1, 1 }, { "AntiCSqrtSwap", 3, 0, 1, 1 }, { "CISqrtSwap", 3, 0, 1, 1 },
        { "AntiCISqrtSwap", 3, 0, 1, 1 }, { "XMask", 2, 0, 0, 1 }, { "PhaseParity", 2, 1, 0, 1 } };
    return v;
}
void u3(const double* r, cd* m)
{
    const cd I(0, 1);
    m[0] = std::cos(r[0] / 2);
    m[1] = -std::exp(I * r[2]) * std::sin(r[0] / 2);
    m[2] = std::exp(I * r[1]) * std::sin(r[0] / 2);
    m[3] = std::exp(I * (r[1] + r[2])) * std::cos(r[0] / 2);
}
// apply to simulator (when q) and reference
void gate(const Step& t, QInterfacePtr q, Ref& R)
{
    const std::string& o = t.op;
    const cd I(0, 1);
    auto B = [&](int k) { return (bitLenInt)t.q.at(k); };
    auto b = [&](int k) { return 1ULL << t.q.at(k); };
    auto sw = [&](cd s01, cd c01, cd p11, u64 mask, u64 val, int a, int c) { // [[c,s],[s,c]] on |01>,|10>
        const cd m[16] = { 1, 0, 0, 0, 0, c01, s01, 0, 0, s01, c01, 0, 0, 0, 0, p11 };
        R.apply4(m, t.q.at(a), t.q.at(c), mask, val);
    };
    const double s2 = std::sqrt(0.5);
    if (o == "X") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q[0]); q->X(B(0)); }
    else if (o == "Y") { const cd m[4] = { 0, -I, I, 0 }; R.apply(m, t.q[0]); q->Y(B(0)); }
    else if (o == "Z") { const cd m[4] = { 1, 0, 0, -1 }; R.apply(m, t.q[0]); q->Z(B(0)); }
    else if (o == "H") { const cd m[4] = { s2, s2, s2, -s2 }; R.apply(m, t.q[0]); q->H(B(0)); }
    else if (o == "S") { const cd m[4] = { 1, 0, 0, I }; R.apply(m, t.q[0]); q->S(B(0)); }
    else if (o == "T") { const cd m[4] = { 1, 0, 0, std::polar(1.0, M_PI / 4) }; R.apply(m, t.q[0]); q->T(B(0)); }
    else if (o == "U" || o == "CU" || o == "ACU") {
        cd m[4];
        u3(t.r.data(), m);
        complex f[4];
        for (int i = 0; i < 4; ++i) f[i] = complex((float)m[i].real(), (float)m[i].imag());
        if (o == "U") { R.apply(m, t.q[0]); q->Mtrx(f, B(0)); }
        else if (o == "CU") { R.apply(m, t.q[1], b(0), b(0)); q->MCMtrx({ B(0) }, f, B(1)); }
        else { R.apply(m, t.q[2], b(0) | b(1), 0); q->MACMtrx({ B(0), B(1) }, f, B(2)); }
    } else if (o == "Ph") {
        const cd m[4] = { std::polar(1.0, t.r.at(0)), 0, 0, std::polar(1.0, t.r.at(1)) };
        R.apply(m, t.q[0]);
        q->Phase(complex((float)m[0].real(), (float)m[0].imag()), complex((float)m[3].real(), (float)m[3].imag()), B(0));
    } else if (o == "Inv") {
        const cd m[4] = { 0, std::polar(1.0, t.r.at(0)), std::polar(1.0, t.r.at(1)), 0 };
        R.apply(m, t.q[0]);
        q->Invert(complex((float)m[1].real(), (float)m[1].imag()), complex((float)m[2].real(), (float)m[2].imag()), B(0));
    } else if (o == "CNOT") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q.at(1), b(0), b(0)); q->CNOT(B(0), B(1)); }
    else if (o == "AntiCNOT") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q.at(1), b(0), 0); q->AntiCNOT(B(0), B(1)); }
    else if (o == "CZ") { const cd m[4] = { 1, 0, 0, -1 }; R.apply(m, t.q.at(1), b(0), b(0)); q->CZ(B(0), B(1)); }
    else if (o == "CCNOT") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q.at(2), b(0) | b(1), b(0) | b(1)); q->CCNOT(B(0), B(1), B(2)); }
    else if (o == "Swap") { sw(1, 0, 1, 0, 0, 0, 1); q->Swap(B(0), B(1)); }
    else if (o == "ISwap") { sw(I, 0, 1, 0, 0, 0, 1); q->ISwap(B(0), B(1)); }
    else if (o == "IISwap") { sw(-I, 0, 1, 0, 0, 0, 1); q->IISwap(B(0), B(1)); }
    else if (o == "SqrtSwap") { sw(0.5 * cd(1, -1), 0.5 * cd(1, 1), 1, 0, 0, 0, 1); q->SqrtSwap(B(0), B(1)); }
    else if (o == "ISqrtSwap") { sw(0.5 * cd(1, 1), 0.5 * cd(1, -1), 1, 0, 0, 0, 1); q->ISqrtSwap(B(0), B(1)); }
    else if (o == "FSim") {
        sw(-I * std::sin(t.r.at(0)), std::cos(t.r.at(0)), std::polar(1.0, -t.r.at(1)), 0, 0, 0, 1);
        q->FSim((real1_f)t.r[0], (real1_f)t.r[1], B(0), B(1));
    } else if (o == "CSwap") { sw(1, 0, 1, b(0), b(0), 1, 2); q->CSwap({ B(0) }, B(1), B(2)); }
    else if (o == "AntiCSwap") { sw(1, 0, 1, b(0), 0, 1, 2); q->AntiCSwap({ B(0) }, B(1), B(2)); }
    else if (o == "CSqrtSwap") { sw(0.5 * cd(1, -1), 0.5 * cd(1, 1), 1, b(0), b(0), 1, 2); q->CSqrtSwap({ B(0) }, B(1), B(2)); }
    else if (o == "AntiCSqrtSwap") { sw(0.5 * cd(1, -1), 0.5 * cd(1, 1), 1, b(0), 0, 1, 2); q->AntiCSqrtSwap({ B(0) }, B(1), B(2)); }
    else if (o == "CISqrtSwap") { sw(0.5 * cd(1, 1), 0.5 * cd(1, -1), 1, b(0), b(0), 1, 2); q->CISqrtSwap({ B(0) }, B(1), B(2)); }
    else if (o == "AntiCISqrtSwap") { sw(0.5 * cd(1, 1), 0.5 * cd(1, -1), 1, b(0), 0, 1, 2); q->AntiCISqrtSwap({ B(0) }, B(1), B(2)); }
    else if (o == "XMask") {
        const cd m[4] = { 0, 1, 1, 0 };
        R.apply(m, t.q[0]);
        R.apply(m, t.q.at(1));
        q->XMask(bci(b(0) | b(1)));
    } else if (o == "PhaseParity") {
        const u64 mk = b(0) | b(1);
        const double a = t.r.at(0);
        R.phase([&](u64 i) { return std::polar(1.0, (__builtin_popcountll(i & mk) & 1) ? a / 2 : -a / 2); });
        q->PhaseParity((real1_f)a, bci(mk));
    } else throw Invalid{ "op" };
}
// the Kraus pair of one noise event, as matrices on the qubit
void kraus(double lam, int k, cd* m)
{
    const double s = std::sqrt(std::sqrt(lam)), c = std::sqrt(std::max(0.0, 1 - s * s));
    const double p = k ? 0 : 0.5, d = (k ? s : c) / 2; // p|+><+| + d|-><-|
    m[0] = m[3] = p + d;
    m[1] = m[2] = p - d;
}
struct Cand {
    Ref r;
    double p;
    int ones; // number of events with the rarer-record outcome, for the score
};
bool runTraj(const Case& c, Stats& st)
{
    const int n = (int)c.get("n");
    const double lam = (double)(float)(c.get("lam") / 1e6);
    qrack_rand_gen_ptr rng = std::make_shared<qrack_rand_gen>((unsigned)c.seed);
    const bool bare = c.kind == "weak";
    std::vector<QInterfaceEngine> e{ QINTERFACE_NOISY, QINTERFACE_CPU };
    if (c.stack == "noisy-qunit-cpu") e = { QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_CPU };
    QInterfacePtr q = bare ? makeSim(c.stack, n, (u128)0, c.seed)
                           : CreateQuantumInterface(e, (bitLenInt)n, ZERO_BCI, rng, ONE_CMPLX, false, true, false, -1, false, false, REAL1_EPSILON);
    auto noisy = std::dynamic_pointer_cast<QInterfaceNoisy>(q);
    const bool env = c.get("env") && !bare;
    if (!bare) {
        noisy->SetNoiseParameter(env ? 0.123f : (real1_f)lam);
        if (std::abs(noisy->GetNoiseParameter() - (env ? 0.123f : (float)lam)) > 0) fail("param", "GetNoiseParameter differs from the value set");
    }
    if (env) setenv("QRACK_GATE_DEPOLARIZATION", fmt("%.9g", lam).c_str(), 1);
    struct Unset {
        bool on;
        ~Unset() { if (on) unsetenv("QRACK_GATE_DEPOLARIZATION"); }
    } unset{ env };
    Ref R(n, 0);
    double lastNorm = 1, logF = 0, z = 0, var = 0;
    u64 events = 0, informative = 0;
    for (size_t si = 0; si < c.steps.size(); ++si) {
        const Step& t = c.steps[si];
        std::vector<int> ev;
        for (int x : t.q)
            if (x < 0 || x >= n) throw Invalid{ "range" };
        if (t.op == "Clone") {
            q = q->Clone();
            noisy = std::dynamic_pointer_cast<QInterfaceNoisy>(q);
            if (!bare && !noisy) fail("clone", "the clone of a noisy simulator is not noisy");
        } else if (t.op == "ResetF") {
            if (bare) continue;
            noisy->ResetUnitaryFidelity();
            logF = 0;
        } else if (t.op == "Weak") {
            q->DepolarizingChannelWeak1Qb((bitLenInt)t.q.at(0), (real1_f)lam);
            ev = { t.q[0] };
        } else {
            gate(t, q, R);
            if (!bare) {
                for (auto& g : gates())
                    if (t.op == g.name) {
                        if (g.noise) ev = t.q;
                        else ev = { t.q.back() };
                    }
            }
        }
        if (lam <= 0) ev.clear();
        if (!bare)
            for (size_t k = 0; k < ev.size(); ++k) logF += std::log(1 - lam);
        std::vector<cd> act = readAll(q);
        double norm = 0;
        for (auto& x : act) norm += std::norm(x);
        // an outcome of probability p is normalised by 1/sqrt(p) with the norm taken as exactly 1: the norm error grows by 1/p.
        // Checked step by step, below, against the error before the step.
        if (!(norm > 0.05 && norm < 20)) fail("norm", fmt("state norm %.6f after step %zu (%s), was %.6f", norm, si, t.str().c_str(), lastNorm));
        for (auto& x : act) x /= std::sqrt(norm);
        if (!ev.empty()) {
            // all outcome records of this step
            std::vector<Cand> cs;
            for (u64 k = 0; k < (1ULL << ev.size()); ++k) {
                Cand x{ R, 1, (int)k };
                for (size_t j = 0; j < ev.size(); ++j) {
                    cd m[4];
                    kraus(lam, (k >> j) & 1, m);
                    x.r.apply(m, ev[j]);
                }
                x.p = x.r.norm();
                if (x.p < 1e-12) continue;
                x.r.normalize();
                cs.push_back(x);
            }
            // amplitudes below about 1.7e-4 are rounded away before a branch of probability p is normalised by 1/sqrt(p)
            // (and a branch whose computed probability reaches 1 is not projected at all, so the drift of the norm shows up too)
            auto tolOf = [=](const Cand& x) { return 3e-3 + 1.5 * std::sqrt(std::abs(lastNorm - 1)) + std::min(0.3, 1.2e-3 / std::sqrt(x.p)); };
            double best = 9, tol = 0;
            size_t bi = 0;
            std::vector<double> d(cs.size());
            for (size_t k = 0; k < cs.size(); ++k) {
                d[k] = stateDiff(cs[k].r.a, act);
                if (d[k] - tolOf(cs[k]) < best - tol) best = d[k], tol = tolOf(cs[k]), bi = k;
            }
            if (best > tol) fail("branch", fmt("after step %zu (%s) the state is not one of the outcomes of the noise events: nearest is %.4f away (probability %.3g, allowed %.4f)", si, t.str().c_str(), best, cs[bi].p, tol));
            // merge indistinguishable records; score the first event's class against its probability
            double pSame = 0;
            bool clear = true;
            for (size_t k = 0; k < cs.size(); ++k) {
                const double dd = stateDiff(cs[k].r.a, cs[bi].r.a);
                if (dd < 1e-6) pSame += cs[k].p;
                else if (dd < 4 * tol) clear = false;
            }
            events += ev.size();
            if (clear && cs.size() > 1 && pSame < 1 - 1e-6) {
                // score: indicator of the most probable record class
                size_t mb = 0;
                for (size_t k = 0; k < cs.size(); ++k)
                    if (cs[k].p > cs[mb].p) mb = k;
                double pm = 0;
                bool okc = true;
                for (size_t k = 0; k < cs.size(); ++k) {
                    const double dd = stateDiff(cs[k].r.a, cs[mb].r.a);
                    if (dd < 1e-6) pm += cs[k].p;
                    else if (dd < 4 * tol) okc = false;
                }
                if (okc && pm > 1e-3 && pm < 1 - 1e-3) {
                    const bool hit = stateDiff(cs[mb].r.a, cs[bi].r.a) < 1e-6;
                    z += (hit ? 1 : 0) - pm;
                    var += pm * (1 - pm);
                    ++informative;
                }
            }
            if (std::abs(norm - 1) > 1e-3 + 1.5 * (std::abs(lastNorm - 1) + 1e-5) / std::min(1.0, cs[bi].p))
                fail("norm", fmt("state norm %.6f after step %zu (%s), was %.6f before; outcome probability %.5f", norm, si, t.str().c_str(), lastNorm, cs[bi].p));
            R = cs[bi].r;
            // follow the simulator's own rounding
            for (size_t i = 0; i < act.size(); ++i) R.a[i] = act[i];
            R.normalize();
        } else {
            const double d = stateDiff(R.a, act);
            if (std::abs(norm - lastNorm) > 1e-3) fail("norm", fmt("state norm %.6f after step %zu (%s), was %.6f before", norm, si, t.str().c_str(), lastNorm));
            if (d > 3e-3) fail("gate", fmt("after step %zu (%s) the state is %.4f away from the reference", si, t.str().c_str(), d));
        }
        lastNorm = norm;
        if (std::abs(norm - 1) > 0.01) { // the history itself became this unlikely
            st.label("abandoned");
            break;
        }
        if (!bare) {
            const double F = noisy->GetUnitaryFidelity(), W = std::exp(logF);
            if (!(std::abs(F - W) <= 1e-4 * W + 1e-12)) fail("fidelity", fmt("after step %zu (%s) fidelity estimate %.8g, expected %.8g", si, t.str().c_str(), F, W));
        }
    }
    st.label("events", events);
    if (var > 25 && std::abs(z) > 6.5 * std::sqrt(var))
        fail("freq", fmt("outcome frequencies: %.1f standard deviations from the Born probabilities over %llu events", z / std::sqrt(var), (unsigned long long)informative));
    if (var > 25) st.label("scored");
    return events >= 2 || (lam <= 0 && c.steps.size() >= 2);
}
Ref refOf(const std::vector<cd>& a)
{
    Ref R;
    R.n = 0;
    while ((1ULL << R.n) < a.size()) ++R.n;
    R.a = a;
    return R;
}
bool runStrong(const Case& c, Stats& st)
{
    const int n = (int)c.get("n");
    const double lam = (double)(float)(c.get("lam") / 1e6);
    QInterfacePtr q = makeSim(c.stack, n, (u128)0, c.seed);
    Ref R(n, 0);
    for (auto& t : c.steps) {
        for (int x : t.q)
            if (x < 0 || x >= n) throw Invalid{ "range" };
        gate(t, q, R);
    }
    const int tq = (int)c.get("t");
    const bitLenInt anc = q->DepolarizingChannelStrong1Qb((bitLenInt)tq, (real1_f)lam);
    if (lam <= 0) throw Invalid{ "lam" };
    const cd x[4] = { std::sqrt(0.5), std::sqrt(0.5), std::sqrt(0.5), -std::sqrt(0.5) };
    if (anc != n || q->GetQubitCount() != n + 1) fail("strong", fmt("the strong channel returned ancilla %d and left %d qubits, of %d", (int)anc, (int)q->GetQubitCount(), n));
    R.insertZeros(n, 1);
    R.apply(x, tq);
    const double s = std::sqrt(std::sqrt(lam)), co = std::sqrt(std::max(0.0, 1 - s * s));
    const cd ry[4] = { co, -s, s, co };
    R.apply(ry, n, 1ULL << tq, 1ULL << tq);
    R.apply(x, tq);
    const double d = stateDiff(R.a, readAll(q));
    if (d > 2e-3) fail("strong", fmt("state after the strong channel on qubit %d is %.4f away from the reference", tq, d));
    if (c.kind == "depol") {
        // documented: a depolarizing channel, i.e. every Bloch component shrinks by (1 - lambda)
        auto bloch = [&](const Ref& r, int k) {
            double v = 0;
            const u64 b = 1ULL << tq;
            for (u64 i = 0; i < r.a.size(); ++i) {
                if (i & b) continue;
                const cd m = std::conj(r.a[i]) * r.a[i | b];
                v += k == 0 ? 2 * m.real() : k == 1 ? 2 * m.imag() : std::norm(r.a[i]) - std::norm(r.a[i | b]);
            }
            return v;
        };
        Ref before(n, 0);
        QInterfacePtr q2 = makeSim("cpu", n, (u128)0, 1);
        for (auto& t : c.steps) gate(t, q2, before);
        const Ref after = refOf(readAll(q));
        for (int k = 0; k < 3; ++k)
            if (std::abs(bloch(after, k) - (1 - lam) * bloch(before, k)) > 1e-3)
                fail("depolarizing", fmt("Bloch component %c after the documented depolarizing channel of strength %.3f: %.4f, a depolarizing channel gives %.4f", "XYZ"[k], lam, bloch(after, k), (1 - lam) * bloch(before, k)));
    }
    st.label(c.kind);
    return true;
}
Step drawG(Rng& r, int n, int style)
{
    Step t;
    for (;;) {
        const NG& g = r.pick(gates());
        if (g.nq > n) continue;
        t.op = g.name;
        t.q = r.distinct(n, g.nq);
        t.r.clear();
        for (int i = 0; i < g.nr; ++i) t.r.push_back(style ? (r.unit() * 2 - 1) * 4 * M_PI : r.range(-4, 4) * M_PI / 4);
        return t;
    }
}
i64 drawLam(Rng& r)
{
    switch (r.below(8)) {
    case 0: return r.pick(std::vector<i64>{ 0, 1, 10, 999999, 1000000 });
    case 1: return 1000000;
    case 2: return (i64)r.below(1000);
    case 3: return 10000;
    default: return (i64)r.below(1000001);
    }
}
Reg c20(Property{ "C20", [](bool t) -> u64 { return t ? 2000000 : 100000; },
    [](Rng& r, u64 idx, bool th) {
        Case c;
        c.prop = "C20";
        c.seed = r.next() & 0xffffffff;
        const int which = (int)r.below(100);
        if (which < 45) {
            // zero strength: the whole table
            static Mixer m;
            static bool init = false;
            if (!init) {
                init = true;
                const unsigned no = O_COND | O_ALU | O_PARITY | O_SAMPLE;
                m.add(5, [=](const OpDef& o) { return fl(o, O_1Q, no); });
                m.add(5, [=](const OpDef& o) { return fl(o, O_CTRL, no); });
                m.add(3, [=](const OpDef& o) { return fl(o, O_SWAP, no); });
                m.add(1, [=](const OpDef& o) { return fl(o, O_MASK | O_RANGE | O_UC | O_EVO, no); });
                m.add(1.5, [=](const OpDef& o) { return fl(o, O_MEAS | O_FORCE | O_RESET, no); });
                m.add(1.2, [=](const OpDef& o) { return fl(o, O_QUERY, no); });
                m.add(0.8, [=](const OpDef& o) { return fl(o, O_LOGIC | O_SHIFT | O_QFT, no); });
                m.add(0.4, [=](const OpDef& o) { return fl(o, O_HINT | O_IO, no); });
                m.add(1.5, [=](const OpDef& o) { return fl(o, O_STRUCT, no); });
            }
            c.kind = "zero";
            c.stack = r.chance(0.6) ? "noisy-cpu" : "noisy-qunit-cpu";
            const int n = r.range(1, 6);
            layout(c, r, n, n);
            if (r.chance(0.5)) c.p["perm"] = r.below(1ULL << n);
            if (r.chance(0.4)) {
                c.p["n1"] = r.range(1, 3);
                c.p["perm1"] = r.below(1ULL << c.p["n1"]);
            }
            c.p["cmp"] = r.pick(std::vector<int>{ 0, 1, 2 });
            GenCtx g = ctxOf(c, r);
            g.style = r.range(0, 3);
            genSteps(c, g, m, r.range(3, 20));
            return c;
        }
        if (which < 85) {
            c.kind = "traj";
            c.stack = r.chance(0.75) ? "noisy-cpu" : "noisy-qunit-cpu";
            const int n = r.range(1, 4);
            c.p["n"] = n;
            c.p["lam"] = drawLam(r);
            if (r.chance(0.08)) c.p["env"] = 1;
            const int k = (n <= 2 && r.chance(0.3)) ? 250 : r.range(1, 25), style = r.range(0, 1);
            for (int i = 0; i < k; ++i) {
                const int w = (int)r.below(40);
                Step t;
                if (w == 0) t.op = "Clone";
                else if (w == 1) t.op = "ResetF";
                else t = drawG(r, n, style);
                c.steps.push_back(t);
            }
            return c;
        }
        const int n = r.range(1, 4), style = r.range(0, 1);
        c.p["n"] = n;
        c.p["lam"] = std::max<i64>(1, drawLam(r));
        c.stack = r.pick(std::vector<std::string>{ "cpu", "qunit-cpu", "pager1", "cpu-norm" });
        if (which < 93) {
            c.kind = "weak";
            const int k = r.range(2, 30);
            for (int i = 0; i < k; ++i) {
                Step t;
                if (r.chance(0.35)) {
                    t.op = "Weak";
                    t.q = { (int)r.below(n) };
                } else t = drawG(r, n, style);
                c.steps.push_back(t);
            }
            return c;
        }
        c.kind = "strong";
        c.p["t"] = (i64)r.below(n);
        const int k = r.range(0, 8);
        for (int i = 0; i < k; ++i) c.steps.push_back(drawG(r, n, style));
        return c;
    },
    [](const Case& c, Stats& st) {
        try {
            if (c.kind == "zero") return runWorld(c, st);
            if (c.kind == "strong" || c.kind == "depol") return runStrong(c, st);
            return runTraj(c, st);
        } catch (const Invalid&) {
            return false;
        }
    },
    "non-trivial: (zero) two or more operations executed and a superposed state compared; (traj, weak) at least two noise events, or none because the strength is 0; (strong) always",
    "a noise event is the ancilla construction the strong channel leaves explicit; a step's events are matched jointly against all outcome records" });
} // namespace
