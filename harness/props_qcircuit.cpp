// C13: circuit objects against the gate-by-gate action of their source gates.
#include "core.hpp"
#include "qcircuit.hpp"
#include "qengine_cpu.hpp"
#include <sstream>
using namespace vq;
namespace {
struct MG { // one source gate: uniformly controlled, keys over the listed controls in the listed (ascending) order; swap when sw
    bool sw = false;
    int t = 0;
    std::vector<int> c;
    std::vector<std::pair<u64, std::vector<cd>>> m;
};
void applyMG(Ref& R, const MG& g)
{
    if (g.sw) {
        const cd x[4] = { 0, 1, 1, 0 };
        const u64 bt = 1ULL << g.t, bc = 1ULL << g.c[0];
        R.apply(x, g.c[0], bt, bt);
        R.apply(x, g.t, bc, bc);
        R.apply(x, g.c[0], bt, bt);
        return;
    }
    for (const auto& p : g.m) {
        u64 mask = 0, val = 0;
        for (size_t i = 0; i < g.c.size(); ++i) {
            mask |= 1ULL << g.c[i];
            if ((p.first >> i) & 1) val |= 1ULL << g.c[i];
        }
        R.apply(p.second.data(), g.t, mask, val);
    }
}
// random single-qubit matrices from named families: index and three angles
const int NKIND = 17;
void family(int k, const double* r, cd* m)
{
    const double s = std::sqrt(0.5);
    const cd I(0, 1);
    auto set = [&](cd a, cd b, cd c, cd d) { m[0] = a; m[1] = b; m[2] = c; m[3] = d; };
    switch (k) {
    case 0: return set(0, 1, 1, 0);
    case 1: return set(0, -I, I, 0);
    case 2: return set(1, 0, 0, -1);
    case 3: return set(s, s, s, -s);
    case 4: return set(1, 0, 0, I);
    case 5: return set(1, 0, 0, -I);
    case 6: return set(1, 0, 0, std::polar(1.0, M_PI / 4));
    case 7: return set(1, 0, 0, std::polar(1.0, -M_PI / 4));
    case 8: return set(0.5 * cd(1, 1), 0.5 * cd(1, -1), 0.5 * cd(1, -1), 0.5 * cd(1, 1));
    case 9: return set(std::polar(1.0, r[0]), 0, 0, std::polar(1.0, r[1]));
    case 10: return set(0, std::polar(1.0, r[0]), std::polar(1.0, r[1]), 0);
    case 11: return set(1, 0, 0, 1);
    case 12: return set(I, 0, 0, I);
    case 13: return set(0, I, 1, 0);
    case 14: return set(-1, 0, 0, -1);
    case 15: return set(s, s * -I, s * I * cd(0, -1), s * I * 1.0 * I * cd(0, -1)); // an SH-like Clifford
    default: {
        const double th = r[2] / 2;
        return set(std::cos(th), -std::polar(1.0, r[0]) * std::sin(th), std::polar(1.0, r[1]) * std::sin(th), std::polar(1.0, r[0] + r[1]) * std::cos(th));
    }
    }
}
bool unitary(const cd* m)
{
    return std::abs(std::norm(m[0]) + std::norm(m[1]) - 1) < 1e-9 && std::abs(std::norm(m[2]) + std::norm(m[3]) - 1) < 1e-9 &&
        std::abs(m[0] * std::conj(m[2]) + m[1] * std::conj(m[3])) < 1e-9;
}
std::shared_ptr<Qrack::complex> cm(const std::vector<cd>& m)
{
    std::shared_ptr<Qrack::complex> p(new Qrack::complex[4], std::default_delete<Qrack::complex[]>());
    for (int i = 0; i < 4; ++i) p.get()[i] = Qrack::complex((float)m[i].real(), (float)m[i].imag());
    return p;
}
Qrack::QCircuitGatePtr realGate(const MG& g, int form)
{
    using namespace Qrack;
    if (g.sw) return std::make_shared<QCircuitGate>((bitLenInt)g.t, (bitLenInt)g.c[0]);
    std::set<bitLenInt> cs(g.c.begin(), g.c.end());
    if (g.c.empty()) return std::make_shared<QCircuitGate>((bitLenInt)g.t, cm(g.m[0].second).get());
    if (g.m.size() == 1 && !form) return std::make_shared<QCircuitGate>((bitLenInt)g.t, cm(g.m[0].second).get(), cs, (bitCapInt)g.m[0].first);
    std::map<bitCapInt, std::shared_ptr<complex>> pl;
    for (auto& p : g.m) pl[(bitCapInt)p.first] = cm(p.second);
    return std::make_shared<QCircuitGate>((bitLenInt)g.t, pl, cs);
}
MG modelGate(const Step& st)
{
    MG g;
    if (st.op == "swapgate") {
        g.sw = true;
        g.t = st.q[0];
        g.c = { st.q[1] };
        return g;
    }
    g.t = st.q[0];
    g.c.assign(st.q.begin() + 1, st.q.end());
    std::sort(g.c.begin(), g.c.end());
    std::set<u64> keys;
    for (size_t i = 1; i + 1 < st.v.size(); i += 2) {
        const u64 key = (u64)st.v[i] & ((1ULL << g.c.size()) - 1);
        if (!keys.insert(key).second) continue;
        std::vector<cd> m(4);
        const size_t ro = 3 * ((i - 1) / 2);
        static const double z[3] = { 0.5, 0.7, 1.1 };
        family((int)(st.v[i + 1] % NKIND), ro + 3 <= st.r.size() ? &st.r[ro] : z, m.data());
        if (!unitary(m.data())) family(3, z, m.data());
        g.m.push_back({ key, m });
    }
    if (g.m.empty()) g.m.push_back({ 0, { 1, 0, 0, 1 } });
    return g;
}
struct Slot {
    Qrack::QCircuitPtr c;
    std::vector<MG> src;
};
Ref initState(int n, u64 seed)
{
    Ref R(n);
    Rng r(seed);
    for (auto& a : R.a) a = cd(r.unit() * 2 - 1, r.unit() * 2 - 1);
    R.normalize();
    return R;
}
std::shared_ptr<Qrack::QEngineCPU> engine(int n, const Ref& R)
{
    using namespace Qrack;
    auto rng = std::make_shared<qrack_rand_gen>(7);
    auto q = std::make_shared<QEngineCPU>((bitLenInt)n, (bitCapInt)0, rng, CMPLX_DEFAULT_ARG, false, false, false, -1, false);
    std::vector<complex> v(R.a.size());
    for (size_t i = 0; i < v.size(); ++i) v[i] = complex((float)R.a[i].real(), (float)R.a[i].imag());
    q->SetQuantumState(v.data());
    return q;
}
std::vector<cd> stateOf(Qrack::QInterfacePtr q, int n)
{
    std::vector<Qrack::complex> v((size_t)1 << n);
    q->GetQuantumState(v.data());
    return std::vector<cd>(v.begin(), v.end());
}
void checkRun(const Slot& s, int n, u64 seed, const std::string& where)
{
    Ref R = initState(n, seed);
    auto q = engine(n, R);
    s.c->Run(q);
    if (q->GetQubitCount() != n) fail("circuit:width", where + fmt(": running on a %d-qubit register left %d qubits", n, (int)q->GetQubitCount()));
    for (const auto& g : s.src) applyMG(R, g);
    const double d = stateDiff(R.a, stateOf(q, n));
    if (!(d < 4e-3))
        fail("circuit:state:" + where, where + fmt(": running the circuit (%d source gates, %d stored gates) differs from applying its source gates by %g", (int)s.src.size(),
                                       (int)s.c->GetGateList().size(), d));
}
MG inverseOf(const MG& g)
{
    MG o = g;
    for (auto& p : o.m) {
        auto& m = p.second;
        m = { std::conj(m[0]), std::conj(m[2]), std::conj(m[1]), std::conj(m[3]) };
    }
    return o;
}
MG cnotM(int c, int t)
{
    MG g;
    g.t = t;
    g.c = { c };
    g.m.push_back({ 1, { 0, 1, 1, 0 } });
    return g;
}
Reg c13(Property{ "C13", [](bool th) -> u64 { return th ? 20000000 : 1000000; },
    [](Rng& r, u64, bool) {
        Case c;
        c.kind = "circuit";
        c.stack = "qcircuit";
        c.seed = r.next() & 0xffffffff;
        const int n = r.range(1, 5), slots = r.pick(std::vector<int>{ 1, 1, 2, 3 });
        c.p["n"] = n;
        c.p["slots"] = slots;
        c.p["near"] = r.chance(0.25);
        c.p["collapse"] = !r.chance(0.12);
        const int style = r.range(0, 4); // 0: few kinds, 1: phases and inverts, 2: any, 3: cnots, 4: mirrored
        std::vector<Step> recent;
        const int k = r.range(1, 24);
        auto gate = [&]() {
            Step st;
            const double u = r.unit();
            if (n >= 2 && u < 0.04) {
                st.op = "swapgate";
                st.q = r.distinct(n, 2);
                return st;
            }
            st.op = "g";
            const int maxc = std::min(n - 1, 3);
            int nc = r.chance(0.45) ? 0 : std::min(maxc, r.chance(0.6) ? 1 : r.range(1, 3));
            if (style == 3 && n >= 2) nc = r.chance(0.85) ? 1 : nc;
            st.q = r.distinct(n, nc + 1);
            const int np = nc == 0 ? 1 : (r.chance(0.6) ? 1 : r.range(1, std::min(1 << nc, 3)));
            st.v.push_back(r.below(2));
            for (int i = 0; i < np; ++i) {
                st.v.push_back(nc ? (i64)r.below(1u << nc) : 0);
                int kd;
                if (style == 3) kd = r.chance(0.85) ? 0 : (int)r.below(NKIND);
                else if (style == 0) kd = r.pick(std::vector<int>{ 0, 2, 3, 4, 6 });
                else if (style == 1) kd = r.pick(std::vector<int>{ 0, 1, 2, 4, 5, 9, 10, 12, 13 });
                else kd = (int)r.below(NKIND);
                if (style == 3 && nc) st.v[st.v.size() - 1] = r.chance(0.5) ? (1 << nc) - 1 : 0;
                st.v.push_back(kd);
                for (int j = 0; j < 3; ++j) st.r.push_back(std::round((r.unit() * 6 - 3) * 16) / 16 + 0.03125);
            }
            return st;
        };
        for (int i = 0; i < k; ++i) {
            Step st;
            const double u = r.unit();
            if (u < 0.72) {
                if (!recent.empty() && r.chance(style == 4 ? 0.5 : 0.25)) st = recent[recent.size() - 1 - r.below(std::min<size_t>(recent.size(), 6))]; // repeats and cancellations
                else st = gate();
                if (st.op == "g") recent.push_back(st);
                if (st.op == "g" && style == 4 && r.chance(0.4)) st.op = "ginv";
            } else if (u < 0.77 && n >= 2) { st.op = "swap"; st.q = r.distinct(n, 2); }
            else if (u < 0.80) { st.op = "inc"; const int s = r.range(0, n - 1), l = r.range(0, n - s); st.v = { s, l, (i64)r.below(1u << std::max(1, l)) }; }
            else if (u < 0.83) { st.op = "io"; }
            else if (u < 0.86) { st.op = "same"; Step g = gate(); if (g.op != "g") continue; st.q = g.q; st.v = g.v; st.r = g.r; }
            else if (u < 0.90) { st.op = "check"; }
            else if (u < 0.93) { st.op = "plc"; st.q = r.distinct(n, r.range(1, n)); }
            else if (u < 0.945) { st.op = "undo"; }
            else if (slots > 1) { st.op = r.pick(std::vector<std::string>{ "append", "combine", "clone", "inverse" }); st.v = { (i64)r.below(slots) }; }
            else { st.op = r.pick(std::vector<std::string>{ "clone", "inverse", "append", "combine" }); st.v = { 0 }; if (st.op == "append" || st.op == "combine") { if (recent.size() > 6) continue; } }
            st.s = (int)r.below(slots);
            c.steps.push_back(st);
        }
        return c;
    },
    [](const Case& c, Stats& S) -> bool {
        using namespace Qrack;
        const int n = (int)c.get("n"), slots = (int)c.get("slots", 1);
        std::vector<Slot> sl(slots);
        for (auto& s : sl) s.c = std::make_shared<QCircuit>((bool)c.get("collapse", 1), (bool)c.get("near", 0));
        int gates = 0, merges = 0;
        std::vector<QCircuitGatePtr> pool;
        for (const auto& st : c.steps) {
            Slot& s = sl[st.s % slots];
            if (s.src.size() > 400) continue;
            S.label("step:" + st.op);
            if (st.op == "g" || st.op == "ginv" || st.op == "swapgate" || st.op == "same") {
                MG g = modelGate(st);
                if (st.op == "ginv") g = inverseOf(g);
                const size_t before = s.c->GetGateList().size();
                QCircuitGatePtr rg = realGate(g, st.v.empty() ? 0 : (int)st.v[0]);
                s.c->AppendGate(rg);
                s.src.push_back(g);
                if (st.op == "same") { // the very same gate object appended again, here and elsewhere
                    s.c->AppendGate(rg);
                    s.src.push_back(g);
                    Slot& o = sl[(st.s + 1) % slots];
                    o.c->AppendGate(rg);
                    o.src.push_back(g);
                }
                ++gates;
                if (s.c->GetGateList().size() <= before) ++merges;
            } else if (st.op == "swap") {
                s.c->Swap((bitLenInt)st.q[0], (bitLenInt)st.q[1]);
                MG g;
                g.sw = true;
                g.t = st.q[0];
                g.c = { st.q[1] };
                s.src.push_back(g);
            } else if (st.op == "inc") {
                const int start = (int)st.v[0], len = (int)st.v[1];
                if (start + len > n) continue;
                s.c->INC((bitCapInt)st.v[2], (bitLenInt)start, (bitLenInt)len);
                for (int i = 0; i < len; ++i) { // the model adds 2^i by multi-controlled flips from the top bit down
                    if (!((st.v[2] >> i) & 1)) continue;
                    for (int j = len - 1; j >= i; --j) {
                        MG g;
                        g.t = start + j;
                        u64 key = 0;
                        for (int q = i; q < j; ++q) { g.c.push_back(start + q); key |= 1ULL << (q - i); }
                        g.m.push_back({ key, { 0, 1, 1, 0 } });
                        s.src.push_back(g);
                    }
                }
            } else if (st.op == "io") {
                std::stringstream ss;
                ss.precision(17);
                ss << s.c;
                QCircuitPtr in = std::make_shared<QCircuit>((bool)c.get("collapse", 1), (bool)c.get("near", 0));
                ss >> in;
                if (in->GetQubitCount() != s.c->GetQubitCount()) fail("circuit:io", fmt("qubit count %d became %d through the stream", (int)s.c->GetQubitCount(), (int)in->GetQubitCount()));
                s.c = in;
            } else if (st.op == "check") checkRun(s, n, c.seed, "check");
            else if (st.op == "clone" || st.op == "inverse") {
                Slot& o = sl[st.v[0] % slots];
                Slot x;
                x.src = o.src;
                if (st.op == "clone") x.c = o.c->Clone();
                else {
                    x.c = o.c->Inverse();
                    std::reverse(x.src.begin(), x.src.end());
                    for (auto& g : x.src) g = inverseOf(g);
                }
                s = x;
            } else if (st.op == "append" || st.op == "combine") {
                Slot& o = sl[st.v[0] % slots];
                if (&o == &s) continue; // the argument is another circuit
                if (st.op == "append") s.c->Append(o.c);
                else s.c->Combine(o.c);
                s.src.insert(s.src.end(), o.src.begin(), o.src.end());
            } else if (st.op == "undo") { // circuit followed by its inverse
                Slot x = s;
                Ref R = initState(n, c.seed);
                auto q = engine(n, R);
                s.c->Run(q);
                s.c->Inverse()->Run(q);
                const double d = stateDiff(R.a, stateOf(q, n));
                if (!(d < 4e-3)) fail("circuit:undo", fmt("running the circuit and then its inverse changes the state by %g", d));
            } else if (st.op == "plc") {
                std::set<bitLenInt> qs(st.q.begin(), st.q.end());
                QCircuitPtr p = s.c->PastLightCone(qs);
                Ref R = initState(n, c.seed);
                auto q = engine(n, R);
                p->Run(q);
                for (const auto& g : s.src) applyMG(R, g);
                Ref A(n);
                A.a = stateOf(q, n);
                // same random local rotation on the chosen qubits, then compare their joint distribution
                Rng r(c.seed ^ 0x55);
                for (int x : st.q) {
                    double an[3] = { r.unit() * 6, r.unit() * 6, r.unit() * 3 + 0.1 };
                    cd m[4];
                    family(16, an, m);
                    A.apply(m, x);
                    R.apply(m, x);
                }
                auto pa = A.marginal(st.q), pr = R.marginal(st.q);
                for (size_t i = 0; i < pa.size(); ++i)
                    if (!(std::abs(pa[i] - pr[i]) < 4e-3)) fail("circuit:plc", fmt("the past light cone changes a marginal of its qubits by %g", std::abs(pa[i] - pr[i])));
            }
        }
        for (auto& s : sl) {
            int top = -1;
            for (const auto& g : s.c->GetGateList()) {
                top = std::max(top, (int)g->target);
                for (int q : g->controls) top = std::max(top, q);
            }
            if (top >= (int)s.c->GetQubitCount()) fail("circuit:count", fmt("the circuit uses qubit %d but reports %d qubits", top, (int)s.c->GetQubitCount()));
            checkRun(s, n, c.seed, "end");
        }
        if (merges) S.label("merged or cancelled");
        return gates >= 2;
    },
    "at least two gates were appended and the circuit's action on a random entangled state was compared",
    "Equality is up to a global phase and 4e-3 per amplitude (the optimiser drops gates within 1.7e-4 of the identity); circuits run on the dense CPU engine, which C01 checks separately." });
} // namespace
