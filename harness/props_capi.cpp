// C15: histories of calls of the exported C functions over several simulators with caller-chosen qubit ids, against
// a model that keeps, per simulator, the list of ids and the reference state of exactly those logical qubits.
#include "gen.hpp"
#include "hamiltonian.hpp"
#include <cstddef>
#define init capi_unused_init
namespace capi {
#include "pinvoke_api.hpp"
}
#undef init
using namespace vq;
namespace {
typedef unsigned long long uq;
typedef std::vector<int> VI;
typedef std::vector<uq> VU;
struct Skip {};
struct Mod {
    uq sid;
    int type; // bit 0: separating layer
    VU ids; // caller's id of each reference qubit
    Ref R;
    bool ident = true; // basis index bit k is known to be ids[k]
    double blur = 1;
    int n() const { return (int)ids.size(); }
};
uq maxSid = 0; // largest handle seen in this process: the tables never shrink
VU dumped;
void onId(uq i) { dumped.push_back(i); }
std::vector<cd> dumpedAmps;
size_t dumpStop = 0;
bool onAmp(size_t i, double re, double im)
{
    if (i != dumpedAmps.size()) dumpedAmps.push_back(cd(99, 99));
    dumpedAmps.push_back(cd(re, im));
    return dumpedAmps.size() < dumpStop;
}
Ref reorder(const Ref& R, const VI& order) // new bit k = old bit order[k]
{
    Ref o = R;
    for (u64 i = 0; i < R.a.size(); ++i) {
        u64 k = 0;
        for (size_t j = 0; j < order.size(); ++j)
            if ((i >> order[j]) & 1) k |= 1ULL << j;
        o.a[k] = R.a[i];
    }
    return o;
}
u64 rget(u64 i, const VI& b)
{
    u64 o = 0;
    for (size_t k = 0; k < b.size(); ++k) o |= ((i >> b[k]) & 1) << k;
    return o;
}
u64 rset(u64 i, const VI& b, u64 v)
{
    for (size_t k = 0; k < b.size(); ++k) i = (i & ~(1ULL << b[k])) | (((v >> k) & 1) << b[k]);
    return i;
}
const double S2 = std::sqrt(0.5);
const cd J(0, 1);
typedef std::vector<cd> M;
M mul(const M& a, const M& b) { return { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3] }; }
M adj(const M& a) { return { std::conj(a[0]), std::conj(a[2]), std::conj(a[1]), std::conj(a[3]) }; }
M U3(double th, double ph, double la)
{
    const double c = std::cos(th / 2), s = std::sin(th / 2);
    return { c, -std::polar(1.0, la) * s, std::polar(1.0, ph) * s, std::polar(1.0, ph + la) * c };
}
const M mX{ 0, 1, 1, 0 }, mY{ 0, -J, J, 0 }, mZ{ 1, 0, 0, -1 }, mH{ S2, S2, S2, -S2 }, mS{ 1, 0, 0, J }, mT{ 1, 0, 0, cd(S2, S2) }, mSX{ cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5) },
    mSY{ cd(.5, .5), cd(-.5, -.5), cd(.5, .5), cd(.5, .5) }, mI{ 1, 0, 0, 1 };
const M& pauli(int b) { return b == 1 ? mX : b == 2 ? mZ : b == 3 ? mY : mI; }
M pauliBasis(int b) // takes the eigenbasis of the Pauli to the computational one
{
    if (b == 1) return mH;
    if (b == 3) return mul(mH, adj(mS));
    return mI;
}
// exp(i f P1 x P2 ...) where the controls are set
void expPauli(Ref& R, const VI& b, const VI& q, double f, u64 cm)
{
    Ref B = R;
    for (size_t i = 0; i < q.size(); ++i) B.apply(pauli(b[i]).data(), q[i]);
    for (u64 i = 0; i < R.a.size(); ++i)
        if ((i & cm) == cm) R.a[i] = std::cos(f) * R.a[i] + J * std::sin(f) * B.a[i];
}
void dft(Ref& R, const VI& b, bool inv)
{
    const int L = (int)b.size();
    const u64 D = 1ULL << L;
    auto rev = [L](u64 x) {
        u64 o = 0;
        for (int i = 0; i < L; ++i) o |= ((x >> i) & 1) << (L - 1 - i);
        return o;
    };
    u64 m = 0;
    for (int x : b) m |= 1ULL << x;
    std::vector<cd> o(R.a.size(), cd(0, 0));
    for (u64 i = 0; i < R.a.size(); ++i) {
        if (i & m) continue;
        for (u64 x = 0; x < D; ++x) {
            const cd a = R.a[rset(i, b, x)] / std::sqrt((double)D);
            for (u64 y = 0; y < D; ++y) {
                const double ang = 2 * M_PI * (double)((inv ? y * rev(x) : x * rev(y)) % D) / (double)D;
                o[rset(i, b, y)] += a * std::polar(1.0, inv ? ang : -ang);
            }
        }
    }
    R.a.swap(o);
}
u64 powmod(u64 b, u64 e, u64 m)
{
    unsigned __int128 r = 1 % m, x = b % m;
    for (; e; e >>= 1, x = x * x % m)
        if (e & 1) r = r * x % m;
    return (u64)r;
}
struct OpS {
    const char* name;
    int lo, hi; // qubits
    int nr, nv;
    int w; // weight
};
const std::vector<OpS>& opTable()
{
    static const std::vector<OpS> t = { { "X", 1, 1, 0, 0, 2 }, { "Y", 1, 1, 0, 0, 1 }, { "Z", 1, 1, 0, 0, 1 }, { "H", 1, 1, 0, 0, 6 }, { "S", 1, 1, 0, 0, 1 }, { "SX", 1, 1, 0, 0, 1 },
        { "SY", 1, 1, 0, 0, 1 }, { "T", 1, 1, 0, 0, 2 }, { "AdjS", 1, 1, 0, 0, 1 }, { "AdjSX", 1, 1, 0, 0, 1 }, { "AdjSY", 1, 1, 0, 0, 1 }, { "AdjT", 1, 1, 0, 0, 1 },
        { "U", 1, 1, 3, 0, 4 }, { "Mtrx", 1, 1, 4, 1, 2 }, { "MC", 1, 4, 4, 3, 12 }, { "UCMtrx", 1, 4, 4, 2, 2 }, { "Multiplex", 1, 3, 4, 2, 2 }, { "MX", 1, 4, 0, 0, 1 },
        { "MY", 1, 4, 0, 0, 1 }, { "MZ", 1, 4, 0, 0, 1 }, { "R", 1, 1, 1, 1, 2 }, { "MCR", 1, 4, 1, 1, 2 }, { "Exp", 1, 4, 1, 2, 3 }, { "MCExp", 1, 5, 1, 2, 3 }, { "SWAP", 2, 2, 0, 0, 4 },
        { "ISWAP", 2, 2, 0, 0, 2 }, { "AdjISWAP", 2, 2, 0, 0, 1 }, { "FSim", 2, 2, 2, 0, 1 }, { "CSWAP", 2, 4, 0, 1, 2 }, { "LOGIC", 3, 3, 0, 1, 2 }, { "CLOGIC", 2, 2, 0, 2, 1 },
        { "QFT", 1, 4, 0, 1, 2 }, { "ADD", 1, 5, 0, 3, 4 }, { "ADDS", 3, 5, 0, 2, 2 }, { "MCADD", 2, 6, 0, 4, 2 }, { "MUL", 2, 6, 0, 4, 4 }, { "MULN", 2, 6, 0, 5, 4 }, { "POWN", 2, 6, 0, 5, 2 },
        { "LDA", 2, 5, 0, 3, 2 }, { "ADC", 3, 6, 0, 4, 2 }, { "Hash", 1, 4, 0, 1, 2 }, { "M", 1, 1, 0, 0, 1 }, { "ForceM", 1, 1, 0, 1, 1 }, { "MAll", 0, 0, 0, 0, 1 }, { "Measure", 1, 4, 0, 2, 1 },
        { "Shots", 1, 4, 0, 1, 1 }, { "Prob", 1, 1, 0, 1, 1 }, { "ProbAll", 1, 5, 0, 0, 1 }, { "PermProb", 1, 5, 0, 2, 1 }, { "PermExp", 1, 4, 0, 2, 1 }, { "FactExp", 1, 4, 3, 2, 2 },
        { "UnitExp", 1, 2, 4, 1, 2 }, { "PauliExp", 1, 4, 0, 2, 1 }, { "Joint", 1, 4, 0, 2, 1 }, { "PhaseParity", 1, 4, 1, 0, 1 }, { "PhaseRootN", 1, 4, 0, 1, 1 }, { "TimeEvolve", 1, 3, 5, 1, 1 },
        { "ResetAll", 0, 0, 0, 0, 1 }, { "Ket", 0, 0, 0, 2, 2 }, { "Alloc", 0, 0, 0, 2, 6 }, { "Release", 1, 1, 0, 0, 4 }, { "New", 0, 0, 0, 2, 2 }, { "Clone", 0, 0, 0, 0, 2 }, { "Destroy", 0, 0, 0, 0, 1 },
        { "Compose", 0, 0, 0, 2, 3 }, { "Decompose", 1, 4, 0, 0, 4 }, { "Dispose", 1, 4, 0, 0, 4 }, { "Separate", 1, 4, 0, 1, 3 }, { "TrySep", 1, 3, 0, 1, 1 }, { "Misc", 0, 0, 0, 1, 1 },
        { "Circuit", 0, 0, 0, 4, 3 }, { "Neuron", 1, 4, 4, 2, 2 }, { "BadHandle", 0, 0, 0, 1, 1 } };
    return t;
}
const OpS* opOf(const std::string& n)
{
    for (auto& o : opTable())
        if (n == o.name) return &o;
    return nullptr;
}
struct Runner {
    const Case& c;
    Stats& st;
    std::vector<Mod> w;
    Rng rng;
    size_t si = 0;
    bool nontriv = false;
    // injected unknown identifiers
    int badAt = -1, cnt = 0;
    bool injected = false;
    uq badDelta = 0;
    Runner(const Case& c_, Stats& s_) : c(c_), st(s_), rng(mix(c_.seed, 15)) {}
    ~Runner()
    {
        for (auto& m : w) capi::destroy(m.sid);
        (void)capi::get_error(0);
    }
    [[noreturn]] void bad(const char* sig, const std::string& m) { fail(sig, fmt("step %zu (%s): ", si, si < c.steps.size() ? c.steps[si].str().c_str() : "end") + m); }
    void num(const char* what, double got, double want, double tol)
    {
        if (!(std::abs(got - want) <= tol)) bad("number", fmt("%s returned %.6f, the reference says %.6f", what, got, want));
    }
    uq id(Mod& m, int k)
    {
        if (cnt++ == badAt) {
            uq u = m.ids[k] + badDelta;
            while (std::find(m.ids.begin(), m.ids.end(), u) != m.ids.end()) u += 256;
            injected = true;
            return u;
        }
        return m.ids[k];
    }
    VU ids(Mod& m, const VI& q)
    {
        VU o;
        for (int k : q) o.push_back(id(m, k));
        o.push_back(0); // never an empty array
        return o;
    }
    static VI pick(const Mod& m, const Step& t, size_t need)
    {
        if ((size_t)m.n() < need) throw Skip();
        VI av, o;
        for (int i = 0; i < m.n(); ++i) av.push_back(i);
        for (size_t i = 0; i < need; ++i) {
            const int k = (int)((unsigned)t.q.at(i) % av.size());
            o.push_back(av[k]);
            av.erase(av.begin() + k);
        }
        return o;
    }
    static u64 mask(const VI& q)
    {
        u64 o = 0;
        for (int x : q) o |= 1ULL << x;
        return o;
    }
    void sid(uq s) { maxSid = std::max(maxSid, s); }
    std::vector<cd> ket(Mod& m)
    {
        std::vector<float> k(2ULL << m.n(), 7.f);
        capi::OutKet(m.sid, k.data());
        std::vector<cd> o;
        for (size_t i = 0; i < k.size(); i += 2) o.push_back(cd(k[i], k[i + 1]));
        return o;
    }
    void check(Mod& m, const char* when, int strings, bool full)
    {
        const int e = capi::get_error(m.sid);
        if (e) bad("error", fmt("%s: get_error(%llu) = %d after calls with valid arguments", when, m.sid, e));
        const uq n = capi::num_qubits(m.sid);
        if (n != (uq)m.n()) bad("width", fmt("%s: simulator %llu reports %llu qubits, %d are allocated", when, m.sid, n, m.n()));
        dumped.clear();
        capi::DumpIds(m.sid, onId);
        std::set<uq> a(dumped.begin(), dumped.end()), b(m.ids.begin(), m.ids.end());
        if (dumped.size() != m.ids.size() || a != b) bad("ids", fmt("%s: DumpIds of simulator %llu does not list the %d allocated ids", when, m.sid, m.n()));
        if (!m.n()) return;
        const double tol = 3e-3 * m.blur;
        VI ord = rng.perm(m.n());
        VU q;
        for (int k : ord) q.push_back(m.ids[k]);
        std::vector<float> p(1ULL << m.n(), 7.f);
        capi::ProbAll(m.sid, q.size(), q.data(), p.data());
        const std::vector<double> want = m.R.marginal(ord);
        for (size_t i = 0; i < want.size(); ++i)
            if (!(std::abs(p[i] - want[i]) <= tol)) bad("prob", fmt("%s: simulator %llu: probability of basis value %zu of its ids is %.5f, the reference says %.5f", when, m.sid, i, p[i], want[i]));
        for (int s = 0; s < strings; ++s) {
            std::vector<int> bs(m.n() + 1, 0);
            Ref x = m.R;
            u64 mk = 0;
            for (int k = 0; k < m.n(); ++k) {
                bs[k] = rng.range(0, 3);
                if (bs[k]) mk |= 1ULL << ord[k];
                x.apply(pauliBasis(bs[k]).data(), ord[k]);
            }
            if (!mk) continue;
            double w1 = 0;
            for (u64 i = 0; i < x.a.size(); ++i)
                if (__builtin_parityll(i & mk)) w1 += std::norm(x.a[i]);
            const double g = capi::JointEnsembleProbability(m.sid, m.n(), bs.data(), q.data());
            if (!(std::abs(g - w1) <= tol)) bad("joint", fmt("%s: simulator %llu: joint probability in a Pauli basis is %.5f, the reference says %.5f", when, m.sid, g, w1));
        }
        if (!full || m.n() > 6) return;
        const std::vector<cd> k = ket(m);
        VI o(m.n());
        for (int i = 0; i < m.n(); ++i) o[i] = i;
        double best = 9;
        do {
            best = std::min(best, stateDiff(reorder(m.R, o).a, k));
            if (m.ident || best <= tol) break;
        } while (std::next_permutation(o.begin(), o.end()));
        if (!(best <= tol)) bad("ket", fmt("%s: simulator %llu: the state vector is %.4f away from the reference%s", when, m.sid, best, m.ident ? "" : " in every qubit order"));
        std::vector<float> pr(k.size(), 7.f);
        capi::OutProbs(m.sid, pr.data());
        for (size_t i = 0; i < k.size(); ++i)
            if (!(std::abs(pr[i] - std::norm(k[i])) <= tol)) bad("probs", fmt("%s: OutProbs differs from OutKet", when));
        dumpedAmps.clear();
        dumpStop = rng.chance(0.3) ? 1 + rng.below(k.size()) : ~(size_t)0;
        capi::Dump(m.sid, onAmp);
        const size_t len = std::min(k.size(), dumpStop);
        if (dumpedAmps.size() != len) bad("dump", fmt("%s: Dump gave %zu amplitudes of %zu asked for", when, dumpedAmps.size(), len));
        if (!(stateDiff(std::vector<cd>(k.begin(), k.begin() + len), dumpedAmps) <= tol)) bad("dump", fmt("%s: Dump differs from OutKet", when));
        int sup = 0;
        for (auto& x : m.R.a)
            if (std::norm(x) > 1e-3) ++sup;
        if (sup > 1 && m.n() > 1) nontriv = true;
    }
    void project(Mod& m, u64 mk, u64 val, const char* what)
    {
        const double p = m.R.probMask(mk, val);
        if (p < 1e-5 * m.blur) bad("outcome", fmt("%s gave an outcome of probability %.3g", what, p));
        m.R.project(mk, val);
        m.blur = std::max(m.blur, m.R.blur);
    }
    static M paramMtrx(const Step& t)
    {
        const int k = (int)(t.v.at(0) % 4);
        M u = U3(k == 1 ? 0 : k == 2 ? M_PI : t.r.at(0), t.r.at(1), t.r.at(2));
        for (auto& x : u) x *= std::polar(1.0, k == 3 ? 0 : t.r.at(3));
        if (k == 1) u[1] = u[2] = 0;
        if (k == 2) u[0] = u[3] = 0;
        return u;
    }
    static std::vector<double> flat(const M& m)
    {
        std::vector<double> o;
        for (auto& x : m) o.push_back(x.real()), o.push_back(x.imag());
        return o;
    }
    VI bases(const Step& t, size_t n) // from v[0]: base 4 digits
    {
        VI o;
        for (size_t i = 0; i < n; ++i) {
            o.push_back((int)((t.v.at(0) >> (2 * i)) & 3));
            if (badAt >= 0 && !o.back()) o.back() = 1; // an identity factor leaves its qubit unused
        }
        o.push_back(0);
        return o;
    }
    bool isZero(Mod& m, const VI& q)
    {
        for (int x : q)
            if (m.R.prob(x) > 1e-12) return false;
        return true;
    }
    void zeroOrSkip(Mod& m, const VI& q)
    {
        if (!isZero(m, q)) throw Skip();
        const u64 mk = mask(q);
        for (u64 i = 0; i < m.R.a.size(); ++i)
            if (i & mk) m.R.a[i] = 0;
    }
    bool factor(Mod& m, const VI& q, Ref& part, Ref& rest, VI& others)
    {
        others.clear();
        for (int i = 0; i < m.n(); ++i)
            if (std::find(q.begin(), q.end(), i) == q.end()) others.push_back(i);
        VI o = others;
        o.insert(o.end(), q.begin(), q.end());
        return reorder(m.R, o).split((int)others.size(), (int)q.size(), part, rest, 1e-7);
    }
    void exec(const Step& t);
    void structural(Mod& m, const Step& t);
    void alu(Mod& m, const Step& t);
    void query(Mod& m, const Step& t);
    void circuit(Mod& m, const Step& t);
    void neuron(Mod& m, const Step& t);
    void badHandle(const Step& t);
    bool go();
};
void Runner::exec(const Step& t)
{
    const std::string& o = t.op;
    const OpS* d = opOf(o);
    if (!d) throw Invalid{ "op" };
    if ((int)t.q.size() < d->lo || (int)t.q.size() > d->hi || (int)t.r.size() < d->nr || (int)t.v.size() < d->nv) throw Invalid{ "arity" };
    for (i64 x : t.v)
        if (x < 0) throw Invalid{ "v" };
    if (o == "New") {
        if (w.size() >= 4) throw Skip();
        Mod m;
        const int n = (int)(t.v[0] % 5);
        m.type = (int)(t.v[1] & 1);
        m.sid = capi::init_count_type(n, false, false, m.type & 1, false, false, false, false, false, false, t.v[1] & 2);
        for (auto& x : w)
            if (x.sid == m.sid) bad("handle", fmt("init returned the handle %llu, which is in use", m.sid));
        sid(m.sid);
        for (int i = 0; i < n; ++i) m.ids.push_back(i);
        m.R = Ref(n, 0);
        w.push_back(m);
        return;
    }
    if (w.empty() || t.s < 0) throw Skip();
    Mod& m = w[(size_t)t.s % w.size()];
    static const std::set<std::string> ST{ "Alloc", "Release", "Clone", "Destroy", "Compose", "Decompose", "Dispose", "Separate", "TrySep", "ResetAll", "Ket", "Misc" },
        AL{ "ADD", "ADDS", "MCADD", "MUL", "MULN", "POWN", "LDA", "ADC", "Hash" },
        QU{ "Prob", "ProbAll", "PermProb", "PermExp", "FactExp", "UnitExp", "PauliExp", "Joint", "Shots", "M", "ForceM", "MAll", "Measure" };
    if (ST.count(o)) return structural(m, t);
    if (!m.n()) throw Skip();
    if (AL.count(o)) return alu(m, t);
    if (QU.count(o)) return query(m, t);
    if (o == "Circuit") return circuit(m, t);
    if (o == "Neuron") return neuron(m, t);
    if (o == "BadHandle") return badHandle(t);
    const VI q = pick(m, t, t.q.size());
    Ref& R = m.R;
    static const std::map<std::string, std::pair<M, void (*)(uq, uq)>> ONE{ { "X", { mX, capi::X } }, { "Y", { mY, capi::Y } }, { "Z", { mZ, capi::Z } }, { "H", { mH, capi::H } },
        { "S", { mS, capi::S } }, { "SX", { mSX, capi::SX } }, { "SY", { mSY, capi::SY } }, { "T", { mT, capi::T } }, { "AdjS", { adj(mS), capi::AdjS } }, { "AdjSX", { adj(mSX), capi::AdjSX } },
        { "AdjSY", { adj(mSY), capi::AdjSY } }, { "AdjT", { adj(mT), capi::AdjT } } };
    auto it = ONE.find(o);
    if (it != ONE.end()) {
        it->second.second(m.sid, id(m, q[0]));
        R.apply(it->second.first.data(), q[0]);
        return;
    }
    if (o == "U") {
        capi::U(m.sid, id(m, q[0]), t.r[0], t.r[1], t.r[2]);
        R.apply(U3(t.r[0], t.r[1], t.r[2]).data(), q[0]);
    } else if (o == "Mtrx") {
        const M u = paramMtrx(t);
        auto f = flat(u);
        capi::Mtrx(m.sid, f.data(), id(m, q[0]));
        R.apply(u.data(), q[0]);
    } else if (o == "MC") {
        const int kind = (int)(t.v[1] % 10);
        const bool anti = t.v[2] & 1;
        const VI cs(q.begin(), q.end() - 1);
        const int tg = q.back();
        VU c = ids(m, cs);
        const uq n = cs.size(), x = id(m, tg);
        typedef void (*F)(uq, uq, uq*, uq);
        static const F fs[2][8] = { { capi::MCX, capi::MCY, capi::MCZ, capi::MCH, capi::MCS, capi::MCT, capi::MCAdjS, capi::MCAdjT },
            { capi::MACX, capi::MACY, capi::MACZ, capi::MACH, capi::MACS, capi::MACT, capi::MACAdjS, capi::MACAdjT } };
        static const M ms[8] = { mX, mY, mZ, mH, mS, mT, adj(mS), adj(mT) };
        M u;
        if (kind < 8) {
            fs[anti][kind](m.sid, n, c.data(), x);
            u = ms[kind];
        } else if (kind == 8) {
            u = U3(t.r[0], t.r[1], t.r[2]);
            (anti ? capi::MACU : capi::MCU)(m.sid, n, c.data(), x, t.r[0], t.r[1], t.r[2]);
        } else {
            u = paramMtrx(t);
            auto f = flat(u);
            (anti ? capi::MACMtrx : capi::MCMtrx)(m.sid, n, c.data(), f.data(), x);
        }
        R.apply(u.data(), tg, mask(cs), anti ? 0 : mask(cs));
    } else if (o == "UCMtrx") {
        const VI cs(q.begin(), q.end() - 1);
        VU c = ids(m, cs);
        const u64 p = (u64)t.v[1] & ((1ULL << cs.size()) - 1);
        const M u = paramMtrx(t);
        auto f = flat(u);
        capi::UCMtrx(m.sid, cs.size(), c.data(), f.data(), id(m, q.back()), p);
        R.apply(u.data(), q.back(), mask(cs), rset(0, cs, p));
    } else if (o == "Multiplex") {
        const VI cs(q.begin(), q.end() - 1);
        VU c = ids(m, cs);
        std::vector<double> f;
        std::vector<M> us;
        Rng r2((u64)t.v[1] + 77);
        for (u64 k = 0; k < (1ULL << cs.size()); ++k) {
            Step s2 = t;
            s2.v[0] = r2.range(0, 3);
            for (auto& x : s2.r) x = r2.range(0, 63) * M_PI / 16;
            us.push_back(paramMtrx(s2));
            auto g = flat(us.back());
            f.insert(f.end(), g.begin(), g.end());
        }
        capi::Multiplex1Mtrx(m.sid, cs.size(), c.data(), id(m, q.back()), f.data());
        for (u64 k = 0; k < us.size(); ++k) R.apply(us[k].data(), q.back(), mask(cs), rset(0, cs, k));
    } else if (o == "MX" || o == "MY" || o == "MZ") {
        VU a = ids(m, q);
        (o == "MX" ? capi::MX : o == "MY" ? capi::MY : capi::MZ)(m.sid, q.size(), a.data());
        for (int x : q) R.apply((o == "MX" ? mX : o == "MY" ? mY : mZ).data(), x);
    } else if (o == "R") {
        const int b = (int)(t.v[0] & 3);
        capi::R(m.sid, b, t.r[0], id(m, q[0]));
        expPauli(R, { b }, q, -t.r[0] / 2, 0);
    } else if (o == "MCR") {
        const int b = (int)(t.v[0] & 3);
        const VI cs(q.begin(), q.end() - 1);
        VU c = ids(m, cs);
        capi::MCR(m.sid, b, t.r[0], cs.size(), c.data(), id(m, q.back()));
        expPauli(R, { b }, { q.back() }, -t.r[0] / 2, mask(cs));
    } else if (o == "Exp") {
        VI b = bases(t, q.size());
        VU a = ids(m, q);
        capi::Exp(m.sid, q.size(), b.data(), t.r[0], a.data());
        expPauli(R, b, q, t.r[0], 0);
    } else if (o == "MCExp") {
        const size_t nc = std::min<size_t>(t.v[1] % 3, q.size() - 1);
        const VI cs(q.begin(), q.begin() + nc), x(q.begin() + nc, q.end());
        VI b = bases(t, x.size());
        VU a = ids(m, x), cc = ids(m, cs);
        capi::MCExp(m.sid, x.size(), b.data(), t.r[0], nc, cc.data(), a.data());
        expPauli(R, b, x, t.r[0], mask(cs));
    } else if (o == "SWAP" || o == "ISWAP" || o == "AdjISWAP") {
        const uq a = id(m, q[0]), b = id(m, q[1]);
        (o == "SWAP" ? capi::SWAP : o == "ISWAP" ? capi::ISWAP : capi::AdjISWAP)(m.sid, a, b);
        const cd p = o == "SWAP" ? cd(1, 0) : o == "ISWAP" ? J : -J;
        const cd f[16] = { 1, 0, 0, 0, 0, 0, p, 0, 0, p, 0, 0, 0, 0, 0, 1 };
        R.apply4(f, q[0], q[1]);
    } else if (o == "FSim") {
        const uq a = id(m, q[0]), b = id(m, q[1]);
        capi::FSim(m.sid, t.r[0], t.r[1], a, b);
        const double cs = std::cos(t.r[0]), sn = std::sin(t.r[0]);
        const cd f[16] = { 1, 0, 0, 0, 0, cs, -J * sn, 0, 0, -J * sn, cs, 0, 0, 0, 0, std::polar(1.0, -t.r[1]) };
        R.apply4(f, q[0], q[1]);
    } else if (o == "CSWAP") {
        const VI cs(q.begin() + 2, q.end());
        VU c = ids(m, cs);
        const uq a = id(m, q[0]), b = id(m, q[1]);
        const bool anti = t.v[0] & 1;
        (anti ? capi::ACSWAP : capi::CSWAP)(m.sid, cs.size(), c.data(), a, b);
        const cd f[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 };
        R.apply4(f, q[0], q[1], mask(cs), anti ? 0 : mask(cs));
    } else if (o == "LOGIC" || o == "CLOGIC") {
        const int k = (int)(t.v[0] % 6);
        auto f = [k](int x, int y) { return ((k % 3) == 0 ? (x & y) : (k % 3) == 1 ? (x | y) : (x ^ y)) ^ (k >= 3); };
        if (o == "LOGIC") {
            typedef void (*F)(uq, uq, uq, uq);
            static const F fs[6] = { capi::AND, capi::OR, capi::XOR, capi::NAND, capi::NOR, capi::XNOR };
            const uq a = id(m, q[0]), b = id(m, q[1]), z = id(m, q[2]);
            fs[k](m.sid, a, b, z);
            R.permute([&](u64 i) { return i ^ ((u64)f((i >> q[0]) & 1, (i >> q[1]) & 1) << q[2]); });
        } else {
            typedef void (*F)(uq, bool, uq, uq);
            static const F fs[6] = { capi::CLAND, capi::CLOR, capi::CLXOR, capi::CLNAND, capi::CLNOR, capi::CLXNOR };
            const bool y = t.v[1] & 1;
            const uq a = id(m, q[0]), z = id(m, q[1]);
            fs[k](m.sid, y, a, z);
            R.permute([&](u64 i) { return i ^ ((u64)f((i >> q[0]) & 1, y) << q[1]); });
        }
    } else if (o == "QFT") {
        VU a = ids(m, q);
        (t.v[0] & 1 ? capi::IQFT : capi::QFT)(m.sid, q.size(), a.data());
        dft(R, q, t.v[0] & 1);
    } else if (o == "PhaseParity") {
        VU a = ids(m, q);
        capi::PhaseParity(m.sid, t.r[0], q.size(), a.data());
        const u64 mk = mask(q);
        const double f = t.r[0] / 2;
        R.phase([&](u64 i) { return std::polar(1.0, __builtin_parityll(i & mk) ? f : -f); });
    } else if (o == "PhaseRootN") {
        VU a = ids(m, q);
        const int p = (int)(t.v[0] % 6);
        capi::PhaseRootN(m.sid, p, q.size(), a.data());
        const M u = p == 0 ? mI : M{ 1, 0, 0, std::polar(1.0, -M_PI / (double)(1 << (p - 1))) };
        for (int x : q) R.apply(u.data(), x);
    } else if (o == "TimeEvolve") {
        const VI cs(q.begin(), q.end() - 1);
        capi::_QrackTimeEvolveOpHeader* hp = nullptr;
        ::_QrackTimeEvolveOpHeader h;
        h.target = (unsigned)id(m, q.back());
        h.controlLen = (unsigned)cs.size();
        for (size_t i = 0; i < cs.size(); ++i) h.controls[i] = (unsigned)id(m, cs[i]);
        if (!injected)
            for (int x : q)
                if (m.ids[x] > 0xffffffffULL) throw Skip();
        if (injected) { // a 32-bit field: keep the unknown id unknown
            h.target = 0xfffffff0u;
            h.controlLen = 0;
        }
        hp = (capi::_QrackTimeEvolveOpHeader*)&h;
        std::vector<double> f;
        const double tm = 0.25 + std::abs(t.r[4]) / 8;
        Rng r2((u64)t.v[0] + 5);
        const size_t K = 1ULL << cs.size();
        std::vector<M> es;
        for (size_t k = 0; k < K; ++k) {
            const double a = r2.range(-8, 8) / 8.0, b = r2.range(-8, 8) / 8.0, x = r2.range(-8, 8) / 8.0, y = r2.range(-8, 8) / 8.0;
            const cd h01(x, y);
            const double g[8] = { a, 0, x, y, x, -y, b, 0 };
            f.insert(f.end(), g, g + 8);
            const double mm = (a + b) / 2, z = (a - b) / 2, wv = std::sqrt(z * z + std::norm(h01)), sn = wv < 1e-12 ? tm : std::sin(wv * tm) / wv, cc = std::cos(wv * tm);
            const cd e = std::polar(1.0, -mm * tm);
            es.push_back({ e * (cc - J * sn * z), e * (-J * sn * h01), e * (-J * sn * std::conj(h01)), e * (cc + J * sn * z) });
        }
        capi::TimeEvolve(m.sid, tm, 1, hp, f.size(), f.data());
        for (size_t k = 0; k < K; ++k) R.apply(es[k].data(), q.back(), mask(cs), rset(0, cs, k));
    } else throw Invalid{ "op" };
}
void Runner::alu(Mod& m, const Step& t)
{
    const std::string& o = t.op;
    Ref& R = m.R;
    const VI q = pick(m, t, t.q.size());
    const bool inv = t.v[0] & 1;
    uq big[3] = { 0, 0, 0 };
    // a number as little-endian words
    auto words = [&](u64 x, int na) {
        big[0] = x;
        big[1] = big[2] = 0;
        (void)na;
        return big;
    };
    uq wa[3] = { 0, 0, 0 }, wm[3] = { 0, 0, 0 };
    const int na = 1 + (int)((t.v[0] >> 1) & 1);
    (void)words;
    typedef std::function<u64(u64)> F;
    auto ctl = [&](u64 cm, const F& f) { R.permute([&](u64 i) { return (i & cm) == cm ? f(i) : i; }); };
    auto lowm = [](int L) { return (1ULL << L) - 1; };
    m.ident = false;
    if (o == "ADD" || o == "ADDS" || o == "MCADD") {
        const size_t lead = o == "ADDS" ? 1 : o == "MCADD" ? std::min<size_t>(t.v[2] % 3, q.size() - 1) : 0;
        const VI x(q.begin() + lead, q.end()), cs(q.begin(), q.begin() + lead);
        const int L = (int)x.size();
        u64 a = (u64)t.v[1];
        if (o != "ADD") a &= lowm(L);
        wa[0] = a;
        if (o == "ADD" && na == 2 && (t.v[2] & 1)) wa[1] = 0x123456789abcdef0ULL + a; // modulo 2^L
        VU xs = ids(m, x), c = ids(m, cs);
        if (o == "ADD") (inv ? capi::SUB : capi::ADD)(m.sid, na, wa, L, xs.data());
        else if (o == "ADDS") (inv ? capi::SUBS : capi::ADDS)(m.sid, na, wa, c[0], L, xs.data());
        else (inv ? capi::MCSUB : capi::MCADD)(m.sid, na, wa, lead, c.data(), L, xs.data());
        const u64 add = (inv ? (1ULL << L) - (a & lowm(L)) : a) & lowm(L);
        if (o == "ADDS") {
            const u64 sg = 1ULL << (L - 1);
            R.phase([&](u64 i) {
                const u64 v = rget(i, x), s = (v + add) & lowm(L);
                return ((i >> cs[0]) & 1) && !((v ^ add) & sg) && ((v ^ s) & sg) ? cd(-1, 0) : cd(1, 0);
            });
        }
        ctl(o == "MCADD" ? mask(cs) : 0, [&](u64 i) { return rset(i, x, (rget(i, x) + add) & lowm(L)); });
        return;
    }
    if (o == "MUL" || o == "MULN" || o == "POWN") {
        const size_t nc = q.size() >= 3 ? std::min<size_t>(t.v[2] % 3, q.size() - 2) : 0;
        const int L = (int)(q.size() - nc) / 2;
        const VI cs(q.begin(), q.begin() + nc), x(q.begin() + nc, q.begin() + nc + L), y(q.begin() + nc + L, q.begin() + nc + 2 * L);
        const u64 cm = mask(cs);
        zeroOrSkip(m, y);
        VU xs = ids(m, x), ys = ids(m, y), c = ids(m, cs);
        const bool ctr = nc || (t.v[3] & 1), back = t.v[3] & 2;
        if (o == "MUL") {
            const u64 a = 1 + (u64)t.v[1] % lowm(L);
            wa[0] = a;
            if (ctr) capi::MCMUL(m.sid, na, wa, nc, c.data(), L, xs.data(), ys.data());
            else capi::MUL(m.sid, na, wa, L, xs.data(), ys.data());
            if (back && !injected) {
                if (ctr) capi::MCDIV(m.sid, na, wa, nc, c.data(), L, xs.data(), ys.data());
                else capi::DIV(m.sid, na, wa, L, xs.data(), ys.data());
                return;
            }
            ctl(cm, [&](u64 i) {
                const u64 p = rget(i, x) * a;
                return rset(rset(i, x, p & lowm(L)), y, p >> L);
            });
            return;
        }
        const u64 N = 2 + (u64)t.v[4] % lowm(L), a = 1 + (u64)t.v[1] % (1ULL << L);
        wa[0] = a;
        wm[0] = N;
        if (o == "MULN") {
            if (ctr) capi::MCMULN(m.sid, na, wa, nc, c.data(), wm, L, xs.data(), ys.data());
            else capi::MULN(m.sid, na, wa, wm, L, xs.data(), ys.data());
            if (back && !injected) {
                if (ctr) capi::MCDIVN(m.sid, na, wa, nc, c.data(), wm, L, xs.data(), ys.data());
                else capi::DIVN(m.sid, na, wa, wm, L, xs.data(), ys.data());
                return;
            }
            ctl(cm, [&](u64 i) { return rset(i, y, (rget(i, x) * a) % N); });
        } else {
            if (ctr) capi::MCPOWN(m.sid, na, wa, nc, c.data(), wm, L, xs.data(), ys.data());
            else capi::POWN(m.sid, na, wa, wm, L, xs.data(), ys.data());
            ctl(cm, [&](u64 i) { return rset(i, y, powmod(a, rget(i, x), N)); });
        }
        return;
    }
    auto table = [](const std::vector<u64>& v, int bits) {
        const size_t nb = (size_t)(bits + 7) / 8;
        std::vector<unsigned char> o;
        for (u64 x : v)
            for (size_t k = 0; k < nb; ++k) o.push_back((unsigned char)(x >> (8 * k)));
        return o;
    };
    Rng r2((u64)t.v[1] + 9);
    if (o == "Hash") {
        Rng r3((u64)t.v[0] + 9);
        VI p = r3.perm(1 << q.size());
        std::vector<u64> tv(p.begin(), p.end());
        auto tb = table(tv, (int)q.size());
        VU a = ids(m, q);
        capi::Hash(m.sid, q.size(), a.data(), tb.data());
        R.permute([&](u64 i) { return rset(i, q, tv[rget(i, q)]); });
        return;
    }
    const size_t lead = o == "ADC" ? 1 : 0;
    const size_t il = 1 + (size_t)t.v[2] % (q.size() - lead - 1);
    const VI x(q.begin() + lead, q.begin() + lead + il), y(q.begin() + lead + il, q.end());
    const int L = (int)y.size();
    std::vector<u64> tv;
    for (u64 i = 0; i < (1ULL << il); ++i) tv.push_back(r2.below(1ULL << L));
    auto tb = table(tv, L);
    if (o == "LDA") {
        zeroOrSkip(m, y);
        VU xs = ids(m, x), ys = ids(m, y);
        capi::LDA(m.sid, x.size(), xs.data(), L, ys.data(), tb.data());
        R.permute([&](u64 i) { return rset(i, y, tv[rget(i, x)]); });
    } else {
        const int cq = q[0];
        const double pc = R.prob(cq);
        if (pc > 1e-12 && pc < 1 - 1e-12) throw Skip();
        const u64 ci = pc > 0.5;
        for (u64 i = 0; i < R.a.size(); ++i)
            if (((i >> cq) & 1) != ci) R.a[i] = 0;
        const bool sb = t.v[3] & 1;
        const uq s = id(m, cq);
        VU xs = ids(m, x), ys = ids(m, y);
        (sb ? capi::SBC : capi::ADC)(m.sid, s, x.size(), xs.data(), L, ys.data(), tb.data());
        R.permute([&](u64 i) {
            const u64 k = tv[rget(i, x)], sum = rget(i, y) + (sb ? (1ULL << L) - k - (1 - ci) : k + ci);
            return (rset(i, y, sum & lowm(L)) & ~(1ULL << cq)) | (((sum >> L) & 1) << cq);
        });
    }
}
void Runner::query(Mod& m, const Step& t)
{
    const std::string& o = t.op;
    Ref& R = m.R;
    const VI q = pick(m, t, t.q.size());
    const double tol = 3e-3 * m.blur;
    if (o == "M") {
        const uq r = capi::M(m.sid, id(m, q[0]));
        if (injected) return;
        if (r > 1) bad("value", fmt("M returned %llu", r));
        project(m, 1ULL << q[0], r << q[0], "M");
    } else if (o == "ForceM") {
        const bool v = t.v[0] & 1;
        const double p = R.probMask(1ULL << q[0], (u64)v << q[0]);
        if (p < 0.03) throw Skip();
        const uq r = capi::ForceM(m.sid, id(m, q[0]), v);
        if (injected) return;
        if (r != (uq)v) bad("value", fmt("ForceM to %d returned %llu", (int)v, r));
        project(m, 1ULL << q[0], (u64)v << q[0], "ForceM");
    } else if (o == "MAll") {
        const uq r = capi::MAll(m.sid);
        if (injected) return;
        u64 v = 0;
        for (int k = 0; k < m.n(); ++k) {
            const double p = capi::Prob(m.sid, m.ids[k]);
            if (p > 1e-3 && p < 0.999) bad("collapse", fmt("after MAll the qubit of id %llu has probability %.4f", m.ids[k], p));
            if (p > 0.5) v |= 1ULL << k;
        }
        if (m.ident ? v != r : __builtin_popcountll(v) != __builtin_popcountll(r)) bad("value", fmt("MAll returned %llu, the qubits now hold %llu", r, (uq)v));
        project(m, (1ULL << m.n()) - 1, v, "MAll");
    } else if (o == "Measure" || o == "Joint") {
        VI b = bases(t, q.size());
        VU a = ids(m, q);
        Ref x = R;
        u64 mk = 0;
        for (size_t i = 0; i < q.size(); ++i) {
            x.apply(pauliBasis(b[i]).data(), q[i]);
            if (b[i]) mk |= 1ULL << q[i];
        }
        double p1 = 0;
        for (u64 i = 0; i < x.a.size(); ++i)
            if (__builtin_parityll(i & mk)) p1 += std::norm(x.a[i]);
        if (o == "Joint") {
            const double g = capi::JointEnsembleProbability(m.sid, q.size(), b.data(), a.data());
            if (injected) return;
            num("JointEnsembleProbability", g, p1, tol);
            return;
        }
        const uq r = capi::Measure(m.sid, q.size(), b.data(), a.data());
        if (injected) return;
        if (r > 1) bad("value", fmt("Measure returned %llu", r));
        const double p = r ? p1 : 1 - p1;
        if (p < 1e-5 * m.blur) bad("outcome", fmt("Measure gave an outcome of probability %.3g", p));
        for (u64 i = 0; i < x.a.size(); ++i)
            if ((uq)__builtin_parityll(i & mk) != r) x.a[i] = 0;
        x.normalize();
        m.blur = std::max(m.blur, std::min(10.0, m.blur / std::sqrt(std::max(p, 1e-4))));
        for (size_t i = 0; i < q.size(); ++i) x.apply(adj(pauliBasis(b[i])).data(), q[i]);
        R = x;
    } else if (o == "Shots") {
        VU a = ids(m, q);
        const int s = 1 + (int)(t.v[0] % 40);
        VU out(s + 1, ~0ULL);
        capi::MeasureShots(m.sid, q.size(), a.data(), s, out.data());
        if (injected) return;
        if (out[s] != ~0ULL) bad("value", "MeasureShots wrote past the samples asked for");
        auto mg = R.marginal(q);
        for (int i = 0; i < s; ++i)
            if (out[i] >= mg.size() || mg[out[i]] < 1e-5 * m.blur) bad("outcome", fmt("MeasureShots sample %llu is impossible", out[i]));
    } else if (o == "Prob") {
        const uq x = id(m, q[0]);
        const double g = (t.v[0] & 1 ? capi::ProbRdm : capi::Prob)(m.sid, x);
        if (injected) return;
        num("Prob", g, R.prob(q[0]), tol);
    } else if (o == "ProbAll") {
        VU a = ids(m, q);
        std::vector<float> p((1ULL << q.size()) + 1, 7.f);
        capi::ProbAll(m.sid, q.size(), a.data(), p.data());
        if (injected) return;
        if (p.back() != 7.f) bad("value", "ProbAll wrote outside 2^n entries");
        auto mg = R.marginal(q);
        for (size_t i = 0; i < mg.size(); ++i) num("ProbAll", p[i], mg[i], tol);
    } else if (o == "PermProb") {
        VU a = ids(m, q);
        std::unique_ptr<bool[]> cb(new bool[q.size() + 1]);
        u64 v = 0;
        for (size_t i = 0; i < q.size(); ++i) {
            cb[i] = (t.v[0] >> i) & 1;
            v |= (u64)cb[i] << q[i];
        }
        const double g = t.v[1] & 1 ? capi::PermutationProbRdm(m.sid, q.size(), a.data(), cb.get(), t.v[1] & 2) : capi::PermutationProb(m.sid, q.size(), a.data(), cb.get());
        if (injected) return;
        num("PermutationProb", g, R.probMask(mask(q), v), tol);
    } else if (o == "PermExp" || o == "FactExp") {
        VU a = ids(m, q);
        const int f = (int)(t.v[0] & 1), rdm = (int)((t.v[0] >> 1) & 1), form = (int)((t.v[0] >> 2) & 1);
        std::vector<double> val; // value of each marginal outcome
        const size_t D = 1ULL << q.size();
        Rng r2((u64)t.v[1] + 11);
        VU ci;
        std::vector<float> cf;
        double mx = 1;
        for (size_t i = 0; i < 2 * q.size(); ++i) {
            ci.push_back(r2.below(20));
            cf.push_back((float)(r2.range(-40, 40) / 8.0));
        }
        for (size_t i = 0; i < D; ++i) {
            double x = 0;
            if (o == "PermExp") x = (double)i;
            else
                for (size_t k = 0; k < q.size(); ++k) x += form ? (double)cf[2 * k + ((i >> k) & 1)] : (double)ci[2 * k + ((i >> k) & 1)];
            val.push_back(x);
            mx = std::max(mx, std::abs(x));
        }
        auto mg = R.marginal(q);
        double e = 0, e2 = 0;
        for (size_t i = 0; i < D; ++i) e += mg[i] * val[i], e2 += mg[i] * val[i] * val[i];
        const bool rr = t.v[1] & 1;
        double g;
        const uq n = q.size();
        if (o == "PermExp") g = f ? (rdm ? capi::VarianceRdm(m.sid, n, a.data(), rr) : capi::Variance(m.sid, n, a.data()))
                                  : (rdm ? capi::PermutationExpectationRdm(m.sid, n, a.data(), rr) : capi::PermutationExpectation(m.sid, n, a.data()));
        else if (form) g = f ? (rdm ? capi::FactorizedVarianceFpRdm(m.sid, n, a.data(), cf.data(), rr) : capi::FactorizedVarianceFp(m.sid, n, a.data(), cf.data()))
                             : (rdm ? capi::FactorizedExpectationFpRdm(m.sid, n, a.data(), cf.data(), rr) : capi::FactorizedExpectationFp(m.sid, n, a.data(), cf.data()));
        else g = f ? (rdm ? capi::FactorizedVarianceRdm(m.sid, n, a.data(), 1, ci.data(), rr) : capi::FactorizedVariance(m.sid, n, a.data(), 1, ci.data()))
                   : (rdm ? capi::FactorizedExpectationRdm(m.sid, n, a.data(), 1, ci.data(), rr) : capi::FactorizedExpectation(m.sid, n, a.data(), 1, ci.data()));
        if (injected) return;
        if (f) num("variance", g, e2 - e * e, 3 * tol * mx * mx);
        else num("expectation", g, e, 3 * tol * mx);
    } else if (o == "PauliExp") {
        VI b = bases(t, q.size());
        VU a = ids(m, q), bb;
        for (int x : b) bb.push_back((uq)x);
        Ref x = R;
        u64 mk = 0;
        for (size_t i = 0; i < q.size(); ++i) {
            x.apply(pauliBasis(b[i]).data(), q[i]);
            if (b[i]) mk |= 1ULL << q[i];
        }
        double e = 0, e2 = 0;
        for (u64 i = 0; i < x.a.size(); ++i) {
            double v = 0;
            for (size_t k = 0; k < q.size(); ++k) v += b[k] == 0 ? 1 : ((i >> q[k]) & 1) ? -1 : 1;
            e += v * std::norm(x.a[i]);
            e2 += v * v * std::norm(x.a[i]);
        }
        const bool var = t.v[1] & 1;
        const double g = (var ? capi::PauliVariance : capi::PauliExpectation)(m.sid, q.size(), a.data(), bb.data());
        if (injected) return;
        // (identity factors: see the query property)
        if (__builtin_popcountll(mk) != (int)q.size()) return;
        num(var ? "PauliVariance" : "PauliExpectation", g, var ? e2 - e * e : e, 40 * tol);
    } else if (o == "UnitExp") {
        VU a = ids(m, q);
        const int var = (int)(t.v[0] & 1), eig = (int)((t.v[0] >> 1) & 1), form = (int)((t.v[0] >> 2) & 1);
        std::vector<float> b, ev;
        Ref x = R;
        Rng r2((u64)t.v[0] / 8 + 3);
        for (size_t i = 0; i < q.size(); ++i) {
            const double th = t.r[0] + 0.5 * i, ph = t.r[1] - 0.25 * i, la = t.r[2];
            const M u = U3((float)th, (float)ph, (float)la);
            if (form) for (auto& z : u) b.push_back((float)z.real()), b.push_back((float)z.imag());
            else b.push_back((float)th), b.push_back((float)ph), b.push_back((float)la);
            ev.push_back(eig ? (float)(r2.range(-16, 16) / 8.0) : 1.f);
            ev.push_back(eig ? (float)(r2.range(-16, 16) / 8.0) : -1.f);
            x.apply(adj(u).data(), q[i]);
        }
        double e = 0, e2 = 0;
        for (u64 i = 0; i < x.a.size(); ++i) {
            double v = 0;
            for (size_t k = 0; k < q.size(); ++k) v += ev[2 * k + ((i >> q[k]) & 1)];
            e += v * std::norm(x.a[i]);
            e2 += v * v * std::norm(x.a[i]);
        }
        double g;
        const uq n = q.size();
        if (form) g = eig ? (var ? capi::MatrixVarianceEigenVal : capi::MatrixExpectationEigenVal)(m.sid, n, a.data(), b.data(), ev.data())
                          : (var ? capi::MatrixVariance : capi::MatrixExpectation)(m.sid, n, a.data(), b.data());
        else g = eig ? (var ? capi::UnitaryVarianceEigenVal : capi::UnitaryExpectationEigenVal)(m.sid, n, a.data(), b.data(), ev.data())
                     : (var ? capi::UnitaryVariance : capi::UnitaryExpectation)(m.sid, n, a.data(), b.data());
        if (injected) return;
        num("unitary expectation or variance", g, var ? e2 - e * e : e, 40 * tol);
    } else throw Invalid{ "op" };
}
void Runner::structural(Mod& m, const Step& t)
{
    const std::string& o = t.op;
    if (o == "Alloc") {
        if (m.n() >= 6) throw Skip();
        static const uq pool[] = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 31, 63, 64, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 65536, 4294967296ULL, 4294967297ULL, 9223372036854775807ULL, 18446744073709551614ULL };
        uq x = t.v[1] % 3 ? pool[(size_t)t.v[0] % (sizeof(pool) / sizeof(*pool))] : (m.n() ? m.ids[(size_t)t.v[0] % m.n()] + 256 : 256);
        const bool dup = std::find(m.ids.begin(), m.ids.end(), x) != m.ids.end();
        capi::allocateQubit(m.sid, x);
        if (dup) {
            injected = true;
            return;
        }
        m.R.insertZeros(m.n(), 1);
        m.ids.push_back(x);
        return;
    }
    if (o == "Clone") {
        if (w.size() >= 4) throw Skip();
        Mod k = m;
        k.sid = capi::init_clone(m.sid);
        for (auto& x : w)
            if (x.sid == k.sid) bad("handle", fmt("init_clone returned the handle %llu, which is in use", k.sid));
        sid(k.sid);
        w.push_back(k);
        return;
    }
    if (o == "Destroy") {
        if (w.size() < 2) throw Skip();
        capi::destroy(m.sid);
        w.erase(w.begin() + (size_t)t.s % w.size());
        return;
    }
    if (o == "Compose") {
        if (w.size() < 2) throw Skip();
        const size_t a = (size_t)t.s % w.size(), b = (a + 1 + (size_t)t.v[0] % (w.size() - 1)) % w.size();
        Mod &x = w[a], &y = w[b];
        if (x.type != y.type) { // must be refused
            if (!x.n() || !y.n()) throw Skip();
            VU ids;
            for (int i = 0; i < y.n(); ++i) ids.push_back(5000 + i);
            capi::Compose(x.sid, y.sid, ids.data());
            if (!capi::get_error(x.sid)) bad("error", "Compose of different layer stacks reports no error");
            return;
        }
        if (!x.n() || !y.n() || x.n() + y.n() > 6 || !y.ident) throw Skip();
        VU ids;
        uq base = 700 + (uq)(t.v[1] % 7) * 37;
        for (int i = 0; i < y.n(); ++i) {
            while (std::find(x.ids.begin(), x.ids.end(), base) != x.ids.end()) ++base;
            ids.push_back(base);
            base += (t.v[1] & 1) ? 1 : 300;
        }
        if (t.v[1] % 4 == 3 && y.n() > 1) std::reverse(ids.begin(), ids.end());
        capi::Compose(x.sid, y.sid, ids.data());
        x.R.insert(x.n(), y.R);
        x.ids.insert(x.ids.end(), ids.begin(), ids.end());
        x.blur = std::max(x.blur, y.blur);
        return;
    }
    if (o == "ResetAll") {
        if (!m.n()) throw Skip();
        capi::ResetAll(m.sid);
        m.R.setPerm(0);
        m.blur = 1;
        return;
    }
    if (o == "Ket") {
        if (!m.n() || !m.ident) throw Skip();
        Rng r2((u64)t.v[0] + 21);
        std::vector<float> k;
        Ref x = m.R;
        const bool sparse = t.v[1] & 1;
        for (auto& a : x.a) a = sparse && r2.chance(0.6) ? cd(0, 0) : cd(r2.range(-8, 8), r2.range(-8, 8));
        if (x.norm() < 1) x.a[r2.below(x.a.size())] = 1;
        x.normalize();
        for (auto& a : x.a) k.push_back((float)a.real()), k.push_back((float)a.imag());
        capi::InKet(m.sid, k.data());
        m.R = x;
        m.blur = 1;
        return;
    }
    if (o == "Misc") {
        if (!m.n()) throw Skip();
        const int k = (int)(t.v[0] % 6);
        if (k == 0) capi::seed(m.sid, (uq)t.v[0]);
        else if (k == 1) capi::set_concurrency(m.sid, 1 + (uq)t.v[0] % 8);
        else if (k == 2) capi::SetReactiveSeparate(m.sid, t.v[0] & 8);
        else if (k == 3) capi::Normalize(m.sid);
        else if (k == 4) {
            capi::ResetUnitaryFidelity(m.sid);
            const double f = capi::GetUnitaryFidelity(m.sid);
            if (!(std::abs(f - 1) < 1e-3)) bad("value", fmt("fidelity %.4f after a reset", f));
        } else {
            VU a = ids(m, {});
            const double none[1] = { 1 };
            double p[4] = { 0, 0.5, 0, 0.5 };
            const size_t x = capi::random_choice(m.sid, 4, p);
            if (x != 1 && x != 3) bad("value", "random_choice picked an impossible element");
            (void)none;
        }
        return;
    }
    if (!m.n()) throw Skip();
    const VI q = pick(m, t, t.q.size());
    if (o == "Release") {
        Ref part, rest;
        VI others;
        if (!factor(m, q, part, rest, others)) throw Skip();
        const double p = m.R.prob(q[0]);
        const bool r = capi::release(m.sid, id(m, q[0]));
        if (injected) return;
        if (p < 0.008 && !r) bad("value", "release of a |0> qubit returned false");
        if (p > 0.012 && r) bad("value", fmt("release of a qubit of probability %.3f returned true", p));
        if (m.n() == 1) {
            m.ids.clear();
            m.R = Ref(0, 0);
            m.ident = true;
            m.blur = 1;
            return;
        }
        VU ni;
        for (int k : others) ni.push_back(m.ids[k]);
        m.ids = ni;
        m.R = rest;
        return;
    }
    if (o == "Decompose" || o == "Dispose") {
        if ((int)q.size() >= m.n()) throw Skip();
        Ref part, rest;
        VI others;
        if (!factor(m, q, part, rest, others)) throw Skip();
        if (o == "Decompose" && w.size() >= 4) throw Skip();
        VU a = ids(m, q);
        const bool tail = [&] {
            for (size_t i = 0; i < q.size(); ++i)
                if (q[i] != (int)others.size() + (int)i) return false;
            return true;
        }();
        if (!tail) m.ident = false;
        if (o == "Dispose") capi::Dispose(m.sid, q.size(), a.data());
        else {
            Mod k;
            k.type = m.type;
            k.sid = capi::Decompose(m.sid, q.size(), a.data());
            if (injected) { // the error is reported; a handle made on the way must not be one in use
                bool used = false;
                for (auto& x : w) used |= x.sid == k.sid;
                if (used) bad("handle", "a failing Decompose returned a handle in use");
                sid(k.sid);
                capi::destroy(k.sid);
                return;
            }
            for (auto& x : w)
                if (x.sid == k.sid) bad("handle", "Decompose returned a handle in use");
            sid(k.sid);
            k.R = part;
            k.blur = m.blur;
            for (size_t i = 0; i < q.size(); ++i) k.ids.push_back(i);
            VU ni;
            for (int x : others) ni.push_back(m.ids[x]);
            m.ids = ni;
            m.R = rest;
            w.push_back(k); // (invalidates m)
            return;
        }
        if (injected) return;
        VU ni;
        for (int x : others) ni.push_back(m.ids[x]);
        m.ids = ni;
        m.R = rest;
        return;
    }
    if (o == "Separate") {
        Ref part, rest;
        VI others;
        if ((int)q.size() < m.n() && !factor(m, q, part, rest, others)) throw Skip();
        VU a = ids(m, q);
        capi::Separate(m.sid, q.size(), a.data());
        return;
    }
    if (o == "TrySep") {
        Ref part, rest;
        VI others;
        const bool sep = (int)q.size() == m.n() || factor(m, q, part, rest, others);
        VU a = ids(m, q);
        bool r;
        if (q.size() == 1) r = capi::TrySeparate1Qb(m.sid, a[0]);
        else if (q.size() == 2) r = capi::TrySeparate2Qb(m.sid, a[0], a[1]);
        else {
            if (!sep) throw Skip(); // an approximating call otherwise
            r = capi::TrySeparateTol(m.sid, q.size(), a.data(), 1e-3);
        }
        (void)r;
        return;
    }
    throw Invalid{ "op" };
}
void Runner::circuit(Mod& m, const Step& t)
{
    if (!m.ident || m.n() < 1) throw Skip();
    Rng r2((u64)t.v[0] + 31);
    const int n = m.n(), k = 1 + (int)(t.v[1] % 8), how = (int)(t.v[2] % 5);
    const uq cid = capi::init_qcircuit(t.v[3] & 1, false);
    std::vector<std::function<void(Ref&, bool)>> ops;
    for (int i = 0; i < k; ++i) {
        Step s2;
        s2.v = { r2.range(0, 3) };
        for (int j = 0; j < 4; ++j) s2.r.push_back(r2.range(0, 15) * M_PI / 8);
        M u = r2.chance(0.3) ? mX : r2.chance(0.3) ? mH : paramMtrx(s2);
        auto f = flat(u);
        VI q = r2.distinct(n, r2.range(1, std::min(n, 4)));
        if (q.size() == 2 && r2.chance(0.25)) {
            capi::qcircuit_swap(cid, q[0], q[1]);
            ops.push_back([q](Ref& R, bool) { R.permute([&](u64 x) { return rset(x, q, ((x >> q[1]) & 1) | (((x >> q[0]) & 1) << 1)); }); });
            continue;
        }
        const int tg = q[0];
        VI cs(q.begin() + 1, q.end());
        if (cs.empty()) capi::qcircuit_append_1qb(cid, f.data(), tg);
        const u64 p = r2.below(1ULL << cs.size());
        VU c;
        for (int x : cs) c.push_back(x);
        if (!cs.empty()) capi::qcircuit_append_mc(cid, f.data(), cs.size(), c.data(), tg, p);
        ops.push_back([=](Ref& R, bool inv) { R.apply((inv ? adj(u) : u).data(), tg, mask(cs), rset(0, cs, p)); });
    }
    uq run = cid, extra = ~0ULL;
    if (how == 1) run = extra = capi::init_qcircuit_clone(cid);
    if (how == 2) run = extra = capi::qcircuit_inverse(cid);
    const uq qc = capi::get_qcircuit_qubit_count(cid);
    if (qc > (uq)n) bad("circuit", fmt("a circuit on qubits below %d reports %llu qubits", n, qc));
    if (how == 3) {
        const size_t len = capi::qcircuit_out_to_string_length(cid);
        std::vector<char> s(len + 1, '~');
        capi::qcircuit_out_to_string(cid, s.data());
        if (len < 1 || s[len] != '~' || s[len - 1] != 0) bad("circuit", "the string form does not have the length announced");
    }
    if (how == 4) { // the light cone of all qubits is the circuit itself
        VU all;
        for (int i = 0; i < n; ++i) all.push_back(i);
        run = extra = capi::qcircuit_past_light_cone(cid, all.size(), all.data());
    }
    if (t.v[1] & 8) {
        capi::destroy_qcircuit(cid == run ? ~0ULL : cid); // the copy does not need the original
        if (cid == run && capi::get_error(m.sid) != 2) bad("error", "destroy_qcircuit of an unknown handle reports no error");
    }
    capi::qcircuit_run(run, m.sid);
    capi::destroy_qcircuit(cid);
    if (extra != ~0ULL) capi::destroy_qcircuit(extra);
    if (how == 2)
        for (size_t i = ops.size(); i--;) ops[i](m.R, true);
    else
        for (auto& f : ops) f(m.R, false);
}
void Runner::neuron(Mod& m, const Step& t)
{
    const VI q = pick(m, t, t.q.size());
    const VI in(q.begin(), q.end() - 1);
    VU c = ids(m, in);
    const uq tg = id(m, q.back());
    const uq nid = capi::init_qneuron(m.sid, in.size(), c.data(), tg, 0, 1.0, 1e-6);
    if (injected) return;
    const size_t P = 1ULL << in.size();
    std::vector<float> a, g(P + 1, 7.f);
    for (size_t i = 0; i < P; ++i) a.push_back((float)(t.r[i % 4] - 3.0 + 0.125 * i) / 2);
    for (auto& x : a) x = std::max(-3.f, std::min(3.f, x));
    capi::set_qneuron_angles(nid, a.data());
    uq use = nid, cl = ~0ULL;
    if (t.v[0] & 1) {
        use = cl = capi::clone_qneuron(nid);
        if (cl == nid) bad("handle", "clone_qneuron returned the same handle");
        if (t.v[0] & 2) {
            std::vector<float> z(P, 0.f);
            capi::set_qneuron_angles(nid, z.data());
        }
    }
    capi::get_qneuron_angles(use, g.data());
    if (g[P] != 7.f) bad("neuron", "get_qneuron_angles wrote outside 2^inputs entries");
    for (size_t i = 0; i < P; ++i)
        if (std::abs(g[i] - a[i]) > 1e-4) bad("neuron", fmt("angle %zu reads back as %.5f, set to %.5f", i, g[i], a[i]));
    capi::set_qneuron_alpha(use, 1.5);
    if (capi::get_qneuron_alpha(use) != 1.5) bad("neuron", "alpha does not read back");
    capi::set_qneuron_activation_fn(use, 1);
    if (capi::get_qneuron_activation_fn(use) != 1) bad("neuron", "the activation function does not read back");
    capi::set_qneuron_activation_fn(use, 0);
    auto rot = [&](double sg) {
        for (u64 p = 0; p < P; ++p) {
            const double h = sg * a[p] / 2;
            const cd u[4] = { std::cos(h), -std::sin(h), std::sin(h), std::cos(h) };
            m.R.apply(u, q.back(), mask(in), rset(0, in, p));
        }
    };
    const bool e = t.v[1] & 1;
    const double r = capi::qneuron_predict(use, e, false);
    rot(1);
    const double p1 = m.R.prob(q.back());
    num("qneuron_predict", r, e ? p1 : 1 - p1, 3e-3 * m.blur);
    if (t.v[1] & 2) {
        const double r2 = capi::qneuron_unpredict(use, e);
        rot(-1);
        const double p2 = m.R.prob(q.back());
        num("qneuron_unpredict", r2, e ? p2 : 1 - p2, 3e-3 * m.blur);
    }
    if (cl != ~0ULL) capi::destroy_qneuron(cl);
    capi::destroy_qneuron(nid);
}
void Runner::badHandle(const Step& t)
{
    const int k = (int)(t.v[0] % 12);
    const uq s = maxSid + 1 + (uq)(t.v[0] / 12 % 3 == 2 ? 1000 : 0);
    uq a[4] = { 0, 1, 2, 3 };
    double d[8] = { 1, 0, 0, 0, 0, 0, 1, 0 };
    float f[8] = { 0 };
    switch (k) {
    case 0: capi::X(s, 0); break;
    case 1: capi::MCX(s, 1, a, 1); break;
    case 2: (void)capi::Prob(s, 0); break;
    case 3: (void)capi::init_clone(s); break;
    case 4: capi::destroy(s); break;
    case 5: capi::allocateQubit(s, 0); break;
    case 6: (void)capi::release(s, 0); break;
    case 7: capi::Compose(s, w[0].sid, a); break;
    case 8: capi::Compose(w[0].sid, s, a); break;
    case 9: (void)capi::init_qneuron(s, 1, a, 1, 0, 1, 1e-6); break;
    case 10: (void)capi::num_qubits(s); capi::OutProbs(s, f); break;
    default: capi::Mtrx(s, d, 0); break;
    }
    const int e = capi::get_error(w[0].sid);
    if (!e) bad("error", fmt("a call with the unknown simulator handle %llu reports no error", s));
    st.label("unknown handles");
}
bool Runner::go()
{
    for (si = 0; si < c.steps.size(); ++si) {
        const Step& t = c.steps[si];
        cnt = 0;
        injected = false;
        badAt = t.r.size() && t.r.back() < -1000 ? (int)(-1000 - t.r.back()) - 1 : -1;
        badDelta = badAt >= 0 ? (si % 3 == 0 ? 256 : si % 3 == 1 ? 1 : 4294967296ULL) : 0;
        Step u = t;
        if (badAt >= 0) u.r.pop_back();
        const bool had = !w.empty();
        const size_t which = had && t.s >= 0 ? (size_t)t.s % w.size() : 0;
        Ref keep = had ? w[which].R : Ref();
        VU keepIds = had ? w[which].ids : VU();
        double kb = had ? w[which].blur : 1;
        try {
            exec(u);
        } catch (Skip&) {
            if (had && which < w.size()) w[which].R = keep;
            st.label("skipped steps");
            continue;
        }
        st.label("steps");
        if (injected) {
            st.label("unknown or duplicate ids");
            Mod& m = w[which];
            m.R = keep;
            m.ids = keepIds;
            m.blur = kb;
            if (!capi::get_error(m.sid)) bad("error", "a call with an unknown or duplicate qubit id reports no error");
            // the error sticks to the handle: continue on a clone
            const uq k = capi::init_clone(m.sid);
            sid(k);
            capi::destroy(m.sid);
            m.sid = k;
        }
        for (size_t i = 0; i < w.size(); ++i) {
            if (i == which || i + 1 == w.size()) check(w[i], "after the step", 2, false);
            else if (rng.chance(0.3)) check(w[i], "after a step on another simulator", 1, false);
        }
    }
    for (auto& m : w) check(m, "at the end", 6, true);
    return nontriv;
}
Reg c15(Property{ "C15",
    [](bool t) -> u64 { return t ? 6000000 : 400000; },
    [](Rng& r, u64, bool thorough) -> Case {
        Case c;
        c.kind = "history";
        c.stack = "capi";
        c.seed = r.next() & 0x7fffffff;
        static std::vector<const OpS*> bag;
        if (bag.empty())
            for (auto& o : opTable())
                for (int i = 0; i < o.w; ++i) bag.push_back(&o);
        const int fav = r.range(0, 3); // some histories lean on one family
        Step s;
        s.op = "New";
        s.v = { r.range(1, 4), r.range(0, 3) };
        c.steps.push_back(s);
        if (r.chance(0.3)) {
            s.v = { r.range(0, 4), r.range(0, 3) };
            c.steps.push_back(s);
        }
        const int len = r.range(2, thorough ? 40 : 20);
        for (int i = 0; i < len; ++i) {
            const OpS* o = r.pick(bag);
            if (fav == 1 && r.chance(0.4)) o = opOf(r.pick(std::vector<std::string>{ "Alloc", "Release", "Decompose", "Dispose", "Compose", "Clone", "Separate", "New", "SWAP" }));
            if (fav == 2 && r.chance(0.4)) o = opOf(r.pick(std::vector<std::string>{ "ADD", "MUL", "MULN", "POWN", "LDA", "Hash", "ADC", "ADDS", "MCADD", "Dispose" }));
            Step t;
            t.op = o->name;
            t.s = r.range(0, 3);
            const int nq = r.range(o->lo, o->hi);
            for (int k = 0; k < nq; ++k) t.q.push_back(r.range(0, 11));
            for (int k = 0; k < o->nr; ++k) t.r.push_back(r.range(0, 63) * M_PI / 16);
            for (int k = 0; k < o->nv; ++k) t.v.push_back((i64)(r.next() & 0xffff));
            if (nq && r.chance(0.04)) t.r.push_back(-1001.0 - r.range(0, nq - 1));
            c.steps.push_back(t);
        }
        return c;
    },
    [](const Case& c, Stats& st) -> bool {
        Runner R(c, st);
        try {
            return R.go();
        } catch (Invalid&) {
            return false;
        }
    },
    "at the end some simulator holds two or more qubits in a superposition of basis states",
    "dense and separating layer stacks over the CPU engine (init_count_type with and without sd); state-vector index order is only specified while no arithmetic, disposal or decomposition has moved qubits; multi-word factorized-expectation constants, entangled release/dispose and the whole-register decompose are left out; calls come from one thread" });
} // namespace
