// C08-C12, C17: one family of operations at a time, in a context of arbitrary gates, on every simulator type.
#include "gen.hpp"
using namespace vq;
namespace {
struct Focus {
    const char* id;
    std::vector<std::string> stacks;
    std::function<void(Mixer&, unsigned not_)> target;
    int nlo, nhi, rounds, ctx;
    double wide;
    std::map<std::string, std::string> inverse; // forward operation -> operation appended with the same operands
};
const Mixer& targetMixer(const Focus& f, const std::string& stack, bool wide)
{
    static std::map<std::string, Mixer> cache;
    const std::string k = std::string(f.id) + "/" + stack + (wide ? "/w" : "");
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    Mixer m, o;
    f.target(m, stackNot(stack) | (wide ? (unsigned)O_HEAVYQ : 0u));
    for (auto& g : m.g) {
        Mixer::G x;
        x.w = g.w;
        for (auto* d : g.ops)
            if (!isCliffStack(stack) || (d->flags & (O_CLIFF | O_CLIFFP | O_MEAS | O_QUERY | O_SAMPLE))) x.ops.push_back(d);
        if (!x.ops.empty()) o.g.push_back(x);
    }
    return cache[k] = o;
}
Case genFocus(const Focus& f, Rng& r, bool thorough)
{
    Case c;
    c.prop = f.id;
    c.kind = "focus";
    c.stack = r.pick(f.stacks);
    c.seed = r.next() & 0xffffffff;
    int n = r.range(f.nlo, f.nhi), W = n;
    const unsigned maxN = stackDef(c.stack).maxN;
    if (f.wide > 0 && maxN > 32 && r.chance(f.wide)) {
        n = std::min(n, 6);
        W = r.range(20, std::min(110, (int)maxN - 2));
    }
    layout(c, r, n, W);
    GenCtx g = ctxOf(c, r);
    g.style = isCliffStack(c.stack) ? 0 : r.range(0, 3);
    if (W == n && r.chance(0.5)) c.p["perm"] = r.below((u64)1 << n);
    c.p["cmp"] = r.pick(std::vector<int>{ 0, 1, 2 });
    if (isCliffStack(c.stack)) c.p["refuse"] = 1;
    const Mixer &cm = ctxMixer(c.stack), &tm = targetMixer(f, c.stack, W > n);
    for (int q : g.mapped) {
        if (!r.chance(0.6)) continue;
        Step t;
        t.q = { q };
        t.op = "H";
        if (g.style && r.chance(0.5)) {
            t.op = "RY";
            t.r = { g.angle() };
        }
        c.steps.push_back(t);
    }
    int rounds = r.range(1, f.rounds) * (thorough && r.chance(0.3) ? 2 : 1);
    for (int k = 0; k < rounds; ++k) {
        genSteps(c, g, cm, r.range(0, f.ctx));
        const size_t at = c.steps.size();
        genSteps(c, g, tm, r.range(1, 2));
        if (f.inverse.empty() || !r.chance(0.5)) continue;
        for (size_t i = at; i < c.steps.size(); ++i) {
            auto it = f.inverse.find(c.steps[i].op);
            if (it == f.inverse.end() || !findOp(it->second)) continue;
            Step t = c.steps[i];
            t.op = it->second;
            if (r.chance(0.3)) genSteps(c, g, cm, r.range(1, 2));
            c.steps.push_back(t);
            break;
        }
    }
    genSteps(c, g, cm, r.range(0, 2));
    return c;
}
Reg mkFocus(const Focus& f, u64 quick, u64 deep, std::function<bool(const Case&, Stats&)> run, const char* rule, const char* assume)
{
    return Reg(Property{ f.id, [=](bool t) -> u64 { return t ? deep : quick; }, [f](Rng& r, u64, bool th) { return genFocus(f, r, th); }, run, rule, assume });
}
// ---- Born rule: many independent preparations and one measurement each
double logTail(u64 n, u64 k, double p)
{ // log of a Chernoff bound on P(|X/n - p| >= |k/n - p|)
    double q = (double)k / n;
    if (p <= 0) return k ? -1e9 : 0;
    if (p >= 1) return k < n ? -1e9 : 0;
    double d = 0;
    if (q > 0) d += q * std::log(q / p);
    if (q < 1) d += (1 - q) * std::log((1 - q) / (1 - p));
    return -(double)n * d;
}
bool runBorn(const Case& c, Stats& st)
{
    const int n = (int)c.get("n"), reps = (int)c.get("reps"), mode = (int)c.get("mode");
    if (n < 1 || n > 5 || reps < 10 || reps > 20000) throw Invalid{ "size" };
    std::map<u64, u64> hist;
    Ref ref;
    World w0;
    for (int k = 0; k < reps; ++k) {
        World w;
        w.c = &c;
        w.st = &st;
        w.cmpMode = 3; // no comparison
        w.mayRefuse = c.get("refuse");
        w.slots.push_back(makeSlot(c.stack, n, (u64)c.get("perm"), mix(c.seed, k)));
        for (auto& t : c.steps) {
            try {
                w.exec(t);
            } catch (const std::logic_error&) { // (invalid_argument and domain_error)
                const OpDef* o = findOp(t.op);
                if (isCliffStack(c.stack) && o && !(o->flags & O_CLIFF)) return false; // refused: not Clifford for these operands
                throw;
            }
        }
        Slot& s = w.slots[0];
        u64 out = 0;
        if (mode == 0) {
            for (int i = 0; i < n; ++i)
                if (s.q->M((bitLenInt)i)) out |= 1ULL << i;
        } else if (mode == 1) out = (u64)s.q->MAll();
        else if (mode == 2) out = (u64)s.q->MReg(0, (bitLenInt)n);
        else {
            std::vector<bitLenInt> b;
            for (int i = 0; i < n; ++i) b.push_back((bitLenInt)i);
            out = (u64)s.q->M(b);
            u64 v = 0;
            for (int i = 0; i < n; ++i)
                if ((out >> i) & 1) v |= 1ULL << i;
            out = v;
        }
        ++hist[out];
        if (!k) ref = s.ref;
    }
    bool mixed = false;
    for (u64 i = 0; i < ref.a.size(); ++i) {
        double p = std::norm(ref.a[i]);
        u64 h = hist.count(i) ? hist[i] : 0;
        if (p > 0.02 && p < 0.98) mixed = true;
        if (p < 1e-6) {
            if (h) fail("born-impossible", fmt("outcome %llu of probability %g was measured %llu times", (unsigned long long)i, p, (unsigned long long)h));
            continue;
        }
        // widen p by the simulators' single-precision rounding
        double e = 2e-4, q = (double)h / reps, pp = q > p ? std::min(q, p + e) : std::max(q, p - e);
        if (logTail(reps, h, pp) < -32)
            fail("born", fmt("outcome %llu has probability %.5f but was measured %llu times in %d independent runs", (unsigned long long)i, p, (unsigned long long)h, reps));
    }
    for (auto& kv : hist)
        if (kv.first >= ref.a.size()) fail("born-range", "measured value outside the register");
    st.label("born");
    return mixed;
}
const std::vector<std::string> ALL{ "cpu", "cpu", "cpu-norm", "cpu-norm", "qunit-cpu", "qunit-cpu", "qunit-cpu", "qunit-cpu", "pager2", "stabh-cpu", "qunit-stabh-cpu" };
// with the Clifford-only simulators (other operations are refused there)
const std::vector<std::string> ALLC = [] {
    std::vector<std::string> v = ALL;
    v.push_back("stab");
    v.push_back("ucliff");
    return v;
}();
Reg c08(Property{ "C08", [](bool t) -> u64 { return t ? 4000000 : 200000; },
    [](Rng& r, u64 i, bool th) {
        static const Focus f{ "C08", ALLC,
            [](Mixer& m, unsigned x) {
                m.add(5, [=](const OpDef& o) { return fl(o, O_MEAS, x | O_FORCE); });
                m.add(5, [=](const OpDef& o) { return fl(o, O_FORCE, x); });
                m.add(1, [=](const OpDef& o) { return fl(o, O_RESET, x | O_ALU | O_SHIFT); });
            },
            1, 7, 4, 6, 0.1, {} };
        if (i % 150 != 0) return genFocus(f, r, th);
        Case c;
        c.prop = "C08";
        c.kind = "born";
        c.stack = r.pick(f.stacks);
        c.seed = r.next() & 0xffffffff;
        const int n = r.range(1, 3);
        layout(c, r, n, n);
        GenCtx g = ctxOf(c, r);
        g.style = isCliffStack(c.stack) ? 0 : 3;
        c.p["reps"] = th ? 4000 : 1200;
        c.p["mode"] = r.range(0, 3);
        for (int q = 0; q < n; ++q) {
            Step t;
            t.q = { q };
            t.op = isCliffStack(c.stack) ? "H" : "RY";
            if (t.op == "RY") t.r = { r.unit() * 6.28 };
            c.steps.push_back(t);
        }
        genSteps(c, g, ctxMixer(c.stack), r.range(0, 5));
        return c;
    },
    [](const Case& c, Stats& st) { return c.kind == "born" ? runBorn(c, st) : runWorld(c, st); },
    "measurements, forced measurements and bit setting among random gates (post-state compared with the projection), and repeated independent runs compared with the Born rule; non-trivial: "
    "two or more operations executed and a superposed state compared, or an outcome with probability strictly between 0.02 and 0.98 in a frequency test",
    "frequency tests reject only beyond a Chernoff bound of e^-32" });
static const Focus f09{ "C09", ALLC,
    [](Mixer& m, unsigned x) {
        m.add(5, [=](const OpDef& o) { return fl(o, O_SAMPLE, x); });
        m.add(0.4, [=](const OpDef& o) { return fl(o, O_MEAS, x | O_FORCE); });
    },
    1, 7, 2, 7, 0.1, {} };
Reg c09(mkFocus(f09, 250000, 5000000, runWorld,
    "sampling calls (histogram and array forms) among random gates; counts are tested against the marginal, and the state is compared after sampling; non-trivial: two or more operations executed and a superposed state compared",
    "frequency tests reject only beyond a bound of about 1e-9 per comparison"));
static const Focus f11{ "C11", ALL,
    [](Mixer& m, unsigned x) { m.add(1, [=](const OpDef& o) { return fl(o, O_ALU, x); }); }, 2, 8, 3, 5, 0.15,
    { { "MUL", "DIV" }, { "CMUL", "CDIV" }, { "MULModNOut", "IMULModNOut" }, { "CMULModNOut", "CIMULModNOut" }, { "FullAdd", "IFullAdd" },
        { "CFullAdd", "CIFullAdd" }, { "ADC", "IADC" }, { "CADC", "CIADC" }, { "INC", "DEC" }, { "CINC", "CDEC" }, { "IndexedADC", "IndexedSBC" },
        { "INCC", "DECC" }, { "INCS", "DECS" } } };
Reg c11(mkFocus(f11, 250000, 5000000, runWorld,
    "arithmetic operations and their inverses on superposed, entangled registers; non-trivial: two or more operations executed and a superposed state compared",
    "operations documented only for a cleared output register are specified from a cleared output register"));
static const Focus f12{ "C12", ALLC,
    [](Mixer& m, unsigned x) {
        m.add(6, [=](const OpDef& o) { return fl(o, O_QUERY, x); });
        m.add(0.6, [=](const OpDef& o) { return fl(o, O_HINT, x); });
        m.add(0.4, [=](const OpDef& o) { return fl(o, O_IO, x); });
    },
    1, 7, 4, 5, 0.1, {} };
Reg c12(mkFocus(f12, 300000, 5000000, runWorld,
    "probability, expectation, variance, amplitude and comparison queries among random gates, each against its definition on the reference amplitudes, state compared afterwards; non-trivial: two or more operations executed and a superposed state compared",
    "Pauli-string expectation follows the sum-of-eigenvalues convention of the implementation (see DESIGN.md)"));
static const Focus f17{ "C17", ALL,
    [](Mixer& m, unsigned x) {
        m.add(3, [=](const OpDef& o) { return fl(o, O_LOGIC, x); });
        m.add(2, [=](const OpDef& o) { return fl(o, O_SHIFT, x); });
        m.add(2, [=](const OpDef& o) { return fl(o, O_QFT, x); });
    },
    2, 8, 3, 5, 0.12, { { "QFT", "IQFT" }, { "QFTR", "IQFTR" }, { "ROL", "ROR" } } };
Reg c17(mkFocus(f17, 250000, 5000000, runWorld,
    "Boolean logic, shifts, rotations and Fourier transforms on superposed registers; non-trivial: two or more operations executed and a superposed state compared",
    "logic operations combine the Boolean value into the output bit by exclusive-or, as the implementation documents by circuit"));
// ---- C10: several registers, composed and split
Reg c10(Property{ "C10", [](bool t) -> u64 { return t ? 4000000 : 150000; },
    [](Rng& r, u64, bool th) {
        Case c;
        c.prop = "C10";
        c.kind = "struct";
        c.stack = r.pick(ALLC);
        c.seed = r.next() & 0xffffffff;
        std::vector<int> wd(4, 0); // predicted widths
        wd[0] = r.range(1, 4);
        c.p["n"] = wd[0];
        c.p["perm"] = r.below((u64)1 << wd[0]);
        for (int k = 1; k <= r.range(0, 2); ++k) {
            wd[k] = r.range(1, 3);
            c.p[fmt("n%d", k)] = wd[k];
            c.p[fmt("perm%d", k)] = r.below((u64)1 << wd[k]);
        }
        c.p["cmp"] = r.pick(std::vector<int>{ 0, 1, 1, 2 });
        if (isCliffStack(c.stack)) c.p["refuse"] = 1;
        const int style = isCliffStack(c.stack) ? 0 : r.range(0, 3);
        auto ctx = [&](int k) {
            GenCtx g{ r };
            g.n = wd[k];
            for (int i = 0; i < wd[k]; ++i) g.mapped.push_back(i);
            g.slot = k;
            g.style = style;
            return g;
        };
        auto gates = [&](int k, int cnt) {
            if (wd[k] <= 0) return;
            GenCtx g = ctx(k);
            genSteps(c, g, ctxMixer(c.stack), cnt);
        };
        static Mixer meas;
        if (meas.g.empty()) meas.add(1, [](const OpDef& o) { return fl(o, O_MEAS, O_FORCE); });
        for (int k = 0; k < 3; ++k) gates(k, r.range(0, 6));
        const int rounds = r.range(2, 7) * (th && r.chance(0.3) ? 2 : 1);
        int lastAt = -1, lastLen = 0, lastSlot = -1;
        for (int i = 0; i < rounds; ++i) {
            std::vector<int> live, dead;
            for (int k = 0; k < 4; ++k) (wd[k] > 0 ? live : dead).push_back(k);
            if (live.empty()) break;
            const int s = r.pick(live);
            Step t;
            t.s = s;
            switch (r.range(0, 7)) {
            case 0:
                t.op = "Alloc";
                t.v = { r.chance(0.3) ? -1 : r.range(0, wd[s]), r.range(1, 2) };
                lastSlot = s;
                lastAt = t.v[0] < 0 ? wd[s] : (int)t.v[0];
                lastLen = (int)t.v[1];
                wd[s] += lastLen;
                break;
            case 1:
            case 2: {
                if (live.size() < 2) continue;
                int o = s;
                while (o == s) o = r.pick(live);
                int mode = r.range(0, 2);
                if (wd[s] + wd[o] > 8) continue;
                t.op = "Compose";
                t.v = { o, mode, r.range(0, wd[s]) };
                lastSlot = s;
                lastAt = mode == 1 ? (int)t.v[2] : wd[s];
                lastLen = wd[o];
                wd[s] += wd[o];
                if (mode == 2) wd[o] = 0;
                break;
            }
            case 3:
            case 4: { // split: usually the range last put in (factors unless gates joined it)
                int len, at;
                if (lastSlot >= 0 && wd[lastSlot] > lastLen && r.chance(0.7)) {
                    t.s = lastSlot;
                    at = lastAt;
                    len = lastLen;
                } else {
                    if (wd[s] < 2) continue;
                    len = r.range(1, wd[s] - 1);
                    at = r.range(0, wd[s] - len);
                    if (r.chance(0.5)) { // make it certain that the range factors: measure it first
                        for (int q = at; q < at + len; ++q) {
                            Step m;
                            m.op = "M";
                            m.s = s;
                            m.q = { q };
                            c.steps.push_back(m);
                        }
                    }
                }
                const int mode = dead.empty() ? r.pick(std::vector<int>{ 2, 3 }) : r.range(0, 4);
                t.op = "Split";
                t.v = { at, len, mode, dead.empty() ? 3 : dead[0] };
                wd[t.s] -= len;
                if (mode != 2 && mode != 3) wd[dead[0]] = len;
                lastSlot = -1;
                break;
            }
            case 5:
                if (dead.empty()) continue;
                t.op = "Clone";
                t.v = { dead[0] };
                wd[dead[0]] = wd[s];
                break;
            case 6: {
                GenCtx g = ctx(s);
                genSteps(c, g, meas, 1);
                continue;
            }
            default:
                gates(s, r.range(1, 4));
                continue;
            }
            c.steps.push_back(t);
            for (int k = 0; k < 4; ++k)
                if (r.chance(0.4)) gates(k, r.range(0, 3));
        }
        return c;
    },
    runWorld, "several registers allocated, composed, split, disposed, trial-split and cloned among random gates, every register compared with its own reference; non-trivial: two or more operations executed and a superposed state compared",
    "splitting is specified only for ranges that factor out" });
} // namespace
