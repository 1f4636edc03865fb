// C01-C07: gate-level equivalence of each simulator type with the reference.
#include "gen.hpp"
using namespace vq;
namespace {
const unsigned STRUCTQ = O_STRUCT;
Mixer gatesMixer(unsigned not_ = 0)
{
    Mixer m;
    m.add(5, [=](const OpDef& o) { return fl(o, O_1Q, not_); });
    m.add(6, [=](const OpDef& o) { return fl(o, O_CTRL, not_); });
    m.add(2, [=](const OpDef& o) { return fl(o, O_SWAP, not_); });
    m.add(1, [=](const OpDef& o) { return fl(o, O_MASK, not_); });
    m.add(1, [=](const OpDef& o) { return fl(o, O_RANGE, not_); });
    m.add(1, [=](const OpDef& o) { return fl(o, O_UC, not_); });
    m.add(0.3, [=](const OpDef& o) { return fl(o, O_EVO, not_); });
    return m;
}
Mixer fullMixer(unsigned not_ = 0)
{
    Mixer m = gatesMixer(not_);
    m.add(2, [=](const OpDef& o) { return fl(o, O_MEAS, not_ | O_FORCE); });
    m.add(1, [=](const OpDef& o) { return fl(o, O_FORCE, not_); });
    m.add(0.7, [=](const OpDef& o) { return fl(o, O_RESET, not_ | O_ALU); });
    m.add(1.2, [=](const OpDef& o) { return fl(o, O_QUERY, not_); });
    m.add(1, [=](const OpDef& o) { return fl(o, O_LOGIC, not_); });
    m.add(0.6, [=](const OpDef& o) { return fl(o, O_SHIFT, not_ | O_RESET); });
    m.add(0.6, [=](const OpDef& o) { return fl(o, O_QFT, not_); });
    m.add(1.5, [=](const OpDef& o) { return fl(o, O_ALU, not_); });
    m.add(0.7, [=](const OpDef& o) { return fl(o, O_HINT, not_); });
    m.add(0.1, [=](const OpDef& o) { return fl(o, O_IO, not_); });
    m.add(0.3, [=](const OpDef& o) { return o.name == "Alloc" && fl(o, O_STRUCT, not_); });
    m.add(0.5, [=](const OpDef& o) { return o.name == "Split" && fl(o, O_STRUCT, not_); });
    m.add(0.3, [=](const OpDef& o) { return o.name == "Clone" && fl(o, O_STRUCT, not_); });
    return m;
}
// superpose every qubit first (with chance), so that later steps act on entangled states
void prep(Case& c, GenCtx& g, bool cliff)
{
    if (g.r.chance(0.25)) return;
    for (int q : g.mapped) {
        if (!g.r.chance(0.7)) continue;
        Step t;
        t.q = { q };
        if (cliff || g.style <= 1 || g.r.chance(0.4)) t.op = "H";
        else {
            t.op = "RY";
            if (!findOp("RY")) t.op = "H";
            else t.r = { g.angle() };
        }
        c.steps.push_back(t);
    }
    for (size_t i = 1; i < g.mapped.size(); ++i)
        if (g.r.chance(0.5)) {
            Step t;
            t.op = "CNOT";
            t.q = { g.mapped[i - 1], g.mapped[i] };
            if (g.r.chance(0.5)) std::swap(t.q[0], t.q[1]);
            c.steps.push_back(t);
        }
}
struct Plan {
    std::vector<std::string> stacks;
    unsigned not_; // flags excluded
    int nlo, nhi, slo, shi;
    double wide; // probability of a wide register
    int wlo, whi;
};
Case genFull(const char* id, Rng& r, const Plan& p, bool thorough, const Mixer& mixer)
{
    Case c;
    c.prop = id;
    c.kind = "circuit";
    c.stack = r.pick(p.stacks);
    c.seed = r.next() & 0xffffffff;
    int n = r.range(p.nlo, p.nhi);
    int W = n;
    unsigned maxN = stackDef(c.stack).maxN;
    if (p.wide > 0 && maxN > 32 && r.chance(p.wide)) {
        n = r.range(2, 6);
        W = r.range(p.wlo, std::min<int>(p.whi, maxN - 2));
        c.kind = "wide";
    }
    layout(c, r, n, W);
    GenCtx g = ctxOf(c, r);
    g.style = r.pick(std::vector<int>{ 0, 1, 2, 2, 3, 3 });
    if (W == n && r.chance(0.5)) c.p["perm"] = r.below((u64)1 << n);
    c.p["cmp"] = r.pick(std::vector<int>{ 0, 0, 1, 2, 2 });
    if (W > n) c.p["cmp"] = r.pick(std::vector<int>{ 0, 0, 2 });
    prep(c, g, false);
    int k = r.range(p.slo, p.shi) * (thorough && r.chance(0.3) ? 3 : 1);
    genSteps(c, g, mixer, k);
    return c;
}
const unsigned NOSAMPLE = O_SAMPLE; // sampling is costly and has its own property
Reg c01(Property{ "C01", [](bool t) -> u64 { return t ? 8000000 : 400000; },
    [](Rng& r, u64, bool th) {
        static const Mixer m = gatesMixer(0);
        static const Plan p{ { "cpu", "cpu", "cpu-norm" }, 0, 1, 8, 3, 24, 0, 0, 0 };
        Case c = genFull("C01", r, p, th, m);
        return c;
    },
    runWorld, "random circuits over every gate; non-trivial: at least two operations executed and a superposed state was compared with the reference",
    "the reference simulator (double precision, written independently) defines the documented unitaries" });
Reg c02(Property{ "C02", [](bool t) -> u64 { return t ? 1200000 : 50000; },
    [](Rng& r, u64, bool th) {
        static const Mixer m = fullMixer(O_COND | NOSAMPLE);
        static const Mixer mr = fullMixer(O_COND | O_RDM | NOSAMPLE);
        static const Mixer mw = fullMixer(O_COND | O_RDM | NOSAMPLE | O_HEAVYQ);
        static const Plan p{ { "qunit-cpu", "qunit-cpu", "qunit-cpu", "qunit-pager2" }, 0, 1, 7, 4, 30, 0.15, 20, 100 };
        Rng probe = r;
        Case c = genFull("C02", r, p, th, m);
        if (c.kind == "wide" || c.stack.find("stabh") != std::string::npos) {
            r = probe;
            c = genFull("C02", r, p, th, c.kind == "wide" ? mw : mr);
        }
        return c;
    },
    runWorld, "random histories over the whole operation table on QUnit stacks; non-trivial: two or more operations executed and a superposed state compared",
    "hidden random outcomes (resets) are resolved by matching one of the reference post-states" });
Reg c03(Property{ "C03", [](bool t) -> u64 { return t ? 400000 : 30000; },
    [](Rng& r, u64, bool th) {
        auto cl = [](const OpDef& o) {
            return (o.flags & (O_CLIFF | O_CLIFFP)) || (o.flags & O_MEAS) || (o.flags & O_QUERY);
        };
        auto mk = [&](unsigned not_) {
            Mixer m = fullMixer(not_), k;
            for (auto& g : m.g) {
                Mixer::G x;
                x.w = g.w;
                for (auto* o : g.ops)
                    if (cl(*o)) x.ops.push_back(o);
                if (!x.ops.empty()) k.g.push_back(x);
            }
            return k;
        };
        static const Mixer mn = mk(O_COND | NOSAMPLE | O_IO | O_UC | O_EVO | O_ALU | O_PARITY);
        static const Mixer mw = mk(O_COND | NOSAMPLE | O_IO | O_UC | O_EVO | O_ALU | O_PARITY | O_HEAVYQ);
        static const Mixer ma = gatesMixer(O_UC | O_EVO | O_PARITY);
        static const Plan p{ { "stab", "stab", "ucliff", "unitc" }, 0, 1, 7, 4, 40, 0.2, 20, 126 };
        Rng probe = r;
        Case c = genFull("C03", r, p, th, mn);
        r = probe;
        c = genFull("C03", r, p, th, c.kind == "wide" ? mw : (c.seed % 3 ? mn : ma));
        if (c.seed % 3 == 0 && c.kind != "wide") c.kind = "anygate";
        // Clifford angles most of the time; others must be refused or exact
        c.p["refuse"] = 1;
        return c;
    },
    runWorld, "random Clifford-valued circuits (and arbitrary gates that must be exact or refused); non-trivial: two or more operations executed and a superposed state compared",
    "a thrown exception counts as refusal; the state must then be unchanged" });
// near-Clifford circuits that stay in the stabilizer representation (buffers and magic-state ancillae), in registers too
// wide for any state vector: amplitudes, samples and measurements come from the near-Clifford representation alone
Case genNear(Rng& r, bool th)
{
    Case c;
    c.prop = "C04";
    c.kind = "near";
    c.seed = r.next() & 0xffffffff;
    const int n = r.range(1, 5);
    int W = n;
    if (r.chance(0.4)) {
        c.stack = "stabh-wide";
        W = r.range(28, 100);
    } else c.stack = r.pick(std::vector<std::string>{ "stabh-cpu", "stabh-cpu", "stabh-qunit-cpu" });
    layout(c, r, n, W);
    if (W == n && r.chance(0.5)) c.p["perm"] = r.below((u64)1 << n);
    c.p["amp"] = 1;
    c.p["cmp"] = r.pick(std::vector<int>{ 0, 0, 1, 2, 2 });
    const std::vector<int> m = caseMapped(c);
    static const std::vector<std::string> one{ "H", "H", "H", "S", "IS", "X", "Y", "Z", "SqrtX", "SqrtY", "ISqrtX" }, two{ "CNOT", "CNOT", "CNOT", "CY", "CZ", "AntiCNOT", "AntiCZ", "Swap", "ISwap" },
        magic{ "T", "IT", "RZ", "T", "RZ" };
    int budget = r.range(0, th ? 9 : 7); // ancillae cost a factor of two each
    auto put = [&](const std::string& op, std::vector<int> q, std::vector<double> rr = {}) {
        if (!findOp(op)) return;
        Step t;
        t.op = op;
        t.q = q;
        t.r = rr;
        c.steps.push_back(t);
    };
    const int k = r.range(3, 30);
    bool used = false;
    for (int i = 0; i < k; ++i) {
        const int q = r.pick(m);
        if (n > 1 && r.chance(0.4)) {
            int p = q;
            while (p == q) p = r.pick(m);
            put(r.pick(two), { q, p });
        } else if (budget > 0 && r.chance(0.4)) {
            --budget;
            used = true;
            const std::string g = r.pick(magic);
            if (g == "RZ") put(g, { q }, { r.chance(0.3) ? r.range(-8, 8) * 3.14159265358979324 / 8 : (double)r.range(-700, 700) / 100 });
            else put(g, { q });
        } else if (r.chance(0.06) && (W == n || !used)) put("M", { q }); // (with magic in place, measurement needs a state vector)
        else put(r.pick(one), { q });
    }
    if (r.chance(0.3)) // a last layer of arbitrary single-qubit gates stays buffered
        for (int q : m)
            if (r.chance(0.6)) put("RY", { q }, { (double)r.range(-300, 300) / 100 });
    return c;
}
Reg c04(Property{ "C04", [](bool t) -> u64 { return t ? 1500000 : 120000; },
    [](Rng& r, u64, bool th) {
        if (r.chance(0.3)) return genNear(r, th);
        static const Mixer m = fullMixer(O_COND | O_RDM | NOSAMPLE);
        static const Mixer mw = fullMixer(O_COND | O_RDM | NOSAMPLE | O_HEAVYQ);
        static const Plan p{ { "stabh-cpu", "stabh-cpu", "stabh-qunit-cpu", "qunit-stabh-cpu", "qunit-stabh-cpu" }, 0, 1, 6, 4, 24, 0.1, 20, 100 };
        Rng probe = r;
        Case c = genFull("C04", r, p, th, m);
        if (c.kind == "wide") {
            r = probe;
            c = genFull("C04", r, p, th, mw);
        } else if (r.chance(0.3)) c.p["amp"] = 1;
        return c;
    },
    runWorld, "random histories on stabilizer-hybrid stacks, and near-Clifford circuits in registers of up to 100 qubits; non-trivial: two or more operations executed and a superposed state compared",
    "cases that need exponential time or memory (more than 20 s) are given up, reported if they are more than 1 in 1000; reduced-density (Rdm) queries are approximate by design once ancillae exist" });
Reg c05(Property{ "C05", [](bool t) -> u64 { return t ? 120000 : 8000; },
    [](Rng& r, u64, bool th) {
        static const Mixer m = fullMixer(O_COND | O_RDM | NOSAMPLE);
        static const Plan p{ { "bdt", "bdt", "bdth", "qunit-bdt", "qunit-bdth" }, 0, 1, 6, 4, 20, 0, 0, 0 };
        return genFull("C05", r, p, th, m);
    },
    runWorld, "random histories on decision-diagram stacks; non-trivial: two or more operations executed and a superposed state compared", "" });
Reg c06(Property{ "C06", [](bool t) -> u64 { return t ? 1000000 : 36000; },
    [](Rng& r, u64, bool th) {
        static const Mixer m = fullMixer(O_COND | NOSAMPLE);
        static const Plan p{ { "pager1", "pager2", "pager3", "pager" }, 0, 1, 7, 4, 24, 0, 0, 0 };
        return genFull("C06", r, p, th, m);
    },
    runWorld, "random histories on paged stacks; non-trivial: two or more operations executed and a superposed state compared", "" });
Reg c07(Property{ "C07", [](bool t) -> u64 { return t ? 100000 : 8000; },
    [](Rng& r, u64, bool th) {
        static const Mixer m = fullMixer(O_COND | O_RDM | NOSAMPLE);
        static const Plan p{ { "tn-cpu", "tn-qunit-cpu", "tn-qunit-stabh-cpu" }, 0, 1, 6, 4, 24, 0, 0, 0 };
        return genFull("C07", r, p, th, m);
    },
    runWorld, "random histories on deferred-execution stacks; non-trivial: two or more operations executed and a superposed state compared", "" });
} // namespace
