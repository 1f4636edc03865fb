// Generation of operation histories for the world-based properties.
#pragma once
#include "ops_int.hpp"
namespace vq {
struct Mixer { // weighted choice of operation groups
    struct G {
        double w;
        std::vector<const OpDef*> ops;
    };
    std::vector<G> g;
    void add(double w, const std::function<bool(const OpDef&)>& f)
    {
        G x{ w, selectOps(f) };
        if (!x.ops.empty()) g.push_back(x);
    }
    const OpDef& draw(Rng& r) const
    {
        double t = 0;
        for (auto& x : g) t += x.w;
        double u = r.unit() * t;
        for (auto& x : g) {
            u -= x.w;
            if (u <= 0) return *r.pick(x.ops);
        }
        return *r.pick(g.back().ops);
    }
};
inline bool fl(const OpDef& o, unsigned any, unsigned none = 0) { return (o.flags & any) && !(o.flags & none); }
// physical layout stored in the case: w = physical width, n = mapped count, m0.. = positions
inline std::vector<int> caseMapped(const Case& c)
{
    std::vector<int> m;
    const int n = (int)c.get("n");
    for (int i = 0; i < n; ++i) m.push_back((int)c.get(fmt("m%d", i), i));
    return m;
}
inline void layout(Case& c, Rng& r, int n, int w)
{
    c.p["n"] = n;
    if (w <= n) return;
    c.p["w"] = w;
    // prefer positions around word boundaries and contiguous clusters
    std::set<int> s;
    int anchor = r.chance(0.5) ? r.range(0, std::max(0, w - n)) : std::max(0, std::min(w - n, r.pick(std::vector<int>{ 31, 32, 62, 63, 64 }) - (int)r.below(n + 1)));
    for (int i = 0; i < n; ++i) {
        int p;
        int tries = 0;
        do p = (r.chance(0.7) && tries++ < 20) ? anchor + r.range(0, n) : r.range(0, w - 1);
        while (p >= w || s.count(p));
        s.insert(p);
    }
    int i = 0;
    for (int p : s) c.p[fmt("m%d", i++)] = p;
}
inline GenCtx ctxOf(const Case& c, Rng& r, int slot = 0)
{
    GenCtx g{ r };
    g.n = (int)c.get("w", c.get("n"));
    g.mapped = caseMapped(c);
    g.slot = slot;
    return g;
}
inline void genSteps(Case& c, GenCtx& g, const Mixer& m, int count)
{
    for (int i = 0, tries = 0; i < count && tries < count * 20; ++tries) {
        Step t;
        if (!drawStep(g, m.draw(g.r), t)) continue;
        c.steps.push_back(t);
        ++i;
    }
}
inline void setupWorld(World& w, const Case& c, Stats& st)
{
    w.c = &c;
    w.st = &st;
    w.cmpMode = (int)c.get("cmp");
    w.mayRefuse = c.get("refuse");
    const int W = (int)c.get("w", 0), n = (int)c.get("n");
    if (W > n) w.slots.push_back(makeWideSlot(c.stack, W, caseMapped(c), c.seed));
    else w.slots.push_back(makeSlot(c.stack, n, (u64)c.get("perm"), c.seed));
    for (int k = 1; k < 4; ++k) {
        const int nk = (int)c.get(fmt("n%d", k));
        if (nk <= 0) continue;
        while ((int)w.slots.size() < k) w.slots.push_back(Slot());
        w.slots.push_back(makeSlot(c.stack, nk, (u64)c.get(fmt("perm%d", k)), mix(c.seed, k)));
    }
}
inline bool runWorld(const Case& c, Stats& st)
{
    World w;
    setupWorld(w, c, st);
    w.run(c.steps);
    return w.nontrivial && w.executed >= 2;
}
// what a simulator type is not asked for (documented or structural limits; see DESIGN.md)
inline unsigned stackNot(const std::string& st)
{
    unsigned x = O_COND; // "conditional probability" has no single documented meaning across simulator types
    if (st == "stab" || st == "ucliff" || st == "unitc") x |= O_IO | O_UC | O_EVO | O_ALU | O_PARITY;
    if (st.find("stabh") != std::string::npos) x |= O_RDM; // exact only without magic-state ancillae
    return x;
}
inline bool isCliffStack(const std::string& st) { return st == "stab" || st == "ucliff" || st == "unitc"; }
// gate context for a stack
inline const Mixer& ctxMixer(const std::string& st)
{
    static std::map<std::string, Mixer> cache;
    auto it = cache.find(st);
    if (it != cache.end()) return it->second;
    const unsigned n = stackNot(st);
    const bool cl = isCliffStack(st);
    auto ok = [=](const OpDef& o) { return !cl || (o.flags & (O_CLIFF | O_CLIFFP)); };
    Mixer m;
    m.add(5, [=](const OpDef& o) { return fl(o, O_1Q, n) && ok(o); });
    m.add(6, [=](const OpDef& o) { return fl(o, O_CTRL, n) && ok(o); });
    m.add(2, [=](const OpDef& o) { return fl(o, O_SWAP, n) && ok(o); });
    return cache[st] = m;
}
} // namespace vq
