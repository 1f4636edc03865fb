// Development aid (never registered in MANIFEST): VQ_STACK, VQ_GRP choose a stack and an operation group.
#include "gen.hpp"
#include <cstdlib>
using namespace vq;
namespace {
unsigned grp(const std::string& s)
{
    static const std::map<std::string, unsigned> m{ { "gate", O_GATE }, { "query", O_QUERY }, { "rdm", O_RDM }, { "meas", O_MEAS }, { "alu", O_ALU },
        { "logic", O_LOGIC }, { "shift", O_SHIFT }, { "qft", O_QFT }, { "hint", O_HINT }, { "io", O_IO }, { "reset", O_RESET }, { "struct", O_STRUCT },
        { "sample", O_SAMPLE }, { "parity", O_PARITY }, { "uc", O_UC }, { "mask", O_MASK }, { "range", O_RANGE }, { "evo", O_EVO }, { "heavy", O_HEAVYQ },
        { "cond", O_COND }, { "force", O_FORCE }, { "ctrl", O_CTRL }, { "1q", O_1Q }, { "swap", O_SWAP } };
    unsigned f = 0;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ','))
        if (m.count(t)) f |= m.at(t);
    return f;
}
std::string env(const char* n, const char* d) { return getenv(n) ? getenv(n) : d; }
Reg dev(Property{ "DEV", [](bool) -> u64 { return 20000; },
    [](Rng& r, u64, bool) {
        static const unsigned f = grp(env("VQ_GRP", "")), x = grp(env("VQ_NOT", ""));
        static const std::string opsL = "," + env("VQ_OPS", "") + ",";
        static const std::string notL = "," + env("VQ_NOOPS", "") + ",";
        static const bool simple = env("VQ_CTX", "simple") == "simple", cliff = env("VQ_CTX", "simple") == "cliff";
        static Mixer tgt, ctx;
        static bool init = false;
        if (!init) {
            init = true;
            tgt.add(1, [&](const OpDef& o) {
                return ((f && fl(o, f, x)) || opsL.find("," + o.name + ",") != std::string::npos) && notL.find("," + o.name + ",") == std::string::npos;
            });
            ctx.add(1, [&](const OpDef& o) {
                static const std::set<std::string> s{ "H", "T", "RY", "CNOT", "CZ", "RZ", "S", "X" }, c{ "H", "S", "X", "CNOT", "CZ", "Y" };
                if (simple) return s.count(o.name) > 0;
                if (cliff) return c.count(o.name) > 0;
                return fl(o, O_1Q | O_CTRL | O_SWAP, O_EVO | O_UC);
            });
        }
        Case c;
        c.kind = "dev";
        c.stack = env("VQ_STACK", "cpu");
        c.seed = r.next() & 0xffffffff;
        int n = r.range(1, atoi(env("VQ_N", "5").c_str())), W = atoi(env("VQ_W", "0").c_str());
        layout(c, r, n, W);
        if (W <= n) c.p["perm"] = r.chance(0.5) ? 0 : r.below(1ULL << n);
        c.p["refuse"] = atoi(env("VQ_REFUSE", "0").c_str());
        c.p["cmp"] = r.pick(std::vector<int>{ 0, 1, 2 });
        if (getenv("VQ_CMP")) c.p["cmp"] = atoi(getenv("VQ_CMP"));
        GenCtx g = ctxOf(c, r);
        g.style = r.range(0, 3);
        if (cliff) g.style = 0;
        int rounds = r.range(1, 3);
        for (int k = 0; k < rounds; ++k) {
            genSteps(c, g, ctx, r.range(0, 8));
            genSteps(c, g, tgt, r.range(1, 2));
        }
        genSteps(c, g, ctx, r.range(0, 3));
        return c;
    },
    runWorld, "development", "" });
} // namespace
