// World = a set of simulator slots, each paired with the independent reference state; the operation table
// drives both and compares them.
#pragma once
#include "core.hpp"
#include "qfactory.hpp"

namespace vq {
struct Invalid {
    const char* why;
};
struct Slot {
    Qrack::QInterfacePtr q;
    Ref ref;
    std::vector<int> log; // physical index -> logical index, or -1 (an untouched |0> qubit)
    int n() const { return (int)log.size(); }
    int L(int p) const
    {
        if (p < 0 || p >= (int)log.size()) throw Invalid{ "range" };
        if (log[p] < 0) throw Invalid{ "unmapped" };
        return log[p];
    }
    u64 bit(int p) const { return (u64)1 << L(p); }
    std::vector<int> Ls(const std::vector<int>& ps) const
    {
        std::vector<int> o;
        for (int p : ps) o.push_back(L(p));
        return o;
    }
    std::vector<int> reg(int start, int len) const // logical indices of a physical range
    {
        if (start < 0 || len < 0 || start + len > n()) throw Invalid{ "range" };
        std::vector<int> o;
        for (int i = 0; i < len; ++i) o.push_back(L(start + i));
        return o;
    }
    std::vector<int> phys() const // logical -> physical
    {
        std::vector<int> o(ref.n, -1);
        for (int p = 0; p < n(); ++p)
            if (log[p] >= 0) o[log[p]] = p;
        return o;
    }
    std::vector<int> mapped() const
    {
        std::vector<int> o;
        for (int p = 0; p < n(); ++p)
            if (log[p] >= 0) o.push_back(p);
        return o;
    }
};
typedef unsigned __int128 u128;
inline bitCapInt bci(u128 x) { return (bitCapInt)x; }

struct World {
    const Case* c;
    Stats* st;
    std::vector<Slot> slots;
    double tol = 2e-3; // amplitude tolerance
    double ptol = 2e-3; // probability tolerance
    double blur = 1; // how much collapses onto unlikely branches have magnified rounding errors so far (see Ref)
    int cmpMode = 0; // 0 end only, 1 after every step, 2 after every step through a clone
    bool mayRefuse = false; // an exception from a gate is allowed and must leave the state unchanged
    u64 executed = 0, skipped = 0, refused = 0;
    bool nontrivial = false; // an entangled/superposed state was compared
    std::string trace;
    Slot& slot(int s)
    {
        if (s < 0 || s >= (int)slots.size() || !slots[s].q) throw Invalid{ "slot" };
        return slots[s];
    }
    // amplitudes of the simulator in the logical order of the reference
    std::vector<cd> read(Slot& s, Qrack::QInterfacePtr q = nullptr);
    void compare(Slot& s, const char* when, bool viaClone = false);
    void compareAll(const char* when);
    // the simulator did something with a hidden random outcome: pick the candidate that matches
    void resolve(Slot& s, std::vector<Ref>& cand, const char* what);
    void checkNum(const char* what, double got, double want, double tol);
    void run(const std::vector<Step>& steps);
    void exec(const Step& t);
};

enum : unsigned {
    O_CLIFF = 1, // always Clifford
    O_CLIFFP = 2, // Clifford when parameters are drawn in Clifford style
    O_1Q = 4,
    O_CTRL = 8,
    O_SWAP = 16,
    O_ROT = 32,
    O_MASK = 64,
    O_RANGE = 128,
    O_UC = 256,
    O_EVO = 512,
    O_MEAS = 1024,
    O_QUERY = 2048,
    O_SAMPLE = 4096,
    O_STRUCT = 8192,
    O_ALU = 1 << 14,
    O_LOGIC = 1 << 15,
    O_QFT = 1 << 16,
    O_HINT = 1 << 17,
    O_IO = 1 << 18,
    O_FORCE = 1 << 19,
    O_DUPQ = 1 << 20, // the qubit list may repeat
    O_SHIFT = 1 << 21,
    O_HEAVYQ = 1 << 22, // query whose cost is exponential in the physical width: narrow registers only
    O_MULTI = 1 << 23, // gate with 2 or more controls
    O_CONTIG = 1 << 24, // needs contiguous mapped ranges
    O_PARITY = 1 << 25,
    O_RESET = 1 << 26,
    O_RDM = 1 << 27, // reduced-density-matrix query: exact only without magic-state ancillae
    O_COND = 1 << 28, // conditional probability of the dense engines
    O_GATE = O_1Q | O_CTRL | O_SWAP | O_ROT | O_MASK | O_RANGE | O_UC | O_EVO,
};

struct GenCtx {
    Rng& r;
    int n; // physical width
    std::vector<int> mapped; // physical indices usable
    int style = 3; // 0 Clifford angles, 1 multiples of pi/4, 2 random, 3 mixture
    int slot = 0;
    std::vector<int> qs(int k); // k distinct usable qubits (empty when impossible)
    double angle();
    bool contig(int len, int& start); // a contiguous usable range
};
struct OpDef {
    std::string name;
    unsigned flags;
    int minq; // least number of qubits in q
    int nr, nv;
    std::function<bool(GenCtx&, Step&)> gen;
    std::function<void(World&, Slot&, const Step&)> exec;
};
const std::vector<OpDef>& ops();
const OpDef* findOp(const std::string& name);
// all operations matching a filter
std::vector<const OpDef*> selectOps(const std::function<bool(const OpDef&)>& f);
// draw one step
bool drawStep(GenCtx& g, const OpDef& o, Step& out);

// ---------------------------------------------------------------- stacks
struct StackDef {
    std::string name;
    unsigned maxN; // largest width this stack is asked for
    std::function<Qrack::QInterfacePtr(int n, u128 perm, qrack_rand_gen_ptr rng)> make;
};
const std::vector<StackDef>& stacks();
const StackDef& stackDef(const std::string& name);
Qrack::QInterfacePtr makeSim(const std::string& stack, int n, u128 perm, u64 seed);
Slot makeSlot(const std::string& stack, int n, u64 perm, u64 seed); // narrow, identity map
Slot makeWideSlot(const std::string& stack, int n, const std::vector<int>& mapped, u64 seed);

std::vector<cd> readAll(Qrack::QInterfacePtr q);
} // namespace vq
