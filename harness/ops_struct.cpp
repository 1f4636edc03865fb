#include "ops_int.hpp"
using namespace Qrack;
namespace vq {
static const int MAXREF = 11;
// reorder logical qubits: new bit j is old bit order[j]
static Ref reorder(const Ref& r, const std::vector<int>& order)
{
    Ref o(r.n);
    for (u64 i = 0; i < r.a.size(); ++i) {
        u64 k = 0;
        for (size_t j = 0; j < order.size(); ++j) k |= ((i >> order[j]) & 1) << j;
        o.a[k] = r.a[i];
    }
    return o;
}
// physical range -> (part ref, rest ref, part log, rest log); returns 1 separable, 0 clearly not, -1 borderline
static int cut(const Slot& s, int start, int len, Slot& part, Slot& rest)
{
    std::vector<int> order, pl, rl;
    std::vector<int> seenPart(s.ref.n, 0);
    for (int i = start; i < start + len; ++i) {
        if (s.log[i] < 0) {
            pl.push_back(-1);
            continue;
        }
        pl.push_back((int)order.size());
        order.push_back(s.log[i]);
        seenPart[s.log[i]] = 1;
    }
    const int np = (int)order.size();
    int k = 0;
    std::vector<int> newIdx(s.ref.n, -1);
    for (int l = 0; l < s.ref.n; ++l)
        if (!seenPart[l]) {
            newIdx[l] = k++;
            order.push_back(l);
        }
    for (int p = 0; p < s.n(); ++p) {
        if (p >= start && p < start + len) continue;
        rl.push_back(s.log[p] < 0 ? -1 : newIdx[s.log[p]]);
    }
    part.log = pl;
    rest.log = rl;
    if (!np) {
        part.ref = Ref(0);
        rest.ref = s.ref;
        return 1;
    }
    Ref r = reorder(s.ref, order);
    if (np == r.n) {
        part.ref = r;
        rest.ref = Ref(0);
        return 1;
    }
    if (r.split(0, np, part.ref, rest.ref, 1e-6)) return 1;
    // purity of the reduced state of the range
    const u64 D = (u64)1 << np, E = (u64)1 << (r.n - np);
    double pur = 0;
    for (u64 i = 0; i < D; ++i)
        for (u64 j = 0; j < D; ++j) {
            cd x = 0;
            for (u64 e = 0; e < E; ++e) x += r.a[i | (e << np)] * std::conj(r.a[j | (e << np)]);
            pur += std::norm(x);
        }
    return pur < 0.97 ? 0 : -1;
}
static int freeSlot(World& w, int want)
{
    if (want < 0 || want > 5) throw Invalid{ "slot" };
    while ((int)w.slots.size() <= want) w.slots.push_back(Slot());
    if (w.slots[want].q) throw Invalid{ "slot used" };
    return want;
}
void regStruct()
{
    // v: start (or -1 for the one-argument form), length
    addOp("Alloc", O_STRUCT | O_CLIFF, 0, 0, 2,
        [](GenCtx& g, Step& t) {
            t.v = { g.r.chance(0.3) ? -1 : g.r.range(0, g.n), g.r.chance(0.05) ? 0 : g.r.range(1, 2) };
            return true;
        },
        [](World& w, Slot& s, const Step& t) {
            const int len = (int)t.v[1], st = (int)t.v[0];
            if (len < 0 || len > 3 || st > s.n() || st < -1) throw Invalid{ "range" };
            if (s.ref.n + len > MAXREF || s.n() + len > 126) throw Invalid{ "too wide" };
            const int at = st < 0 ? s.n() : st;
            int got = st < 0 ? s.q->Allocate((bitLenInt)len) : s.q->Allocate((bitLenInt)st, (bitLenInt)len);
            std::vector<int> nl;
            for (int i = 0; i < len; ++i) nl.push_back(s.ref.n + i);
            s.ref.insertZeros(s.ref.n, len);
            s.log.insert(s.log.begin() + at, nl.begin(), nl.end());
            if (len && got != at) fail("return", fmt("Allocate returned %d, expected %d", got, at));
        });
    // v: other slot, mode (0 at end, 1 at start, 2 ComposeNoClone at end), start
    addOp("Compose", O_STRUCT | O_CLIFF, 0, 0, 3, [](GenCtx&, Step&) { return false; },
        [](World& w, Slot& s, const Step& t) {
            const int os = (int)t.v[0], mode = (int)t.v[1];
            if (os == t.s) throw Invalid{ "self" };
            Slot& o = w.slot(os);
            if (s.ref.n + o.ref.n > MAXREF || s.n() + o.n() > 126) throw Invalid{ "too wide" };
            int at = s.n();
            if (mode == 1) {
                at = (int)t.v[2];
                if (at < 0 || at > s.n()) throw Invalid{ "range" };
            } else if (mode != 0 && mode != 2)
                throw Invalid{ "mode" };
            int got;
            if (mode == 0) got = s.q->Compose(o.q);
            else if (mode == 1) got = s.q->Compose(o.q, (bitLenInt)at);
            else got = s.q->ComposeNoClone(o.q);
            std::vector<int> nl;
            for (int x : o.log) nl.push_back(x < 0 ? -1 : s.ref.n + x);
            s.ref.insert(s.ref.n, o.ref);
            s.log.insert(s.log.begin() + at, nl.begin(), nl.end());
            if (mode == 2) o = Slot();
            if (got != at) fail("return", fmt("Compose returned %d, expected %d", got, at));
        });
    // v: start, length, mode (0 Decompose(start,dest), 1 Decompose(start,length), 2 Dispose, 3 Dispose with permutation,
    //    4 TryDecompose), new slot
    addOp("Split", O_STRUCT | O_CLIFF, 0, 0, 4,
        [](GenCtx& g, Step& t) {
            if (g.n < 2) return false;
            int len = g.r.range(1, std::min(3, g.n - 1));
            t.v = { g.r.range(0, g.n - len), len, g.r.range(0, 4), 1 };
            return true;
        },
        [](World& w, Slot& s0, const Step& t) {
            const int start = (int)t.v[0], len = (int)t.v[1], mode = (int)t.v[2];
            if (start < 0 || len < 1 || start + len > s0.n() || len >= s0.n()) throw Invalid{ "range" };
            Slot part, rest;
            int sep = cut(s0, start, len, part, rest);
            if (sep < 0 || (!sep && mode != 4)) throw Invalid{ "not separable" };
            if (mode == 2 || mode == 3) {
                u64 perm = 0, phys = 0;
                if (mode == 3) {
                    for (u64 i = 0; i < part.ref.a.size(); ++i)
                        if (std::norm(part.ref.a[i]) > std::norm(part.ref.a[perm])) perm = i;
                    if (std::norm(part.ref.a[perm]) < 1 - 1e-9) throw Invalid{ "not a permutation" };
                    for (int i = 0; i < len; ++i)
                        if (part.log[i] >= 0 && ((perm >> part.log[i]) & 1)) phys |= (u64)1 << i;
                    s0.q->Dispose((bitLenInt)start, (bitLenInt)len, bci(phys));
                } else
                    s0.q->Dispose((bitLenInt)start, (bitLenInt)len);
                s0.ref = rest.ref;
                s0.log = rest.log;
                return;
            }
            const int si = t.s, ns = freeSlot(w, (int)t.v[3]);
            Slot& s = w.slots[si];
            QInterfacePtr d;
            if (mode == 0 || mode == 4) d = makeSim(w.c->stack, len, 0, mix(w.c->seed, 77 + ns));
            if (mode == 0) s.q->Decompose((bitLenInt)start, d);
            else if (mode == 1) d = s.q->Decompose((bitLenInt)start, (bitLenInt)len);
            else if (mode == 4) {
                bool ok = s.q->TryDecompose((bitLenInt)start, d, 1e-3f); // well above single-precision round-off, well below the entangled cases
                if (ok != (sep == 1))
                    fail("trydecompose", fmt("TryDecompose(%d,%d) returned %d on a %s range", start, len, (int)ok, sep ? "separable" : "entangled"));
                if (!ok) return;
            } else
                throw Invalid{ "mode" };
            s.ref = rest.ref;
            s.log = rest.log;
            part.q = d;
            w.slots[ns] = part;
        });
    // v: new slot
    addOp("Clone", O_STRUCT | O_CLIFF, 0, 0, 1,
        [](GenCtx& g, Step& t) {
            t.v = { g.r.range(1, 3) };
            return true;
        },
        [](World& w, Slot&, const Step& t) {
            const int ns = freeSlot(w, (int)t.v[0]);
            Slot& s = w.slots[t.s];
            Slot c = s;
            c.q = s.q->Clone();
            if (!c.q) fail("clone", "Clone returned null");
            w.slots[ns] = c;
        });
    addOp("Drop", O_STRUCT | O_CLIFF, 0, 0, 0, [](GenCtx&, Step&) { return false; },
        [](World&, Slot& s, const Step&) { s = Slot(); });
}
} // namespace vq
