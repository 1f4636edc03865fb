// C14: states written out and read back in: stabilizer streams, near-Clifford streams, amplitudes (whole, one by one, in
// pages, between simulators of different types).
#include "gen.hpp"
#include "qengine.hpp"
#include "qpager.hpp"
#include "qstabilizer.hpp"
#include "qstabilizerhybrid.hpp"
#include "qunitclifford.hpp"
#include <sstream>
using namespace vq;
using namespace Qrack;
namespace {
typedef std::shared_ptr<QStabilizerHybrid> SHPtr;
SHPtr hybrid(QInterfacePtr q) { return std::dynamic_pointer_cast<QStabilizerHybrid>(q); }
// move the state of slot 0 into another simulator; returns false when the step does not apply
bool transfer(World& w, const Case& c, const Step& t, int mode, Stats& st)
{
    Slot& s = w.slot(0);
    const int n = s.n();
    Rng r((u64)t.v[0] + 99);
    if (mode == 0) { // stream of a stabilizer
        std::stringstream ss;
        if (r.chance(0.3)) ss.precision(36);
        const int m = r.range(1, 6); // the receiving register starts in another width and state
        if (auto q = std::dynamic_pointer_cast<QUnitClifford>(s.q)) {
            ss << q;
            auto o = std::dynamic_pointer_cast<QUnitClifford>(makeSim(c.stack, m, r.below(1 << m), r.next()));
            for (int i = 0; i + 1 < m; ++i)
                if (r.chance(0.5)) o->H(i), o->CNOT(i, i + 1), o->S(i + 1);
            ss >> o;
            if (r.chance(0.5)) s.q = o;
            else { // a second read of what was read
                std::stringstream s2;
                s2 << o;
                auto o2 = std::dynamic_pointer_cast<QUnitClifford>(makeSim(c.stack, m, 0, r.next()));
                s2 >> o2;
                s.q = o2;
            }
        } else if (auto q = std::dynamic_pointer_cast<QStabilizer>(s.q)) {
            ss << q;
            ss << " 12345";
            auto o = std::dynamic_pointer_cast<QStabilizer>(makeSim(c.stack, m, r.below(1 << m), r.next()));
            for (int i = 0; i + 1 < m; ++i)
                if (r.chance(0.5)) o->H(i), o->CNOT(i, i + 1), o->S(i + 1);
            ss >> o;
            int tail = 0;
            ss >> tail;
            if (tail != 12345) fail("stream", "reading a stabilizer did not stop where writing it did");
            s.q = o;
        } else return false;
        if ((int)s.q->GetQubitCount() != n) fail("width", "the saved state was reloaded with another width");
        return true;
    }
    if (n > 12 || s.ref.n != n) return false;
    // amplitudes, into a simulator of the given type
    static const std::vector<std::string> dst = { "cpu", "qunit-cpu", "pager", "pager1", "pager2", "qunit-pager2" };
    std::string to = dst[(size_t)t.v[1] % dst.size()];
    QInterfacePtr d = makeSim(to, n, r.below(1ULL << n), r.next());
    for (int i = 0; i + 1 < n; ++i)
        if (r.chance(0.5)) d->H(i), d->CNOT(i, i + 1), d->T(i + 1);
    const u64 N = 1ULL << n;
    std::vector<Qrack::complex> b(N);
    auto se = std::dynamic_pointer_cast<QEngine>(s.q), de = std::dynamic_pointer_cast<QEngine>(d);
    int out = r.range(0, 2), in = r.range(0, 3);
    if (out == 2 && !se) out = 0;
    if (in >= 2 && !de) in = r.range(0, 1);
    if (out == 0) s.q->GetQuantumState(b.data());
    else if (out == 1)
        for (u64 i = 0; i < N; ++i) b[i] = s.q->GetAmplitude(bci(i));
    else
        for (u64 i = 0; i < N;) {
            const u64 len = 1 + r.below(std::min<u64>(N - i, r.chance(0.5) ? 4 : N));
            se->GetAmplitudePage(b.data() + i, i, len);
            i += len;
        }
    if (r.chance(0.3)) { // the probabilities belong to the same state
        std::vector<real1> pr(N);
        s.q->GetProbs(pr.data());
        for (u64 i = 0; i < N; ++i)
            if (std::fabs(pr[i] - std::norm(b[i])) > w.ptol) fail("probs", fmt("GetProbs gives %g for |%llu>, amplitudes give %g", (double)pr[i], (unsigned long long)i, (double)std::norm(b[i])));
    }
    if (in == 0) d->SetQuantumState(b.data());
    else if (in == 1)
        for (u64 i = 0; i < N; ++i) d->SetAmplitude(bci(i), b[i]);
    else if (in == 2 || !se)
        for (u64 i = 0; i < N;) {
            const u64 len = 1 + r.below(std::min<u64>(N - i, r.chance(0.5) ? 4 : N));
            de->SetAmplitudePage(b.data() + i, i, len);
            i += len;
        }
    else {
        const bool same = !std::dynamic_pointer_cast<QPager>(se) == !std::dynamic_pointer_cast<QPager>(de);
        if (!same) d->SetQuantumState(b.data());
        else
            for (u64 i = 0; i < N;) {
                const u64 len = 1 + r.below(std::min<u64>(N - i, r.chance(0.5) ? 4 : N));
                de->SetAmplitudePage(se, i, i, len);
                i += len;
            }
    }
    d->UpdateRunningNorm();
    st.label(fmt("in%d out%d", in, out));
    s.q = d;
    return true;
}
bool runSave(const Case& c, Stats& st)
{
    World w;
    setupWorld(w, c, st);
    w.mayRefuse = isCliffStack(c.stack);
    int moved = 0;
    for (const Step& t : c.steps) {
        if (t.op != "SAVE") {
            try {
                w.exec(t);
                ++w.executed;
            } catch (const Invalid&) {
            } catch (const Viol&) {
                throw;
            } catch (const std::exception& e) {
                const OpDef* o = findOp(t.op);
                if (w.mayRefuse && o && !(o->flags & O_CLIFF)) return moved && w.nontrivial;
                fail("exception:" + t.op, fmt("%s threw %s", t.str().c_str(), e.what()));
            }
            continue;
        }
        const std::string when = t.str();
        bool done;
        try {
            done = transfer(w, c, t, isCliffStack(c.stack) ? (t.v[2] % 4 ? 0 : 1) : 1, st);
        } catch (const Viol&) {
            throw;
        } catch (const Invalid&) {
            throw;
        } catch (const std::exception& e) {
            fail("exception:save", fmt("%s threw %s", when.c_str(), e.what()));
        }
        if (!done) continue;
        ++moved;
        if (t.v[3] & 1) w.compareAll(("after " + when).c_str());
        if (!isCliffStack(c.stack)) continue;
        if (!std::dynamic_pointer_cast<QStabilizer>(w.slot(0).q) && !std::dynamic_pointer_cast<QUnitClifford>(w.slot(0).q)) break;
    }
    w.compareAll("at the end");
    return moved && w.nontrivial;
}
// near-Clifford: the reloaded simulator against the one it was saved from
bool runHybrid(const Case& c, Stats& st)
{
    const int n = (int)c.get("n");
    QInterfacePtr q = makeSim(c.stack, n, (u64)c.get("perm"), c.seed);
    auto play = [&](QInterfacePtr x, const Step& t) {
        const OpDef* o = findOp(t.op);
        if (!o) return;
        World w;
        w.c = &c;
        w.st = &st;
        Slot s = makeSlot("cpu", n, 0, 1);
        s.q = x;
        w.slots.push_back(s);
        try {
            w.exec(t);
        } catch (const Invalid&) {
        } catch (const Viol&) {
        }
    };
    int saves = 0;
    QInterfacePtr l; // the reloaded one
    auto same = [&](const char* when) {
        if (!l) return;
        if (l->GetQubitCount() != q->GetQubitCount()) fail("width", fmt("%s: widths differ", when));
        for (int i = 0; i < n; ++i) {
            const double a = q->Clone()->Prob(i), b = l->Clone()->Prob(i);
            if (std::fabs(a - b) > 2e-3) fail("prob", fmt("%s: the reloaded simulator gives Prob(%d)=%g, the saved one %g", when, i, b, a));
        }
        const std::vector<cd> a = readAll(q->Clone()), b = readAll(l->Clone());
        double nrm = 0;
        const double d = stateDiff(a, b, &nrm);
        if (std::fabs(nrm - 1) > 1e-2 || d > 5e-3) fail("state", fmt("%s: the reloaded state differs by %g (norm %g)", when, d, nrm));
    };
    for (const Step& t : c.steps) {
        if (t.op != "SAVE") {
            play(q, t);
            if (l) play(l, t);
            continue;
        }
        std::stringstream ss;
        ss.precision(t.v[3] & 2 ? 36 : 9);
        SHPtr h = hybrid(q);
        try {
            ss << h;
        } catch (const std::logic_error&) {
            st.label("refused: not in Clifford form");
            continue;
        }
        Rng r((u64)t.v[0]);
        const int m = r.range(1, 5);
        l = makeSim(c.stack, m, r.below(1 << m), r.next());
        for (int i = 0; i + 1 < m; ++i)
            if (r.chance(0.5)) l->H(i), l->T(i), l->CNOT(i, i + 1), l->H(i), l->T(i + 1);
        ss >> hybrid(l);
        ++saves;
        {
            std::stringstream s2(ss.str());
            size_t a = 0, b = 0;
            s2 >> a >> b;
            if (b > a) st.label("with ancillae");
        }
        if (t.v[3] & 1) same(("after " + t.str()).c_str());
    }
    same("at the end");
    return saves > 0;
}
Reg c14(Property{ "C14", [](bool t) -> u64 { return t ? 3000000 : 200000; },
    [](Rng& r, u64 idx, bool) {
        static const std::vector<std::string> st = { "stab", "ucliff", "stabh-cpu", "cpu", "qunit-cpu", "pager2", "pager1", "qunit-pager2", "stab", "ucliff", "stabh-cpu", "qunit-cpu" };
        Case c;
        c.prop = "C14";
        c.stack = st[idx % st.size()];
        c.seed = r.next() & 0x7fffffff;
        const bool cl = isCliffStack(c.stack), hy = c.stack.find("stabh") != std::string::npos;
        c.kind = hy ? "hybrid" : cl ? "stabilizer" : "amplitudes";
        const int n = r.range(1, hy ? 5 : 6);
        if (cl && r.chance(0.1)) {
            layout(c, r, n, r.range(n + 1, 100));
        } else c.p["n"] = n;
        c.p["perm"] = (long long)r.below(1 << n);
        GenCtx g = ctxOf(c, r);
        g.style = cl ? 0 : hy ? r.range(0, 2) : 3;
        static const Mixer hm = [] {
            Mixer m;
            m.add(5, [](const OpDef& o) { return fl(o, O_1Q, O_MEAS | O_QUERY); });
            m.add(5, [](const OpDef& o) { return fl(o, O_CTRL | O_SWAP, O_MULTI | O_UC | O_MEAS | O_QUERY) && (o.flags & O_CLIFF); });
            return m;
        }();
        static const Mixer gm = [] {
            Mixer m;
            m.add(5, [](const OpDef& o) { return fl(o, O_1Q | O_CTRL | O_SWAP, O_QUERY | O_MEAS); });
            m.add(1, [](const OpDef& o) { return fl(o, O_MEAS, O_QUERY | O_STRUCT | O_ALU | O_LOGIC); });
            return m;
        }();
        static const Mixer cm = [] {
            Mixer m;
            m.add(5, [](const OpDef& o) { return fl(o, O_1Q | O_CTRL | O_SWAP, O_QUERY | O_MEAS | O_UC) && (o.flags & (O_CLIFF | O_CLIFFP)); });
            m.add(1, [](const OpDef& o) { return fl(o, O_MEAS, O_QUERY | O_STRUCT | O_ALU | O_LOGIC | O_PARITY); });
            return m;
        }();
        const Mixer& m = hy ? hm : cl ? cm : gm;
        genSteps(c, g, m, r.range(1, 14));
        const int k = r.range(1, 3);
        for (int i = 0; i < k; ++i) {
            Step t;
            t.op = "SAVE";
            t.v = { (long long)r.below(1 << 30), (long long)r.below(6), (long long)r.below(4), (long long)r.below(4) };
            c.steps.insert(c.steps.begin() + (i ? r.range(0, (int)c.steps.size()) : (int)c.steps.size()), t);
        }
        genSteps(c, g, m, r.range(0, 6));
        return c;
    },
    [](const Case& c, Stats& st) { return c.kind == "hybrid" ? runHybrid(c, st) : runSave(c, st); },
    "at least one state was saved and reloaded, and (except near-Clifford) a superposed state was compared with the reference",
    "stabilizer streams up to 100 qubits; near-Clifford streams up to 5 qubits, judged against the simulator they were saved from" });
} // namespace
