#include "ops_int.hpp"
#include <cstring>
using namespace Qrack;
namespace vq {
std::vector<cd> readAll(QInterfacePtr q)
{
    std::vector<Qrack::complex> b((size_t)1 << q->GetQubitCount());
    q->GetQuantumState(b.data());
    std::vector<cd> o(b.size());
    for (size_t i = 0; i < b.size(); ++i) o[i] = cd(b[i].real(), b[i].imag());
    return o;
}
std::vector<cd> World::read(Slot& s, QInterfacePtr q)
{
    if (!q) q = s.q;
    const std::vector<int> ph = s.phys();
    std::vector<cd> o((size_t)1 << s.ref.n);
    if ((int)q->GetQubitCount() != s.n())
        fail("width", fmt("register reports %d qubits, expected %d", (int)q->GetQubitCount(), s.n()));
    if (s.n() <= 14 && !(c && c->get("amp"))) {
        std::vector<cd> a = readAll(q);
        double leak = 0;
        u64 used = 0;
        for (int p : ph) used |= (u64)1 << p;
        for (u64 i = 0; i < a.size(); ++i) {
            if (i & ~used) {
                leak = std::max(leak, std::abs(a[i]));
                continue;
            }
            u64 k = 0;
            for (int j = 0; j < s.ref.n; ++j)
                if ((i >> ph[j]) & 1) k |= (u64)1 << j;
            o[k] = a[i];
        }
        if (leak > tol) fail("leak", fmt("an untouched |0> qubit has amplitude %.4g on |1>", leak));
    } else {
        for (u64 k = 0; k < o.size(); ++k) {
            u128 i = 0;
            for (int j = 0; j < s.ref.n; ++j)
                if ((k >> j) & 1) i |= (u128)1 << ph[j];
            Qrack::complex c = q->GetAmplitude(bci(i));
            o[k] = cd(c.real(), c.imag());
        }
    }
    return o;
}
static std::string dumpState(const std::vector<cd>& v)
{
    std::string s;
    int k = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (std::abs(v[i]) < 1e-3) continue;
        if (++k > 10) {
            s += " ...";
            break;
        }
        s += fmt(" |%zu>:%.4f%+.4fi", i, v[i].real(), v[i].imag());
    }
    return s;
}
void World::compare(Slot& s, const char* when, bool viaClone)
{
    if (!s.q) return;
    std::vector<cd> a = viaClone ? read(s, s.q->Clone()) : read(s);
    double nrm = 0;
    double d = stateDiff(s.ref.a, a, &nrm);
    if (!(std::fabs(nrm - 1) <= 4 * tol * s.ref.blur))
        fail("norm", fmt("%s: squared norm is %.6f instead of 1; expected%s; got%s", when, nrm, dumpState(s.ref.a).c_str(), dumpState(a).c_str()));
    if (!(d <= tol * s.ref.blur))
        fail("state", fmt("%s: state differs from the reference by %.5f; expected%s; got%s", when, d, dumpState(s.ref.a).c_str(), dumpState(a).c_str()));
    int sup = 0;
    for (auto& x : s.ref.a)
        if (std::norm(x) > 1e-3) ++sup;
    if (sup >= 2) nontrivial = true;
}
void World::compareAll(const char* when)
{
    for (auto& s : slots)
        if (s.q) compare(s, when, cmpMode == 2);
}
void World::resolve(Slot& s, std::vector<Ref>& cand, const char* what)
{
    std::vector<cd> a = read(s);
    double best = 1e9;
    size_t bi = 0;
    for (size_t i = 0; i < cand.size(); ++i) {
        double d = stateDiff(cand[i].a, a);
        if (d < best) {
            best = d;
            bi = i;
        }
    }
    if (cand.empty()) return;
    if (!(best <= tol * cand[bi].blur))
        fail("state", fmt("after %s: state matches none of the %zu possible post-states (closest differs by %.5f); e.g. expected%s; got%s", what,
                          cand.size(), best, dumpState(cand[bi].a).c_str(), dumpState(a).c_str()));
    s.ref = cand[bi];
}
void World::checkNum(const char* what, double got, double want, double t)
{
    if (!(std::fabs(got - want) <= t * blur)) fail("query", fmt("%s returned %.6f, expected %.6f", what, got, want));
}
void World::exec(const Step& t)
{
    const OpDef* o = findOp(t.op);
    if (!o) throw Invalid{ "op" };
    Slot& s = slot(t.s);
    if ((int)t.q.size() < o->minq || (int)t.r.size() < o->nr || (int)t.v.size() < o->nv) throw Invalid{ "arity" };
    for (size_t i = 0; i < t.q.size(); ++i) {
        s.L(t.q[i]);
        if (!(o->flags & O_DUPQ))
            for (size_t j = 0; j < i; ++j)
                if (t.q[i] == t.q[j]) throw Invalid{ "dup" };
    }
    blur = s.ref.blur;
    o->exec(*this, s, t);
}
void World::run(const std::vector<Step>& steps)
{
    size_t ix = 0;
    bool stopped = false;
    for (const Step& t : steps) {
        ++ix;
        const std::string when = fmt("step %zu (%s)", ix, t.str().c_str());
        std::vector<Ref> saved;
        try {
            if (mayRefuse)
                for (auto& s : slots) saved.push_back(s.ref);
            exec(t);
            ++executed;
        } catch (const Invalid& e) {
            ++skipped;
            continue;
        } catch (Viol& v) {
            v.msg = when + ": " + v.msg;
            if (v.sig.find(':') == std::string::npos) v.sig += ":" + t.op;
            throw;
        } catch (const std::exception& e) {
            const OpDef* o = findOp(t.op);
            if (mayRefuse && !(o->flags & O_CLIFF)) {
                ++refused;
                for (size_t i = 0; i < saved.size() && i < slots.size(); ++i) slots[i].ref = saved[i];
                // composite operations may have been carried out in part: nothing more is specified
                if (!(o->flags & (O_1Q | O_CTRL)) || (o->flags & O_SWAP)) {
                    stopped = true;
                    break;
                }
                try {
                    compareAll((when + " was refused (" + e.what() + ")").c_str());
                } catch (Viol& v) {
                    v.sig = "refused:" + t.op;
                    throw;
                }
                continue;
            }
            fail("exception:" + t.op, fmt("%s: unexpected exception: %s", when.c_str(), e.what()));
        }
        if (cmpMode) {
            try {
                compareAll(("after " + when).c_str());
            } catch (Viol& v) {
                if (v.sig.find(':') == std::string::npos) v.sig += ":" + t.op;
                throw;
            } catch (const std::exception& e) {
                fail("exception:read", fmt("reading the state after %s: %s", when.c_str(), e.what()));
            }
        }
    }
    if (!cmpMode && !stopped) {
        try {
            compareAll("at the end");
        } catch (Viol& v) {
            if (v.sig.find(':') == std::string::npos) v.sig += ":end";
            throw;
        } catch (const std::exception& e) {
            fail("exception:read", fmt("reading the final state: %s", e.what()));
        }
    }
    if (st) {
        st->label("steps-executed", executed);
        st->label("steps-skipped", skipped);
        if (refused) st->label("steps-refused", refused);
    }
}

// ---------------------------------------------------------------- generation helpers
std::vector<int> GenCtx::qs(int k)
{
    if ((int)mapped.size() < k) return {};
    std::vector<int> p = r.distinct((int)mapped.size(), k), o;
    for (int i : p) o.push_back(mapped[i]);
    return o;
}
double GenCtx::angle()
{
    int st = style == 3 ? r.range(0, 2) : style;
    if (st == 0) return M_PI / 2 * r.range(-4, 4);
    if (st == 1) return M_PI / 4 * r.range(-8, 8);
    double a = (r.unit() * 2 - 1) * 2 * M_PI;
    // keep away from values the engines are documented to round (near-zero rotations)
    a = std::round(a * 32) / 32;
    return a;
}
bool GenCtx::contig(int len, int& start)
{
    std::vector<char> m(n, 0);
    for (int p : mapped) m[p] = 1;
    std::vector<int> c;
    for (int s = 0; s + len <= n; ++s) {
        bool ok = true;
        for (int i = 0; i < len && ok; ++i) ok = m[s + i];
        if (ok) c.push_back(s);
    }
    if (c.empty()) return false;
    start = r.pick(c);
    return true;
}
static std::vector<OpDef>& table()
{
    static std::vector<OpDef> t;
    return t;
}
void addOp(const std::string& name, unsigned flags, int minq, int nr, int nv, std::function<bool(GenCtx&, Step&)> gen,
    std::function<void(World&, Slot&, const Step&)> exec)
{
    table().push_back(OpDef{ name, flags, minq, nr, nv, gen, exec });
}
const std::vector<OpDef>& ops()
{
    static bool done = false;
    if (!done) {
        done = true;
        regGates();
        regMeas();
        regAlu();
        regStruct();
    }
    return table();
}
const OpDef* findOp(const std::string& name)
{
    static std::map<std::string, const OpDef*> ix;
    if (ix.empty())
        for (auto& o : ops()) {
            if (ix.count(o.name)) { fprintf(stderr, "duplicate op %s\n", o.name.c_str()); abort(); }
            ix[o.name] = &o;
        }
    auto it = ix.find(name);
    return it == ix.end() ? nullptr : it->second;
}
std::vector<const OpDef*> selectOps(const std::function<bool(const OpDef&)>& f)
{
    std::vector<const OpDef*> o;
    for (auto& x : ops())
        if (f(x)) o.push_back(&x);
    return o;
}
bool drawStep(GenCtx& g, const OpDef& o, Step& out)
{
    out = Step();
    out.op = o.name;
    out.s = g.slot;
    return o.gen(g, out);
}

// ---------------------------------------------------------------- stacks
typedef std::vector<QInterfaceEngine> Eng;
static QInterfacePtr mk(const Eng& e, int n, u128 perm, qrack_rand_gen_ptr rng, bool doNorm = false, int thr = 0, bool sparse = false)
{
    return CreateQuantumInterface(e, (bitLenInt)n, bci(perm), rng, ONE_CMPLX, doNorm, true, false, -1, false, sparse, REAL1_EPSILON,
        std::vector<int64_t>{}, (bitLenInt)thr);
}
// the noisy wrapper at zero strength
static QInterfacePtr quiet(QInterfacePtr q)
{
    std::dynamic_pointer_cast<QInterfaceNoisy>(q)->SetNoiseParameter(ZERO_R1_F);
    return q;
}
const std::vector<StackDef>& stacks()
{
    static std::vector<StackDef> v;
    if (v.empty()) {
#define ST(NAME, MAXN, ...) v.push_back(StackDef{ NAME, MAXN, [](int n, u128 perm, qrack_rand_gen_ptr rng) -> QInterfacePtr { return __VA_ARGS__; } })
        ST("cpu", 12, mk(Eng{ QINTERFACE_CPU }, n, perm, rng));
        ST("cpu-norm", 12, mk(Eng{ QINTERFACE_CPU }, n, perm, rng, true));
        ST("qunit-cpu", 128, mk(Eng{ QINTERFACE_QUNIT, QINTERFACE_CPU }, n, perm, rng));
        ST("qunit-stabh-cpu", 128, mk(Eng{ QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("stabh-cpu", 12, mk(Eng{ QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("stabh-qunit-cpu", 12, mk(Eng{ QINTERFACE_STABILIZER_HYBRID, QINTERFACE_QUNIT, QINTERFACE_CPU }, n, perm, rng));
        ST("stabh-wide", 128, mk(Eng{ QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("bdt", 12, mk(Eng{ QINTERFACE_BDT, QINTERFACE_CPU }, n, perm, rng));
        ST("bdth", 12, mk(Eng{ QINTERFACE_BDT_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("qunit-bdt", 64, mk(Eng{ QINTERFACE_QUNIT, QINTERFACE_BDT, QINTERFACE_CPU }, n, perm, rng));
        ST("qunit-bdth", 64, mk(Eng{ QINTERFACE_QUNIT, QINTERFACE_BDT_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("pager1", 12, mk(Eng{ QINTERFACE_QPAGER, QINTERFACE_CPU }, n, perm, rng, false, 1));
        ST("pager2", 12, mk(Eng{ QINTERFACE_QPAGER, QINTERFACE_CPU }, n, perm, rng, false, 2));
        ST("pager3", 12, mk(Eng{ QINTERFACE_QPAGER, QINTERFACE_CPU }, n, perm, rng, false, 3));
        ST("pager", 12, mk(Eng{ QINTERFACE_QPAGER, QINTERFACE_CPU }, n, perm, rng));
        ST("qunit-pager2", 32, mk(Eng{ QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU }, n, perm, rng, false, 2));
        ST("tn-cpu", 12, mk(Eng{ QINTERFACE_TENSOR_NETWORK, QINTERFACE_CPU }, n, perm, rng));
        ST("tn-qunit-cpu", 12, mk(Eng{ QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_CPU }, n, perm, rng));
        ST("tn-qunit-stabh-cpu", 12,
            mk(Eng{ QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, n, perm, rng));
        ST("noisy-cpu", 12, quiet(mk(Eng{ QINTERFACE_NOISY, QINTERFACE_CPU }, n, perm, rng)));
        ST("noisy-qunit-cpu", 12, quiet(mk(Eng{ QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_CPU }, n, perm, rng)));
        ST("noisy-qunit-stabh-cpu", 12, quiet(mk(Eng{ QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, n, perm, rng)));
        ST("stab", 128, std::make_shared<QStabilizer>((bitLenInt)n, bci(perm), rng, ONE_CMPLX, false, true, false, -1, false));
        ST("ucliff", 128, std::make_shared<QUnitClifford>((bitLenInt)n, bci(perm), rng, ONE_CMPLX, false, true, false, -1, false));
        // not exercised through the factory: the separating layer straight over the stabilizer
        ST("unitc", 128, mk(Eng{ QINTERFACE_QUNIT_CLIFFORD }, n, perm, rng));
    }
    return v;
}
const StackDef& stackDef(const std::string& name)
{
    for (auto& s : stacks())
        if (s.name == name) return s;
    fprintf(stderr, "unknown stack %s\n", name.c_str());
    abort();
}
QInterfacePtr makeSim(const std::string& stack, int n, u128 perm, u64 seed)
{
    qrack_rand_gen_ptr rng = std::make_shared<qrack_rand_gen>((unsigned)seed);
    return stackDef(stack).make(n, perm, rng);
}
Slot makeSlot(const std::string& stack, int n, u64 perm, u64 seed)
{
    Slot s;
    perm &= ((u64)1 << n) - 1;
    s.q = makeSim(stack, n, perm, seed);
    s.ref = Ref(n, perm);
    for (int i = 0; i < n; ++i) s.log.push_back(i);
    return s;
}
Slot makeWideSlot(const std::string& stack, int n, const std::vector<int>& mapped, u64 seed)
{
    Slot s;
    s.q = makeSim(stack, n, 0, seed);
    s.ref = Ref((int)mapped.size(), 0);
    s.log.assign(n, -1);
    for (size_t i = 0; i < mapped.size(); ++i) s.log[mapped[i]] = (int)i;
    return s;
}
} // namespace vq
