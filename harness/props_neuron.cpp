// C21: quantum neurons against a reference of their documented action on the whole register and on the angle table.
#include "gen.hpp"
#include "qneuron.hpp"
using namespace vq;
using namespace Qrack;
namespace {
double act(int fn, double a, double alpha)
{
    switch (fn) {
    case 1: return std::max(0.0, a);
    case 2: return a * (1 + std::erf(a * std::sqrt(0.5)));
    case 3: {
        double o = 0;
        const float fa = (float)a, fp = (float)M_PI; // the two branches meet discontinuously: decide as the angle's own precision does
        if (fa > fp) a = fa - fp, o = M_PI;
        else if (fa <= -fp) a = fa + fp, o = -M_PI;
        return o + std::pow(2 * std::abs(a) / M_PI, alpha) * (M_PI / 2) * (a < 0 ? -1 : 1);
    }
    case 4: return std::max(alpha * a, a);
    default: return a;
    }
}
struct Model {
    std::vector<int> in;
    int out;
    int fn;
    double alpha;
    std::vector<float> ang;
    void rotate(Ref& R, double sign) const
    {
        u64 mask = 0;
        for (int q : in) mask |= 1ULL << q;
        for (u64 p = 0; p < ang.size(); ++p) {
            u64 val = 0;
            for (size_t i = 0; i < in.size(); ++i)
                if ((p >> i) & 1) val |= 1ULL << in[i];
            const double h = sign * act(fn, ang[p], alpha) / 2;
            const cd m[4] = { std::cos(h), -std::sin(h), std::sin(h), std::cos(h) };
            R.apply(m, out, mask, val);
        }
    }
    double prob(const Ref& R, bool expected) const
    {
        Ref x = R;
        rotate(x, 1);
        return expected ? x.prob(out) : 1 - x.prob(out);
    }
};
bool run(const Case& c, Stats& st)
{
    const int n = (int)c.get("n");
    auto q = makeSim(c.stack, n, (u128)(u64)c.get("perm"), c.seed);
    Ref R(n, (u64)c.get("perm"));
    double blur = 1;
    auto cmp = [&](const char* what, size_t si) {
        const std::vector<cd> a = readAll(q);
        const double d = stateDiff(R.a, a);
        if (d > 3e-3 * blur) fail("state", fmt("step %zu (%s): %s: the register is %.4f away from the reference", si, c.steps[si].str().c_str(), what, d));
    };
    struct N {
        std::shared_ptr<QNeuron> q;
        Model m;
        double tol;
    };
    std::vector<N> ns;
    bool nontriv = false;
    for (size_t si = 0; si < c.steps.size(); ++si) {
        const Step& t = c.steps[si];
        const std::string& o = t.op;
        for (int x : t.q)
            if (x < 0 || x >= n) throw Invalid{ "range" };
        std::set<int> u(t.q.begin(), t.q.end());
        if (u.size() != t.q.size()) throw Invalid{ "dup" };
        const double s2 = std::sqrt(0.5);
        if (o == "H") { const cd m[4] = { s2, s2, s2, -s2 }; R.apply(m, t.q.at(0)); q->H(t.q[0]); continue; }
        if (o == "X") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q.at(0)); q->X(t.q[0]); continue; }
        if (o == "RY") {
            const double h = t.r.at(0) / 2;
            const cd m[4] = { std::cos(h), -std::sin(h), std::sin(h), std::cos(h) };
            R.apply(m, t.q.at(0));
            q->RY((real1_f)t.r[0], t.q[0]);
            continue;
        }
        if (o == "T") { const cd m[4] = { 1, 0, 0, std::polar(1.0, M_PI / 4) }; R.apply(m, t.q.at(0)); q->T(t.q[0]); continue; }
        if (o == "CNOT") { const cd m[4] = { 0, 1, 1, 0 }; R.apply(m, t.q.at(1), 1ULL << t.q[0], 1ULL << t.q[0]); q->CNOT(t.q[0], t.q[1]); continue; }
        if (o == "CZ") { const cd m[4] = { 1, 0, 0, -1 }; R.apply(m, t.q.at(1), 1ULL << t.q[0], 1ULL << t.q[0]); q->CZ(t.q[0], t.q[1]); continue; }
        if (o == "New") { // q: output, inputs...; v: fn ; r: alpha, tol
            N x;
            x.m.out = t.q.at(0);
            x.m.in.assign(t.q.begin() + 1, t.q.end());
            x.m.fn = (int)t.v.at(0);
            x.m.alpha = (double)(float)t.r.at(0);
            x.m.ang.assign(1ULL << x.m.in.size(), 0.f);
            std::vector<bitLenInt> in(x.m.in.begin(), x.m.in.end());
            x.tol = t.r.at(1);
            if (x.tol < 0) {
                x.tol = 1.5e-8;
                x.q = std::make_shared<QNeuron>(q, in, (bitLenInt)x.m.out, (QNeuronActivationFn)x.m.fn, (real1_f)x.m.alpha);
            } else x.q = std::make_shared<QNeuron>(q, in, (bitLenInt)x.m.out, (QNeuronActivationFn)x.m.fn, (real1_f)x.m.alpha, (real1_f)x.tol);
            ns.push_back(x);
            continue;
        }
        if (ns.empty()) throw Invalid{ "none" };
        if (t.s < 0) throw Invalid{ "slot" };
        N& N0 = ns[(size_t)t.s % ns.size()];
        auto getAng = [](N& x) {
            std::vector<float> a(x.m.ang.size(), -99.f);
            std::vector<real1> g(a.size() + 2, (real1)-99.f);
            if (x.q->GetInputCount() != x.m.in.size() || x.q->GetInputPower() != a.size())
                fail("size", fmt("neuron reports %d inputs and input power %llu, has %zu inputs", (int)x.q->GetInputCount(), (unsigned long long)x.q->GetInputPower(), x.m.in.size()));
            x.q->GetAngles(g.data() + 1);
            if (g[0] != (real1)-99.f || g.back() != (real1)-99.f) fail("angles", "GetAngles wrote outside 2^inputs entries");
            for (size_t i = 0; i < a.size(); ++i) a[i] = (float)g[i + 1];
            return a;
        };
        if (o == "Angles") {
            std::vector<real1> a(N0.m.ang.size());
            for (size_t i = 0; i < a.size(); ++i) a[i] = (real1)(N0.m.ang[i] = (float)t.r.at(i % t.r.size()));
            N0.q->SetAngles(a.data());
        } else if (o == "Fn") {
            N0.m.fn = (int)t.v.at(0);
            N0.q->SetActivationFn((QNeuronActivationFn)N0.m.fn);
            N0.m.alpha = (double)(float)t.r.at(0);
            N0.q->SetAlpha((real1_f)N0.m.alpha);
            if ((int)N0.q->GetActivationFn() != N0.m.fn || (float)N0.q->GetAlpha() != (float)N0.m.alpha) fail("param", "activation function or alpha read back differ");
        } else if (o == "Copy") {
            N x = N0;
            x.q = std::make_shared<QNeuron>(*N0.q);
            ns.push_back(x);
        } else if (o == "Assign") {
            N& D = ns[(size_t)t.v.at(0) % ns.size()];
            if (&D == &N0) continue;
            *D.q = *N0.q;
            D.m = N0.m;
            D.tol = N0.tol;
        } else if (o == "Predict" || o == "Learn" || o == "LearnPerm") {
            const bool ex = t.v.at(0), reset = t.v.at(1);
            // the output qubit is reset first: an unobserved outcome when it was not definite
            std::vector<Ref> cand;
            if (reset) {
                for (int b = 0; b < 2; ++b) {
                    if ((b ? R.prob(N0.m.out) : 1 - R.prob(N0.m.out)) < 1e-6) continue;
                    Ref x = R;
                    x.project(1ULL << N0.m.out, b ? 1ULL << N0.m.out : 0);
                    if (b) { const cd m[4] = { 0, 1, 1, 0 }; x.apply(m, N0.m.out); }
                    const cd m[4] = { s2, -s2, s2, s2 };
                    x.apply(m, N0.m.out);
                    cand.push_back(x);
                }
            } else cand.push_back(R);
            if (o == "Predict") {
                const double got = N0.q->Predict(ex, reset);
                for (auto& x : cand) N0.m.rotate(x, 1);
                const std::vector<cd> a = readAll(q);
                size_t bi = 0;
                double bd = 9;
                for (size_t k = 0; k < cand.size(); ++k) {
                    const double d = stateDiff(cand[k].a, a) / cand[k].blur;
                    if (d < bd) bd = d, bi = k;
                }
                R = cand[bi];
                blur = std::min(10.0, R.blur);
                cmp("after predicting", si);
                const double want = ex ? R.prob(N0.m.out) : 1 - R.prob(N0.m.out);
                if (std::abs(got - want) > 2e-3 * blur) fail("prob", fmt("step %zu (%s) predicted %.5f, expected %.5f", si, t.str().c_str(), got, want));
                nontriv = true;
            } else {
                const std::vector<float> before = N0.m.ang;
                const double eta = (double)(float)t.r.at(0);
                if (o == "Learn") N0.q->Learn((real1_f)eta, ex, reset);
                else N0.q->LearnPermutation((real1_f)eta, ex, reset);
                const std::vector<float> after = getAng(N0);
                const std::vector<cd> a = readAll(q);
                size_t bi = 0;
                double bd = 9;
                std::vector<Ref> post = cand;
                std::vector<u64> perms(cand.size(), 0);
                bool measured = false;
                if (o == "LearnPerm") {
                    // which inputs are definite now?
                    Ref A(n, 0);
                    A.a = a;
                    u64 p = 0, mask = 0, val = 0;
                    bool definite = true;
                    for (size_t i = 0; i < N0.m.in.size(); ++i) {
                        const double pr = A.prob(N0.m.in[i]);
                        if (pr > 0.5) p |= 1ULL << i, val |= 1ULL << N0.m.in[i];
                        mask |= 1ULL << N0.m.in[i];
                        if (std::min(pr, 1 - pr) > 1e-3) definite = false;
                    }
                    // nothing is measured when the prediction was already right
                    post.clear();
                    for (size_t k = 0; k < cand.size(); ++k) {
                        const double miss = 1 - N0.m.prob(cand[k], ex);
                        const double pm = cand[k].probMask(mask, val);
                        if (definite && pm > 1e-6 && miss > N0.tol - 1e-3) {
                            if (pm < 1 - 1e-9) measured = true;
                            post.push_back(cand[k]);
                            post.back().project(mask, val);
                        }
                        if (miss < N0.tol + 1e-3) post.push_back(cand[k]);
                    }
                    if (post.empty()) fail("measure", fmt("step %zu (%s) left the inputs unmeasured", si, t.str().c_str()));
                    perms.assign(post.size(), p);
                }
                for (size_t k = 0; k < post.size(); ++k) {
                    const double d = stateDiff(post[k].a, a) / post[k].blur;
                    if (d < bd) bd = d, bi = k;
                }
                R = post[bi];
                blur = std::min(10.0, R.blur);
                cmp("after learning", si);
                // greedy oracle, with rounding slack: walk the permutations in order
                const double E = 2e-3 * blur;
                Model m = N0.m; // angles before
                auto same = [&](double x, double y) { // modulo full turns of the rotation
                    return std::abs(x - y) < 1e-4 || (m.fn == 0 && std::abs(std::remainder(x - y, 4 * M_PI)) < 1e-4);
                };
                const double p0 = m.prob(R, ex);
                double cur = p0;
                std::vector<u64> order;
                if (o == "LearnPerm") order.push_back(perms[bi]);
                else
                    for (u64 p = 0; p < before.size(); ++p) order.push_back(p);
                for (size_t p = 0; p < before.size(); ++p)
                    if (!std::count(order.begin(), order.end(), p) && after[p] != before[p])
                        fail("learn", fmt("step %zu (%s) changed the angle of permutation %zu, the measured one is %llu", si, t.str().c_str(), p, (unsigned long long)order[0]));
                bool stopped = 1 - cur <= N0.tol;
                const bool nearStop0 = 1 - cur <= N0.tol + E;
                bool nearStop = nearStop0;
                for (u64 p : order) {
                    Model up = m, dn = m, res = m;
                    up.ang[p] = m.ang[p] + (float)eta * (float)M_PI;
                    dn.ang[p] = m.ang[p] - (float)eta * (float)M_PI;
                    res.ang[p] = after[p];
                    const double pu = up.prob(R, ex), pd = dn.prob(R, ex), pr = res.prob(R, ex);
                    const bool isSame = same(after[p], m.ang[p]), isUp = same(after[p], up.ang[p]), isDn = same(after[p], dn.ang[p]);
                    if (!isSame && !isUp && !isDn)
                        fail("learn", fmt("step %zu (%s): angle %llu went from %.5f to %.5f, neither kept nor moved by eta*pi=%.5f", si, t.str().c_str(), (unsigned long long)p, m.ang[p], after[p], eta * M_PI));
                    if (pr < cur - E)
                        fail("learn", fmt("step %zu (%s): training angle %llu (%.5f -> %.5f) lowered the predicted probability of the expected result from %.5f to %.5f", si, t.str().c_str(), (unsigned long long)p, m.ang[p], after[p], cur, pr));
                    if (!nearStop && pr < std::max(pu, pd) - E && !(1 - pu <= N0.tol + E && isUp))
                        fail("learn", fmt("step %zu (%s): angle %llu kept probability %.5f though a step of eta gives %.5f / %.5f", si, t.str().c_str(), (unsigned long long)p, pr, pu, pd));
                    m = res;
                    cur = pr;
                    if (1 - cur <= N0.tol + E) nearStop = true;
                }
                (void)stopped;
                if (cur < p0 - E) fail("learn", fmt("step %zu (%s) lowered the predicted probability from %.5f to %.5f", si, t.str().c_str(), p0, cur));
                N0.m.ang = after;
                if (measured) st.label("measured-superposition");
                st.label(o);
                nontriv = true;
            }
        } else if (o == "Unpredict") {
            const double got = N0.q->Unpredict(t.v.at(0));
            N0.m.rotate(R, -1);
            cmp("after unpredicting", si);
            const double want = t.v[0] ? R.prob(N0.m.out) : 1 - R.prob(N0.m.out);
            if (std::abs(got - want) > 2e-3 * blur) fail("prob", fmt("step %zu (%s) returned %.5f, expected %.5f", si, t.str().c_str(), got, want));
        } else if (o == "Cycle") {
            const double got = N0.q->LearnCycle(t.v.at(0)), want = N0.m.prob(R, t.v[0]);
            cmp("after a learning cycle", si);
            if (std::abs(got - want) > 2e-3 * blur) fail("prob", fmt("step %zu (%s) returned %.5f, expected %.5f", si, t.str().c_str(), got, want));
        } else throw Invalid{ "op" };
        for (auto& x : ns) {
            const auto a = getAng(x);
            for (size_t i = 0; i < a.size(); ++i)
                if (std::abs(a[i] - x.m.ang[i]) > 0) fail("angles", fmt("step %zu (%s): angle %zu reads %.6f, expected %.6f", si, t.str().c_str(), i, a[i], x.m.ang[i]));
        }
    }
    return nontriv;
}
Reg c21(Property{ "C21", [](bool t) -> u64 { return t ? 2500000 : 80000; },
    [](Rng& r, u64, bool) {
        Case c;
        c.prop = "C21";
        c.kind = "neuron";
        c.seed = r.next() & 0xffffffff;
        c.stack = r.pick(std::vector<std::string>{ "cpu", "cpu", "qunit-cpu", "pager1", "noisy-cpu" });
        const int n = r.range(1, 6);
        c.p["n"] = n;
        c.p["perm"] = (i64)r.below(1ULL << n);
        auto gate = [&]() {
            Step t;
            t.op = r.pick(std::vector<std::string>{ "H", "X", "RY", "T", "CNOT", "CZ" });
            if (t.op[0] == 'C') {
                if (n < 2) return;
                t.q = r.distinct(n, 2);
            } else t.q = { (int)r.below(n) };
            if (t.op == "RY") t.r = { (r.unit() * 2 - 1) * 2 * M_PI };
            c.steps.push_back(t);
        };
        auto alpha = [&]() { return r.pick(std::vector<double>{ 1, 0.5, 2, 0.1, r.unit() * 3 + 0.01 }); };
        auto news = [&]() {
            Step t;
            t.op = "New";
            t.q = r.distinct(n, 1 + (int)r.below(std::min(n, 5)));
            t.v = { (i64)(r.chance(0.35) ? 0 : r.below(5)) };
            t.r = { alpha(), r.chance(0.7) ? -1.0 : r.pick(std::vector<double>{ 1e-6, 1e-3, 0.05 }) };
            c.steps.push_back(t);
        };
        const int mode = (int)r.below(3); // 0 permutation inputs, 1 superposed, 2 entangled
        if (mode)
            for (int i = (int)r.below(mode == 1 ? 4 : 10); i > 0; --i) gate();
        news();
        const int k = r.range(2, 12);
        auto angles = [&](int s) {
            Step t;
            t.s = s;
            t.op = "Angles";
            const int st = (int)r.below(3);
            for (int i = 0; i < 16; ++i)
                t.r.push_back(st == 0 ? r.range(-8, 8) * M_PI / 4 : st == 1 ? (r.unit() * 2 - 1) * M_PI : (r.unit() * 2 - 1) * 4 * M_PI);
            c.steps.push_back(t);
        };
        if (r.chance(0.7)) angles(0);
        for (int i = 0; i < k; ++i) {
            Step t;
            t.s = (int)r.below(3);
            switch (r.below(14)) {
            case 0: news(); continue;
            case 1: angles(t.s); continue;
            case 2: t.op = "Fn"; t.v = { (i64)r.below(5) }; t.r = { alpha() }; break;
            case 3: t.op = "Copy"; break;
            case 4: t.op = "Assign"; t.v = { (i64)r.below(3) }; break;
            case 5: t.op = "Unpredict"; t.v = { (i64)r.below(2) }; break;
            case 6: t.op = "Cycle"; t.v = { (i64)r.below(2) }; break;
            case 7:
            case 8: t.op = "Predict"; t.v = { (i64)r.below(2), (i64)r.below(2) }; break;
            case 9:
                gate();
                continue;
            case 10:
                t.op = "LearnPerm";
                t.v = { (i64)r.below(2), (i64)r.below(2) };
                t.r = { r.pick(std::vector<double>{ 0.25, 0.5, 1, 0.125, r.unit() }) };
                break;
            default:
                t.op = "Learn";
                t.v = { (i64)r.below(2), (i64)r.below(2) };
                t.r = { r.pick(std::vector<double>{ 0.25, 0.5, 1, 0.125, r.unit() }) };
            }
            c.steps.push_back(t);
        }
        return c;
    },
    [](const Case& c, Stats& st) {
        try {
            return run(c, st);
        } catch (const Invalid&) {
            return false;
        }
    },
    "non-trivial: a prediction or a learning step was checked",
    "activation functions are those of include/qneuron.hpp's documentation and code; ties within rounding may be decided either way" });
} // namespace
