// Core of the property-based testing harness: seeded PRNG, text-serialisable cases, the independent
// reference simulator, and the registry of properties.  Nothing in here is derived from Qrack's code.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vq {
typedef std::complex<double> cd;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- PRNG (splitmix64)
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    std::vector<int> perm(int n)
    {
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[below(i + 1)]);
        return p;
    }
    std::vector<int> distinct(int n, int k)
    {
        std::vector<int> p = perm(n);
        p.resize(k);
        return p;
    }
};
inline u64 mix(u64 a, u64 b)
{
    Rng r(a * 0x9e3779b97f4a7c15ULL + b + 0x1234567ULL);
    r.next();
    return r.next();
}
inline u64 hashStr(const std::string& s)
{
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// ---------------------------------------------------------------- cases
struct Step {
    std::string op;
    int s = 0; // simulator slot
    std::vector<int> q; // logical qubits
    std::vector<i64> v; // integers
    std::vector<double> r; // reals
    std::string str() const;
    static bool parse(const std::string& line, Step& out);
};
struct Case {
    std::string prop;
    std::string kind; // generator kind within the property
    std::string stack; // simulator stack
    u64 seed = 1; // seed of the simulator's own random generator
    std::map<std::string, i64> p; // named integer parameters
    std::vector<Step> steps;
    i64 get(const std::string& k, i64 d = 0) const
    {
        auto it = p.find(k);
        return it == p.end() ? d : it->second;
    }
    std::string str() const;
    static bool parse(const std::string& text, Case& out);
};

struct Viol {
    std::string msg;
    std::string sig; // short signature: what kind of disagreement, for known findings
};
[[noreturn]] void fail(const std::string& sig, const std::string& msg);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- reference simulator
struct Ref {
    int n = 0;
    double blur = 1; // 1/sqrt of the probability of the measured history (capped): rounding errors grow by it
    std::vector<cd> a;
    Ref() {}
    explicit Ref(int n_, u64 perm = 0) : n(n_), a((size_t)1 << n_, cd(0, 0)) { a[perm] = 1; }
    size_t dim() const { return a.size(); }
    void setPerm(u64 perm)
    {
        std::fill(a.begin(), a.end(), cd(0, 0));
        a[perm] = 1;
    }
    void normalize()
    {
        double t = norm();
        t = 1 / std::sqrt(t);
        for (auto& x : a) x *= t;
    }
    double norm() const
    {
        double t = 0;
        for (auto& x : a) t += std::norm(x);
        return t;
    }
    // 2x2 matrix m (row major) on qubit t where (index & cmask) == cval
    void apply(const cd* m, int t, u64 cmask = 0, u64 cval = 0)
    {
        const u64 b = (u64)1 << t;
        for (u64 i = 0; i < a.size(); ++i) {
            if ((i & b) || ((i & cmask) != cval)) continue;
            cd x = a[i], y = a[i | b];
            a[i] = m[0] * x + m[1] * y;
            a[i | b] = m[2] * x + m[3] * y;
        }
    }
    // general 2-qubit matrix on (q0 = low bit, q1 = high bit) under control
    void apply4(const cd* m, int q0, int q1, u64 cmask = 0, u64 cval = 0)
    {
        const u64 b0 = (u64)1 << q0, b1 = (u64)1 << q1;
        for (u64 i = 0; i < a.size(); ++i) {
            if ((i & b0) || (i & b1) || ((i & cmask) != cval)) continue;
            u64 ix[4] = { i, i | b0, i | b1, i | b0 | b1 };
            cd x[4];
            for (int k = 0; k < 4; ++k) x[k] = a[ix[k]];
            for (int k = 0; k < 4; ++k) {
                cd s = 0;
                for (int l = 0; l < 4; ++l) s += m[k * 4 + l] * x[l];
                a[ix[k]] = s;
            }
        }
    }
    // basis permutation (must be injective on the support)
    void permute(const std::function<u64(u64)>& f)
    {
        std::vector<cd> o(a.size(), cd(0, 0));
        for (u64 i = 0; i < a.size(); ++i)
            if (a[i] != cd(0, 0)) o[f(i)] += a[i];
        a.swap(o);
    }
    void phase(const std::function<cd(u64)>& f)
    {
        for (u64 i = 0; i < a.size(); ++i) a[i] *= f(i);
    }
    double prob(int q) const
    {
        double t = 0;
        const u64 b = (u64)1 << q;
        for (u64 i = 0; i < a.size(); ++i)
            if (i & b) t += std::norm(a[i]);
        return t;
    }
    double probMask(u64 mask, u64 val) const
    {
        double t = 0;
        for (u64 i = 0; i < a.size(); ++i)
            if ((i & mask) == val) t += std::norm(a[i]);
        return t;
    }
    void project(u64 mask, u64 val)
    {
        const double p = probMask(mask, val);
        if (p < 1) blur = std::min(10.0, blur / std::sqrt(std::max(p, 1e-4)));
        for (u64 i = 0; i < a.size(); ++i)
            if ((i & mask) != val) a[i] = 0;
        normalize();
    }
    // marginal distribution over an ordered list of qubits
    std::vector<double> marginal(const std::vector<int>& qs) const
    {
        std::vector<double> o((size_t)1 << qs.size(), 0.0);
        for (u64 i = 0; i < a.size(); ++i) {
            u64 k = 0;
            for (size_t j = 0; j < qs.size(); ++j)
                if ((i >> qs[j]) & 1) k |= (u64)1 << j;
            o[k] += std::norm(a[i]);
        }
        return o;
    }
    // insert `len` |0> qubits at position start
    void insertZeros(int start, int len)
    {
        Ref z(len, 0);
        insert(start, z);
    }
    void insert(int start, const Ref& o)
    {
        std::vector<cd> r(a.size() << o.n, cd(0, 0));
        const u64 lo = ((u64)1 << start) - 1;
        for (u64 i = 0; i < a.size(); ++i)
            for (u64 j = 0; j < o.a.size(); ++j)
                r[(i & lo) | (j << start) | ((i & ~lo) << o.n)] = a[i] * o.a[j];
        a.swap(r);
        n += o.n;
        blur = std::max(blur, o.blur);
    }
    // true iff qubits [start,start+len) factor out; outputs both factors
    bool split(int start, int len, Ref& part, Ref& rest, double tol = 1e-7) const;
};

// compare an actual state vector with the reference up to global phase; returns max |difference|
double stateDiff(const std::vector<cd>& ref, const std::vector<cd>& act, double* normOut = nullptr, bool exactPhase = false);

// ---------------------------------------------------------------- property registry
struct Stats { // per-worker accounting, merged by the driver
    std::map<std::string, u64> cls; // classification counts
    void label(const std::string& s, u64 k = 1) { cls[s] += k; }
};
struct Property {
    const char* id;
    // number of cases for the tier
    std::function<u64(bool thorough)> count;
    // pure function of the rng
    std::function<Case(Rng&, u64 index, bool thorough)> gen;
    // throws Viol; returns true when the case is non-trivial by `rule`
    std::function<bool(const Case&, Stats&)> run;
    const char* rule;
    const char* assumptions;
};
std::vector<Property>& registry();
struct Reg {
    Reg(const Property& p) { registry().push_back(p); }
};
} // namespace vq
