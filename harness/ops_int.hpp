#pragma once
#include "ops.hpp"
namespace vq {
void addOp(const std::string& name, unsigned flags, int minq, int nr, int nv, std::function<bool(GenCtx&, Step&)> gen,
    std::function<void(World&, Slot&, const Step&)> exec);
void regGates();
void regMeas();
void regAlu();
void regStruct();
typedef std::function<bool(GenCtx&, Step&)> GenFn;
inline GenFn gQ(int k, int nr = 0)
{
    return [k, nr](GenCtx& g, Step& t) {
        t.q = g.qs(k);
        if ((int)t.q.size() < k) return false;
        for (int i = 0; i < nr; ++i) t.r.push_back(g.angle());
        return true;
    };
}
// target(s) then 0..max controls
inline GenFn gTC(int targets, int minc, int maxc, int nr = 0)
{
    return [=](GenCtx& g, Step& t) {
        int m = (int)g.mapped.size();
        if (m < targets + minc) return false;
        int hi = std::min(maxc, m - targets);
        int c = g.r.range(minc, hi);
        if (c > minc && g.r.chance(0.5)) --c;
        t.q = g.qs(targets + c);
        for (int i = 0; i < nr; ++i) t.r.push_back(g.angle());
        return true;
    };
}
inline std::vector<bitLenInt> bl(const std::vector<int>& v, size_t from = 0)
{
    std::vector<bitLenInt> o;
    for (size_t i = from; i < v.size(); ++i) o.push_back((bitLenInt)v[i]);
    return o;
}
inline u128 pmask(const std::vector<int>& v, size_t from = 0)
{
    u128 m = 0;
    for (size_t i = from; i < v.size(); ++i) m |= (u128)1 << v[i];
    return m;
}
inline u64 lmask(const Slot& s, const std::vector<int>& v, size_t from = 0)
{
    u64 m = 0;
    for (size_t i = from; i < v.size(); ++i) m |= s.bit(v[i]);
    return m;
}
inline u64 rget(u64 i, const std::vector<int>& bits)
{
    u64 o = 0;
    for (size_t j = 0; j < bits.size(); ++j) o |= ((i >> bits[j]) & 1) << j;
    return o;
}
inline u64 rset(u64 i, const std::vector<int>& bits, u64 v)
{
    for (size_t j = 0; j < bits.size(); ++j) {
        i &= ~((u64)1 << bits[j]);
        i |= ((v >> j) & 1) << bits[j];
    }
    return i;
}
inline double fl_(double x) { return (double)(float)x; }
inline bool disjoint(const std::vector<int>& a, const std::vector<int>& b)
{
    for (int x : a)
        for (int y : b)
            if (x == y) return false;
    return true;
}
} // namespace vq
