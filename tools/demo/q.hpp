// Small helpers shared by the demonstrations.
#pragma once
#include "qfactory.hpp"
#include <cstdio>
#include <cstdlib>
using namespace Qrack;
typedef std::complex<double> cd;
typedef std::vector<QInterfaceEngine> Stack;
inline QInterfacePtr mk(Stack s, bitLenInt n, uint64_t perm = 0, uint64_t seed = 7, bool sparse = false, bitLenInt pageQb = 0)
{
    auto rng = std::make_shared<qrack_rand_gen>(seed);
    return CreateQuantumInterface(s, n, (bitCapInt)perm, rng, CMPLX_DEFAULT_ARG, false, true, false, -1, false, sparse, REAL1_EPSILON, std::vector<int64_t>{}, pageQb);
}
inline QInterfacePtr cpu(bitLenInt n, uint64_t perm = 0) { return mk({ QINTERFACE_CPU }, n, perm); }
inline QInterfacePtr qunit(bitLenInt n, uint64_t perm = 0) { return mk({ QINTERFACE_QUNIT, QINTERFACE_CPU }, n, perm); }
inline std::vector<cd> state(QInterfacePtr q)
{
    std::vector<complex> a((size_t)1 << q->GetQubitCount());
    q->GetQuantumState(a.data());
    std::vector<cd> o;
    for (auto& x : a) o.push_back(cd(x.real(), x.imag()));
    return o;
}
inline double fid(const std::vector<cd>& a, const std::vector<cd>& b)
{
    if (a.size() != b.size()) return 0;
    cd s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i];
    return std::norm(s);
}
inline double fid(QInterfacePtr a, QInterfacePtr b) { return fid(state(a), state(b)); }
inline void need(bool ok, const char* what)
{
    printf("%s: %s\n", ok ? "ok" : "BROKEN", what);
    if (!ok) exit(1);
}
inline bool near(double a, double b, double t = 2e-3) { return std::abs(a - b) < t; }
