#include "core.hpp"
#include <cstdarg>
namespace vq {
std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
void fail(const std::string& sig, const std::string& msg) { throw Viol{ msg, sig }; }

std::string Step::str() const
{
    std::ostringstream o;
    o << op;
    if (s) o << " s:" << s;
    if (!q.empty()) {
        o << " q:";
        for (size_t i = 0; i < q.size(); ++i) o << (i ? "," : "") << q[i];
    }
    if (!v.empty()) {
        o << " v:";
        for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    }
    if (!r.empty()) {
        o << " r:";
        for (size_t i = 0; i < r.size(); ++i) o << (i ? "," : "") << fmt("%.17g", r[i]);
    }
    return o.str();
}
template <typename T, typename F> static void splitTo(const std::string& s, std::vector<T>& out, F conv)
{
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ',')) out.push_back((T)conv(t));
}
bool Step::parse(const std::string& line, Step& out)
{
    std::stringstream ss(line);
    out = Step();
    if (!(ss >> out.op)) return false;
    std::string t;
    while (ss >> t) {
        if (t.size() < 2 || t[1] != ':') return false;
        std::string b = t.substr(2);
        if (t[0] == 's') out.s = atoi(b.c_str());
        else if (t[0] == 'q') splitTo(b, out.q, [](const std::string& x) { return atoi(x.c_str()); });
        else if (t[0] == 'v') splitTo(b, out.v, [](const std::string& x) { return strtoll(x.c_str(), 0, 10); });
        else if (t[0] == 'r') splitTo(b, out.r, [](const std::string& x) { return strtod(x.c_str(), 0); });
        else return false;
    }
    return true;
}
std::string Case::str() const
{
    std::ostringstream o;
    o << "case " << prop << " " << (kind.empty() ? "-" : kind) << " " << (stack.empty() ? "-" : stack) << " " << seed;
    for (auto& x : p) o << " " << x.first << "=" << x.second;
    o << "\n";
    for (auto& s : steps) o << s.str() << "\n";
    return o.str();
}
bool Case::parse(const std::string& text, Case& out)
{
    std::stringstream ss(text);
    std::string line;
    bool have = false;
    out = Case();
    while (std::getline(ss, line)) {
        if (line.empty() || line[0] == '#') continue;
        if (line.compare(0, 5, "case ") == 0) {
            std::stringstream l(line.substr(5));
            l >> out.prop >> out.kind >> out.stack >> out.seed;
            std::string t;
            while (l >> t) {
                size_t e = t.find('=');
                if (e != std::string::npos) out.p[t.substr(0, e)] = strtoll(t.c_str() + e + 1, 0, 10);
            }
            have = true;
            continue;
        }
        Step s;
        if (!Step::parse(line, s)) return false;
        out.steps.push_back(s);
    }
    return have;
}

double stateDiff(const std::vector<cd>& ref, const std::vector<cd>& act, double* normOut, bool exactPhase)
{
    cd ip = 0;
    double na = 0;
    for (size_t i = 0; i < ref.size(); ++i) {
        ip += std::conj(ref[i]) * act[i];
        na += std::norm(act[i]);
    }
    if (normOut) *normOut = na;
    if (!(na == na)) return 1e9;
    cd ph = (exactPhase || std::abs(ip) < 1e-12) ? cd(1, 0) : ip / std::abs(ip);
    double d = 0;
    for (size_t i = 0; i < ref.size(); ++i) d = std::max(d, std::abs(act[i] - ph * ref[i]));
    return d;
}

bool Ref::split(int start, int len, Ref& part, Ref& rest, double tol) const
{
    // pick the largest amplitude, read off row and column through it, then verify the outer product
    u64 best = 0;
    for (u64 i = 1; i < a.size(); ++i)
        if (std::norm(a[i]) > std::norm(a[best])) best = i;
    const u64 lo = ((u64)1 << start) - 1, pm = (((u64)1 << len) - 1) << start;
    part = Ref(len);
    rest = Ref(n - len);
    auto restIdx = [&](u64 i) { return (i & lo) | ((i >> len) & ~lo); };
    auto full = [&](u64 r, u64 p) { return (r & lo) | (p << start) | ((r & ~lo) << len); };
    const u64 br = restIdx(best), bp = (best & pm) >> start;
    for (u64 p = 0; p < part.a.size(); ++p) part.a[p] = a[full(br, p)];
    for (u64 r = 0; r < rest.a.size(); ++r) rest.a[r] = a[full(r, bp)];
    part.normalize();
    rest.normalize();
    cd ph = a[best] / (part.a[bp] * rest.a[br]);
    ph /= std::abs(ph);
    for (auto& x : rest.a) x *= ph;
    double d = 0;
    for (u64 r = 0; r < rest.a.size(); ++r)
        for (u64 p = 0; p < part.a.size(); ++p) d = std::max(d, std::abs(a[full(r, p)] - rest.a[r] * part.a[p]));
    return d < tol;
}
std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}
} // namespace vq
