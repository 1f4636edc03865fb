// Driver: generates cases from the seed, runs them in forked workers, shrinks failures, writes evidence.
#include "core.hpp"
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <poll.h>
#include <sys/resource.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace vq;
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
struct Opt {
    std::string prop, tier = "quick", evidence, replay, replayDir = "work/replay", known, onlyKind, onlyStack;
    u64 seed = 1, n = 0, from = 0;
    int workers = 8;
    double cap = 0, hang = 60, shrink = 60;
    int triage = 0;
    bool verbose = false, survey = false, print = false;
} opt;
static const Property* P = nullptr;

struct Shm {
    std::atomic<u64> next;
    std::atomic<int> stop;
    struct W {
        std::atomic<u64> idx;
        std::atomic<double> since;
    } w[64];
};
static Shm* shm;

// outcome of one case
struct Outcome {
    int kind = 0; // 0 pass, 1 violation, 2 crash, 3 hang
    bool nontrivial = false;
    std::string sig, msg;
};
static Outcome runHere(const Case& c, Stats& st)
{
    Outcome o;
    try {
        o.nontrivial = P->run(c, st);
    } catch (const Viol& v) {
        o.kind = 1;
        o.sig = v.sig;
        o.msg = v.msg;
    } catch (const std::exception& e) {
        o.kind = 1;
        o.sig = "exception:uncaught";
        o.msg = fmt("uncaught exception: %s", e.what());
    }
    return o;
}
static void writeAll(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t k = write(fd, s.data() + o, s.size() - o);
        if (k <= 0) _exit(3);
        o += k;
    }
}
static std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s) o += (c == '\n' || c == '\t') ? ' ' : c;
    return o;
}
// Simulators whose cost is exponential in the number of non-Clifford gates by design: a case that needs too long or too
// much memory there is given up, not judged (as long as such cases stay rare).
static bool costly(const Case& c) { return c.stack.find("stabh") != std::string::npos || c.stack.find("bdt") != std::string::npos || c.stack.find("tn-") == 0; }
static const int OOM_EXIT = 77;
static void limitMemory()
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit l = { 3500000000ull, 3500000000ull };
    setrlimit(RLIMIT_AS, &l);
    std::set_new_handler([] { _exit(OOM_EXIT); });
#endif
}
// run one case in a child process
static Outcome runForked(const Case& c, double limit)
{
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (!pid) {
        close(fd[0]);
        limitMemory();
        if (!opt.verbose) {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        Stats st;
        Outcome o = runHere(c, st);
        writeAll(fd[1], fmt("%d %d ", o.kind, (int)o.nontrivial) + esc(o.sig) + "\t" + esc(o.msg) + "\n");
        _exit(0);
    }
    close(fd[1]);
    Outcome o;
    std::string buf;
    double t0 = now();
    bool done = false, killed = false;
    while (!done) {
        struct pollfd pf = { fd[0], POLLIN, 0 };
        int r = poll(&pf, 1, 200);
        if (r > 0) {
            char b[8192];
            ssize_t k = read(fd[0], b, sizeof b);
            if (k <= 0) done = true;
            else buf.append(b, k);
        }
        if (!done && now() - t0 > limit) {
            kill(pid, SIGKILL);
            killed = true;
            done = true;
        }
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (killed) {
        o.kind = 3;
        o.sig = "hang";
        o.msg = fmt("no answer within %.0f s", limit);
        return o;
    }
    size_t sp = buf.find(' ');
    size_t sp2 = sp == std::string::npos ? sp : buf.find(' ', sp + 1);
    size_t tab = buf.find('\t');
    if (sp2 == std::string::npos || tab == std::string::npos) {
        o.kind = 2;
        o.sig = WIFSIGNALED(status) ? fmt("crash:signal-%d", WTERMSIG(status)) : fmt("crash:exit-%d", WEXITSTATUS(status));
        o.msg = "the process running the case died: " + o.sig;
        return o;
    }
    o.kind = atoi(buf.c_str());
    o.nontrivial = atoi(buf.c_str() + sp + 1);
    o.sig = buf.substr(sp2 + 1, tab - sp2 - 1);
    o.msg = buf.substr(tab + 1);
    if (!o.msg.empty() && o.msg.back() == '\n') o.msg.pop_back();
    return o;
}
static Case makeCase(u64 i)
{
    Rng r(mix(mix(opt.seed, hashStr(P->id)), i));
    Case c = P->gen(r, i, opt.tier == "thorough");
    c.prop = P->id;
    return c;
}
static void worker(int w, int fd, u64 total)
{
    limitMemory();
    if (!opt.verbose) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("VQ_STDERR")) dup2(n, 2);
    }
    Stats st;
    while (!shm->stop.load()) {
        u64 i = shm->next.fetch_add(1);
        if (i >= total) break;
        shm->w[w].idx.store(i);
        shm->w[w].since.store(now());
        Case c = makeCase(i);
        if ((!opt.onlyKind.empty() && c.kind != opt.onlyKind) || (!opt.onlyStack.empty() && c.stack != opt.onlyStack)) continue;
        double t0 = now();
        Outcome o = runHere(c, st);
        shm->w[w].since.store(0);
        st.label("kind:" + c.kind);
        if (!c.stack.empty()) st.label("stack:" + c.stack);
        u64 h = hashStr(c.str());
        std::string m = fmt("C %llu %d %llu %.3f\n", (unsigned long long)i, (int)o.nontrivial, (unsigned long long)h, now() - t0);
        if (o.kind) m += fmt("V %llu ", (unsigned long long)i) + esc(o.sig) + "\t" + esc(o.msg) + "\n";
        writeAll(fd, m);
    }
    shm->w[w].since.store(0);
    std::string m;
    for (auto& x : st.cls) m += fmt("L %llu ", (unsigned long long)x.second) + x.first + "\n";
    m += "E\n";
    writeAll(fd, m);
    _exit(0);
}
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
static Outcome evalCase(const Case& c) { return runForked(c, opt.hang); }

static Case shrinkCase(Case c, Outcome first, double deadline, int& evals)
{
    auto key = [](const std::string& s) { return s.substr(0, s.find(':')); };
    auto bad = [&](const Case& k) {
        ++evals;
        Outcome o = evalCase(k);
        return o.kind != 0 && (o.kind == first.kind) && key(o.sig) == key(first.sig);
    };
    // ddmin over steps
    for (size_t chunk = std::max<size_t>(1, c.steps.size() / 2); chunk >= 1; chunk /= 2) {
        bool any = true;
        while (any && now() < deadline) {
            any = false;
            for (size_t i = 0; i < c.steps.size() && now() < deadline;) {
                Case k = c;
                size_t e = std::min(c.steps.size(), i + chunk);
                k.steps.erase(k.steps.begin() + i, k.steps.begin() + e);
                if (bad(k)) {
                    c = k;
                    any = true;
                } else
                    i += chunk;
            }
        }
        if (chunk == 1) break;
    }
    // simplify numbers
    for (size_t i = 0; i < c.steps.size(); ++i) {
        for (size_t j = 0; j < c.steps[i].r.size() && now() < deadline; ++j)
            for (double x : { 0.0, M_PI / 2, 1.0 }) {
                if (c.steps[i].r[j] == x) break;
                Case k = c;
                k.steps[i].r[j] = x;
                if (bad(k)) {
                    c = k;
                    break;
                }
            }
        for (size_t j = 0; j < c.steps[i].v.size() && now() < deadline; ++j)
            for (i64 x : { (i64)0, (i64)1, c.steps[i].v[j] / 2 }) {
                if (c.steps[i].v[j] == x) break;
                Case k = c;
                k.steps[i].v[j] = x;
                if (bad(k)) {
                    c = k;
                    break;
                }
            }
        // drop trailing qubits (controls)
        while (c.steps[i].q.size() > 1 && now() < deadline) {
            Case k = c;
            k.steps[i].q.pop_back();
            if (!bad(k)) break;
            c = k;
        }
    }
    while (c.p.count("n") && c.p["n"] > 1 && now() < deadline) {
        Case k = c;
        --k.p["n"];
        if (!bad(k)) break;
        c = k;
    }
    if (c.p.count("perm") && c.p["perm"] && now() < deadline) {
        Case k = c;
        k.p["perm"] = 0;
        if (bad(k)) c = k;
    }
    return c;
}
struct Finding {
    std::string prop, sig, file, text;
};
static std::vector<Finding> loadKnown(const std::string& path)
{
    std::vector<Finding> o;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 8, "finding:") != 0) continue;
        std::stringstream ss(l.substr(8));
        Finding k;
        std::string a, b, c;
        ss >> a >> b >> c;
        if (a.compare(0, 9, "property=") || b.compare(0, 4, "sig=") || c.compare(0, 5, "case=")) continue;
        k.prop = a.substr(9);
        k.sig = b.substr(4);
        k.file = c.substr(5);
        std::getline(ss, k.text);
        o.push_back(k);
    }
    return o;
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            if (i + 1 >= argc) exit(2);
            return argv[++i];
        };
        if (a == "--prop") opt.prop = val();
        else if (a == "--tier") opt.tier = val();
        else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--n") opt.n = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") opt.from = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence") opt.evidence = val();
        else if (a == "--replay") opt.replay = val();
        else if (a == "--replay-dir") opt.replayDir = val();
        else if (a == "--known") opt.known = val();
        else if (a == "--workers") opt.workers = atoi(val().c_str());
        else if (a == "--cap") opt.cap = atof(val().c_str());
        else if (a == "--hang") opt.hang = atof(val().c_str());
        else if (a == "--shrink") opt.shrink = atof(val().c_str());
        else if (a == "--kind") opt.onlyKind = val();
        else if (a == "--stack") opt.onlyStack = val();
        else if (a == "--verbose") opt.verbose = true;
        else if (a == "--survey") opt.survey = true; // development: list failures by signature, no shrinking
        else if (a == "--triage") opt.survey = true, opt.triage = atoi(val().c_str()); // development: shrink and cluster failures
        else if (a == "--print") opt.print = true; // print the generated cases
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    Case rc;
    if (!opt.replay.empty()) {
        if (!Case::parse(slurp(opt.replay), rc)) {
            fprintf(stderr, "cannot parse %s\n", opt.replay.c_str());
            return 2;
        }
        if (opt.prop.empty()) opt.prop = rc.prop;
    }
    for (auto& p : registry())
        if (opt.prop == p.id) P = &p;
    if (!P) {
        fprintf(stderr, "unknown property '%s'\n", opt.prop.c_str());
        return 2;
    }
    if (!opt.replay.empty()) {
        Outcome o = runForked(rc, opt.hang);
        printf("%s", rc.str().c_str());
        if (!o.kind) {
            printf("PASS\n");
            return 0;
        }
        printf("FAIL sig=%s\n%s\n", o.sig.c_str(), o.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", P->id, opt.replay.c_str());
        return 1;
    }
    const bool thorough = opt.tier == "thorough";
    const u64 total = opt.n ? opt.from + opt.n : P->count(thorough);
    if (opt.print) {
        for (u64 i = opt.from; i < total; ++i) printf("# %llu\n%s", (unsigned long long)i, makeCase(i).str().c_str());
        return 0;
    }
    const double cap = opt.cap > 0 ? opt.cap : (thorough ? 3000 : 480);
    const double t0 = now();
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (shm) Shm();
    shm->next.store(opt.from);
    shm->stop.store(0);
    const int W = std::max(1, std::min(opt.workers, 32));
    struct WS {
        pid_t pid = 0;
        int fd = -1;
        std::string buf;
        bool ended = false;
    };
    std::vector<WS> ws(W);
    auto spawn = [&](int w) {
        int fd[2];
        if (pipe(fd)) abort();
        fflush(stdout);
        shm->w[w].since.store(0);
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]);
            worker(w, fd[1], total);
        }
        close(fd[1]);
        ws[w].pid = pid;
        ws[w].fd = fd[0];
        ws[w].buf.clear();
        ws[w].ended = false;
    };
    for (int w = 0; w < W; ++w) spawn(w);
    u64 evals = 0, nontriv = 0;
    std::set<u64> distinct;
    std::set<u64> ntIdx; // smallest nontrivial indices for samples
    std::map<u64, Outcome> viol; // by index
    std::map<std::string, u64> labels;
    std::multimap<double, u64> slow;
    bool capped = false;
    int respawns = 0;
    int alive = W;
    u64 givenUp = 0, firstGivenUp = 0;
    std::set<u64> gaveUp;
    while (alive > 0) {
        std::vector<struct pollfd> pf;
        std::vector<int> who;
        for (int w = 0; w < W; ++w)
            if (ws[w].fd >= 0) {
                pf.push_back({ ws[w].fd, POLLIN, 0 });
                who.push_back(w);
            }
        poll(pf.data(), pf.size(), 200);
        for (size_t k = 0; k < pf.size(); ++k) {
            WS& x = ws[who[k]];
            bool eof = false;
            if (pf[k].revents) {
                char b[65536];
                ssize_t n = read(x.fd, b, sizeof b);
                if (n <= 0) eof = true;
                else x.buf.append(b, n);
            }
            size_t nl;
            size_t pos = 0;
            while ((nl = x.buf.find('\n', pos)) != std::string::npos) {
                std::string l = x.buf.substr(pos, nl - pos);
                pos = nl + 1;
                if (l[0] == 'C') {
                    unsigned long long i, h;
                    int nt;
                    double dt;
                    sscanf(l.c_str(), "C %llu %d %llu %lf", &i, &nt, &h, &dt);
                    ++evals;
                    if (nt) {
                        ++nontriv;
                        distinct.insert(h);
                        ntIdx.insert(i);
                        if (ntIdx.size() > 64) ntIdx.erase(std::prev(ntIdx.end()));
                    }
                    slow.insert({ dt, i });
                    if (slow.size() > 5) slow.erase(slow.begin());
                } else if (l[0] == 'V') {
                    char* e;
                    u64 i = strtoull(l.c_str() + 2, &e, 10);
                    std::string rest = e + 1;
                    size_t t = rest.find('\t');
                    Outcome o;
                    o.kind = 1;
                    o.sig = rest.substr(0, t);
                    o.msg = rest.substr(t + 1);
                    viol[i] = o;
                } else if (l[0] == 'L') {
                    char* e;
                    u64 c = strtoull(l.c_str() + 2, &e, 10);
                    labels[e + 1] += c;
                } else if (l[0] == 'E')
                    x.ended = true;
            }
            x.buf.erase(0, pos);
            if (eof) {
                close(x.fd);
                x.fd = -1;
                int status = 0;
                waitpid(x.pid, &status, 0);
                --alive;
                if (!x.ended) {
                    int w = who[k];
                    u64 i = shm->w[w].idx.load();
                    Outcome o;
                    o.kind = 2;
                    o.sig = WIFSIGNALED(status) ? fmt("crash:signal-%d", WTERMSIG(status)) : fmt("crash:exit-%d", WEXITSTATUS(status));
                    o.msg = "the process running the case died: " + o.sig;
                    if (WIFEXITED(status) && WEXITSTATUS(status) == OOM_EXIT && costly(makeCase(i))) {
                        ++givenUp;
                        firstGivenUp = i;
                    } else if (!gaveUp.count(i) && (viol.count(i) == 0 || viol[i].kind != 3)) viol[i] = o;
                    ++evals;
                    if (++respawns < 200 && !shm->stop.load()) {
                        spawn(w);
                        ++alive;
                    }
                }
            }
        }
        double t = now();
        for (int w = 0; w < W; ++w)
            if (ws[w].fd >= 0) {
                double s = shm->w[w].since.load();
                const bool cl = s > 0 && t - s > opt.hang / 3 && costly(makeCase(shm->w[w].idx.load()));
                if (s > 0 && t - s > (cl ? opt.hang / 3 : opt.hang)) {
                    u64 i = shm->w[w].idx.load();
                    if (cl) {
                        ++givenUp;
                        firstGivenUp = i;
                        gaveUp.insert(i);
                        shm->w[w].since.store(0);
                        kill(ws[w].pid, SIGKILL);
                        continue;
                    }
                    Outcome o;
                    o.kind = 3;
                    o.sig = "hang";
                    o.msg = fmt("no answer within %.0f s", opt.hang);
                    viol[i] = o;
                    shm->w[w].since.store(0);
                    kill(ws[w].pid, SIGKILL);
                }
            }
        if (!capped && t - t0 > cap) {
            capped = true;
            shm->stop.store(1);
        }
        if (!opt.survey && viol.size() >= 30) shm->stop.store(1);
    }
    const double tGen = now() - t0;
    if (givenUp) labels["given up (too slow or too large)"] = givenUp;
    if (givenUp > 5 + evals / 1000) { // no longer rare
        Outcome o;
        o.kind = 3;
        o.sig = "hang";
        o.msg = fmt("%llu of %llu cases needed too much time or memory", (unsigned long long)givenUp, (unsigned long long)evals);
        viol[firstGivenUp] = o;
    }
    if (opt.triage) {
        std::map<std::string, std::pair<int, std::string>> cl;
        std::map<std::string, std::vector<std::pair<u64, Outcome>>> by;
        for (auto& v : viol) by[v.second.sig + "@" + makeCase(v.first).stack].push_back({ v.first, v.second });
        std::vector<std::pair<u64, Outcome>> todo;
        for (size_t k = 0; (int)todo.size() < opt.triage; ++k) {
            bool any = false;
            for (auto& b : by)
                if (k < b.second.size()) {
                    todo.push_back(b.second[k]);
                    any = true;
                }
            if (!any) break;
        }
        if ((int)todo.size() > opt.triage) todo.resize(opt.triage);
        int fds[2];
        if (pipe(fds)) abort();
        for (int w = 0; w < 8; ++w)
            if (!fork()) {
                for (size_t j = w; j < todo.size(); j += 8) {
                    Case c = makeCase(todo[j].first);
                    Outcome o = runForked(c, opt.hang);
                    if (!o.kind) {
                        writeAll(fds[1], "UNREPRODUCED\x01" + fmt("case %llu %s\n", (unsigned long long)todo[j].first, todo[j].second.sig.c_str()));
                        continue;
                    }
                    int se = 0;
                    Case m = shrinkCase(c, o, now() + 20, se);
                    Outcome so = runForked(m, opt.hang);
                    std::set<std::string> names;
                    for (auto& t : m.steps) names.insert(t.op);
                    std::string key = m.stack + (m.kind == "wide" ? "/wide" : "") + " " + so.sig.substr(0, so.sig.find(':'));
                    for (auto& n : names) key += " " + n;
                    std::string body = m.str() + "   -> " + so.sig + " " + so.msg.substr(0, 330);
                    for (auto& ch : body)
                        if (ch == '\n') ch = '\x02';
                    std::string out = key + "\x01" + body + "\n";
                    if (out.size() > 3900) out = out.substr(0, 3900) + "\n";
                    writeAll(fds[1], out);
                }
                _exit(0);
            }
        close(fds[1]);
        std::string all;
        char b[65536];
        ssize_t k;
        while ((k = read(fds[0], b, sizeof b)) > 0) all.append(b, k);
        std::stringstream ss(all);
        std::string l;
        while (std::getline(ss, l)) {
            size_t p = l.find('\x01');
            auto& e = cl[l.substr(0, p)];
            ++e.first;
            if (e.second.empty() || l.size() - p - 1 < e.second.size()) e.second = l.substr(p + 1);
        }
        std::vector<std::pair<int, std::string>> order;
        for (auto& e : cl) order.push_back({ -e.second.first, e.first });
        std::sort(order.begin(), order.end());
        for (auto& o : order) {
            std::string body = cl[o.second].second;
            for (auto& ch : body)
                if (ch == '\x02') ch = '\n';
            printf("### %d x %s\n%s\n", -o.first, o.second.c_str(), body.c_str());
        }
        printf("evals=%llu nontrivial=%llu viol=%zu triaged=%zu\n", (unsigned long long)evals, (unsigned long long)nontriv, viol.size(), todo.size());
        return 0;
    }
    if (opt.survey) {
        std::map<std::string, std::vector<u64>> by;
        for (auto& v : viol) by[v.second.sig + " @" + makeCase(v.first).stack].push_back(v.first);
        for (auto& b : by) {
            printf("%5zu  %-40s first=%llu  %s\n", b.second.size(), b.first.c_str(), (unsigned long long)b.second[0],
                viol[b.second[0]].msg.substr(0, 300).c_str());
        }
        printf("evals=%llu nontrivial=%llu viol=%zu time=%.1f capped=%d\n", (unsigned long long)evals, (unsigned long long)nontriv, viol.size(), tGen, capped);
        for (auto& s : slow) printf("slow %.2fs case %llu\n", s.first, (unsigned long long)s.second);
        for (auto& l : labels) printf("  %s=%llu\n", l.first.c_str(), (unsigned long long)l.second);
        return 0;
    }
    // ------------------------------------------------------------ confirm, shrink, report
    int reported = 0, unreproduced = 0;
    std::set<std::string> seenSig;
    std::string extraSamples;
    const double deadline = now() + opt.shrink;
    std::string mkd = "mkdir -p '" + opt.replayDir + "'";
    for (auto& v : viol) {
        if (reported >= 3 || (reported && now() > deadline)) break;
        if (seenSig.count(v.second.sig)) continue;
        Case c = makeCase(v.first);
        Outcome o;
        for (int k = 0; k < 5 && !o.kind; ++k) o = runForked(c, v.second.kind == 3 ? 2 * opt.hang : opt.hang);
        const bool schedule = std::string(P->id) == "C18";
        if (!o.kind && !schedule) {
            ++unreproduced;
            printf("UNREPRODUCED property=%s case=%llu sig=%s %s\n", P->id, (unsigned long long)v.first, v.second.sig.c_str(), v.second.msg.c_str());
            continue;
        }
        if (!o.kind) o = v.second;
        seenSig.insert(v.second.sig);
        seenSig.insert(o.sig);
        int se = 0;
        const double oldHang = opt.hang;
        Case small = c;
        if (o.kind != 3) small = shrinkCase(c, o, std::min(deadline, now() + opt.shrink / 2), se);
        Outcome so = o;
        if (small.str() != c.str()) so = runForked(small, oldHang);
        if (!so.kind) {
            small = c;
            so = o;
        }
        if (system(mkd.c_str())) {}
        std::string path = opt.replayDir + "/" + P->id + fmt("-%016llx.case", (unsigned long long)hashStr(small.str()));
        {
            std::ofstream f(path);
            f << "# property " << P->id << " seed " << opt.seed << " case " << v.first << "\n# " << so.sig << "\n# " << esc(so.msg) << "\n" << small.str();
        }
        printf("failing case (seed %llu, index %llu, shrunk with %d evaluations):\n%s%s: %s\n", (unsigned long long)opt.seed, (unsigned long long)v.first,
            se, small.str().c_str(), so.sig.c_str(), so.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", P->id, path.c_str());
        fflush(stdout);
        ++reported;
    }
    // ------------------------------------------------------------ known findings
    int known = 0;
    if (!opt.known.empty()) {
        std::string dir = opt.known.substr(0, opt.known.rfind('/') == std::string::npos ? 0 : opt.known.rfind('/') + 1);
        for (auto& k : loadKnown(opt.known)) {
            if (k.prop != P->id) continue;
            Case c;
            if (!Case::parse(slurp(dir + k.file), c)) {
                fprintf(stderr, "cannot parse known finding %s\n", k.file.c_str());
                return 2;
            }
            Outcome o = runForked(c, opt.hang);
            if (!o.kind) {
                printf("note: known finding %s no longer fails\n", k.file.c_str());
                continue;
            }
            if (o.sig == k.sig) {
                printf("KNOWN-FINDING: property=%s%s\n", P->id, k.text.c_str());
                ++known;
            } else {
                printf("%s%s: %s\n", c.str().c_str(), o.sig.c_str(), o.msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", P->id, (dir + k.file).c_str());
                ++reported;
            }
        }
    }
    // ------------------------------------------------------------ evidence
    if (!opt.evidence.empty()) {
        std::ofstream f(opt.evidence);
        f << "{\n \"property\": " << jstr(P->id) << ",\n \"tier\": " << jstr(opt.tier) << ",\n \"seed\": " << opt.seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"nontrivial\": " << nontriv
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(P->rule) << ",\n  \"planned\": " << (total - opt.from)
          << ",\n  \"stopped_early\": " << (evals < total - opt.from ? "true" : "false") << ",\n  \"classes\": {";
        bool first = true;
        for (auto& l : labels) {
            f << (first ? "\n" : ",\n") << "   " << jstr(l.first) << ": " << l.second;
            first = false;
        }
        f << "\n  },\n  \"samples\": [";
        int k = 0;
        u64 stepI = std::max<u64>(1, ntIdx.size() / 4), j = 0;
        for (u64 i : ntIdx) {
            if (j++ % stepI) continue;
            if (k++ >= 4) break;
            f << (k > 1 ? ",\n   " : "\n   ") << jstr(makeCase(i).str());
        }
        f << "\n  ],\n  \"unreproduced\": " << unreproduced << ",\n  \"known_findings\": " << known << "\n },\n \"assumptions\": [" << jstr(P->assumptions)
          << "],\n \"wall_s\": " << fmt("%.1f", now() - t0) << ",\n \"violations\": " << reported << "\n}\n";
    }
    printf("property=%s tier=%s seed=%llu cases=%llu nontrivial=%llu distinct=%zu violations=%d known=%d time=%.1fs%s\n", P->id, opt.tier.c_str(),
        (unsigned long long)opt.seed, (unsigned long long)evals, (unsigned long long)nontriv, distinct.size(), reported, known, now() - t0,
        capped ? " (time cap reached)" : "");
    return reported ? 1 : 0;
}
