#include "engine.h"
#include "lib.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>

Options opt;
uint64_t g_run_seed = 1;
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

void failf(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string hex(const u8 *p, size_t n) {
    std::string s; char b[3]; size_t m = n > 48 ? 48 : n;
    for (size_t i = 0; i < m; i++) { snprintf(b, 3, "%02x", p[i]); s += b; }
    if (m < n) s += "..";
    return s;
}
uint64_t mix(uint64_t a, uint64_t b) { Rand r(a * 0x2545f4914f6cdd1dULL + b); r.next(); return r.next() ^ (b << 1); }
uint64_t hashStr(const std::string &s) { uint64_t h = 0xcbf29ce484222325ULL; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ULL; } return h; }

// ------------------------------------------------------------------ shared with the supervisor
static const uint32_t MAXC = 1u << 18;
struct Shm {
    volatile uint64_t idx; volatile uint64_t evals; volatile uint32_t n; volatile uint32_t hang; char msg[4096];
    uint64_t c[MAXC];
};
static Shm *shm;

uint64_t Src::draw(uint64_t bound) {
    uint64_t v;
    if (bound <= 1) v = 0;
    else if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; if (v >= bound) v %= bound; }
    else { Rand r(prng); v = r.next() % bound; prng = r.s; }
    pos++;
    uint32_t n = shm->n; if (n < MAXC) { shm->c[n] = v; shm->n = n + 1; }
    return v;
}
uint64_t Src::sweep(uint64_t value, uint64_t bound) {
    if (replay) return draw(bound);
    pos++; value %= bound;
    uint32_t n = shm->n; if (n < MAXC) { shm->c[n] = value; shm->n = n + 1; }
    return value;
}
void Src::content(u8 *p, size_t n) {
    static const int kinds[] = {0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5};
    int k = kinds[draw(11)];
    if (k == 0) { Rand r(seed()); r.fill(p, n); return; }
    if (k == 1) memset(p, 0, n);
    if (k == 2) memset(p, 0xff, n);
    if (k == 3) for (size_t i = 0; i < n; i++) p[i] = (u8)i;
    if (k == 4) { memset(p, 0, n); if (n) { uint64_t b = draw(8 * n); p[b / 8] = 0x80 >> (b % 8); } }
    if (k == 5) memset(p, (int)draw(256), n);
}
uint64_t Src::size(uint64_t max, uint64_t unit) {
    uint64_t v;
    switch (draw(5)) {
    case 0: v = draw(4); break;
    case 1: v = draw(3 * unit + 2); break;
    case 2: v = draw(max / unit + 1) * unit; v += draw(3); if (v) v--; break;
    case 3: v = draw(max + 1); break;
    default: { int b = 1; while ((max >> b) && b < 63) b++; v = draw((uint64_t)1 << draw(b + 1)); }
    }
    return v > max ? max : v;
}
void Src::desc(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (d.size() < 900) d += b; }
void Src::cpu(int sec) { itimerval t = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }
static void onProf(int) { shm->hang = 1; _exit(86); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;

// ------------------------------------------------------------------ statistics of one worker
struct Stats {
    uint64_t evals = 0, discards = 0, nontrivial = 0; std::set<uint64_t> distinct; std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples; std::set<std::string> sampled; bool stopped = false;
};
static std::string jstr(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static void writeStats(const Stats &st) {
    std::ofstream f(opt.out + ".tmp");
    f << "{\"evaluations\":" << st.evals << ",\"discards\":" << st.discards << ",\"nontrivial\":" << st.nontrivial
      << ",\"stopped\":" << (st.stopped ? "true" : "false") << ",\"labels\":{";
    bool c = false; for (auto &l : st.labels) { f << (c ? "," : "") << jstr(l.first) << ":" << l.second; c = true; }
    f << "},\"samples\":["; c = false; for (auto &s : st.samples) { f << (c ? "," : "") << jstr(s); c = true; }
    f << "],\"distinct\":["; c = false; for (auto h : st.distinct) { f << (c ? "," : "") << '"' << std::hex << h << std::dec << '"'; c = true; }
    f << "]}\n"; f.close();
    rename((opt.out + ".tmp").c_str(), opt.out.c_str());
}

static const Prop *prop;
enum { OK = 0, FAILED = 10, DISCARDED = 11, ENGINE = 12 };
static int runCase(Src &s) {
    shm->n = 0; shm->idx = s.idx; shm->hang = 0; shm->msg[0] = 0;
    s.count = opt.count;
    s.prng = mix(mix(mix(opt.seed, hashStr(opt.prop)), hashStr(opt.cfg)), s.idx);
    s.cpu(opt.asan ? 180 : 60);
    try { caseReset(); prop->fn(s); caseEnd(); }
    catch (Fail &f) { snprintf(shm->msg, sizeof shm->msg, "%s%s%s", f.msg.c_str(), s.d.empty() ? "" : " | case: ", s.d.c_str()); return FAILED; }
    catch (Discard &) { return DISCARDED; }
    return OK;
}
struct Result { int code; std::string msg; std::vector<uint64_t> c; bool killed = false; };
// runs in a forked child: fn returns the exit code
static Result forked(const std::function<int()> &fn) {
    fflush(nullptr); shm->n = 0; shm->hang = 0; shm->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int r = fn(); fflush(nullptr); _exit(r); }
    if (p < 0) { perror("fork"); exit(ENGINE); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.code = OK;
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == OK || e == DISCARDED || e == ENGINE) r.code = e;
        else if (e == FAILED) { r.code = FAILED; r.msg = shm->msg; }
        else if (e == 86) { r.code = FAILED; r.msg = "does not terminate (CPU limit of the case exceeded)"; }
        else { r.code = FAILED; r.msg = fmt("sanitizer report or abnormal exit (status %d)", e); }
    } else if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL || sg == SIGTERM) { r.code = ENGINE; r.killed = true; }
        else { r.code = FAILED; r.msg = fmt("crash: signal %d (%s)%s%s", sg, strsignal(sg), shm->msg[0] ? " " : "", shm->msg); }
    }
    r.c.assign(shm->c, shm->c + shm->n);
    return r;
}
static Result runChoices(const std::vector<uint64_t> &c) { return forked([&] { Src s; s.replay = &c; return runCase(s); }); }
static Result runIdx(uint64_t from, uint64_t to) {      // history: the worker's cases from..to in one process
    return forked([&] { for (uint64_t i = from; i <= to; i += opt.step) { Src s; s.idx = i; int r = runCase(s); if (r == FAILED) return r; } return (int)OK; });
}
static std::vector<uint64_t> shrink(std::vector<uint64_t> c, std::string &msg, int &evals) {
    double end = std::min(now() + 45, t0 + opt.deadline); int budget = 400;
    auto ok = [&](const std::vector<uint64_t> &x) {
        if (now() > end || budget-- <= 0) return false;
        evals++; Result r = runChoices(x);
        if (r.code == FAILED) { msg = r.msg; return true; }
        return false;
    };
    for (int round = 0; round < 6 && now() < end && budget > 0; round++) {
        auto before = c;
        for (size_t k : {64, 16, 8, 4, 2, 1}) {
            size_t i = c.size();
            while (i >= k && now() < end && budget > 0) {
                auto x = c; x.erase(x.begin() + (i - k), x.begin() + i);
                if (ok(x)) { c = x; i = std::min(i, c.size()); } else { if (i < k) break; i -= k; }
            }
        }
        for (size_t i = 0; i < c.size() && now() < end && budget > 0; i++) {
            if (!c[i]) continue;
            auto x = c; x[i] = 0; if (ok(x)) { c = x; continue; }
            uint64_t lo = 0, hi = c[i]; int it = 0;
            while (lo + 1 < hi && it++ < 8 && now() < end) { uint64_t m = lo + (hi - lo) / 2; x = c; x[i] = m; if (ok(x)) { c = x; hi = m; } else lo = m; }
        }
        if (c == before) break;
    }
    while (!c.empty() && c.back() == 0) c.pop_back();
    return c;
}

static int supervise() {
    uint64_t next = opt.from;
    for (int attempt = 0; attempt < 4; attempt++) {
        uint64_t first = next;
        Result r = forked([&] {
            Stats st; double last = now();
            for (uint64_t i = next; i < opt.count && i < opt.to; i += opt.step) {
                Src s; s.idx = i; int rc = runCase(s);
                if (rc == FAILED) { writeStats(st); return rc; }
                st.evals++; if (rc == DISCARDED) { st.discards++; continue; }
                uint64_t h = 7; for (uint32_t k = 0; k < shm->n; k++) h = mix(h, shm->c[k]);
                for (auto &l : s.labels) st.labels[l]++;
                if (s.nt) {
                    st.nontrivial++; st.distinct.insert(h);
                    std::string key; for (auto &l : s.labels) key += l + ";";
                    if (st.samples.size() < 4 && st.sampled.insert(key).second) {
                        std::string ch; for (uint32_t k = 0; k < shm->n && k < 24; k++) ch += fmt("%s%llu", k ? "," : "", (unsigned long long)shm->c[k]);
                        st.samples.push_back(opt.prop + " [" + opt.cfg + "] #" + std::to_string(i) + " " + s.d + " draws=" + ch);
                    }
                }
                if (now() - t0 > opt.deadline) { st.stopped = true; break; }
                if (now() - last > 20) { last = now(); writeStats(st); }
            }
            writeStats(st); return (int)OK;
        });
        if (r.code == OK) return 0;
        if (r.code != FAILED) { fprintf(stderr, "worker ended abnormally (code %d)\n", r.code); if (r.killed) { next = shm->idx; continue; } return ENGINE; }
        uint64_t bad = shm->idx; std::vector<uint64_t> c = r.c;
        std::string msg = r.msg; int again = 0, tries = 0; bool history = false; const bool hangs = msg.find("does not terminate") != std::string::npos;
        for (; tries < 3; tries++) { Result q = runChoices(c); if (q.code == FAILED) { again++; msg = q.msg; } if (hangs && again) { again = 3; break; } }   // a hang costs the whole CPU limit each time
        if (again < 3) {                       // not reproducible from the case alone: with the history of this worker
            int h = 0; for (int i = 0; i < 3; i++) { Result q = runIdx(first, bad); if (q.code == FAILED) { h++; msg = q.msg; } }
            if (h > again) { again = h; history = true; }
            if (again && again < 3) for (int i = 0; i < 40 && again < 3; i++) { Result q = history ? runIdx(first, bad) : runChoices(c); if (q.code == FAILED) again++; }
        }
        if (again < 3) {
            fprintf(stderr, "case %llu failed once (%s) but only %d of the replays: inconclusive, continuing\n", (unsigned long long)bad, r.msg.c_str(), again);
            next = bad + opt.step; continue;
        }
        int ev = 0; size_t orig = c.size();
        auto report = [&] {
            std::ofstream f(opt.out + ".failure.tmp");
            f << "{\"sub\":" << jstr(opt.prop) << ",\"cfg\":" << jstr(opt.cfg) << ",\"seed\":" << opt.seed << ",\"idx\":" << bad << ",\"count\":" << opt.count
              << ",\"history\":" << (history ? "true" : "false") << ",\"first\":" << first << ",\"step\":" << opt.step
              << ",\"draws_before_shrinking\":" << orig << ",\"shrink_evaluations\":" << ev << ",\"message\":" << jstr(msg) << ",\"choices\":[";
            for (size_t i = 0; i < c.size(); i++) f << (i ? "," : "") << c[i];
            f << "]}\n"; f.close();
            rename((opt.out + ".failure.tmp").c_str(), (opt.out + ".failure").c_str());
        };
        report();                              // as found, then once more when shrunk
        { std::ofstream f(opt.out + ".fail"); f << msg; }
        if (!history && !hangs) {
            std::string m2 = msg; auto c2 = shrink(c, m2, ev);
            Result q = runChoices(c2); if (q.code == FAILED) { c = c2; msg = q.msg; }
        }
        report();
        return 1;
    }
    return ENGINE;
}
// replay file in the engine's own format: "C v v v ..." or "H first step idx"
static int replay() {
    std::ifstream f(opt.replay); std::string k; f >> k;
    Result r; r.code = OK;
    if (k == "H") { uint64_t a, st, b; f >> a >> st >> b; opt.step = st; r = runIdx(a, b); }
    else { std::vector<uint64_t> c; uint64_t v; while (f >> v) c.push_back(v); r = runChoices(c); }
    if (r.code == FAILED) { printf("FAILS: %s\n", r.msg.c_str()); return 1; }
    if (r.code == ENGINE) return ENGINE;
    printf("passes\n"); return 0;
}
int main(int argc, char **argv) {
    t0 = now();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") opt.prop = v; else if (a == "--lib") opt.lib = v; else if (a == "--lib2") opt.lib2 = v; else if (a == "--cfg") opt.cfg = v;
        else if (a == "--out") opt.out = v; else if (a == "--replay") opt.replay = v; else if (a == "--tier") opt.tier = v;
        else if (a == "--seed") opt.seed = strtoull(v.c_str(), 0, 10); else if (a == "--from") opt.from = strtoull(v.c_str(), 0, 10);
        else if (a == "--step") opt.step = strtoull(v.c_str(), 0, 10); else if (a == "--count") opt.count = strtoull(v.c_str(), 0, 10);
        else if (a == "--to") opt.to = strtoull(v.c_str(), 0, 10); else if (a == "--arg") opt.arg = v; else if (a == "--arg2") opt.arg2 = v; else if (a == "--only") opt.only = v;
        else if (a == "--deadline") opt.deadline = atof(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return ENGINE; }
    }
#ifdef __SANITIZE_ADDRESS__
    opt.asan = true;
#endif
    g_run_seed = opt.seed;
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return ENGINE;
    signal(SIGPROF, onProf);
    rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    for (auto &p : props()) if (opt.prop == p.name) prop = &p;
    if (!prop) { fprintf(stderr, "no property %s\n", opt.prop.c_str()); return ENGINE; }
    if (!libOpen(opt.lib, opt.lib2)) return ENGINE;
    return opt.replay.empty() ? supervise() : replay();
}
