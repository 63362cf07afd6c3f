// C21: the same results on other machines.  The library is built for 32-bit machines (i386 run by the host; big-endian MIPS
// run by mach/emu.cc) together with mach/driver.c, which serves it over a pipe; the reference model says what must come back.
#include "lib.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string g_mach; static unsigned g_limit = 60;                   // CPU seconds one program may take
struct Req { Bytes b; Req &u(unsigned v) { b.push_back(v); return *this; } Req &w(uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); return *this; }
    Req &s(const u8 *p, size_t n) { w(n); b.insert(b.end(), p, p + n); return *this; } Req &s(const Bytes &x) { return s(x.data(), x.size()); } };
struct Ans { Bytes b; size_t at = 0; uint32_t w() { REQUIRE(at + 4 <= b.size(), "short answer from the machine"); uint32_t v = b[at] | b[at + 1] << 8 | b[at + 2] << 16 | (uint32_t)b[at + 3] << 24; at += 4; return v; }
    const u8 *s(size_t n) { REQUIRE(at + n <= b.size(), "short answer from the machine"); at += n; return &b[at - n]; } };
class Machine {
    pid_t pid = -1; int to = -1, from = -1; const char *doing = "";
    [[noreturn]] void gone() { int st = 0; close(to); to = -1; waitpid(pid, &st, 0); pid = -1; if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) failf("%s does not terminate (%u s of CPU time)", doing, g_limit); failf("the program ends (%s %d) during %s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), doing); }
public:
    Machine() {
        int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(12); }
        signal(SIGPIPE, SIG_IGN); pid = fork(); if (pid < 0) { perror("fork"); _exit(12); }
        if (!pid) { dup2(a[0], 0); dup2(b[1], 1); struct rlimit r = {g_limit, g_limit + 5}; setrlimit(RLIMIT_CPU, &r); signal(SIGPIPE, SIG_DFL); execl(g_mach.c_str(), g_mach.c_str(), nullptr); _exit(98); }
        close(a[0]); close(b[1]); to = a[1]; from = b[0];
    }
    ~Machine() { if (to >= 0) close(to); if (from >= 0) close(from); if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
    Ans ask(const char *what, const Req &q) {
        doing = what; Bytes m(4); for (int i = 0; i < 4; i++) m[i] = q.b.size() >> (8 * i); m.insert(m.end(), q.b.begin(), q.b.end());
        for (size_t o = 0; o < m.size();) { ssize_t k = write(to, &m[o], m.size() - o); if (k < 0 && errno == EINTR) continue; if (k <= 0) gone(); o += k; }
        Ans a; Bytes head = get(4); size_t n = head[0] | head[1] << 8 | head[2] << 16 | (size_t)head[3] << 24; REQUIRE(n <= 1 << 20, "the machine answers %zu bytes during %s", n, what); a.b = get(n); return a;
    }
private:
    Bytes get(size_t n) {
        Bytes b(n); size_t o = 0;
        while (o < n) { struct pollfd p = {from, POLLIN, 0}; int r = poll(&p, 1, 700000); if (r < 0 && errno == EINTR) continue; REQUIRE(r > 0, "no answer during %s", doing); ssize_t k = read(from, &b[o], n - o); if (k < 0 && errno == EINTR) continue; if (k <= 0) gone(); o += k; }
        return b;
    }
};
bool machOpen(const std::string &path, std::vector<Set> &out) {
    g_mach = path; g_limit = path.find("/mips") != std::string::npos ? 240 : 60;
    try {
        Machine m;
        for (int i = 0; i < 12; i++) { Ans a = m.ask("a size query", Req().u(1).u(i)); if (!a.w()) continue; std::string nm = (const char *)a.s(28); const ref::Params *p = ref::find(nm + "_simple"); if (!p) return false; out.push_back({nm, (const ts_parameter_set *)(uintptr_t)(i + 1), p, (int)(p - ref::PARAMS)}); }
    } catch (Fail &f) { fprintf(stderr, "%s\n", f.msg.c_str()); }      // the properties will meet it again
    if (out.empty()) for (int i = 0; i < 12; i++) { std::string nm = ref::PARAMS[i].name; out.push_back({nm.substr(0, nm.size() - 7), (const ts_parameter_set *)(uintptr_t)(i + 1), &ref::PARAMS[i], i}); }
    return true;
}
static int no(const Set &set) { return (int)(uintptr_t)set.ps - 1; }
static Req session(int op, int c, const Set &set, unsigned fill, const u8 *key, size_t keyn, const Bytes &msg, int mode, const Bytes &stream, bool huge = false) { Req q; q.u(op).u(c).u(no(set)).w(fill).s(key, keyn).u(huge).s(msg).u(mode).s(stream); return q; }
static Bytes mSign(Machine &m, int c, unsigned want, uint32_t &got) { Ans a = m.ask("a request for signature bytes", Req().u(4).u(c).w(want)); got = a.w(); size_t room = std::min<unsigned>(want, 1 << 17); const u8 *p = a.s(room); return Bytes(p, p + room); }
static unsigned mFeed(Machine &m, int c, const u8 *p, size_t n) { return m.ask("verification", Req().u(6).u(c).s(p, n)).w(); }
static unsigned mVerdict(Machine &m, int c) { return m.ask("the verdict", Req().u(7).u(c)).w(); }
static const Set &fastSet(Src &s) { std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard(); return sets[f[s.sweep(s.idx, f.size())]]; }
static Bytes shortMsg(Src &s) { return s.bytes(s.chance(1, 6) ? s.size(3000, 64) : s.draw(300)); }

PROPERTY(c21_sizes, "C21.sizes") {
    int k = s.sweep(s.idx, 12); Machine m; Ans a = m.ask("a size query", Req().u(1).u(k)); REQUIRE(a.w() == 1, "parameter set %d is not there", k);
    std::string nm = (const char *)a.s(28); const ref::Params *p = ref::find(nm + "_simple"); REQUIRE(p, "unknown set"); unsigned x = a.w(), y = a.w(), z = a.w();
    s.desc("sizes of %s", nm.c_str()); REQUIRE(x == 4u * p->n && y == 2u * p->n && z == p->sig(), "%s: sizes %u, %u and %u", nm.c_str(), x, y, z); s.nontrivial();
}
PROPERTY(c21_keygen, "C21.keygen") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); Bytes st = s.bytes(3 * n); int flags = s.draw(4) != 3; if (s.draw(12) == 11) flags |= 2; if (s.draw(12) == 11) flags |= 8;
    s.label(set.name); s.desc("key generation %s%s%s", set.name.c_str(), flags & 2 ? ", failing source" : "", flags & 8 ? ", no private key" : "");
    Machine m; Ans a = m.ask("key generation", Req().u(2).u(no(set)).u(flags).s(st)); unsigned r = a.w(), taken = a.w(); const u8 *sk = a.s(4 * n), *pk = a.s(2 * n);
    if (flags & 10) { REQUIRE(r == 0, "%s: key generation returns %u", set.name.c_str(), r); s.label("failure"); s.nontrivial(); return; }
    REQUIRE(r == 1 && taken == 3u * n, "%s: key generation returns %u after taking %u bytes", set.name.c_str(), r, taken);
    ref::Key key; key.setSeeds(set.p, st.data()); Bytes want = key.secretBytes(), wp = flags & 1 ? key.publicBytes() : Bytes(2 * n, 0xa5); size_t d = firstDiff(sk, want.data(), 4 * n);
    REQUIRE(d == 4u * n, "%s: private key differs at byte %zu", set.name.c_str(), d); d = firstDiff(pk, wp.data(), 2 * n); REQUIRE(d == 2u * n, "%s: public key differs at byte %zu", set.name.c_str(), d);
    s.nontrivial();
}
static void signCase(Src &s, const Set &set, size_t limit) {
    const ref::Params &p = *set.p; const int n = p.n; const ref::Key &key = poolKey(set, s.draw(3)); Bytes sk = key.secretBytes(), msg = shortMsg(s), o = s.bytes(n); int mode = s.draw(3); Bytes eff = mode == 1 ? o : Bytes(key.pk_seed, key.pk_seed + n);
    Bytes want; if (limit >= p.sig()) { want = ref::sign(key, eff.data(), msg.data(), msg.size()); limit = p.sig(); }
    else { want.resize(n); ref::prfMsg(key, eff.data(), msg.data(), msg.size(), want.data()); ref::Digest d = ref::hMsg(key, want.data(), msg.data(), msg.size()); int trees = std::min<size_t>(p.k, (limit + (p.a + 1) * n - 1) / ((p.a + 1) * n)); want = ref::signFors(key, Bytes(want).data(), d, trees); limit = std::min(limit, (size_t)n + trees * (p.a + 1) * n); }
    s.label(set.name); s.label(mode == 1 ? "OptRand" : mode ? "failing source" : "default"); s.desc("%s signs %zu bytes, %zu bytes of signature", set.name.c_str(), msg.size(), limit);
    Machine m; m.ask("the start of a signature", session(3, 0, set, s.draw(3) ? s.draw(256) : 256, sk.data(), 4 * n, msg, mode, o));
    for (size_t at = 0; at < limit;) {
        unsigned l = s.draw(4) ? s.size(limit / 2 + 1, n) : limit; if (limit < p.sig() && at + l > limit) l = limit - at; uint32_t got; Bytes b = mSign(m, 0, l, got); size_t w = std::min<size_t>(l, p.sig() - at);
        REQUIRE(got == w, "%s: a request for %u bytes at %zu returns %u", set.name.c_str(), l, at, got); size_t d = firstDiff(b.data(), &want[at], w); REQUIRE(d == w, "%s: the signature differs at byte %zu (%s)", set.name.c_str(), at + d, mpos(set, at + d).c_str());
        for (size_t i = w; i < b.size(); i++) REQUIRE(b[i] == 0xa5, "%s: wrote beyond the end of the signature", set.name.c_str()); at += w;
    }
    if (limit == p.sig()) { uint32_t got; Bytes b = mSign(m, 0, 40, got); REQUIRE(got == 0 && b == Bytes(40, 0xa5), "%s: bytes after the end", set.name.c_str()); s.label("whole signature"); }
    s.nontrivial();
}
PROPERTY(c21_sign, "C21.sign") { s.cpu(200); signCase(s, fastSet(s), ~0u); }
PROPERTY(c21_signslow, "C21.signslow") { s.cpu(300); g_limit = std::max(g_limit, 150u); std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (!sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard(); signCase(s, sets[f[s.sweep(s.idx, f.size())]], ~0u); }
// R and the beginning of the FORS part
PROPERTY(c21_prefix, "C21.prefix") { s.cpu(200); const Set &set = sets[s.sweep(s.idx, sets.size())]; signCase(s, set, (size_t)set.n() * (1 + (set.fast() ? (1 + s.draw(4)) * (set.p->a + 1) : 1 + s.draw(set.p->a)))); }

PROPERTY(c21_verify, "C21.verify") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const ref::Params &p = *set.p; const int n = p.n; const ref::Key &key = poolKey(set, s.draw(4)); Bytes msg = shortMsg(s), pk = key.publicBytes(), sig;
    if (set.fast() && s.draw(8) == 7) { Bytes o = s.bytes(n); sig = ref::sign(key, o.data(), msg.data(), msg.size()); s.label("honest"); } else { sig = craftDraw(s, key, msg, false); s.label("crafted"); }
    std::string what = "untouched";
    switch (s.draw(8)) {
    case 4: { size_t k = s.draw(sig.size() * 8); sig[k / 8] ^= 1 << k % 8; what = "one bit changed in " + mpos(set, k / 8); break; }
    case 5: { size_t l = s.draw(2) ? sig.size() - 1 - s.draw(2 * n) : s.draw(sig.size()); sig.resize(l); what = "cut"; break; }
    case 6: { Bytes x = s.bytes(1 + s.draw(3 * n)); sig.insert(sig.end(), x.begin(), x.end()); what = "surplus"; break; }
    case 7: { size_t k = s.draw(pk.size() * 8); pk[k / 8] ^= 1 << k % 8; what = "public key changed"; break; }
    default: break; }
    ref::Key pub; pub.setPublic(&p, pk.data()); bool good = ref::verify(pub, msg.data(), msg.size(), sig.data(), sig.size());
    s.label(set.name); s.label(good ? "valid" : "invalid"); s.desc("%s verifies %zu bytes, %s", set.name.c_str(), msg.size(), what.c_str());
    Machine m; m.ask("the start of a verification", session(5, 0, set, s.draw(3) ? s.draw(256) : 256, pk.data(), 2 * n, msg, 0, Bytes()));
    int np = s.draw(6); size_t at = 0; for (int i = 0; i <= np; i++) { size_t l = i == np ? sig.size() - at : s.size(sig.size() - at, n); unsigned r = mFeed(m, 0, &sig[at], l); at += l; if (good) REQUIRE(r == 1, "%s: a valid signature is reported as failing after %zu bytes", set.name.c_str(), at); else if (at < p.sig()) REQUIRE(r == 1, "%s: reported as failing after %zu bytes", set.name.c_str(), at); }
    unsigned v = mVerdict(m, 0); REQUIRE(v == good, "%s: verdict %u on a signature that is %s (%s)", set.name.c_str(), v, good ? "valid" : "not valid", what.c_str());
    s.nontrivial();
}
// several sessions on one machine, call by call, with calls in the wrong phase
PROPERTY(c21_sessions, "C21.sessions") {
    struct S { int role = 0; const Set *set = nullptr; Bytes want, sig; size_t at = 0, limit = 0; bool bad = false; } c[4]; Machine m; int steps = 5 + s.draw(40), used = 0; std::string log;
    for (int t = 0; t < steps; t++) {
        int k = s.draw(4); S &x = c[k];
        if (!x.role || s.draw(12) == 11) {
            if (!x.role && s.draw(4) == 3) continue;
            const Set &set = sets[s.draw(sets.size())]; const int n = set.n(); const ref::Key &key = poolKey(set, s.draw(3)); Bytes msg = s.bytes(s.draw(200)); x = S(); x.set = &set; x.role = 1 + (set.fast() ? s.draw(2) : 1);
            if (x.role == 1) { Bytes sk = key.secretBytes(), o = s.bytes(n); x.limit = (size_t)n * (1 + 3 * (set.p->a + 1)); x.want.resize(n); ref::prfMsg(key, o.data(), msg.data(), msg.size(), x.want.data()); ref::Digest d = ref::hMsg(key, x.want.data(), msg.data(), msg.size()); x.want = ref::signFors(key, Bytes(x.want).data(), d, 3); m.ask("the start of a signature", session(3, k, set, t ? 256 : s.draw(256), sk.data(), 4 * n, msg, 1, o)); log += fmt(" %d:sign(%s)", k, set.name.c_str()); }
            else { Bytes pk = key.publicBytes(); x.sig = craftDraw(s, key, msg, false); m.ask("the start of a verification", session(5, k, set, t ? 256 : s.draw(256), pk.data(), 2 * n, msg, 0, Bytes())); log += fmt(" %d:verify(%s)", k, set.name.c_str()); }
            continue;
        }
        const int n = x.set->n(); int odd = s.draw(8);
        if (odd == 6) { if (x.role == 1) { u8 z[64] = {1}; REQUIRE(mFeed(m, k, z, s.draw(64)) == 0, "feeding a signing session returns something (%s)", log.c_str()); } else { uint32_t got; Bytes b = mSign(m, k, s.draw(64), got); REQUIRE(got == 0 && b == Bytes(b.size(), 0xa5), "a verifying session gives signature bytes (%s)", log.c_str()); } log += fmt(" %d:misplaced", k); continue; }
        if (odd == 7) { unsigned v = mVerdict(m, k), w = x.role == 2 && x.at == x.sig.size(); REQUIRE(v == w, "verdict %u where it is %u (%s)", v, w, log.c_str()); log += fmt(" %d:verdict", k); continue; }
        if (x.role == 1) { unsigned l = s.size(std::min<size_t>(x.limit - x.at, 12 * n), n); uint32_t got; Bytes b = mSign(m, k, l, got); size_t d = firstDiff(b.data(), &x.want[x.at], l); REQUIRE(got == l && d == l, "%s: %u bytes at %zu: returns %u, differs at %zu (%s)", x.set->name.c_str(), l, x.at, got, d, log.c_str()); x.at += l; log += fmt(" %d:+%u", k, l); }
        else { size_t l = s.draw(2) ? x.sig.size() - x.at : s.size(x.sig.size() - x.at, n); if (!l) continue; unsigned r = mFeed(m, k, &x.sig[x.at], l); x.at += l; REQUIRE(r == 1, "%s: a valid signature is reported as failing after %zu bytes (%s)", x.set->name.c_str(), x.at, log.c_str()); log += fmt(" %d:+%zu", k, l); }
        used++;
    }
    for (int k = 0; k < 4; k++) if (c[k].role == 2) { if (c[k].at < c[k].sig.size()) mFeed(m, k, &c[k].sig[c[k].at], c[k].sig.size() - c[k].at); REQUIRE(mVerdict(m, k) == 1, "%s: a valid signature is rejected (%s)", c[k].set->name.c_str(), log.c_str()); used++; }
    s.desc("sessions:%s", log.c_str()); if (used > 2) s.nontrivial();
}
// ------------------------------------------------------------------ the hashes
static void reference(int kind, const u8 *p, size_t n, size_t outn, Bytes &out) {
    out.resize(kind == 2 ? outn : kind ? 64 : 32);
    if (kind == 2) { ref::Shake256 h; h.update(p, n); h.squeeze(out.data(), outn); } else if (kind) { ref::Sha512 h; h.update(p, n); h.final(out.data()); } else { ref::Sha256 h; h.update(p, n); h.final(out.data()); }
}
PROPERTY(c21_hash, "C21.hash") {
    int kind = s.sweep(s.idx, 3), block = kind == 2 ? 136 : kind ? 128 : 64; bool save = kind < 2 && s.draw(3) == 2; size_t len = s.draw(4) ? s.draw(600) : s.size(20000, block); Bytes msg = s.bytes(save ? block + len : len); std::vector<size_t> cut; size_t at = 0;
    if (save) cut.push_back(at = block); for (int i = s.draw(5); i--;) { size_t l = s.size(msg.size() - at, block); cut.push_back(l); at += l; } cut.push_back(msg.size() - at);
    Req q; q.u(8).u(kind).u(save).u(0).w(cut.size()); at = 0; for (size_t l : cut) { q.s(msg.data() + at, l); at += l; }
    std::vector<unsigned> outs; unsigned total = 0; if (kind == 2) for (int i = 1 + s.draw(4); i--;) { outs.push_back(s.draw(3) ? s.draw(300) : s.size(2000, 136)); total += outs.back(); } else outs.push_back(kind ? (s.draw(2) ? 64 : 8 * s.draw(9)) : s.draw(2) ? 32 : 4 * s.draw(9));
    q.w(outs.size()); for (unsigned o : outs) { q.w(o); if (o == (kind ? 64u : 32u) && kind < 2) q.u(s.draw(2)); }
    Machine m; Ans a = m.ask("hashing", q); if (!a.w()) throw Discard(); Bytes want; reference(kind, msg.data(), msg.size(), total, want); s.label(kind == 2 ? "SHAKE-256" : kind ? "SHA-512" : "SHA-256"); if (save) s.label("state saved"); s.desc("%s of %zu bytes in %zu pieces", kind == 2 ? "SHAKE-256" : kind ? "SHA-512" : "SHA-256", msg.size(), cut.size());
    size_t o = 0; for (unsigned l : outs) { const u8 *p = a.s(l); size_t d = firstDiff(p, &want[o], l); REQUIRE(d == l, "%s of %zu bytes differs at byte %zu", kind == 2 ? "SHAKE-256" : kind ? "SHA-512" : "SHA-256", msg.size(), o + d); o += l; }
    s.nontrivial();
}
struct Sparse { u8 *p; size_t n; explicit Sparse(size_t k) : p((u8 *)mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)), n(k) { if (p == MAP_FAILED) { perror("mmap"); _exit(12); } madvise(p, k, MADV_NOHUGEPAGE); } ~Sparse() { munmap(p, n); } };
static Req hugeReq(Src &s, Sparse &h) { Req q; q.u(9).w(h.n); unsigned k = 1 + s.draw(20); q.w(k); for (unsigned i = 0; i < k; i++) { uint32_t off = i ? s.draw(h.n) : h.n - 1; u8 v = 1 + s.draw(255); h.p[off] = v; q.w(off).u(v); } return q; }
PROPERTY(c21_hugehash, "C21.hugehash") {
    s.cpu(500); g_limit = 300; int kind = s.sweep(s.idx, 3); static const size_t B[] = {1u << 29, 1u << 29, 1u << 30, 1u << 31}; Sparse h(B[s.draw(4)] + s.draw(1000)); Machine m; m.ask("mapping", hugeReq(s, h));
    std::vector<size_t> cut; size_t at = 0; if (s.draw(2)) cut.push_back(at = s.draw(300)); if (s.draw(2)) { cut.push_back(s.draw(h.n - at)); at += cut.back(); } cut.push_back(h.n - at);
    Req q; q.u(8).u(kind).u(0).u(1).w(cut.size()); for (size_t l : cut) q.w(l); q.w(1).w(kind == 1 ? 64 : 32); if (kind < 2) q.u(0);
    Ans a = m.ask("hashing", q); if (!a.w()) throw Discard(); Bytes want; reference(kind, h.p, h.n, 32, want); const u8 *p = a.s(want.size()); size_t d = firstDiff(p, want.data(), want.size());
    s.label(kind == 2 ? "SHAKE-256" : kind ? "SHA-512" : "SHA-256"); s.desc("%zu bytes in %zu pieces", h.n, cut.size()); REQUIRE(d == want.size(), "%s of %zu bytes in %zu pieces is wrong", kind == 2 ? "SHAKE-256" : kind ? "SHA-512" : "SHA-256", h.n, cut.size()); s.nontrivial();
}
PROPERTY(c21_hugemsg, "C21.hugemsg") {
    s.cpu(500); g_limit = 300; static const char *F[] = {"sha2_128f", "sha2_192f", "shake_128f", "sha2_256f"}; const Set *set = nullptr; std::string want = F[s.sweep(s.idx, 4)]; for (auto &x : sets) if (x.name == want) set = &x; if (!set) throw Discard();
    const int n = set->n(); Sparse h((1u << 29) + s.draw(5000)); Machine m; m.ask("mapping", hugeReq(s, h)); const ref::Key &key = poolKey(*set, 0); Bytes sk = key.secretBytes(), pk = key.publicBytes(), o = s.bytes(n), R(n); ref::prfMsg(key, o.data(), h.p, h.n, R.data());
    m.ask("the start of a signature", session(3, 0, *set, 0, sk.data(), 4 * n, Bytes(), 1, o, true)); uint32_t got; Bytes b = mSign(m, 0, 2 * n, got); ref::Digest d = ref::hMsg(key, R.data(), h.p, h.n); Bytes w = ref::signFors(key, R.data(), d, 1); w.resize(2 * n);
    s.label(set->name); s.desc("%s, a message of %zu bytes", set->name.c_str(), h.n); REQUIRE(b == w, "%s: the signature of a message of %zu bytes is wrong from byte %zu on", set->name.c_str(), h.n, firstDiff(b.data(), w.data(), 2 * n));
    Rand r(s.seed()); Bytes sig = ref::craft(key, h.p, h.n, [&](u8 *p, size_t k) { r.fill(p, k); }, ref::CraftOpt()); m.ask("the start of a verification", session(5, 1, *set, 0, pk.data(), 2 * n, Bytes(), 0, Bytes(), true));
    REQUIRE(mFeed(m, 1, sig.data(), sig.size()) == 1 && mVerdict(m, 1) == 1, "%s: a valid signature of a message of %zu bytes is rejected", set->name.c_str(), h.n); s.nontrivial();
}
