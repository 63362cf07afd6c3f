#include "lib.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

const vt_api *A, *A2;
std::vector<Set> sets, sets2;
void *g_libHandle; std::string g_libPath;
thread_local int g_poison = -1;
thread_local Rng *g_rng;

static const vt_api *load(const std::string &path, std::vector<Set> &out) {
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return nullptr; }
    if (!g_libHandle) { g_libHandle = h; g_libPath = path; }
    auto get = (const vt_api *(*)(void))dlsym(h, "vt_get_api");
    if (!get) { fprintf(stderr, "dlsym: %s\n", dlerror()); return nullptr; }
    const vt_api *a = get();
    for (unsigned i = 0; i < a->nsets; i++) {
        std::string nm = a->sets[i].name;
        const ref::Params *p = ref::find(nm + "_simple");
        out.push_back({nm, a->sets[i].ps, p, (int)(p - ref::PARAMS)});
    }
    return a;
}
// --only: '+'-separated words, each of which must match: a family, f or s, or part of the name
static bool wanted(const std::string &n) {
    size_t a = 0; const std::string &o = opt.only;
    while (a < o.size()) { size_t e = o.find('+', a); if (e == std::string::npos) e = o.size(); std::string w = o.substr(a, e - a); a = e + 1; if (w == "f" || w == "s") { if (n.back() != w[0]) return false; } else if (n.find(w) == std::string::npos) return false; }
    return true;
}
bool libOpen(const std::string &p, const std::string &p2) {
    if (p.size() > 5 && p.substr(p.size() - 5) == ".mach") { if (!machOpen(p, sets)) return false; }
    else { A = load(p, sets); if (!A) return false; }
    if (!p2.empty()) { A2 = load(p2, sets2); if (!A2) return false; }
    std::vector<Set> ok; for (auto &s : sets) if ((s.ps || opt.prop == "C11.offer") && wanted(s.name)) ok.push_back(s);
    sets = ok; if (sets.empty()) { fprintf(stderr, "no parameter sets\n"); return false; }
    return true;
}
static thread_local unsigned g_align;
void caseReset() { g_align = 0; g_poison = -1; g_rng = nullptr; }
void caseEnd() {}

// ------------------------------------------------------------------ randomness
static int rngFn(unsigned char *p, size_t n) {
    Rng *r = g_rng;
    if (!r) abort();
    int call = r->calls++;
    if (r->hook) { auto h = r->hook; h(n); g_rng = r; }
    if (call == r->failCall) { if (r->failFills) memset(p, 0x5e, n); return 0; }
    for (size_t i = 0; i < n; i++) { size_t k = r->taken++; p[i] = k < r->stream.size() ? r->stream[k] : (u8)(0xe7 ^ k); }
    return 1;
}

// ------------------------------------------------------------------ memory
#ifdef __SANITIZE_ADDRESS__
// END buffers start at any alignment (a function of the sizes requested so far in this case); contexts are aligned
void Mem::map(size_t sz, int mode) {
    n = sz; g_align = g_align * 5 + (unsigned)sz * 2654435761u + 0x3000000b;
    size_t k = mode == END && sz && sz != A->ctx_size ? g_align >> 29 : 0;
    total = sz + k; base = (u8 *)malloc(total ? total : 1); p = total ? base + k : base + 1;
}
Mem::~Mem() { free(base); }
void Mem::readOnly() {} void Mem::none() {} void Mem::writable() {}
#else
void Mem::map(size_t sz, int mode) {
    const size_t P = 4096; n = sz; size_t body = (sz + P - 1) / P * P; if (!body) body = P;
    total = body + 2 * P;
    base = (u8 *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || mprotect(base + P, body, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(12); }
    p = mode == START ? base + P : base + P + body - sz;
}
Mem::~Mem() { munmap(base, total); }
void Mem::readOnly() { mprotect(base + 4096, total - 8192, PROT_READ); }
void Mem::none() { mprotect(base + 4096, total - 8192, PROT_NONE); }
void Mem::writable() { mprotect(base + 4096, total - 8192, PROT_READ | PROT_WRITE); }
#endif
// garbage: -1 leave, 0..255 byte value, >= 256 pseudo-random
Mem::Mem(size_t sz, int mode, int fill) {
    map(sz, mode);
    if (fill >= 0 && fill < 256) memset(p, fill, n);
    else if (fill >= 256) { Rand r(fill); r.fill(p, n); }
}
Mem::Mem(const Bytes &b, int mode) { map(b.size(), mode); if (!b.empty()) memcpy(p, b.data(), b.size()); }

// ------------------------------------------------------------------ calls
static __attribute__((noinline)) void poisonStack(int v) {
    volatile u8 buf[6144];
    for (size_t i = 0; i < sizeof buf; i += 1) buf[i] = v < 256 ? (u8)v : (u8)(i * 167 + v);
    asm volatile("" ::"r"(buf) : "memory");
}
#define POISON() do { if (g_poison >= 0) poisonStack(g_poison); } while (0)
int genKey(u8 *sk, u8 *pk, const Set &s, Rng *r) { Rng *old = g_rng; g_rng = r; POISON(); int v = A->gen_key(sk, pk, s.ps, r ? rngFn : nullptr); g_rng = old; return v; }
void initSign(ts_context *c, const void *m, size_t l, const Set &s, const u8 *sk, Rng *r) { Rng *old = g_rng; g_rng = r; POISON(); A->init_sign(c, m, l, s.ps, sk, r ? rngFn : nullptr); g_rng = old; }
unsigned doSign(u8 *d, unsigned m, ts_context *c) { POISON(); return A->sign(d, m, c); }
void initVerify(ts_context *c, const void *m, size_t l, const Set &s, const u8 *pk) { POISON(); A->init_verify(c, m, l, s.ps, pk); }
int updateVerify(const u8 *g, unsigned m, ts_context *c) { POISON(); return A->update_verify(g, m, c); }
int doVerify(ts_context *c) { POISON(); return A->verify(c); }

// ------------------------------------------------------------------ conveniences
Bytes signAll(const Set &s, const u8 *sk, const Bytes &msg, Rng *r) {
    std::vector<uint64_t> ctx((A->ctx_size + 7) / 8); Bytes sig(s.p->sig() + 64);
    initSign((ts_context *)ctx.data(), msg.data(), msg.size(), s, sk, r);
    unsigned got = doSign(sig.data(), sig.size(), (ts_context *)ctx.data());
    sig.resize(got > sig.size() ? sig.size() : got);
    return sig;
}
bool verifyAll(const Set &s, const u8 *pk, const Bytes &msg, const Bytes &sig) {
    std::vector<uint64_t> ctx((A->ctx_size + 7) / 8);
    initVerify((ts_context *)ctx.data(), msg.data(), msg.size(), s, pk);
    updateVerify(sig.data(), sig.size(), (ts_context *)ctx.data());
    return doVerify((ts_context *)ctx.data()) == 1;
}
static Rand poolRand(const Set &s, int k, int salt) { return Rand(mix(mix(g_run_seed, s.id * 1000 + k), 77 + salt)); }
const ref::Key &poolKey(const Set &s, int k) {
    static std::map<std::pair<int, int>, ref::Key> m;
    auto it = m.find({s.id, k}); if (it != m.end()) return it->second;
    u8 seed[96]; poolRand(s, k, 1).fill(seed, 96);
    ref::Key key; key.setSeeds(s.p, seed); key.topTree();
    return m[{s.id, k}] = key;
}
const Sess &poolSess(const Set &s, int k, bool wantSig) {
    static std::map<std::pair<int, int>, Sess> m;
    Sess &x = m[{s.id, k}];
    if (!x.set) {
        Rand r = poolRand(s, k, 2); const int n = s.n();
        Bytes seed(3 * n); r.fill(seed.data(), seed.size());
        x.sk.assign(4 * n, 0); x.pk.assign(2 * n, 0); Rng g(seed);
        genKey(x.sk.data(), x.pk.data(), s, &g);
        x.msg.resize(r.next() % 200); r.fill(x.msg.data(), x.msg.size());
        x.opt.resize(n); r.fill(x.opt.data(), n);
        for (auto &q : ::sets) if (q.id == s.id) x.set = &q;
    }
    if (wantSig && x.sig.empty()) { Rng g(x.opt); x.sig = signAll(s, x.sk.data(), x.msg, &g); }
    return x;
}
Stream &poolStream(const Set &s, int k, bool verify) {
    static std::map<std::pair<int, int>, Stream> m;
    auto id = std::make_pair(s.id * 2 + verify, k); auto it = m.find(id); if (it != m.end()) return it->second;
    const Sess &x = poolSess(s, k); const int n = s.n();
    Stream t; t.s = &x; t.verify = verify;
    t.ctx = new Mem(A->ctx_size, Mem::END, 0x11);
    t.key = new Mem(verify ? x.pk : x.sk, Mem::END);
    ts_context *c = (ts_context *)t.ctx->p; Rng g(x.opt);
    t.msg = new Mem(x.msg);
    if (verify) initVerify(c, t.msg->p, t.msg->n, s, t.key->p); else { initSign(c, t.msg->p, t.msg->n, s, t.key->p, &g); t.msg->none(); }
    t.snap.push_back(t.ctx->bytes());
    Bytes blk(n);
    for (size_t o = 0; o < x.sig.size(); o += n) {
        if (verify) updateVerify(&x.sig[o], n, c); else doSign(blk.data(), n, c);
        t.snap.push_back(t.ctx->bytes());
    }
    return m[id] = t;
}
Bytes randBytes(Src &s, size_t n) { Rand r(s.seed()); Bytes b(n); r.fill(b.data(), n); return b; }
std::string mpos(const Set &s, size_t off) {
    const ref::Params &p = *s.p; size_t b = off / p.n, in = off % p.n;
    std::string at = fmt(" byte %zu (offset %zu)", in, off);
    if (b == 0) return "R" + at;
    b--; size_t fb = p.k * (p.a + 1);
    if (b < fb) return (b % (p.a + 1) ? fmt("FORS tree %zu auth node %zu", b / (p.a + 1), b % (p.a + 1) - 1) : fmt("FORS tree %zu secret value", b / (p.a + 1))) + at;
    b -= fb; size_t lb = p.len() + p.hp;
    if (b >= lb * p.d) return "beyond the end" + at;
    size_t L = b / lb, r = b % lb;
    return (r < (size_t)p.len() ? fmt("layer %zu WOTS chain %zu", L, r) : fmt("layer %zu auth node %zu", L, r - p.len())) + at;
}
OptRand drawOpt(Src &s, const Set &set, const Bytes &pkSeed) {
    OptRand o; o.use = s.chance(2, 3);
    if (o.use) { o.rng.stream = s.bytes(set.n()); o.eff = o.rng.stream; s.label("optrand=given"); }
    else { o.eff = pkSeed; s.label("optrand=default"); }
    return o;
}
size_t firstDiff(const u8 *a, const u8 *b, size_t n) { size_t i = 0; while (i < n && a[i] == b[i]) i++; return i; }
void drawKnobs(Src &s) {
    static const int pat[] = {-1, 0, 0xff, 0xa5, 0x01, 300, 0x80};
    g_poison = pat[s.draw(7)];
}
