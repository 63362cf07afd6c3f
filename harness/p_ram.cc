// C10, C17: RAM.  Plain builds only.
#include "lib.h"
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

// ------------------------------------------------------------------ heap use inside library calls
static volatile bool g_watch; static volatile unsigned g_heap;
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
#define HIT() do { if (g_watch) g_heap++; } while (0)
void *malloc(size_t n) { HIT(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { HIT(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { HIT(); return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { HIT(); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { HIT(); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { HIT(); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void *p) { HIT(); __libc_free(p); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { HIT(); return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { HIT(); return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
}

// ------------------------------------------------------------------ writable static state of the library
struct Seg { u8 *p; size_t n; };
static std::vector<Seg> g_segs; static std::vector<Bytes> g_init; static size_t g_static, g_tls; static bool g_scanned;
static int onPhdr(dl_phdr_info *i, size_t, void *) {
    if (g_libPath != i->dlpi_name) return 0;
    uintptr_t ro = 0, roEnd = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; roEnd = (ro + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul; ro &= ~4095ul; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_TLS) g_tls += h.p_memsz;
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz; if (roEnd > ro && roEnd > a) a = std::min(roEnd, e);
        if (e > a) { g_segs.push_back({(u8 *)a, e - a}); g_static += e - a; }
    }
    return 1;
}
static void scan() {
    if (g_scanned) return;
    g_scanned = true; dl_iterate_phdr(onPhdr, nullptr);
    for (auto &s : g_segs) g_init.push_back(Bytes(s.p, s.p + s.n));
}
// writes to static data while operations run, even if undone: the pages are read-only and the first fault is noted
static volatile const void *volatile g_wrote; static struct sigaction g_oldSegv;
static void protect(int prot) { for (auto &s : g_segs) { uintptr_t a = (uintptr_t)s.p & ~4095ul, e = ((uintptr_t)s.p + s.n + 4095) & ~4095ul; mprotect((void *)a, e - a, prot); } }
static void onSegv(int, siginfo_t *i, void *) {
    for (auto &s : g_segs) if ((u8 *)i->si_addr >= s.p && (u8 *)i->si_addr < s.p + s.n) { if (!g_wrote) g_wrote = i->si_addr; protect(PROT_READ | PROT_WRITE); return; }
    sigaction(SIGSEGV, &g_oldSegv, nullptr);
}
struct Watch {
    Watch() {
        g_wrote = nullptr; if (g_segs.empty()) return;
        static u8 alt[65536]; stack_t st = {}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
        struct sigaction sa = {}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, &g_oldSegv); protect(PROT_READ);
    }
    ~Watch() { if (g_segs.empty()) return; protect(PROT_READ | PROT_WRITE); sigaction(SIGSEGV, &g_oldSegv, nullptr); }
};
static void checkStatic(const std::string &what) {
    REQUIRE(!g_wrote, "%s wrote to static data of the package (%zu bytes of writable static data)", what.c_str(), g_static);
    REQUIRE(!g_tls, "the package has %zu bytes of thread-local state", g_tls);
    for (size_t k = 0; k < g_segs.size(); k++) { size_t d = firstDiff(g_segs[k].p, g_init[k].data(), g_segs[k].n); REQUIRE(d == g_segs[k].n, "%s changed static state of the package (%zu bytes of writable static data)", what.c_str(), g_static); }
}

// ------------------------------------------------------------------ a painted stack of our own
static const size_t STK = 128 << 10, USE = 96 << 10;
static u8 *g_stk; static Bytes g_paint; static ucontext_t g_main, g_task; static void (*volatile g_fn)(void); static u8 *volatile g_base;
static __attribute__((noinline)) void taskMain() { g_base = (u8 *)__builtin_frame_address(0); g_watch = true; g_fn(); g_watch = false; }
static size_t depthOf(void (*fn)(void)) {                   // bytes of stack below our own frame touched by fn
    if (!g_stk) { g_stk = (u8 *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(g_stk, 4096, PROT_NONE); g_stk += 4096; g_paint.resize(STK); Rand r(42); r.fill(g_paint.data(), STK); }
    memcpy(g_stk, g_paint.data(), STK); g_fn = fn; g_heap = 0;
    getcontext(&g_task); g_task.uc_stack.ss_sp = g_stk; g_task.uc_stack.ss_size = STK; g_task.uc_link = &g_main; makecontext(&g_task, taskMain, 0); { Watch w; swapcontext(&g_main, &g_task); }
    size_t i = 0; while (i < STK && g_stk[i] == g_paint[i]) i++;
    return g_base > g_stk + i ? g_base - (g_stk + i) : 0;
}

struct Pub { const char *name; unsigned ctx, key, sig, ver; };
static const Pub PUBLISHED[] = {                             // ramspace.out of the pinned commit
    {"sha2_128f", 472, 976, 1024, 992}, {"sha2_128s", 568, 1072, 1120, 1088}, {"sha2_192f", 768, 1296, 1456, 1408}, {"sha2_192s", 912, 1440, 1600, 1552}, {"sha2_256f", 872, 1408, 1568, 1536}, {"sha2_256s", 1032, 1568, 1728, 1696},
    {"shake_128f", 672, 1104, 1120, 928}, {"shake_128s", 768, 1200, 1216, 1024}, {"shake_192f", 776, 1216, 1232, 1040}, {"shake_192s", 920, 1360, 1376, 1184}, {"shake_256f", 880, 1312, 1328, 1136}, {"shake_256s", 1040, 1472, 1488, 1296}};
static const Pub &pub(const Set &s) { for (auto &r : PUBLISHED) if (s.name == r.name) return r; failf("internal: %s", s.name.c_str()); }

// arguments of the operation on the painted stack (statics, so that passing them costs nothing)
static struct { const ts_parameter_set *ps; u8 *sk; const u8 *pk, *msg, *sigIn; u8 *sigOut; size_t len; vt_rng rng; const unsigned *pieces; unsigned np; int rc; } a;
static int tinyRng(unsigned char *p, size_t n) { while (n--) *p++ = (u8)(n * 37 + 11); return 1; }
static int badRng(unsigned char *, size_t) { return 0; }
static void opKey() { a.rc = A->run_keygen(a.sk, a.ps, a.rng); }
static void opSign() { A->run_sign(a.ps, a.sk, a.msg, a.len, a.rng, a.sigOut, a.pieces, a.np); }
static void opVerify() { a.rc = A->run_verify(a.ps, a.pk, a.msg, a.len, a.sigIn, a.pieces, a.np); }
static std::vector<unsigned> split(Src &s, size_t L, int n, std::string &d) {
    std::vector<unsigned> v; int style = s.draw(5); size_t f = style == 0 ? L : style == 1 ? 1 : style == 2 ? n : style == 3 ? 1 + s.draw(4 * n) : 0, left = L; d = style == 4 ? "random pieces" : fmt("pieces of %zu", f);
    while (left) { size_t l = f ? f : 1 + s.draw(std::min<size_t>(left, 5000)); if (l > left) l = left; v.push_back(l); left -= l; }
    return v;
}
static void bound(Src &s, const char *what, size_t depth, unsigned published, const Set &set) {
    unsigned heap = g_heap; s.label(what); s.desc(" uses %zu bytes of stack (published %u)", depth, published);
    REQUIRE(!heap, "%s of %s used the heap (%u calls)", what, set.name.c_str(), heap);
    REQUIRE(depth + g_static <= published + 512, "%s of %s uses %zu bytes of RAM (context and stack%s), published figure %u", what, set.name.c_str(), depth + g_static, g_static ? " and static data" : "", published);
    checkStatic(what); s.nontrivial();
}
static Bytes ramMsg(Src &s) { size_t n; switch (s.draw(5)) { case 0: n = s.draw(4); break; case 1: n = s.draw(300); break; case 2: n = s.draw(3000); break; case 3: n = s.size(1 << 20, 64); break; default: n = s.draw(100); } return s.bytes(n); }
PROPERTY(c10_keygen, "C10.keygen") {
    s.cpu(300); scan(); const Set &set = sets[s.sweep(s.idx, sets.size())]; Bytes sk(4 * set.n()); a.ps = set.ps; a.sk = sk.data(); a.rng = s.draw(4) == 3 ? badRng : tinyRng; s.label(set.name); s.desc("keygen %s", set.name.c_str()); bound(s, "key generation", depthOf(opKey), pub(set).key, set);
}
static void signRam(Src &s, const Set &set, size_t part) {
    scan(); const int n = set.n(); Bytes sk = s.bytes(4 * n), msg = ramMsg(s), out(set.p->sig()); std::string d; size_t L = part ? std::min(part, out.size()) : out.size(); auto v = split(s, L, n, d); int extra = s.draw(3); if (!part) for (int i = 0; i < extra; i++) v.push_back(0);
    a.ps = set.ps; a.sk = sk.data(); a.msg = msg.data(); a.len = msg.size(); a.rng = s.draw(3) == 0 ? nullptr : s.draw(3) ? tinyRng : badRng; a.sigOut = out.data(); a.pieces = v.data(); a.np = v.size();
    s.label(set.name); s.label(part ? "start of a signature" : "whole signature"); s.desc("sign %s, message %zu, %s", set.name.c_str(), msg.size(), d.c_str()); bound(s, "signing", depthOf(opSign), pub(set).sig, set);
}
PROPERTY(c10_sign, "C10.sign") { s.cpu(300); signRam(s, sets[s.sweep(s.idx, sets.size())], 0); }
PROPERTY(c10_signpart, "C10.signpart") { s.cpu(300); const Set &set = sets[s.sweep(s.idx, sets.size())]; signRam(s, set, set.n() * (1 + (set.fast() ? 2 + s.draw(40) : 1 + s.draw(set.p->a - 2)))); }
PROPERTY(c10_verify, "C10.verify") {
    scan(); const Set &set = sets[s.sweep(s.idx, sets.size())]; const ref::Key &k = poolKey(set, 0); Bytes msg = ramMsg(s), pk = k.publicBytes(); Rand r(s.seed());
    Bytes sig = ref::craft(k, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); int kind = s.draw(4); if (kind == 3) { size_t b = s.draw(8 * sig.size()); sig[b / 8] ^= 1 << (b % 8); } if (kind == 2) { Bytes t = s.bytes(s.draw(2) ? 1 + s.draw(100) : 70000); sig.insert(sig.end(), t.begin(), t.end()); }
    std::string d; auto v = split(s, sig.size(), set.n(), d); a.ps = set.ps; a.pk = pk.data(); a.msg = msg.data(); a.len = msg.size(); a.sigIn = sig.data(); a.pieces = v.data(); a.np = v.size();
    s.label(set.name); s.label(kind == 3 ? "altered" : kind == 2 ? "surplus" : "valid"); s.desc("verify %s, message %zu, %s", set.name.c_str(), msg.size(), d.c_str()); bound(s, "verification", depthOf(opVerify), pub(set).ver, set);
}
// no static state in full configurations either
PROPERTY(c10_static, "C10.static") {
    scan(); const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); Bytes sk = s.bytes(4 * n), msg = s.bytes(s.draw(200)); s.label(set.name); g_heap = 0;
    Mem ctx(A->ctx_size, 0, 1); Bytes out(set.p->sig()); size_t L = set.fast() && s.draw(2) ? out.size() : 20 * n; bool key = set.fast();
    for (int i = 0; i < 2; i++) {
        Watch w; g_watch = true;
        A->init_sign((ts_context *)ctx.p, msg.data(), msg.size(), set.ps, sk.data(), tinyRng); A->sign(out.data(), set.fast() ? L : 5 * n, (ts_context *)ctx.p);
        A->init_verify((ts_context *)ctx.p, msg.data(), msg.size(), set.ps, sk.data() + 2 * n); A->update_verify(out.data(), out.size(), (ts_context *)ctx.p); A->verify((ts_context *)ctx.p);
        if (key) A->gen_key(sk.data(), nullptr, set.ps, tinyRng);
        g_watch = false; if (g_wrote) break;
    }
    s.desc("all operations of %s", set.name.c_str()); REQUIRE(!g_heap, "%s used the heap (%u calls)", set.name.c_str(), g_heap); checkStatic("using " + set.name); s.nontrivial();
}

// ================================================================== C17
// reports: lines "set ctx keygen sign verify" as printed by the utility, in the file named by --arg
struct Rep { unsigned ctx, key, sig, ver; };
static std::map<std::string, Rep> reports() {
    std::map<std::string, Rep> m; std::ifstream f(opt.arg); std::string l;
    while (std::getline(f, l)) { std::istringstream i(l); std::string n; Rep r; if (i >> n >> r.ctx >> r.key >> r.sig >> r.ver) m[n] = r; }
    return m;
}
static void agree(const char *op, const Set &set, unsigned rep, size_t real) {
    REQUIRE(rep + 256 >= real && rep <= real + 256, "the RAM utility reports %u bytes for %s of %s, %zu are really used", rep, op, set.name.c_str(), real);
}
PROPERTY(c17_report, "C17.report") {
    s.cpu(300); static auto rep = reports(); const Set &set = sets[s.sweep(s.idx, sets.size())]; int op = s.sweep(s.idx / sets.size() % 4, 4); s.label(set.name); auto it = rep.find("ts_ps_" + set.name + "_simple");
    REQUIRE(it != rep.end(), "the RAM utility gives no (complete) line for %s", set.name.c_str()); Rep r = it->second; const int n = set.n(); s.nontrivial(); a.ps = set.ps; a.rng = tinyRng; a.msg = (const u8 *)"abc"; a.len = 3;
    if (op == 0) { REQUIRE(r.ctx == A->ctx_size, "the RAM utility reports a context of %u bytes for %s, it has %u", r.ctx, set.name.c_str(), A->ctx_size); s.desc("context of %s: %u", set.name.c_str(), r.ctx); return; }
    if (op == 1) { Bytes sk(4 * n); a.sk = sk.data(); size_t d = depthOf(opKey); s.desc("keygen of %s: reported %u, measured %zu", set.name.c_str(), r.key, d); agree("key generation", set, r.key, d); return; }
    if (op == 2) {
        Bytes sk = s.bytes(4 * n); Bytes out(set.p->sig()); std::vector<unsigned> v(set.fast() || s.draw(2) ? out.size() : out.size(), 1); a.rng = nullptr;
        a.sk = sk.data(); a.sigOut = out.data(); a.pieces = v.data(); a.np = v.size(); size_t d = depthOf(opSign); s.desc("signing with %s: reported %u, measured %zu", set.name.c_str(), r.sig, d); agree("signing", set, r.sig, d); return;
    }
    const ref::Key &k = poolKey(set, 0); Bytes pk = k.publicBytes(); Rand q(s.seed()); Bytes sig = ref::craft(k, a.msg, 3, [&](u8 *p, size_t m) { q.fill(p, m); }, ref::CraftOpt()); unsigned L = sig.size(); a.pk = pk.data(); a.sigIn = sig.data(); a.pieces = &L; a.np = 1;
    size_t d = depthOf(opVerify); s.desc("verification with %s: reported %u, measured %zu", set.name.c_str(), r.ver, d); agree("verification", set, r.ver, d);
}
// the stack probe (stack.c, in its own library) on code of known depth
static void (*p_init)(void); static unsigned (*p_measure)(void); static size_t g_want; static int g_how; static u8 g_byte; static uint64_t g_seed; static u8 *volatile g_low; static unsigned g_res; static u8 *volatile g_frame; static u8 g_pat; static size_t g_sparse;
static __attribute__((noinline)) void probed() {            // occupies g_want bytes below the caller's frame
    u8 *top = (u8 *)__builtin_frame_address(0); size_t used = g_frame - top; size_t n = g_want > used + 64 ? g_want - used : 64; volatile u8 *p = (volatile u8 *)__builtin_alloca(n); g_low = (u8 *)p;
    uint64_t x = g_seed; size_t lim = g_how == 2 ? g_sparse : n; if (lim > n) lim = n;
    for (size_t i = 0; i < lim; i++) { u8 v; if (g_how == 1) v = g_byte; else { x = x * 6364136223846793005ull + 1442695040888963407ull; v = x >> 56; } p[i] = v; }
}
static void probeRun() { g_frame = (u8 *)__builtin_frame_address(0); p_init(); probed(); g_res = p_measure(); }
static void probeFill() { p_init(); }
PROPERTY(c17_probe, "C17.probe") {
    if (!p_init) {
        void *h = dlopen(opt.arg2.c_str(), RTLD_NOW); if (!h) throw Discard(); p_init = (void (*)())dlsym(h, "init_stack"); p_measure = (unsigned (*)())dlsym(h, "measure_stack"); if (!p_init || !p_measure) { p_init = nullptr; throw Discard(); }
        depthOf(probeFill); unsigned cnt[256] = {0}; u8 *e = g_base; for (u8 *q = e - 9000; q < e - 1000; q++) cnt[*q]++;      // the fill pattern it uses
        g_pat = 0; for (int i = 1; i < 256; i++) if (cnt[i] > cnt[g_pat]) g_pat = i;
    }
    // sweep the whole range, from almost nothing to the stated limit
    const size_t LIMIT = 10000; size_t lo = 200, hi = LIMIT - 100; g_want = lo + s.sweep((s.idx * 2654435761ull) % (hi - lo), hi - lo); g_how = s.draw(3); g_seed = s.seed(); g_byte = s.draw(256); if (g_byte == g_pat) g_byte ^= 0x40; g_sparse = 1 + s.draw(400); if (g_how == 2) g_sparse += 16;
    depthOf(probeRun); size_t real = g_frame - g_low; s.desc("depth %zu, %s: probe says %u", real, g_how == 0 ? "random bytes" : g_how == 1 ? fmt("bytes %02x", g_byte).c_str() : "only the deepest bytes written", g_res);
    REQUIRE(g_res + 256 >= real && g_res <= real + 256, "the stack probe reports %u for code using %zu bytes of stack", g_res, real); s.label(g_how == 0 ? "random bytes" : g_how == 1 ? "one byte value" : "gaps"); s.label(fmt("depth %zu..%zu", real / 2000 * 2000, real / 2000 * 2000 + 1999)); s.nontrivial();
}
