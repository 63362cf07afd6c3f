// C20: what secret values decide.  The library is built so that every basic block and (clang builds) every address it loads
// from or stores to is reported; two runs that differ in secrets only must report the same sequence.
#include "lib.h"
#include <stdlib.h>

extern bool g_tracing; extern uint64_t g_traceHash, g_traceLen;     // p_session.cc
extern std::vector<uint64_t> *g_traceLog;
struct Trace { uint64_t h, n; bool operator==(const Trace &o) const { return h == o.h && n == o.n; } };
template <class F> __attribute__((noinline)) static Trace traced(const F &f) {
    g_traceHash = 0; g_traceLen = 0; g_tracing = true; f(); g_tracing = false; return {g_traceHash, g_traceLen};
}
extern "C" {    // what the traced builds call instead of the C library's functions
int vt_memcmp(const void *a, const void *b, size_t n); void *vt_memcpy(void *a, const void *b, size_t n); void *vt_memmove(void *a, const void *b, size_t n); void *vt_memset(void *a, int c, size_t n);
}
static void event(uint64_t v) { if (!g_tracing) return; g_traceHash = (g_traceHash ^ v) * 0x9e3779b97f4a7c15ULL; g_traceHash ^= g_traceHash >> 29; g_traceLen++; if (g_traceLog) g_traceLog->push_back(v); }
// the time memcmp takes tells where the first difference is
int vt_memcmp(const void *a, const void *b, size_t n) { size_t i = 0; const u8 *x = (const u8 *)a, *y = (const u8 *)b; while (i < n && x[i] == y[i]) i++; event((uint64_t)a); event((uint64_t)b); event(n); event(i); return i < n ? x[i] - y[i] : 0; }
void *vt_memcpy(void *a, const void *b, size_t n) { event((uint64_t)a); event((uint64_t)b); event(n); return memcpy(a, b, n); }
void *vt_memmove(void *a, const void *b, size_t n) { event((uint64_t)a); event((uint64_t)b); event(n); return memmove(a, b, n); }
void *vt_memset(void *a, int c, size_t n) { event((uint64_t)a); event(n); return memset(a, c, n); }

// content for a secret: a variation of the other run's
static void vary(Src &s, u8 *p, size_t n) {
    switch (s.draw(6)) {
    case 0: Rand(s.seed()).fill(p, n); break;
    case 1: p[s.draw(n)] ^= 1 << s.draw(8); break;
    case 2: memset(p, 0, n); break;
    case 3: memset(p, 0xff, n); break;
    case 4: { size_t o = s.draw(n), m = 1 + s.draw(n - o); memset(p + o, s.draw(3) == 2 ? 0xff : 0, m); break; }
    default: { size_t o = s.draw(n), m = 1 + s.draw(8); for (size_t i = o; i + 1 < n && i < o + m; i++) p[i + 1] = p[i]; }
    }
}
static std::string where(const Trace &a, const Trace &b) { return fmt("%llu events against %llu", (unsigned long long)a.n, (unsigned long long)b.n); }

// the trace itself, once two differ
typedef std::vector<uint64_t> Log;
template <class F> static Log logged(const F &f) { Log l; g_traceLog = &l; traced(f); g_traceLog = nullptr; return l; }
static size_t commonHead(const Log &a, const Log &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static size_t commonTail(const Log &a, const Log &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[a.size() - 1 - i] == b[b.size() - 1 - i]) i++; return i; }

static void keygenCase(Src &s, const Set &set, int runs) {
    const int n = set.n(); Bytes base = randBytes(s, 3 * n); Mem sk(4 * n, Mem::ALIGNED), pk(2 * n, Mem::ALIGNED); bool wantPk = s.draw(4) != 3; Trace first{0, 0};
    s.label(set.name); s.desc("key generation %s, %d streams%s", set.name.c_str(), runs, wantPk ? "" : ", no public key");
    for (int i = 0; i < runs; i++) {
        Bytes b = base; if (i) for (int f = 0; f < 3; f++) if (i == 1 || s.draw(2)) vary(s, &b[f * n], n);
        Rng r(b); memset(sk.p, 0, sk.n); memset(pk.p, 0, pk.n);
        Trace t = traced([&] { genKey(sk.p, wantPk ? pk.p : nullptr, set, &r); });
        if (!t.n) throw Discard();
        if (!i) first = t; else REQUIRE(t == first, "%s: key generation executes or touches something else for other random bytes (%s; %s and %s)", set.name.c_str(), where(first, t).c_str(), hex(base.data(), 3 * n).c_str(), hex(b.data(), 3 * n).c_str());
    }
    s.nontrivial();
}
PROPERTY(c20_keygen, "C20.keygen") {
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard();
    keygenCase(s, sets[f[s.sweep(s.idx, f.size())]], 3);
}
PROPERTY(c20_keygenslow, "C20.keygenslow") { s.cpu(400); std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (!sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard(); keygenCase(s, sets[f[s.sweep(s.idx, f.size())]], 2); }

// Starting a signature: everything but lengths and the parameter set is content
PROPERTY(c20_start, "C20.start") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); s.label(set.name);
    size_t len = s.draw(5) == 4 ? s.draw(5000) : s.draw(300), total = 1 + s.draw(n); Bytes key = randBytes(s, 4 * n), msg = s.bytes(len), opt = randBytes(s, n); bool given = s.draw(2), alias = s.draw(2);
    Mem k(4 * n, Mem::ALIGNED), m(len, s.draw(2)), out(n); Ctx ctx, ver; std::string ch; struct In { Bytes key, msg, opt; } first; Trace t0{0, 0}, o0{0, 0};
    auto place = [&](const In &x) { memcpy(k.p, x.key.data(), 4 * n); if (len) memcpy(m.p, x.msg.data(), len); memset(ctx.p, 0, ctx.n); };
    auto start = [&](const In &x, bool log) { place(x); Rng r(x.opt); auto f = [&] { initSign(ctx.c(), m.p, len, set, k.p, given ? &r : nullptr); }; if (log) return std::make_pair(Trace{0, 0}, logged(f)); return std::make_pair(traced(f), Log()); };
    // what an implementation may do with R, the message and the public key: all that verification does with them
    auto disclosed = [&](const In &x) { start(x, false); doSign(out.p, n, ctx.c()); memset(ver.p, 0, ver.n); initVerify(ver.c(), m.p, len, set, k.p + 2 * n); return traced([&] { updateVerify(out.p, n, ver.c()); }).n; };
    for (int i = 0; i < 4; i++) {
        if (i) { int what = i == 1 ? 1 : 1 + s.draw(15); ch = "";
            if (what & 1) { vary(s, &key[0], 2 * n); ch += " secret halves"; } if (what & 2) { vary(s, &key[2 * n], 2 * n); ch += " public halves"; }
            if (what & 4 && len) { vary(s, msg.data(), len); ch += " message"; } if (what & 8 && given) { vary(s, opt.data(), n); if (alias) memcpy(opt.data(), &key[2 * n], n); ch += " OptRand"; } }
        In x{key, msg, opt}; Trace t = start(x, false).first, o = traced([&] { doSign(out.p, total, ctx.c()); });
        if (!t.n) throw Discard();
        if (!i) { first = x; t0 = t; o0 = o; continue; }
        REQUIRE(o == o0, "%s: delivering the first %zu bytes executes or touches something else after other contents of:%s (%s)", set.name.c_str(), total, ch.c_str(), where(o0, o).c_str());
        if (t == t0) continue;
        Log a = start(first, true).second, b = start(x, true).second; size_t after = std::max(disclosed(first), disclosed(x)) + 300, head = commonHead(a, b);
        s.label("differs once R is known");
        REQUIRE(head + after >= a.size() && head + after >= b.size(), "%s: starting a signature of %zu bytes executes or touches something else after other contents of:%s (%s, from event %zu on; what follows from R takes %zu)", set.name.c_str(), len, ch.c_str(), where(t0, t).c_str(), head, after - 300);
    }
    s.desc("start %s, message of %zu bytes, OptRand %s, %zu bytes out", set.name.c_str(), len, given ? "given" : "default", total);
    s.nontrivial();
}
// Signatures that differ in SK.seed only: they disclose the same R, FORS indices and leaves, and WOTS+ digits that are known
static void signCase(Src &s, const Set &set, size_t from, size_t blocks, int runs) {
    const ref::Params &p = *set.p; const size_t n = p.n, nb = p.sig() / n, fb = 1 + p.k * (p.a + 1), lb = p.len() + p.hp; if (from + blocks > nb) blocks = nb - from;
    Bytes key = randBytes(s, 4 * n), msg = s.bytes(s.draw(100)), opt = randBytes(s, n); Mem k(4 * n, Mem::ALIGNED), out(n); Ctx ctx; Mem m(msg); size_t compared = 0, digits = 0;
    std::map<std::pair<size_t, int>, std::pair<Trace, int>> seen; std::vector<Bytes> keys; Bytes sig(p.sig());
    s.label(set.name); std::map<std::pair<size_t, int>, Bytes> state; auto nearDigits = [&](size_t q) { return q + 1 >= fb && ((q + 1 - fb) % lb == 0 || (q >= fb && (q - fb) % lb == 0)); };
    for (int i = 0; i < runs; i++) {
        if (i) vary(s, key.data(), n);
        keys.push_back(Bytes(key.begin(), key.begin() + n)); memcpy(k.p, key.data(), 4 * n); memset(ctx.p, 0, ctx.n); Rng r(opt); std::vector<Trace> tr(blocks);
        initSign(ctx.c(), m.p, m.n, set, k.p, &r); if (from) for (size_t b = 0; b < from; b++) doSign(&sig[b * n], n, ctx.c());
        for (size_t b = 0; b < blocks; b++) { if (nearDigits(from + b)) state[{from + b, i}] = Bytes(ctx.p, ctx.p + ctx.n); tr[b] = traced([&] { doSign(out.p, n, ctx.c()); }); memcpy(&sig[(from + b) * n], out.p, n); }
        if (blocks && !tr[0].n) throw Discard();
        ref::Key pub; pub.setPublic(&p, &key[2 * n]); auto val = ref::recompute(pub, ref::hMsg(pub, sig.data(), msg.data(), msg.size()), sig.data());
        for (size_t b = 0; b < blocks; b++) {
            size_t q = from + b; int digit = -1;
            if (q >= fb && (q - fb) % lb < (size_t)p.len()) { size_t L = (q - fb) / lb; digit = ref::wotsDigits(p, val[L].data())[(q - fb) % lb]; }
            auto it = seen.find({q, digit});
            if (it == seen.end()) { seen[{q, digit}] = {tr[b], i}; continue; }
            compared++; digits += digit >= 0;
            // next to the start of a WOTS+ signature the digits of the root (disclosed) may steer how they are computed
            if (!(it->second.first == tr[b]) && nearDigits(q)) {
                Log l[2];
                for (int j = 0; j < 2; j++) {
                    int run = j ? i : it->second.second; memcpy(k.p, keys[run].data(), n); const Bytes &st = state[{q, run}]; memcpy(ctx.p, st.data(), ctx.n);
                    l[j] = logged([&] { doSign(out.p, n, ctx.c()); });
                }
                size_t same = commonHead(l[0], l[1]), lim = 60 * p.len(); same += std::min(commonTail(l[0], l[1]), std::min(l[0].size(), l[1].size()) - same);
                s.label("differs where digits are computed");
                if (same + lim >= std::max(l[0].size(), l[1].size())) continue;
            }
            REQUIRE(it->second.first == tr[b], "%s: making %s%s executes or touches something else for another SK.seed (%s; %s and %s)", set.name.c_str(), mpos(set, q * n).c_str(), digit >= 0 ? fmt(" (digit %d)", digit).c_str() : "", where(it->second.first, tr[b]).c_str(), hex(keys[it->second.second].data(), n).c_str(), hex(key.data(), n).c_str());
        }
    }
    s.desc("%s: blocks %zu..%zu under %d values of SK.seed, %zu comparisons, %zu of them of WOTS+ chains", set.name.c_str(), from, from + blocks, runs, compared, digits);
    s.label(digits ? "with WOTS+ chains" : "FORS only"); if (compared) s.nontrivial();
}
PROPERTY(c20_sign, "C20.sign") {
    s.cpu(400); std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard();
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; signCase(s, set, 0, set.p->sig() / set.n(), 4);
}
// slow sets: the FORS part of one tree and (rarely) on
PROPERTY(c20_signslow, "C20.signslow") {
    s.cpu(400); std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (!sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard();
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const ref::Params &p = *set.p; signCase(s, set, 0, s.draw(8) == 7 ? 1 + p.k * (p.a + 1) + p.len() + p.hp : 2 * (p.a + 1), 2);
}

// fast sets: the FORS part and the first one or two layers
PROPERTY(c20_signpart, "C20.signpart") {
    s.cpu(400); std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard();
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const ref::Params &p = *set.p; signCase(s, set, 0, 1 + p.k * (p.a + 1) + (1 + s.draw(2)) * (p.len() + p.hp), 4);
}
