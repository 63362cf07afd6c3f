// C05-C09: streaming, independence, misplaced calls, memory.
#include "lib.h"
#include <pthread.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <ucontext.h>

// the library's own hash work per signature block, to keep cases affordable
static double blockCost(const Set &set, size_t b) {
    const ref::Params &p = *set.p;
    if (b == 0) return 10;
    b--; size_t fb = p.k * (p.a + 1);
    if (b < fb) { int r = b % (p.a + 1); return r ? 3.0 * (1 << (r - 1)) : 3; }
    b -= fb; size_t r = b % (p.len() + p.hp);
    if (r < (size_t)p.len() - 1) return 8;
    if (r == (size_t)p.len() - 1) return 16.0 * p.len();
    return 16.0 * p.len() * (1 << (r - p.len()));
}
static double rangeCost(const Set &set, size_t from, size_t to) {      // bytes from..to
    double c = 0; size_t n = set.n(), L = set.p->sig(); if (to > L) to = L;
    for (size_t b = from / n; b * n < to; b++) c += blockCost(set, b);
    return c;
}
static size_t drawReq(Src &s, const Set &set, size_t left) {
    const size_t n = set.n();
    switch (s.draw(9)) {
    case 0: return s.draw(4);
    case 1: return 1 + s.draw(n - 1);
    case 2: return n;
    case 3: return n + s.draw(n + 1);
    case 4: return n * (1 + s.draw(40));
    case 5: return s.size(left + 3 * n, n);
    case 6: return left;
    case 7: return left + 1 + s.draw(3 * n);
    default: return s.draw(2) ? 255 + s.draw(3) : 0;
    }
}
static size_t drawBlock(Src &s, const Set &set) {                      // a start position, biased to phase changes
    const ref::Params &p = *set.p; size_t nb = p.sig() / p.n, fb = 1 + p.k * (p.a + 1), lb = p.len() + p.hp; int64_t b;
    switch (s.draw(4)) {
    case 0: b = 0; break;
    case 1: b = 1 + (int64_t)s.draw(p.k + 1) * (p.a + 1); b -= s.draw(3); break;
    case 2: b = fb + (int64_t)s.draw(p.d + 1) * lb + (s.draw(2) ? p.len() : 0); b -= s.draw(3); break;
    default: b = s.draw(nb + 1);
    }
    return b < 0 ? 0 : b > (int64_t)nb ? nb : b;
}
static std::vector<int> kindSets(bool fast) { std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast() == fast) f.push_back(i); return f; }

// ================================================================== C05
// one request and its full contract against the expected bytes
static void request(Src &s, const Sess &x, ts_context *c, size_t &pos, size_t m) {
    const size_t L = x.sig.size(), want = std::min(m, L - pos);
    unsigned got;
    if (m > (1u << 24)) {                                   // a request far larger than any signature
        u8 *b = (u8 *)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b == MAP_FAILED) throw Discard();
        memset(b, 0x3c, L + 64); got = doSign(b, (unsigned)m, c);
        bool ok = got == want && !memcmp(b, &x.sig[pos], want), clean = true;
        for (size_t i = want; i < L + 64; i++) clean &= b[i] == 0x3c;
        munmap(b, m);
        REQUIRE(ok && clean, "%s: request of %zu bytes at offset %zu returned %u (want %zu) or wrong bytes", x.set->name.c_str(), m, pos, got, want);
    } else {
        int canary = (x.sig[pos < L ? pos : 0] ^ 0x5a) & 0xff;
        Mem d(m, s.draw(2), canary); got = doSign(d.p, m, c);
        REQUIRE(got == want, "%s: request of %zu bytes at %s returned %u, want %zu", x.set->name.c_str(), m, mpos(*x.set, pos).c_str(), got, want);
        size_t df = firstDiff(d.p, &x.sig[0] + pos, want);
        REQUIRE(df == want, "%s: streamed byte differs from the single-request signature at %s (request of %zu at offset %zu): got %02x want %02x",
                x.set->name.c_str(), mpos(*x.set, pos + df).c_str(), m, pos, d.p[df], x.sig[pos + df]);
        for (size_t i = want; i < m; i++) REQUIRE(d.p[i] == canary, "%s: wrote beyond the returned count (request %zu at offset %zu)", x.set->name.c_str(), m, pos);
    }
    pos += want;
}
static void streamCase(Src &s, const Set &set, double budget) {
    Stream &t = poolStream(set, 0, false); const Sess &x = *t.s; const size_t n = set.n(), L = x.sig.size();
    REQUIRE(L == set.p->sig(), "%s signature has %zu bytes", set.name.c_str(), L);
    size_t b = drawBlock(s, set), pos = b * n; KNOBS();
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); ts_context *c = (ts_context *)t.ctx->p;
    int reqs = 1 + s.draw(12); std::string list; bool odd = false;
    for (int i = 0; i < reqs; i++) {
        size_t m = drawReq(s, set, L - pos);
        if (s.draw(40) == 39) m = 0xffffffffu - s.draw(3);
        double cost = rangeCost(set, pos, std::min(L, pos + m));
        if (cost > budget) { if (L - pos <= 2 * n && cost < 4 * budget) {} else { size_t k = m; while (k && rangeCost(set, pos, pos + k) > budget) k /= 2; if (!k) break; m = k; } }
        budget -= cost; odd |= m % n != 0; list += fmt(" %zu", m);
        size_t before = pos; request(s, x, c, pos, m);
        if (before == L && m) s.label("request after the end");
        if (m > L - before) s.label("more than remains");
        if (m == 0) s.label("empty request");
        if (budget < 0) break;
    }
    if (odd) s.label("unaligned split");
    s.label(set.name); s.desc("%s from block %zu (%s) requests:%s", set.name.c_str(), b, mpos(set, b * n).c_str(), list.c_str());
    s.nontrivial();
}
PROPERTY(c05_stream, "C05.stream") { auto f = kindSets(true); uint64_t per = s.count / f.size() + 1; streamCase(s, sets[f[s.sweep(s.idx / per, f.size())]], 60000); }
PROPERTY(c05_streamslow, "C05.streamslow") { auto f = kindSets(false); uint64_t per = s.count / f.size() + 1; streamCase(s, sets[f[s.sweep(s.idx / per, f.size())]], 100000); }
// the end of a signature: requests for (much) more than remains, totals that wrap a counter, many requests
PROPERTY(c05_after, "C05.after") {
    auto f = kindSets(true); const Set &set = sets[f[s.sweep(s.idx, f.size())]]; Stream &t = poolStream(set, 0, false); const Sess &x = *t.s; const size_t n = set.n(), L = x.sig.size(), nb = L / n;
    size_t b = s.draw(3) ? nb : nb - 1 - s.draw(4), pos = b * n; memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); ts_context *c = (ts_context *)t.ctx->p; const size_t left = L - pos;
    static const uint64_t U[] = {1, 255, 256, 65535, 65536, 1 << 24, 1u << 31, (1u << 31) - 1, 0xffffffffu}; std::vector<uint64_t> reqs; int style = s.draw(3); std::string d;
    if (style == 0) { size_t k = 1 + s.draw(4); while (k--) reqs.push_back(s.draw(2) ? U[s.draw(9)] : 1 + s.draw(4 * n)); d = "drawn sizes"; }
    else if (style == 1) {          // what remains and a multiple of 2^w, at once or in parts
        int w = 8 << s.draw(3); uint64_t rest = left + (1ull << w) * (1 + s.draw(2)), all = rest; size_t k = 1 + s.draw(3); d = fmt("%llu bytes in all", (unsigned long long)all);
        while (rest) { uint64_t m = reqs.size() + 1 >= k ? rest : 1 + s.draw(std::min<uint64_t>(rest, 0xffffffffu)); if (m > 0xffffffffu) m = 1u << 31; reqs.push_back(m); rest -= m; }
    } else { static const uint32_t K[] = {256, 65536, 300, 2000}; size_t k = K[s.draw(4)] + s.draw(3); uint64_t m = 1 + s.draw(2 * n); reqs.assign(k, m); d = fmt("%zu times %llu bytes", k, (unsigned long long)m); }
    s.label(set.name); s.label(style == 1 ? "wrapping total" : style ? "many requests" : "drawn sizes"); s.desc("%s: %s requested when %zu remain, in %zu requests", set.name.c_str(), d.c_str(), left, reqs.size());
    u8 buf[256];
    for (uint64_t m : reqs) {
        if (style < 2) { request(s, x, c, pos, m); continue; }
        size_t want = std::min<size_t>(m, L - pos); memset(buf, 0xa7, sizeof buf); unsigned got = doSign(buf, m, c); bool clean = true; for (size_t i = want; i < sizeof buf; i++) clean &= buf[i] == 0xa7;
        REQUIRE(got == want && clean && !memcmp(buf, &x.sig[0] + pos, want), "%s: request of %llu bytes when %zu remain returned %u or wrong bytes", set.name.c_str(), (unsigned long long)m, L - pos, got); pos += want;
    }
    s.nontrivial();
}
// whole sessions; message overwritten or unmapped as soon as signing has been started
PROPERTY(c05_whole, "C05.whole") {
    auto f = kindSets(true); const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const Sess &x = poolSess(set, s.draw(2)); const size_t L = x.sig.size();
    KNOBS(); Ctx ctx(s.draw(3) * 300, s.draw(2)); Mem key(x.sk, s.draw(2)); key.readOnly(); Rng g(x.opt); int after = s.draw(3);
    auto *msg = new Mem(x.msg);
    initSign(ctx.c(), msg->p, msg->n, set, key.p, &g);
    if (after == 0) delete msg; else if (after == 1) memset(msg->p, 0xdb, msg->n); else msg->none();
    int style = s.draw(5); size_t pos = 0, fixed = style == 1 ? 1 : style == 2 ? 1 + s.draw(3 * set.n()) : style == 3 ? 1 + s.draw(700) : 0; int reqs = 0;
    s.label(set.name); s.label(after == 0 ? "message released" : after == 1 ? "message overwritten" : "message protected"); s.label(style == 0 ? "random sizes" : style == 4 ? "few pieces" : fixed == 1 ? "one byte at a time" : "fixed size");
    s.desc("%s whole session style %d size %zu", set.name.c_str(), style, fixed);
    while (pos < L && reqs++ < 60000) {
        size_t m = style == 0 ? drawReq(s, set, reqs > 60 ? L - pos : std::min<size_t>(L - pos, 900)) : style == 4 ? s.range(1, L - pos) : fixed;
        if (reqs > 300 && style == 0) m = L - pos;
        if (style == 1 || (style == 2 && fixed < 8)) {      // cheap path: no guard page per byte
            u8 b[16]; memset(b, x.sig[pos] ^ 0xff, 16); size_t w = std::min(m, L - pos); unsigned got = doSign(b, m, ctx.c());
            REQUIRE(got == w && !memcmp(b, &x.sig[pos], w), "%s: request of %zu at %s returned %u or a wrong byte", set.name.c_str(), m, mpos(set, pos).c_str(), got);
            for (size_t i = w; i < 16; i++) REQUIRE(b[i] == (u8)(x.sig[pos] ^ 0xff), "%s: wrote beyond the request at %s", set.name.c_str(), mpos(set, pos).c_str());
            pos += w;
        } else request(s, x, ctx.c(), pos, m);
    }
    for (int i = 0; i < 4; i++) { size_t m = s.draw(5) == 4 ? 0xffffffffu : drawReq(s, set, 3 * set.n()); request(s, x, ctx.c(), pos, m); }
    if (after) delete msg;
    s.nontrivial();
}

// ================================================================== C06
struct VData { Bytes b; bool validSig; std::string kind; };
static VData drawVData(Src &s, const Set &set, const Bytes &sig, int how) {
    VData v; v.b = sig; v.validSig = false; const size_t L = sig.size(), n = set.n();
    switch (how) {
    case 0: v.validSig = true; v.kind = "valid"; break;
    case 1: v.b.resize(s.draw(L)); v.kind = "proper prefix"; break;
    case 2: { size_t x = s.draw(8 * L); v.b[x / 8] ^= 1 << (x % 8); v.kind = "bit flipped"; break; }
    case 3: { size_t x = s.draw(2) ? 1 + s.draw(3 * n) : s.size(2 * L, n); v.b.insert(v.b.end(), sig.begin(), sig.begin() + std::min(x, L)); if (x > L) v.b.resize(L + x); v.kind = "surplus"; break; }
    case 4: { Rand r(s.seed()); v.b.resize(s.size(2 * L, n)); r.fill(v.b.data(), v.b.size()); v.kind = "random bytes"; break; }
    default: { v.b.insert(v.b.end(), sig.begin(), sig.end()); v.kind = "signature twice"; }
    }
    return v;
}
// a crafted valid signature under a pool key, or a session of the library for fast sets
static void validInput(Src &s, const Set &set, Bytes &pk, Bytes &msg, Bytes &sig) {
    if (set.fast() && s.draw(3) == 2) { const Sess &x = poolSess(set, 0); pk = x.pk; msg = x.msg; sig = x.sig; return; }
    const ref::Key &k = poolKey(set, s.draw(2)); msg = s.bytes(s.draw(100)); Rand r(s.seed());
    sig = ref::craft(k, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); pk = k.publicBytes();
}
PROPERTY(c06_feed, "C06.feed") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; Bytes pk, msg, sig; validInput(s, set, pk, msg, sig);
    const size_t n = set.n(), L = sig.size();
    bool base = verifyAll(set, pk.data(), msg, sig);         // the library's own verdict on the whole
    static const int hows[] = {0, 0, 0, 0, 1, 2, 2, 3, 3, 4, 5};
    VData v = drawVData(s, set, sig, hows[s.draw(11)]);
    bool whole = v.validSig ? base : verifyAll(set, pk.data(), msg, v.b);
    KNOBS(); Mem m(msg), pkm(pk); m.readOnly(); pkm.readOnly();
    Ctx ctx(s.draw(3) * 300); initVerify(ctx.c(), m.p, m.n, set, pkm.p);
    int style = s.draw(6); size_t a = 0, fixed = style == 1 ? 1 : style == 2 ? 1 + s.draw(3 * n) : 0, split = style == 3 ? s.draw(v.b.size() + 1) : 0; bool failed = false; int pieces = 0, queries = 0;
    bool query = s.draw(2), prefixOfValid = base && v.b.size() && (v.kind == "valid" || v.kind == "proper prefix" || v.kind == "surplus" || v.kind == "signature twice");
    s.label(set.name); s.label(v.kind); s.desc("%s %s (%zu bytes) style %d", set.name.c_str(), v.kind.c_str(), v.b.size(), style);
    auto one = [&](size_t l) {
        int r;
        if (style == 1) r = updateVerify(&v.b[a], l, ctx.c());
        else { Mem pc(Bytes(v.b.begin() + a, v.b.begin() + a + l), pieces & 1); pc.readOnly(); r = updateVerify(pc.p, l, ctx.c()); }
        a += l; pieces++;
        REQUIRE(r == 0 || r == 1, "update returned %d", r);
        if (prefixOfValid && a < L) REQUIRE(r == 1, "%s: a proper prefix (%zu of %zu bytes) of a valid signature was reported as failure", set.name.c_str(), a, L);
        if (r == 0) failed = true;
        if (query && (pieces % 5 == 1 || a + n > L)) {
            int q = doVerify(ctx.c()); queries++;
            if (a < L) REQUIRE(q == 0, "%s: verdict %d before the end (%zu of %zu bytes)", set.name.c_str(), q, a, L);
            if (failed) REQUIRE(q == 0, "%s: success after a reported failure", set.name.c_str());
            if (a > L) REQUIRE(q == 0, "%s: verdict %d with %zu surplus bytes", set.name.c_str(), q, a - L);
        }
    };
    while (a < v.b.size()) {
        size_t left = v.b.size() - a, l;
        if (pieces > 200 && style != 1) l = left;
        else if (style == 3) l = pieces == 0 ? split : left;
        else if (fixed) l = fixed; else if (style == 0) l = s.range(1, left); else l = std::min(drawReq(s, set, left), left);
        if (l > left) l = left;
        if (l == 0) s.label("empty piece");
        one(l);
    }
    if (s.draw(4) == 3) { one(0); s.label("empty piece"); }
    int q = doVerify(ctx.c());
    REQUIRE(q == (whole ? 1 : 0), "%s: verdict %d when fed in %d pieces, %d when fed at once (%s, %zu bytes)", set.name.c_str(), q, pieces, whole, v.kind.c_str(), v.b.size());
    if (failed) REQUIRE(q == 0, "%s: success after a reported failure", set.name.c_str());
    REQUIRE(doVerify(ctx.c()) == q, "%s: the verdict changed when asked twice", set.name.c_str());
    s.label(pieces > 1 ? "several pieces" : "one piece"); if (queries) s.label("verdict asked on the way"); s.label(q ? "verdict success" : "verdict failure");
    // afterwards
    if (s.draw(2)) {
        bool sticky = failed || q; int rounds = 1 + s.draw(6); size_t fed = 0;
        for (int i = 0; i < rounds; i++) {
            size_t l = s.draw(3) == 0 ? L : std::max<size_t>(1, drawReq(s, set, L)); Bytes more = sig; more.resize(l, 0); if (l > L) std::fill(more.begin() + L, more.end(), 0);
            int r = updateVerify(more.data(), l, ctx.c()); fed += l; if (r == 0) { sticky = true; failed = true; }
            if (sticky) REQUIRE(doVerify(ctx.c()) == 0, "%s: verdict success after %s and %zu further bytes", set.name.c_str(), q ? "success" : "failure", fed);
        }
        if (sticky) s.label(q ? "fed after success" : "fed after failure");
    }
    if (pieces > 1) s.nontrivial();
}
// two pieces, split at every offset in turn
// What follows a finished session, of any size: up to 4 GiB - 1 a piece, totals that wrap a counter, many pieces
PROPERTY(c06_surplus, "C06.surplus") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const size_t n = set.n(), L = set.p->sig(); const ref::Key &key = poolKey(set, 0);
    struct V { Bytes msg, pk, end[2]; }; static std::map<int, V> cache; V &v = cache[set.id]; static u8 *big;
    if (!big) { big = (u8 *)mmap(nullptr, (1ull << 32) + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) { big = nullptr; throw Discard(); } }
    std::vector<uint64_t> cx((A->ctx_size + 7) / 8, 0); ts_context *c = (ts_context *)cx.data();
    if (v.pk.empty()) {
        Rand r(mix(g_run_seed, set.id + 77)); v.msg.resize(20); r.fill(v.msg.data(), 20); Bytes sig = ref::craft(key, v.msg.data(), 20, [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); v.pk = key.publicBytes();
        for (int bad = 0; bad < 2; bad++) { if (bad) sig[L / 2] ^= 4; initVerify(c, v.msg.data(), 20, set, v.pk.data()); updateVerify(sig.data(), L, c); if (doVerify(c) == bad) { v.pk.clear(); throw Discard(); } v.end[bad] = Bytes((u8 *)c, (u8 *)c + A->ctx_size); }
    }
    bool failed = s.draw(4) == 3; memcpy(c, v.end[failed].data(), A->ctx_size);
    static const uint64_t U[] = {1, 2, 255, 256, 65535, 65536, 1 << 24, 1u << 31, (1u << 31) - 1, 0xffffffffu}; std::vector<uint64_t> pieces; int style = s.draw(4); std::string d;
    if (style == 0) { size_t k = 1 + s.draw(5); while (k--) pieces.push_back(s.draw(2) ? U[s.draw(10)] : 1 + s.draw(4 * n)); d = "drawn sizes"; }
    else if (style == 1) {          // a multiple of 2^w in all
        int w = 8 << s.draw(3); if (w == 32 && s.draw(3) == 2) w = 31; uint64_t left = (1ull << w) * (1 + s.draw(3)); d = fmt("%llu bytes in all", (unsigned long long)left); size_t k = 1 + s.draw(4);
        while (left) { uint64_t m = pieces.size() + 1 >= k ? left : s.draw(3) ? 1 + s.draw(left < 0xffffffffu ? left : 0xffffffffu) : std::min<uint64_t>(left, n * (1 + s.draw(8))); if (m > 0xffffffffu) m = s.draw(2) ? 0xffffffffu : 1u << 31; pieces.push_back(m); left -= m; }
    } else { static const uint32_t K[] = {256, 65536, 300, 512, 5000}; size_t k = K[s.draw(5)] + s.draw(3); uint64_t m = style == 2 ? n : 1 + s.draw(3 * n); pieces.assign(k, m); d = fmt("%zu times %llu bytes", k, (unsigned long long)m); }
    s.label(set.name); s.label(failed ? "after a failure" : "after a success"); s.label(style == 1 ? "wrapping total" : style ? "many pieces" : "drawn sizes"); s.desc("%s: %s %s in %zu pieces", set.name.c_str(), d.c_str(), failed ? "after a failure" : "after a success", pieces.size());
    uint64_t total = 0; bool empties = s.draw(3) == 2;
    if (empties) { updateVerify(big, 0, c); int q = doVerify(c); REQUIRE(q == !failed, "%s: an empty piece after the end makes the verdict %d", set.name.c_str(), q); }
    for (uint64_t m : pieces) {
        updateVerify(big, (unsigned)m, c); total += m; if (empties) updateVerify(big, 0, c); int q = doVerify(c);
        REQUIRE(q == 0, "%s: success again after %llu bytes beyond the end of the signature", set.name.c_str(), (unsigned long long)total);
    }
    s.nontrivial();
}
PROPERTY(c06_split, "C06.split") {
    size_t total = 0; for (auto &x : sets) total += x.p->sig();
    size_t pos = s.sweep((s.idx * 2654435761ull) % total, total), k = 0;
    while (pos >= sets[k].p->sig()) pos -= sets[k].p->sig(), k++;
    const Set &set = sets[k]; const ref::Key &key = poolKey(set, 0);
    struct V { Bytes msg, sig, pk; bool ok; }; static std::map<int, V> cache; V &v = cache[set.id];
    if (v.sig.empty()) { Rand r(mix(g_run_seed, set.id)); v.msg.resize(20); r.fill(v.msg.data(), 20); v.sig = ref::craft(key, v.msg.data(), 20, [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); v.pk = key.publicBytes(); v.ok = verifyAll(set, v.pk.data(), v.msg, v.sig); }
    std::vector<uint64_t> cx((A->ctx_size + 7) / 8, 0x0101010101010101ull * s.draw(256)); ts_context *c = (ts_context *)cx.data();
    initVerify(c, v.msg.data(), 20, set, v.pk.data());
    int r1 = updateVerify(v.sig.data(), pos, c), q = doVerify(c), r2 = updateVerify(&v.sig[pos], v.sig.size() - pos, c), e = doVerify(c);
    s.label(set.name); s.desc("%s split at %zu", set.name.c_str(), pos);
    if (v.ok) REQUIRE(r1 == 1 && q == 0 && r2 == 1 && e == 1, "%s: valid signature split at %zu: update %d, early verdict %d, update %d, verdict %d", set.name.c_str(), pos, r1, q, r2, e);
    if (!v.ok) { s.label("whole rejected"); REQUIRE(e == 0, "%s: rejected whole but accepted split at %zu", set.name.c_str(), pos); }
    s.nontrivial();
}

// ================================================================== histories (C07, C08, C09)
struct Slot {                                               // a context and the model of its session
    Ctx *ctx; int kind = 0;                                 // 0 not started, 1 signing, 2 verifying, 3 all zero
    const Sess *x = nullptr; size_t pos = 0; Bytes data; bool valid = false, over = false, failed = false, busy = false;
    Mem *msg = nullptr, *key = nullptr;
    void drop() { delete msg; delete key; msg = key = nullptr; }
};
struct History {
    Src &s; bool check;                                     // check results, or only memory behaviour
    std::vector<Slot> slot; std::vector<const Sess *> sess; double budget; std::string log; int depth = 0; bool misplaced;
    uint64_t done = 0;
    History(Src &s_, bool c, double b, bool mis) : s(s_), check(c), budget(b), misplaced(mis) {}
    ~History() { for (auto &q : slot) { q.drop(); delete q.ctx; } }
#define CHECK(c, ...) do { if (check) REQUIRE(c, __VA_ARGS__); } while (0)
    void startSign(int i, bool reentrant) {
        Slot &q = slot[i]; const Sess *x = s.pick(sess); q.drop();
        q.msg = new Mem(x->msg, s.draw(2)); q.key = new Mem(x->sk, s.draw(2)); q.msg->readOnly(); q.key->readOnly();
        Rng g(x->opt); if (reentrant && depth < 2 && slot.size() > 1) g.hook = [this, i](size_t) { depth++; int k = 1 + s.draw(2); while (k--) other(i); depth--; };
        q.kind = 0; q.busy = true; initSign(q.ctx->c(), q.msg->p, q.msg->n, *x->set, q.key->p, &g); q.busy = false;
        q.kind = 1; q.x = x; q.pos = 0; delete q.msg; q.msg = nullptr;
        log += fmt(" %d:sign(%s%s)", i, x->set->name.c_str(), reentrant ? ",reentrant" : "");
    }
    void startVerify(int i) {
        Slot &q = slot[i]; const Sess *x = s.pick(sess); q.drop();
        q.msg = new Mem(x->msg, s.draw(2)); q.key = new Mem(x->pk, s.draw(2)); q.msg->readOnly(); q.key->readOnly();
        q.data = x->sig; q.valid = true; if (s.draw(3) == 2 && !q.data.empty()) { size_t b = s.draw(8 * q.data.size()); q.data[b / 8] ^= 1 << (b % 8); q.valid = false; }
        initVerify(q.ctx->c(), q.msg->p, q.msg->n, *x->set, q.key->p);
        q.kind = 2; q.x = x; q.pos = 0; q.failed = q.over = false;
        log += fmt(" %d:verify(%s%s)", i, x->set->name.c_str(), q.valid ? "" : ",corrupt");
    }
    void take(int i, bool toEnd = false) {
        Slot &q = slot[i]; const Set &set = *q.x->set; const size_t L = q.x->sig.size(); if (!L) return;
        size_t m = toEnd ? L - q.pos + s.draw(3) : drawReq(s, set, L - q.pos);
        double c = rangeCost(set, q.pos, std::min(L, q.pos + m));
        while (m && c > budget) { m /= 2; c = rangeCost(set, q.pos, std::min(L, q.pos + m)); }
        budget -= c; size_t want = std::min(m, L - q.pos); Mem d(m, s.draw(2), 0x77); unsigned got = doSign(d.p, m, q.ctx->c());
        CHECK(got == want, "slot %d (%s): request of %zu at offset %zu returned %u, alone it returns %zu | %s", i, set.name.c_str(), m, q.pos, got, want, log.c_str());
        size_t df = firstDiff(d.p, q.x->sig.data() + q.pos, want);
        CHECK(df == want, "slot %d: signature of %s differs from the one made alone at %s | %s", i, set.name.c_str(), mpos(set, q.pos + df).c_str(), log.c_str());
        q.pos += want; if (q.pos == L && want) done++; log += fmt(" %d:take(%zu)", i, m);
    }
    void feed(int i, bool toEnd = false) {
        Slot &q = slot[i]; const size_t L = q.data.size(); size_t left = q.pos < L ? L - q.pos : 0, m = toEnd ? left : drawReq(s, *q.x->set, left);
        if (!toEnd && m > left && s.draw(3)) m = left;
        budget -= m / 4.0; Bytes b(m); for (size_t k = 0; k < m; k++) b[k] = q.pos + k < L ? q.data[q.pos + k] : (u8)k;
        Mem d(b, s.draw(2)); d.readOnly(); int r = updateVerify(d.p, m, q.ctx->c());
        q.pos += m; if (q.pos > L) q.over = true;
        CHECK(!(q.valid && q.pos < L && r != 1), "slot %d (%s): a good prefix of %zu bytes reported as failure | %s", i, q.x->set->name.c_str(), q.pos, log.c_str());
        CHECK(!(q.valid && q.pos == L && !q.over && m && r != 1), "slot %d (%s): completing piece of a valid signature reported as failure | %s", i, q.x->set->name.c_str(), log.c_str());
        if (r == 0) q.failed = true;
        if (q.pos == L && m) done++;
        log += fmt(" %d:feed(%zu)", i, m);
    }
    void verdict(int i) {
        Slot &q = slot[i]; int v = doVerify(q.ctx->c()), want = q.valid && q.pos == q.data.size() && !q.over;
        CHECK(v == want, "slot %d (%s): verdict %d, alone it is %d (%zu of %zu bytes fed) | %s", i, q.x->set->name.c_str(), v, want, q.pos, q.data.size(), log.c_str());
        log += fmt(" %d:verdict", i);
    }
    void keygen(bool reentrant, int i) {
        const Sess *x = s.pick(sess); const Set &set = *x->set; const int n = set.n(); double c = 16.0 * set.p->len() * (1 << set.p->hp);
        if (c > budget) return;
        budget -= c; Mem sk(4 * n, s.draw(2), 0x99), pk(2 * n, s.draw(2), 0x99); bool pub = s.draw(2);
        Rng g(Bytes(x->sk.begin(), x->sk.begin() + 3 * n)); if (reentrant && depth < 2) g.hook = [this, i](size_t) { depth++; other(i); depth--; };
        int r = genKey(sk.p, pub ? pk.p : nullptr, set, &g);
        CHECK(r == 1 && sk.bytes() == x->sk && (!pub || pk.bytes() == x->pk), "key generation of %s gave another key than alone | %s", set.name.c_str(), log.c_str());
        log += fmt(" keygen(%s)", set.name.c_str());
    }
    void scribble(int i) {
        Slot &q = slot[i]; int how = s.draw(5);
        if (how == 0) { q.ctx->writable(); memset(q.ctx->p, 0, q.ctx->n); } else if (how == 1) memset(q.ctx->p, 0xff, q.ctx->n);
        else if (how == 2) { Rand r(s.seed()); r.fill(q.ctx->p, q.ctx->n); }
        else if (how == 3) memcpy(q.ctx->p, slot[s.draw(slot.size())].ctx->p, q.ctx->n);
        else memset(q.ctx->p, 1, q.ctx->n);
        q.kind = how == 0 ? 3 : 0; log += fmt(" %d:scribble%d", i, how);
        if (how == 3) q.kind = 0;
    }
    // calls in the wrong phase: refused, and nothing written
    void wrong(int i) {
        Slot &q = slot[i]; if (q.kind == 0) return;
        int op = q.kind == 1 ? 1 + s.draw(2) : q.kind == 2 ? 0 : s.draw(3);
        size_t m = q.x ? drawReq(s, *q.x->set, 100) : s.draw(80);
        if (op == 0) {
            Mem d(m, s.draw(2), 0x3d); unsigned r = doSign(d.p, m, q.ctx->c());
            CHECK(r == 0, "asking %zu signature bytes from a context %s returned %u | %s", m, q.kind == 2 ? "set up for verification" : "never started (all zero)", r, log.c_str());
            for (size_t k = 0; k < m; k++) CHECK(d.p[k] == 0x3d, "a refused signature request wrote to the caller's buffer | %s", log.c_str());
        } else if (op == 1) {
            Bytes b = randBytes(s, m); if (q.x && m <= q.x->sig.size() && s.draw(2)) b.assign(q.x->sig.begin(), q.x->sig.begin() + m);
            Mem d(b, s.draw(2)); d.readOnly(); int r = updateVerify(d.p, m, q.ctx->c());
            CHECK(r == 0, "feeding %zu bytes to a context %s returned %d | %s", m, q.kind == 1 ? "set up for signing" : "never started (all zero)", r, log.c_str());
        } else {
            int r = doVerify(q.ctx->c());
            CHECK(r == 0, "the verdict of a context %s is %d | %s", q.kind == 1 ? "set up for signing" : "never started (all zero)", r, log.c_str());
        }
        log += fmt(" %d:wrong%d(%zu)", i, op, m); s.label(fmt("misplaced %s on %s", op == 0 ? "sign" : op == 1 ? "feed" : "verdict", q.kind == 1 ? "signing" : q.kind == 2 ? "verifying" : "zero"));
    }
    void other(int not_) {                                   // a step on any slot but one
        int i = s.draw(slot.size()); if (i == not_) i = (i + 1) % slot.size();
        if (i == not_ || slot[i].busy) return;              // a context whose start is still under way is left alone
        step(i);
    }
    void step(int i) {
        Slot &q = slot[i]; uint64_t r = s.draw(20);
        if (misplaced && s.draw(3) == 0) { wrong(i); return; }
        if (r == 19) { keygen(s.draw(2), i); return; }
        if (r == 18) { scribble(i); return; }
        if (q.kind == 0 || q.kind == 3 || r == 17) { if (s.draw(2)) startVerify(i); else startSign(i, s.draw(3) == 2); s.label(q.kind ? "restart" : "start"); return; }
        if (q.kind == 1) take(i); else if (r < 4) verdict(i); else feed(i);
    }
    void finish() {
        for (size_t i = 0; i < slot.size(); i++) {
            if (slot[i].kind == 2) { if (slot[i].pos < slot[i].data.size()) feed(i, true); verdict(i); }
            else if (slot[i].kind == 1 && slot[i].x->set->fast()) { for (int k = 0; k < 3 && slot[i].pos < slot[i].x->sig.size(); k++) take(i, true); }
        }
    }
};
static void runHistory(Src &s, bool check, bool misplaced, int nslots, int steps, double budget, const std::vector<int> &choose) {
    KNOBS(); History h(s, check, budget, misplaced);
    int kinds = 1 + s.draw(3); std::string names;
    for (int k = 0; k < kinds; k++) { const Set &set = sets[choose[s.draw(choose.size())]]; h.sess.push_back(&poolSess(set, s.draw(2))); names += " " + set.name; s.label(set.name); }
    for (int i = 0; i < nslots; i++) { Slot q; int g = s.draw(4); q.ctx = new Ctx(g == 0 ? 0 : g == 1 ? 0xff : g == 2 ? 1 : 1000 + (int)s.draw(1000), s.draw(2)); q.kind = g == 0 ? 3 : 0; h.slot.push_back(q); }
    for (int i = 0; i < steps; i++) { h.step(s.draw(nslots)); if (h.budget < 0) break; }
    h.finish();
    s.desc("sessions of%s:%s", names.c_str(), h.log.substr(0, 700).c_str());
    if (h.done) s.label("a session completed");
    s.nontrivial();
}
static std::vector<int> historySets(uint64_t group) {       // rotates: fast sets mostly, so that pooled sessions stay cheap
    auto f = kindSets(true); if (f.empty()) { f.resize(sets.size()); for (size_t i = 0; i < sets.size(); i++) f[i] = i; }
    (void)group; return f;
}
PROPERTY(c07_history, "C07.history") { runHistory(s, true, false, 2 + s.draw(3), 5 + s.draw(60), 60000, historySets(0)); }
PROPERTY(c08_history, "C08.history") { runHistory(s, true, true, 1 + s.draw(2), 5 + s.draw(50), 40000, historySets(0)); }
PROPERTY(c09_history, "C09.history") { runHistory(s, false, s.draw(2), 1 + s.draw(3), 5 + s.draw(50), opt.asan ? 15000 : 40000, historySets(0)); }

// ================================================================== C07: the harness owns the schedule
struct Job { int kind; const Sess *x; bool ok = false; std::string why; size_t limit = ~(size_t)0; };
static void runJob(Job &j) {
    const Set &set = *j.x->set; const int n = set.n(); std::vector<uint64_t> cx((A->ctx_size + 7) / 8, 0xabababababababab); ts_context *c = (ts_context *)cx.data();
    if (j.kind == 0) {
        Bytes sk(4 * n), pk(2 * n); Rng g(Bytes(j.x->sk.begin(), j.x->sk.begin() + 3 * n)); int r = genKey(sk.data(), pk.data(), set, &g);
        j.ok = r == 1 && sk == j.x->sk && pk == j.x->pk; j.why = "key generation of " + set.name + " gave another key than alone";
    } else if (j.kind == 1) {
        Rng g(j.x->opt); Bytes out(std::min(j.limit, j.x->sig.size())); initSign(c, j.x->msg.data(), j.x->msg.size(), set, j.x->sk.data(), &g);
        size_t a = 0; while (a < out.size()) { unsigned m = std::min<size_t>(997, out.size() - a); unsigned got = doSign(&out[a], m, c); if (got != m) break; a += m; }
        size_t d = firstDiff(out.data(), j.x->sig.data(), out.size()); j.ok = d == out.size(); j.why = "signature of " + set.name + " differs from the one made alone at " + mpos(set, d);
    } else {
        Bytes sig = j.x->sig; if (j.kind == 3) sig[sig.size() / 3] ^= 4;
        initVerify(c, j.x->msg.data(), j.x->msg.size(), set, j.x->pk.data());
        size_t a = 0; while (a < sig.size()) { unsigned m = std::min<size_t>(1009, sig.size() - a); updateVerify(&sig[a], m, c); a += m; }
        int v = doVerify(c); j.ok = v == (j.kind == 2); j.why = fmt("verdict on a %s signature of %s is %d", j.kind == 2 ? "valid" : "corrupted", set.name.c_str(), v);
    }
}
static const char *JOB[] = {"keygen", "sign", "verify", "verify-corrupt"};
struct Fiber { ucontext_t uc; void *stack; Job *job; bool done; int poison; Rng *rng; };
static std::vector<Fiber> *fibers; static size_t curFiber; static ucontext_t mainCtx; static int64_t slice = -1; static Rand sched(0); static uint64_t maxSlice, switches, switchCap;
static void yieldFiber() {
    size_t from = curFiber, k = from, live = 0;
    for (auto &f : *fibers) live += !f.done;
    slice = 1 + sched.next() % maxSlice;
    if (live <= 1 && !(*fibers)[from].done) return;
    size_t hop = 1 + sched.next() % (live ? live : 1);
    while (hop--) do k = (k + 1) % fibers->size(); while ((*fibers)[k].done);
    if (k == from) return;
    if (++switches > switchCap) slice = 1ll << 40;
    (*fibers)[from].poison = g_poison; (*fibers)[from].rng = g_rng; curFiber = k; g_poison = (*fibers)[k].poison; g_rng = (*fibers)[k].rng;
    int64_t sl = slice; slice = -1; slice = sl;
    swapcontext(&(*fibers)[from].uc, &(*fibers)[k].uc);
}
uint64_t g_blocks;
bool g_tracing; uint64_t g_traceHash, g_traceLen; std::vector<uint64_t> *g_traceLog;     // C20
static inline __attribute__((always_inline)) void traceEvent(uint64_t v) { g_traceHash = (g_traceHash ^ v) * 0x9e3779b97f4a7c15ULL; g_traceHash ^= g_traceHash >> 29; g_traceLen++; if (g_traceLog) g_traceLog->push_back(v); }
#define VT_ACCESS(name) extern "C" void __sanitizer_cov_##name(void *a) { if (g_tracing) { traceEvent((uint64_t)__builtin_return_address(0)); traceEvent((uint64_t)a); } }
VT_ACCESS(load1) VT_ACCESS(load2) VT_ACCESS(load4) VT_ACCESS(load8) VT_ACCESS(load16) VT_ACCESS(store1) VT_ACCESS(store2) VT_ACCESS(store4) VT_ACCESS(store8) VT_ACCESS(store16)
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc(void) { if (g_tracing) traceEvent((uint64_t)__builtin_return_address(0)); g_blocks++; if (slice > 0 && --slice == 0) yieldFiber(); }
static void fiberMain(unsigned i) {
    runJob(*(*fibers)[i].job); (*fibers)[i].done = true;
    size_t k = i, n = fibers->size(); do k = (k + 1) % n; while ((*fibers)[k].done && k != i);
    if (k == i) { slice = -1; setcontext(&mainCtx); }
    curFiber = k; g_poison = (*fibers)[k].poison; g_rng = (*fibers)[k].rng; slice = 1 + sched.next() % maxSlice; setcontext(&(*fibers)[k].uc);
}
static void runFibers(std::vector<Job> &jobs) {
    int nj = jobs.size();
    std::vector<Fiber> fb(nj); const size_t SS = 512 << 10;
    for (int i = 0; i < nj; i++) {
        fb[i].stack = mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); fb[i].job = &jobs[i]; fb[i].done = false; fb[i].poison = -1; fb[i].rng = nullptr;
        getcontext(&fb[i].uc); fb[i].uc.uc_stack.ss_sp = fb[i].stack; fb[i].uc.uc_stack.ss_size = SS; fb[i].uc.uc_link = nullptr; makecontext(&fb[i].uc, (void (*)())fiberMain, 1, i);
    }
    fibers = &fb; curFiber = 0; slice = 1 + sched.next() % maxSlice; g_poison = -1;
    swapcontext(&mainCtx, &fb[0].uc); slice = -1;
    for (auto &x : fb) munmap(x.stack, SS);
}
PROPERTY(c07_schedule, "C07.schedule") {
    auto f = historySets(0); int nj = 2 + s.draw(2); std::vector<Job> jobs(nj); std::string d;
    for (auto &j : jobs) {
        j.kind = s.draw(4); const Set &set = sets[f[s.draw(f.size())]]; j.x = &poolSess(set, s.draw(2)); d += fmt(" %s(%s)", JOB[j.kind], set.name.c_str()); s.label(std::string("job ") + JOB[j.kind]);
    }
    static const uint64_t ms[] = {40, 300, 3000, 30000, 300000}; maxSlice = ms[s.draw(5)]; sched = Rand(s.seed()); switches = 0; switchCap = ~0ull;
    runFibers(jobs);
    s.desc("interleaved:%s, %llu switches, slices up to %llu basic blocks", d.c_str(), (unsigned long long)switches, (unsigned long long)maxSlice);
    for (auto &j : jobs) REQUIRE(j.ok, "%s when interleaved with:%s", j.why.c_str(), d.c_str());
    s.label(switches > 1000 ? "> 1000 switches" : switches > 10 ? "> 10 switches" : "few switches");
    if (switches) s.nontrivial();
}
static void *threadMain(void *p) { auto *v = (std::vector<Job> *)p; for (auto &j : *v) runJob(j); return nullptr; }
PROPERTY(c07_threads, "C07.threads") {
    s.cpu(400);
    auto f = historySets(0); int nt = 2 + s.draw(5); std::vector<std::vector<Job>> w(nt); std::string d;
    for (auto &v : w) { int k = 1 + s.draw(3); for (int i = 0; i < k; i++) { Job j; j.kind = s.draw(4); const Set &set = sets[f[s.draw(f.size())]]; j.x = &poolSess(set, s.draw(2)); v.push_back(j); d += fmt(" %s(%s)", JOB[j.kind], set.name.c_str()); } d += " |"; }
    std::vector<pthread_t> th(nt); for (int i = 0; i < nt; i++) if (pthread_create(&th[i], nullptr, threadMain, &w[i])) throw Discard();
    for (auto &t : th) pthread_join(t, nullptr);
    s.desc("threads:%s", d.c_str()); s.label(fmt("%d threads", nt)); s.nontrivial();
    for (auto &v : w) for (auto &j : v) REQUIRE(j.ok, "%s on one of %d threads:%s", j.why.c_str(), nt, d.c_str());
}

// ------------------------------------------------------------------ the package as it is before its first call
// a fresh instance of the library (own copy of all its static data); the expected results come from the pool, made
// with the other instance
#include <dlfcn.h>
#include <unistd.h>
struct Fresh {
    const vt_api *oldA; std::vector<const ts_parameter_set *> old; void *h = nullptr; int fd = -1;
    Fresh() {
        static Bytes image; if (image.empty()) { FILE *f = fopen(g_libPath.c_str(), "rb"); if (!f) throw Discard(); u8 b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) image.insert(image.end(), b, b + n); fclose(f); }
        fd = memfd_create("fresh", 0); if (fd < 0) throw Discard();
        for (size_t o = 0; o < image.size();) { ssize_t w = write(fd, &image[o], image.size() - o); if (w <= 0) { close(fd); throw Discard(); } o += w; }
        std::string path = fmt("/proc/self/fd/%d", fd);
        h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h || h == g_libHandle) { close(fd); throw Discard(); }
        auto get = (const vt_api *(*)(void))dlsym(h, "vt_get_api"); oldA = A; A = get(); if (A == oldA) failf("internal: the fresh instance is the old one");
        for (auto &q : sets) { old.push_back(q.ps); for (unsigned i = 0; i < A->nsets; i++) if (q.name == A->sets[i].name) q.ps = A->sets[i].ps; }
    }
    ~Fresh() { A = oldA; for (size_t i = 0; i < sets.size(); i++) sets[i].ps = old[i]; if (h) dlclose(h); if (fd >= 0) close(fd); }
};
static std::vector<Job> freshJobs(Src &s, int nj, std::string &d) {
    auto f = historySets(0); std::vector<Job> jobs(nj); int same = s.draw(4), set0 = f[s.draw(f.size())], kind0 = s.draw(4);
    for (auto &j : jobs) {
        j.kind = same & 1 ? kind0 : s.draw(4); const Set &set = sets[same & 2 ? f[s.draw(f.size())] : set0]; j.x = &poolSess(set, s.draw(2)); d += fmt(" %s(%s)", JOB[j.kind], set.name.c_str()); s.label(std::string("job ") + JOB[j.kind]);
        static const int part[] = {3, 40, 200, 1 << 20}; j.limit = (size_t)part[s.draw(4)] * set.n();
    }
    return jobs;
}
PROPERTY(c07_first, "C07.first") {                           // interleaved, as the first calls ever made
    std::string d; int nj = 2 + s.draw(2); auto jobs = freshJobs(s, nj, d);
    static const uint64_t ms[] = {10, 40, 150, 600, 3000, 30000, 1ull << 40}; maxSlice = ms[s.draw(7)]; sched = Rand(s.seed()); switches = 0; switchCap = 4000;
    { Fresh fr; runFibers(jobs); }
    s.desc("first calls, interleaved:%s, %llu switches, slices up to %llu basic blocks", d.c_str(), (unsigned long long)switches, (unsigned long long)maxSlice);
    for (auto &j : jobs) REQUIRE(j.ok, "%s when interleaved, as the first calls made, with:%s", j.why.c_str(), d.c_str());
    s.label(switches > 1000 ? "> 1000 switches" : switches > 10 ? "> 10 switches" : "few switches"); s.nontrivial();
}
struct Gate { std::vector<Job> *v; pthread_barrier_t *b; };
static void *gateMain(void *p) { auto *g = (Gate *)p; pthread_barrier_wait(g->b); for (auto &j : *g->v) runJob(j); return nullptr; }
PROPERTY(c07_firstthreads, "C07.firstthreads") {
    s.cpu(400); int nt = 2 + s.draw(5); std::vector<std::vector<Job>> w(nt); std::string d; for (auto &v : w) { v = freshJobs(s, 1, d); d += " |"; }
    pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nt); std::vector<Gate> g(nt); std::vector<pthread_t> th(nt);
    { Fresh fr; for (int i = 0; i < nt; i++) { g[i] = {&w[i], &bar}; if (pthread_create(&th[i], nullptr, gateMain, &g[i])) { perror("pthread_create"); _exit(12); } } for (auto &t : th) pthread_join(t, nullptr); }
    pthread_barrier_destroy(&bar); s.desc("first calls, threads:%s", d.c_str()); s.label(fmt("%d threads", nt)); s.nontrivial();
    for (auto &v : w) for (auto &j : v) REQUIRE(j.ok, "%s on one of %d threads, as the first calls made:%s", j.why.c_str(), nt, d.c_str());
}
// a history in a fresh instance
PROPERTY(c07_firsthistory, "C07.firsthistory") {
    for (int i : historySets(0)) for (int k = 0; k < 2; k++) poolSess(sets[i], k);
    Fresh fr; runHistory(s, true, false, 1 + s.draw(3), 2 + s.draw(30), 40000, historySets(0));
}

// ================================================================== C08 beyond histories
// misplaced calls inside a signing session, at any position of any set
static void c08sign(Src &s, const Set &set, double budget) {
    Stream &t = poolStream(set, 0, false); const Sess &x = *t.s; const size_t n = set.n(), L = x.sig.size();
    size_t b = drawBlock(s, set), pos = b * n; KNOBS();
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); ts_context *c = (ts_context *)t.ctx->p; int bad = 0; std::string log;
    for (int i = 0, steps = 2 + s.draw(10); i < steps; i++) {
        if (s.draw(2)) {
            size_t m = drawReq(s, set, L - pos); double cost = rangeCost(set, pos, std::min(L, pos + m)); if (cost > budget) continue; budget -= cost;
            size_t w = std::min(m, L - pos); Bytes d(m + 1, 0x3d); unsigned got = doSign(d.data(), m, c);
            REQUIRE(got == w && !memcmp(d.data(), x.sig.data() + pos, w), "%s: after %d misplaced calls the signature differs from the undisturbed one (request %zu at %s) |%s", set.name.c_str(), bad, m, mpos(set, pos).c_str(), log.c_str());
            pos += w; log += fmt(" take(%zu)", m); continue;
        }
        bad++;
        if (s.draw(3) == 2) { int v = doVerify(c); REQUIRE(v == 0, "%s: verdict %d on a signing context at %s", set.name.c_str(), v, mpos(set, pos).c_str()); log += " verdict"; }
        else {
            size_t m = drawReq(s, set, L); Bytes bb = x.sig; bb.resize(std::max(m, L), 0); Mem d(Bytes(bb.begin(), bb.begin() + m), s.draw(2)); d.readOnly(); int r = updateVerify(d.p, m, c);
            REQUIRE(r == 0, "%s: feeding %zu bytes to a signing context at %s returned %d", set.name.c_str(), m, mpos(set, pos).c_str(), r); log += fmt(" feed(%zu)", m);
        }
    }
    // the block after must still be right
    if (pos < L && blockCost(set, pos / n) + blockCost(set, pos / n + 1) < budget + 50000) {
        size_t m = std::min(2 * n, L - pos); Bytes d(m); unsigned got = doSign(d.data(), m, c);
        REQUIRE(got == m && !memcmp(d.data(), x.sig.data() + pos, m), "%s: after %d misplaced calls the signature differs from the undisturbed one at %s |%s", set.name.c_str(), bad, mpos(set, pos).c_str(), log.c_str());
    }
    s.label(set.name); s.desc("%s from block %zu:%s", set.name.c_str(), b, log.c_str()); if (bad) s.nontrivial();
    if (pos == L) s.label("at the end of the signature");
}
PROPERTY(c08_sign, "C08.sign") { auto f = kindSets(true); uint64_t per = s.count / f.size() + 1; c08sign(s, sets[f[s.sweep(s.idx / per, f.size())]], 40000); }
PROPERTY(c08_signslow, "C08.signslow") { auto f = kindSets(false); uint64_t per = s.count / f.size() + 1; c08sign(s, sets[f[s.sweep(s.idx / per, f.size())]], 60000); }
PROPERTY(c08_verify, "C08.verify") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; Bytes pk, msg, sig; validInput(s, set, pk, msg, sig); const size_t L = sig.size();
    int corrupt = s.draw(3); if (corrupt == 2) { size_t b = s.draw(8 * L); sig[b / 8] ^= 1 << (b % 8); }
    bool whole = verifyAll(set, pk.data(), msg, sig); KNOBS();
    Ctx ctx(s.draw(3) * 300); initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); size_t a = 0; int bad = 0, pieces = 0; std::string log;
    auto mis = [&] {
        size_t m = drawReq(s, set, 200); if (s.draw(30) == 29) m = 100000; Mem d(m, s.draw(2), 0x3d); unsigned r = doSign(d.p, m, ctx.c()); bad++;
        REQUIRE(r == 0, "%s: a verification context (%zu bytes fed) delivered %u signature bytes", set.name.c_str(), a, r);
        for (size_t i = 0; i < m; i++) REQUIRE(d.p[i] == 0x3d, "%s: a refused signature request wrote to the caller's buffer", set.name.c_str());
        log += fmt(" sign(%zu)", m);
    };
    if (s.draw(2)) mis();
    while (a < L) {
        size_t l = pieces++ > 30 ? L - a : std::min(L - a, drawReq(s, set, L - a)); updateVerify(&sig[a], l, ctx.c()); a += l; log += fmt(" feed(%zu)", l);
        if (s.draw(2)) mis();
    }
    mis();
    int v = doVerify(ctx.c());
    REQUIRE(v == (int)whole, "%s: verdict %d after %d misplaced calls, %d without them |%s", set.name.c_str(), v, bad, whole, log.c_str());
    mis(); REQUIRE(doVerify(ctx.c()) == v, "%s: the verdict changed after a misplaced call", set.name.c_str());
    s.label(set.name); s.label(whole ? "valid" : "corrupted"); s.desc("%s verify:%s", set.name.c_str(), log.c_str()); s.nontrivial();
}
PROPERTY(c08_zero, "C08.zero") {
    KNOBS(); Ctx ctx(0, s.draw(2)); int calls = 1 + s.draw(6); std::string log;
    for (int i = 0; i < calls; i++) {
        size_t m = s.draw(3) ? s.draw(100) : s.draw(2) ? 0 : s.draw(60000);
        switch (s.draw(3)) {
        case 0: { log += fmt(" sign(%zu)", m); s.desc(" sign(%zu)", m); Mem d(m, s.draw(2), 0x3d); unsigned r = doSign(d.p, m, ctx.c()); REQUIRE(r == 0, "a never started (all zero) context delivered %u signature bytes", r); for (size_t k = 0; k < m; k++) REQUIRE(d.p[k] == 0x3d, "a refused signature request wrote to the caller's buffer"); s.label("sign"); break; }
        case 1: { log += fmt(" feed(%zu)", m); s.desc(" feed(%zu)", m); Mem d(randBytes(s, m), s.draw(2)); d.readOnly(); int r = updateVerify(d.p, m, ctx.c()); REQUIRE(r == 0, "a never started (all zero) context accepted %zu bytes (returned %d)", m, r); s.label("feed"); break; }
        default: { log += " verdict"; s.desc(" verdict"); int v = doVerify(ctx.c()); REQUIRE(v == 0, "verdict %d on a never started (all zero) context", v); s.label("verdict"); }
        }
    }
    // and it can still be started and used normally
    if (s.draw(4) == 0) {
        const Set &set = sets[s.draw(sets.size())]; const ref::Key &k = poolKey(set, 0); Bytes msg = s.bytes(s.draw(50)), pk = k.publicBytes(); Rand r(s.seed());
        Bytes sig = ref::craft(k, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); bool whole = verifyAll(set, pk.data(), msg, sig);
        initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); updateVerify(sig.data(), sig.size(), ctx.c());
        REQUIRE(doVerify(ctx.c()) == (int)whole, "%s: session started after refused calls gives another verdict", set.name.c_str()); s.label("started afterwards");
    }
    s.nontrivial();
}

// ================================================================== C09 beyond histories
// untrusted input of any content and length to a verification session, exact extents
PROPERTY(c09_untrusted, "C09.untrusted") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const size_t n = set.n(), L = set.p->sig(); KNOBS();
    Mem pk(s.bytes(2 * n), s.draw(2)), msg(s.bytes(s.size(600, 64)), s.draw(2)); pk.readOnly(); msg.readOnly(); Bytes pk0 = pk.bytes(), m0 = msg.bytes();
    Ctx ctx(s.draw(4) * 300, s.draw(2)); initVerify(ctx.c(), msg.p, msg.n, set, pk.p); size_t fed = 0, total = s.draw(4) ? L : s.size(2 * L, n); int kind = s.draw(4); uint64_t seed = s.seed(); Rand r(seed);
    int pieces = 0;
    while (fed < total) {
        size_t l = pieces++ > 20 ? total - fed : std::min(drawReq(s, set, total - fed), total - fed); Bytes b(l); if (kind == 0) r.fill(b.data(), l); else memset(b.data(), kind == 1 ? 0 : kind == 2 ? 0xff : (int)(seed & 255), l);
        Mem pc(b, s.draw(2)); pc.readOnly(); updateVerify(pc.p, l, ctx.c()); fed += l;
        REQUIRE(pc.bytes() == b, "the fed bytes were modified");
    }
    doVerify(ctx.c()); REQUIRE(pk.bytes() == pk0 && msg.bytes() == m0, "%s: public key or message modified", set.name.c_str());
    s.label(set.name); s.desc("%s untrusted %zu bytes in %d pieces, message %zu", set.name.c_str(), total, pieces, msg.n); s.nontrivial();
}
// key generation and (the affordable part of) signing with exact extents at any alignment
static void c09sign(Src &s, const Set &set, double budget) {
    const size_t n = set.n(), L = set.p->sig(); KNOBS();
    Bytes keyb = s.bytes(4 * n); Mem key(keyb, s.draw(2)), msg(s.bytes(s.size(2000, 64)), s.draw(2)); key.readOnly(); msg.readOnly(); Bytes m0 = msg.bytes();
    Ctx ctx(s.draw(4) * 300, s.draw(2)); Rng g(s.bytes(n)); initSign(ctx.c(), msg.p, msg.n, set, key.p, s.draw(2) ? &g : nullptr);
    size_t pos = 0; int reqs = 0;
    while (pos < L + 3 * n && reqs++ < 40) {
        size_t m = drawReq(s, set, pos < L ? L - pos : 0); double c = rangeCost(set, pos, std::min(L, pos + m)); while (m && c > budget) { m /= 2; c = rangeCost(set, pos, std::min(L, pos + m)); }
        if (!m && budget < 2000) break;
        budget -= c; Mem d(m, s.draw(2), 0x6b); unsigned got = doSign(d.p, m, ctx.c()); pos += got; if (pos >= L) pos += m ? m : 1;
    }
    REQUIRE(key.bytes() == keyb && msg.bytes() == m0, "%s: private key or message modified by signing", set.name.c_str());
    s.label(set.name); s.desc("%s signing, %zu bytes in %d requests, message %zu", set.name.c_str(), pos, reqs, msg.n); if (pos >= L) s.label("whole signature"); s.nontrivial();
}
PROPERTY(c09_sign, "C09.sign") { const Set &set = sets[s.sweep(s.idx, sets.size())]; c09sign(s, set, set.fast() && s.draw(3) == 0 ? 1e9 : set.fast() ? 20000 : 60000); }
PROPERTY(c09_whole, "C09.whole") { s.cpu(600); const Set &set = sets[s.sweep(s.idx, sets.size())]; c09sign(s, set, 1e12); }
PROPERTY(c09_keygen, "C09.keygen") {
    s.cpu(400); const Set &set = sets[s.sweep(s.idx, sets.size())]; const size_t n = set.n(); KNOBS();
    Mem sk(4 * n, s.draw(2), s.draw(256)), pk(2 * n, s.draw(2), 7); Rng g(s.bytes(3 * n)); bool pub = s.draw(2); int rc = genKey(sk.p, pub ? pk.p : nullptr, set, &g); (void)rc;
    s.label(set.name); s.desc("%s keygen public=%d", set.name.c_str(), pub); s.nontrivial();
}
PROPERTY(c09_hash, "C09.hash") {
    bool big = s.draw(2); const vt_sha &h = big ? A->sha512 : A->sha256; KNOBS();
    int which = s.draw(3);
    if (which == 2 ? !A->shake256.init : !h.init) { s.desc("the hash functions are not there under their names"); return; }
    if (which == 2) {
        Mem c(A->shake256.ctx_size, Mem::ALIGNED, s.draw(256)); A->shake256.init(c.p);
        for (int i = 0, k = s.draw(6); i < k; i++) { Mem m(s.bytes(s.size(500, 136)), s.draw(2)); m.readOnly(); A->shake256.absorb(c.p, m.p, m.n); }
        A->shake256.finalize(c.p); for (int i = 0, k = s.draw(6); i < k; i++) { Mem o(s.size(500, 136), s.draw(2)); A->shake256.squeeze(o.p, o.n, c.p); }
        s.label("shake"); s.nontrivial(); return;
    }
    Mem c(h.ctx_size, Mem::ALIGNED, s.draw(256)); h.init(c.p);
    for (int i = 0, k = s.draw(6); i < k; i++) { Mem m(s.bytes(s.size(600, h.block)), s.draw(2)); m.readOnly(); h.update(c.p, m.p, m.n); }
    unsigned w = h.digest / 8, t = w * s.range(0, 8); Mem o(s.draw(2) ? t : h.digest, s.draw(2)); if (o.n == h.digest && s.draw(2)) h.final(o.p, c.p); else h.final_trunc(o.p, c.p, o.n);
    s.label(big ? "sha512" : "sha256"); s.nontrivial();
}
