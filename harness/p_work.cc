// C18: work.  The library is built so that every basic block it executes is counted (deterministic, unlike time).
#include "lib.h"
#include <stdlib.h>

extern uint64_t g_blocks;                     // p_session.cc
template <class F> static uint64_t work(F f) { uint64_t b = g_blocks; f(); return g_blocks - b; }
// What one call may cost beyond the hashing it has to do, in basic blocks (one SHA-256 compression is over 150, one Keccak permutation over 300)
static const uint64_t PER_CALL = 120;

static size_t drawPiece(Src &s, size_t n, size_t left) {
    switch (s.draw(7)) {
    case 0: return 1;
    case 1: return 0;
    case 2: return n;
    case 3: return 1 + s.draw(n - 1);
    case 4: return n + s.draw(3 * n);
    case 5: return s.size(left, n);
    default: return left;
    }
}
// pieces that make up exactly 'total' bytes
static std::vector<size_t> drawPieces(Src &s, size_t n, size_t total) {
    std::vector<size_t> v; size_t pos = 0; int style = s.draw(4); size_t k = style == 1 ? 1 : style == 2 ? 1 + s.draw(n) : n;
    while (pos < total && v.size() < 200000) {
        size_t m = style ? k : v.size() < 150 ? drawPiece(s, n, total - pos) : total - pos;
        if (m > total - pos) m = total - pos;
        v.push_back(m); pos += m;
    }
    return v;
}
static uint64_t slackFor(uint64_t whole, size_t calls, size_t bytes) { return whole / 100 + PER_CALL * (calls + 1) + bytes * 2; }
static void compare(const std::string &what, uint64_t whole, uint64_t parts, size_t calls, size_t bytes) {
    REQUIRE(parts <= whole + slackFor(whole, calls, bytes), "%s: %zu calls for %zu bytes cost %llu basic blocks, one call for the same bytes %llu", what.c_str(), calls, bytes, (unsigned long long)parts, (unsigned long long)whole);
    REQUIRE(whole <= parts + slackFor(parts, calls, bytes), "%s: one call for %zu bytes costs %llu basic blocks, %zu calls for the same bytes %llu", what.c_str(), bytes, (unsigned long long)whole, calls, (unsigned long long)parts);
}
static std::vector<int> fastSets() { std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i); if (f.empty()) throw Discard(); return f; }
static size_t drawStart(Src &s, const Set &set) {
    const ref::Params &p = *set.p; size_t nb = p.sig() / p.n, fb = 1 + p.k * (p.a + 1), lb = p.len() + p.hp; int64_t b;
    switch (s.draw(3)) {
    case 0: b = 1 + (int64_t)s.draw(p.k) * (p.a + 1) - s.draw(2); break;
    case 1: b = fb + (int64_t)s.draw(p.d) * lb + (s.draw(2) ? p.len() : 0) - s.draw(3); break;
    default: b = s.draw(nb);
    }
    return b < 0 ? 0 : b >= (int64_t)nb ? nb - 1 : b;
}
PROPERTY(c18_sign, "C18.sign") {
    auto f = fastSets(); const Set &set = sets[f[s.sweep(s.idx / (s.count / f.size() + 1), f.size())]]; const size_t n = set.n();
    Stream &t = poolStream(set, 0, false); const size_t L = t.s->sig.size(); ts_context *c = (ts_context *)t.ctx->p;
    size_t b = drawStart(s, set), total = 1 + s.draw(std::min<size_t>(L - b * n, n * (1 + s.draw(60))));
    auto pieces = drawPieces(s, n, total); Bytes out(total + 1);
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); uint64_t whole = work([&] { doSign(out.data(), total, c); });
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); uint64_t parts = 0; size_t pos = 0;
    for (size_t m : pieces) { parts += work([&] { doSign(out.data() + pos, m, c); }); pos += m; }
    s.label(set.name); s.label(pieces.size() > 20 ? "> 20 requests" : "few requests"); s.desc("%s: %zu bytes from %s in %zu requests: %llu blocks, at once %llu", set.name.c_str(), total, mpos(set, b * n).c_str(), pieces.size(), (unsigned long long)parts, (unsigned long long)whole);
    compare(set.name + " signing from " + mpos(set, b * n), whole, parts, pieces.size(), total);
    if (pieces.size() > 1) s.nontrivial();
}
PROPERTY(c18_verify, "C18.verify") {
    auto f = fastSets(); const Set &set = sets[f[s.sweep(s.idx / (s.count / f.size() + 1), f.size())]]; const size_t n = set.n();
    Stream &t = poolStream(set, 0, true); const Bytes &sig = t.s->sig; ts_context *c = (ts_context *)t.ctx->p;
    size_t b = drawStart(s, set), total = 1 + s.draw(std::min<size_t>(sig.size() - b * n, n * (1 + s.draw(s.draw(2) ? 60 : 600))));
    Bytes in(sig.begin() + b * n, sig.begin() + b * n + total); int kind = s.draw(3);
    if (kind == 1) in[s.draw(total)] ^= 1 << s.draw(8); else if (kind == 2) s.content(in.data(), total);
    auto pieces = drawPieces(s, n, total);
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); uint64_t whole = work([&] { updateVerify(in.data(), total, c); });
    memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size()); uint64_t parts = 0; size_t pos = 0;
    for (size_t m : pieces) { parts += work([&] { updateVerify(in.data() + pos, m, c); }); pos += m; }
    s.label(set.name); s.label(kind ? "altered bytes" : "valid bytes"); s.desc("%s: %zu bytes fed from %s in %zu pieces: %llu blocks, at once %llu", set.name.c_str(), total, mpos(set, b * n).c_str(), pieces.size(), (unsigned long long)parts, (unsigned long long)whole);
    compare(set.name + " verification from " + mpos(set, b * n), whole, parts, pieces.size(), total);
    if (pieces.size() > 1) s.nontrivial();
}
// whole verifications, all sets
PROPERTY(c18_feed, "C18.feed") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const size_t n = set.n(), L = set.p->sig(); const ref::Key &key = poolKey(set, s.draw(2)); Bytes msg = randBytes(s, s.draw(300)), pk = key.publicBytes(); Rand r(s.seed());
    Bytes sig = ref::craft(key, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt()); if (s.draw(3) == 2) sig[s.draw(L)] ^= 1 << s.draw(8);
    auto pieces = drawPieces(s, n, L); Ctx ctx(0x3d); bool ask = s.draw(2);
    uint64_t whole = work([&] { initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); updateVerify(sig.data(), L, ctx.c()); doVerify(ctx.c()); }), parts = 0; size_t pos = 0;
    parts += work([&] { initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); });
    for (size_t m : pieces) { parts += work([&] { updateVerify(&sig[pos], m, ctx.c()); if (ask) doVerify(ctx.c()); }); pos += m; }
    parts += work([&] { doVerify(ctx.c()); });
    s.label(set.name); s.desc("%s: whole signature fed in %zu pieces%s: %llu blocks, at once %llu", set.name.c_str(), pieces.size(), ask ? ", verdict asked after each" : "", (unsigned long long)parts, (unsigned long long)whole);
    compare(set.name + " verification", whole, parts, pieces.size() * (1 + ask), L);
    if (pieces.size() > 1) s.nontrivial();
}
// verification of bytes chosen by anybody
PROPERTY(c18_untrusted, "C18.untrusted") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const size_t n = set.n(), L = set.p->sig(); s.label(set.name);
    static std::map<int, uint64_t> base;                // the dearest of some random byte strings of the right length
    const ref::Key &key = poolKey(set, 0); Bytes pk = key.publicBytes(), msg = randBytes(s, 40), sig(L); Ctx ctx(0x77); 
    auto feed = [&](const Bytes &b, size_t len) { return work([&] { initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); updateVerify(b.data(), len, ctx.c()); doVerify(ctx.c()); }); };
    if (!base.count(set.id)) { uint64_t w = 0; for (int i = 0; i < 6; i++) { Rand r(i + 1); r.fill(sig.data(), L); w = std::max(w, feed(sig, L)); } base[set.id] = w; }
    int kind = s.draw(4); Bytes in(L); Rand r(s.seed()); r.fill(in.data(), L);
    if (kind == 0) s.content(in.data(), L);
    else if (kind == 1) for (size_t o = 0; o < L; o += n) { int q = r.next() % 4; if (q < 2) memset(&in[o], q ? 0xff : 0, n); }
    else if (kind == 2) in = ref::craft(key, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt());
    size_t extra = kind == 3 ? 1 + s.draw(4000) : 0; in.resize(L + extra);
    uint64_t w = feed(in, in.size());
    s.label(kind == 0 ? "patterned" : kind == 1 ? "constant blocks" : kind == 2 ? "valid" : "overlong"); s.desc("%s: %zu bytes cost %llu blocks, random ones %llu", set.name.c_str(), in.size(), (unsigned long long)w, (unsigned long long)base[set.id]);
    REQUIRE(w <= base[set.id] + base[set.id] * 3 / 10 + 4 * extra, "%s: verifying these %zu bytes costs %llu basic blocks, random ones cost %llu", set.name.c_str(), in.size(), (unsigned long long)w, (unsigned long long)base[set.id]);
    // whatever comes after the end costs nothing
    size_t more = 1 + s.draw(100000); Bytes junk(more, 0x33); uint64_t after = 0; int calls = 1 + s.draw(4);
    if (extra == 0) updateVerify(junk.data(), 1 + s.draw(n), ctx.c());
    for (int i = 0; i < calls; i++) after += work([&] { updateVerify(junk.data(), more, ctx.c()); doVerify(ctx.c()); });
    REQUIRE(after <= 2 * PER_CALL * calls, "%s: %d pieces of %zu bytes after the end of the signature cost %llu basic blocks", set.name.c_str(), calls, more, (unsigned long long)after);
    s.nontrivial();
}
// calls that have nothing to do
PROPERTY(c18_idle, "C18.idle") {
    auto f = fastSets(); const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const size_t n = set.n(); s.label(set.name);
    bool verify = s.draw(2); Stream &t = poolStream(set, 0, verify); ts_context *c = (ts_context *)t.ctx->p; const size_t nb = t.snap.size() - 1;
    size_t b = s.draw(4) == 3 ? nb : drawStart(s, set); memcpy(t.ctx->p, t.snap[b].data(), t.snap[b].size());
    size_t part = b < nb && s.draw(2) ? 1 + s.draw(n - 1) : 0; Bytes buf(1 << 16);
    if (part) { if (verify) updateVerify(&t.s->sig[b * n], part, c); else doSign(buf.data(), part, c); }
    int calls = 1 + s.draw(8); uint64_t w = 0; std::string what;
    for (int i = 0; i < calls; i++) {
        unsigned m = s.draw(3) ? s.draw(buf.size()) : 0; int k = s.draw(3);
        if (k == 0) w += work([&] { doVerify(c); });
        else if (k == 1) w += work([&] { if (verify) doSign(buf.data(), m, c); else updateVerify(buf.data(), m, c); });      // the other role
        else w += work([&] { if (b == nb && !part) { if (!verify) doSign(buf.data(), m, c); } else if (verify) updateVerify(buf.data(), 0, c); else doSign(buf.data(), 0, c); });
    }
    s.label(verify ? "verification" : "signing"); s.label(b == nb ? "after the end" : part ? "inside a block" : "between blocks"); s.desc("%s %s at block %zu+%zu: %d calls with nothing to do cost %llu blocks", set.name.c_str(), verify ? "verification" : "signing", b, part, calls, (unsigned long long)w);
    REQUIRE(w <= PER_CALL * calls, "%s: %d calls that have nothing to do cost %llu basic blocks (%s session at %s)", set.name.c_str(), calls, (unsigned long long)w, verify ? "verification" : "signing", mpos(set, b * n + part).c_str());
    s.nontrivial();
}
// whole operations against each other: the numbers of hashes the specification needs have known ratios
PROPERTY(c18_total, "C18.total") {
    auto f = fastSets(); const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const ref::Params &p = *set.p; const int n = p.n; const size_t L = p.sig(); s.label(set.name);
    static std::map<int, double> base;          // blocks per hash of a WOTS+ chain, from verifications of random bytes
    const ref::Key &key = poolKey(set, s.draw(2)); Bytes sk = key.secretBytes(), pk = key.publicBytes(), out(L + 64); Ctx ctx(0x5c);
    const double T = p.len() * n / 64.0, F = p.k * n / 64.0;          // the two many-input hashes, in about the same unit
    if (!base.count(set.id)) {
        double w = 0; for (int i = 0; i < 8; i++) { Bytes in(L); Rand r(i + 1); r.fill(in.data(), L); w += work([&] { initVerify(ctx.c(), "abc", 3, set, pk.data()); updateVerify(in.data(), L, ctx.c()); }); }
        base[set.id] = w / 8 / (p.k * (1 + p.a) + F + p.d * (p.len() * 7.5 + p.hp + T));
    }
    double tree = (double)(1 << p.hp) * (p.len() * 16.0 + T + 1), sign = p.k * (3.0 * (1 << p.a)) + F + p.d * (tree + p.len() * 8.5);
    bool gen = s.draw(2); Rng g(randBytes(s, 3 * n)); Bytes msg = randBytes(s, s.draw(200)); bool opt = s.draw(2);
    uint64_t w = gen ? work([&] { Bytes k(4 * n), q(2 * n); genKey(k.data(), q.data(), set, &g); }) : work([&] { initSign(ctx.c(), msg.data(), msg.size(), set, sk.data(), opt ? &g : nullptr); doSign(out.data(), L, ctx.c()); });
    double r = w / base[set.id] / (gen ? tree : sign); s.label(gen ? "key generation" : "signature"); s.desc("%s: %s costs %.3f of what the cost of verification predicts", set.name.c_str(), gen ? "key generation" : "signing", r);
    REQUIRE(r < 1.25, "%s: %s costs %.2f times what the hashes it needs cost in verification", set.name.c_str(), gen ? "key generation" : "signing", r);
    s.nontrivial();
}
// the message: hashed twice by the signer and once by the verifier, in proportion to its length
PROPERTY(c18_message, "C18.message") {
    if (!A->sha256.init || !A->shake256.init) { s.desc("the hash functions are not there under their names"); return; }
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); s.label(set.name); const ref::Key &key = poolKey(set, 0); Bytes sk = key.secretBytes(), pk = key.publicBytes(), R(n);
    Bytes msg(s.draw(3) ? 1 + s.draw(20000) : 1 + s.draw(300000), 0x41); Ctx ctx(0); bool verify = s.draw(2);
    auto run = [&](size_t len) { return work([&] { if (verify) { initVerify(ctx.c(), msg.data(), len, set, pk.data()); updateVerify(R.data(), n, ctx.c()); } else initSign(ctx.c(), msg.data(), len, set, sk.data(), nullptr); }); };
    std::vector<uint64_t> hc(512);                                      // the same bytes through the hash itself
    uint64_t h = work([&] {
        if (!set.p->sha2) { A->shake256.init(hc.data()); A->shake256.absorb(hc.data(), msg.data(), msg.size()); }
        else { const vt_sha &x = n == 16 ? A->sha256 : A->sha512; x.init(hc.data()); x.update(hc.data(), msg.data(), msg.size()); }
    });
    uint64_t w0 = run(0), w = run(msg.size()); double limit = w0 + w0 * 0.1 + h * (verify ? 1.2 : 2.4) + 4000;
    s.label(verify ? "verification" : "signing"); s.desc("%s %s: a message of %zu bytes costs %llu blocks, hashing it %llu", set.name.c_str(), verify ? "verification" : "signing", msg.size(), (unsigned long long)(w - w0), (unsigned long long)h);
    REQUIRE(w <= limit, "%s: %s a message of %zu bytes costs %llu basic blocks, an empty one %llu, hashing those bytes once %llu", set.name.c_str(), verify ? "verifying" : "signing", msg.size(), (unsigned long long)w, (unsigned long long)w0, (unsigned long long)h);
    s.nontrivial();
}
