// C11, C14, C15, C16: configurations, randomness, sizes, one-time keys.
#include "lib.h"
#include <sys/mman.h>

static std::vector<int> kinds(bool fast) { std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast() == fast) f.push_back(i); return f; }
// the first 'want' bytes of a signature (0: all of it), in one request, with a fresh context
static Bytes signPart(const Set &set, const u8 *sk, const Bytes &msg, Rng *r, size_t want, int garbage = 0) {
    Mem ctx(A->ctx_size, Mem::END, garbage); if (!want) want = set.p->sig();
    initSign((ts_context *)ctx.p, msg.data(), msg.size(), set, sk, r); Bytes o(want); unsigned got = doSign(o.data(), want, (ts_context *)ctx.p); o.resize(std::min<size_t>(got, want)); return o;
}
// bytes of the signature whose production is affordable: R, the first FORS trees; for fast sets perhaps all
static size_t affordable(Src &s, const Set &set) {
    if (set.fast()) { switch (s.draw(4)) { case 0: return set.p->sig(); case 1: return set.n() * (1 + set.p->k * (set.p->a + 1) + 5); default: return set.n() * (1 + 2 * (set.p->a + 1)); } }
    return set.n() * (1 + (s.draw(3) ? 1 : s.draw(set.p->a) + 1));
}

// ================================================================== C11
static const Set *other(const Set &s) { for (auto &x : sets2) if (x.id == s.id) return &x; return nullptr; }
struct UseLib {                                             // run something with the second library
    const vt_api *keep; explicit UseLib(const vt_api *a) : keep(A) { A = a; }
    ~UseLib() { A = keep; }
};
PROPERTY(c11_offer, "C11.offer") {
    size_t i = s.sweep(s.idx % sets.size(), sets.size()); const Set &set = sets[i]; s.desc("%s", set.name.c_str()); s.label(set.name); s.nontrivial();
    REQUIRE(set.ps, "configuration %s: the settings enable %s but the library does not contain it", opt.cfg.c_str(), set.name.c_str());
    REQUIRE(other(set), "internal: baseline lacks %s", set.name.c_str());
}
// one case is one operation in this configuration and in the baseline
PROPERTY(c11_same, "C11.same") {
    const Set &set = sets[s.sweep(s.idx % sets.size(), sets.size())]; const Set *b = other(set); if (!b) throw Discard();
    const int n = set.n(); KNOBS(); s.label(set.name); int op = s.sweep(s.idx / sets.size() % 5, 5);
    s.nontrivial();
    if (op <= 1) {                                           // verdicts: a valid and an altered signature
        const ref::Key &k = poolKey(set, 0); Bytes msg = s.bytes(s.draw(300)), pk = k.publicBytes(); Rand r(s.seed());
        Bytes sig = ref::craft(k, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, ref::CraftOpt());
        for (int alter = 0; alter < 2; alter++) {
            if (alter) { size_t x = s.draw(8 * sig.size()); sig[x / 8] ^= 1 << (x % 8); if (s.draw(5) == 4) sig.push_back(0); }
            bool v2; { UseLib u(A2); v2 = verifyAll(*b, pk.data(), msg, sig); }
            Mem ctx(A->ctx_size, 0, s.draw(3) * 300), m(msg), p(pk), g(sig); ts_context *c = (ts_context *)ctx.p; initVerify(c, m.p, m.n, set, p.p);
            size_t a = 0; while (a < g.n) { size_t l = s.draw(2) ? g.n - a : s.size(g.n - a, n); updateVerify(g.p + a, l, c); a += l; }
            int v = doVerify(c); s.label(v2 ? "verdict success" : "verdict failure");
            REQUIRE(v == (int)v2, "configuration %s: verdict of %s on a%s signature is %d, %d with all sets enabled", opt.cfg.c_str(), set.name.c_str(), alter ? "n altered" : " valid", v, v2);
        }
        s.desc("verify %s", set.name.c_str()); return;
    }
    if (op == 2 && set.p->hp <= 4) {                         // keys
        Bytes seed = s.bytes(3 * n); Mem sk(4 * n), pk(2 * n); Rng g(seed); int r = genKey(sk.p, pk.p, set, &g); Bytes sk2(4 * n), pk2(2 * n); int r2;
        { UseLib u(A2); Rng g2(seed); r2 = genKey(sk2.data(), pk2.data(), *b, &g2); }
        REQUIRE(r == r2 && sk.bytes() == sk2 && pk.bytes() == pk2, "configuration %s: key generation of %s differs from the one with all sets enabled", opt.cfg.c_str(), set.name.c_str());
        s.desc("keygen %s", set.name.c_str()); s.label("keygen"); return;
    }
    Bytes sk = s.bytes(4 * n), msg = s.bytes(s.draw(400)), o = s.bytes(n); bool useOpt = s.draw(2); bool whole = op == 3 && set.fast() && s.draw(2);
    size_t want = whole ? set.p->sig() : set.n() * (size_t)(1 + (set.fast() ? (s.draw(3) ? 2 : set.p->k) * (set.p->a + 1) + 2 : 1 + s.draw(set.p->a - 3)));
    if (op == 2) { want = set.n() * (size_t)(1 + set.p->a + 1); }
    Mem key(sk), m(msg); Rng g(o); Mem ctx(A->ctx_size, 0, s.draw(3) * 300), out(want); ts_context *c = (ts_context *)ctx.p;
    initSign(c, m.p, m.n, set, key.p, useOpt ? &g : nullptr); size_t a = 0; while (a < want) { size_t l = s.draw(2) ? want - a : s.size(want - a, n); unsigned got = doSign(out.p + a, l, c); if (got != l) break; a += l; }
    Bytes w; { UseLib u(A2); Rng g2(o); w = signPart(*b, sk.data(), msg, useOpt ? &g2 : nullptr, want); }
    size_t d = firstDiff(out.p, w.data(), std::min(w.size(), want));
    REQUIRE(a == want && w.size() == want && d == want, "configuration %s: signature of %s differs from the one with all sets enabled at %s", opt.cfg.c_str(), set.name.c_str(), mpos(set, d).c_str());
    s.desc("sign %s, first %zu bytes", set.name.c_str(), want); s.label(whole ? "whole signature" : "start of a signature");
}
// a whole signature or key of one set (also the slow ones)
PROPERTY(c11_whole, "C11.whole") {
    s.cpu(850); const Set &set = sets[s.sweep(s.idx % sets.size(), sets.size())]; const Set *b = other(set); if (!b) throw Discard();
    const int n = set.n(); Bytes seed = s.bytes(3 * n), o = s.bytes(n), msg = s.bytes(s.draw(100)); Bytes sk(4 * n), pk(2 * n), sk2(4 * n), pk2(2 * n), g2;
    Rng r(seed); genKey(sk.data(), pk.data(), set, &r); Rng ro(o); Bytes sig = signPart(set, sk.data(), msg, &ro, 0);
    { UseLib u(A2); Rng q(seed); genKey(sk2.data(), pk2.data(), *b, &q); Rng qo(o); g2 = signPart(*b, sk2.data(), msg, &qo, 0); }
    s.label(set.name); s.desc("key and signature of %s", set.name.c_str()); s.nontrivial();
    REQUIRE(sk == sk2 && pk == pk2, "configuration %s: key of %s differs from the one with all sets enabled", opt.cfg.c_str(), set.name.c_str());
    size_t d = firstDiff(sig.data(), g2.data(), std::min(sig.size(), g2.size()));
    REQUIRE(sig == g2, "configuration %s: signature of %s differs from the one with all sets enabled at %s", opt.cfg.c_str(), set.name.c_str(), mpos(set, d).c_str());
    REQUIRE(verifyAll(set, pk.data(), msg, sig), "configuration %s: own signature of %s rejected", opt.cfg.c_str(), set.name.c_str());
}

// ================================================================== C14
PROPERTY(c14_keygen, "C14.keygenfail") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); Mem sk(4 * n, s.draw(2), 0x5a), pk(2 * n, s.draw(2), 0x5a); bool pub = s.draw(2); KNOBS(); s.label(set.name);
    int kind = s.draw(6); Rng g(s.bytes(3 * n)); int rc;
    switch (kind) {
    case 0: case 1: case 2: {
        g.failCall = 0; g.failFills = s.draw(2); rc = genKey(sk.p, pub ? pk.p : nullptr, set, &g); s.desc("%s random source fails (%s)", set.name.c_str(), g.failFills ? "after filling the buffer" : "buffer untouched");
        REQUIRE(rc == 0, "%s: key generation returned %d although the random source failed", set.name.c_str(), rc); s.label(g.failFills ? "failure after fill" : "failure, no fill"); break; }
    case 3: rc = genKey(sk.p, pub ? pk.p : nullptr, set, nullptr); s.desc("%s no random source", set.name.c_str()); REQUIRE(rc == 0, "%s: key generation without a random source returned %d", set.name.c_str(), rc); s.label("no random source"); break;
    case 4: rc = genKey(nullptr, pub ? pk.p : nullptr, set, &g); s.desc("%s no private key buffer", set.name.c_str()); REQUIRE(rc == 0, "%s: key generation without a private key buffer returned %d", set.name.c_str(), rc); s.label("no private key buffer"); break;
    default: { Set none = set; none.ps = nullptr; rc = genKey(sk.p, pub ? pk.p : nullptr, none, &g); s.desc("no parameter set"); REQUIRE(rc == 0, "key generation without a parameter set returned %d", rc); s.label("no parameter set"); }
    }
    s.nontrivial();
}
// a random source that serves its k-th call and fails later: still a failure if the package asks again
PROPERTY(c14_latefail, "C14.latefail") {
    auto f = kinds(true); if (f.empty()) throw Discard();
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const int n = set.n(); Mem sk(4 * n, 0, 0), pk(2 * n, 0, 0); Rng g(s.bytes(3 * n)); g.failCall = 1 + s.draw(3); int rc = genKey(sk.p, s.draw(2) ? pk.p : nullptr, set, &g);
    REQUIRE(g.calls > g.failCall ? rc == 0 : rc == 1, "%s: key generation returned %d, call %d of %d to the random source failed", set.name.c_str(), rc, g.failCall + 1, g.calls);
    REQUIRE(g.taken <= (size_t)3 * n, "%s: key generation took %zu random bytes", set.name.c_str(), g.taken); s.label(set.name); s.desc("%s fails at call %d, %d calls made", set.name.c_str(), g.failCall + 1, g.calls); s.nontrivial();
}
PROPERTY(c14_sign, "C14.signfail") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); Bytes sk = s.bytes(4 * n), msg = s.bytes(s.size(500, 64)); size_t want = affordable(s, set); KNOBS();
    Rng g(s.bytes(n)); g.failCall = 0; g.failFills = s.draw(2); Bytes def = signPart(set, sk.data(), msg, nullptr, want, s.draw(3) * 300), got = signPart(set, sk.data(), msg, &g, want, s.draw(3) * 300);
    size_t d = firstDiff(def.data(), got.data(), std::min(def.size(), got.size())); s.label(set.name); s.label(g.failFills ? "failure after fill" : "failure, no fill"); s.desc("%s first %zu bytes, failing source", set.name.c_str(), want);
    REQUIRE(def == got, "%s: signing with a failing random source (%s) differs from the default deterministic signature at %s", set.name.c_str(), g.failFills ? "buffer filled" : "buffer untouched", mpos(set, d).c_str());
    // the default is OptRand = PK.seed
    Rng q(Bytes(sk.begin() + 2 * n, sk.begin() + 3 * n)); Bytes same = signPart(set, sk.data(), msg, &q, n); REQUIRE(!memcmp(same.data(), def.data(), n), "%s: the default signature is not the one for OptRand = PK.seed", set.name.c_str());
    s.nontrivial();
}
// nothing but the documented inputs matters
PROPERTY(c14_pure, "C14.pure") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const int n = set.n(); bool key = set.fast() ? s.draw(2) : s.draw(8) == 7 && set.p->sha2 && set.p->hp == 8; s.label(set.name); s.nontrivial();
    static const int pois[] = {-1, 0, 0xff, 0xa5, 300, 1};
    if (key) {
        Bytes seed = s.bytes(3 * n); g_poison = pois[s.draw(6)]; Mem sk(4 * n, s.draw(2), s.draw(256)), pk(2 * n, s.draw(2), s.draw(256)); Bytes tail = s.bytes(64); Bytes st = seed; st.insert(st.end(), tail.begin(), tail.end()); Rng g(st);
        int r1 = genKey(sk.p, pk.p, set, &g); REQUIRE(g.taken == (size_t)3 * n, "%s: key generation took %zu random bytes, not %d", set.name.c_str(), g.taken, 3 * n);
        g_poison = pois[s.draw(6)]; Mem sk2(4 * n, s.draw(2), s.draw(256)); Bytes st2 = seed; for (auto c : tail) st2.push_back(c ^ 0xff); Rng g2(st2); int r2 = genKey(sk2.p, nullptr, set, &g2);
        REQUIRE(r1 == r2 && sk.bytes() == sk2.bytes(), "%s: the same %d random bytes gave different keys", set.name.c_str(), 3 * n);
        REQUIRE(!memcmp(sk.p, seed.data(), 3 * n), "%s: the key's seeds are not the random bytes supplied", set.name.c_str());
        s.label("keygen"); s.desc("keygen %s twice", set.name.c_str()); return;
    }
    Bytes sk = s.bytes(4 * n), msg = s.bytes(s.size(600, 64)), o = s.bytes(n); size_t want = affordable(s, set); bool use = s.draw(4) != 0;
    auto once = [&](Bytes optTail) { g_poison = pois[s.draw(6)]; Bytes st = o; st.insert(st.end(), optTail.begin(), optTail.end()); Rng g(st); Mem k(sk, s.draw(2)), m(msg, s.draw(2)); Bytes r = signPart(set, k.p, m.bytes(), use ? &g : nullptr, want, s.draw(4) * 200); REQUIRE(g.taken <= (size_t)n, "%s: signing took %zu random bytes, more than N=%d", set.name.c_str(), g.taken, n); return r; };
    Bytes a = once(s.bytes(40)), b = once(s.bytes(40)); size_t d = firstDiff(a.data(), b.data(), std::min(a.size(), b.size()));
    REQUIRE(a == b, "%s: repeating a signature with the same inputs gave a different byte at %s", set.name.c_str(), mpos(set, d).c_str());
    // every OptRand bit takes part
    if (use) { size_t bit = s.draw(8 * n); o[bit / 8] ^= 1 << (bit % 8); Bytes keep = a; size_t w = want; want = n; Bytes c = once(s.bytes(4)); want = w; REQUIRE(memcmp(c.data(), a.data(), n), "%s: OptRand bit %zu does not influence the signature", set.name.c_str(), bit); s.label("OptRand bit flipped"); }
    s.label("sign"); s.desc("sign %s twice, first %zu bytes", set.name.c_str(), want);
}

// ================================================================== C15
struct SizeRow { const char *name; unsigned sk, pk, sig; };
static const SizeRow SIZES[] = {                              // SPHINCS+ round 3.1, table 3 (= FIPS 205, table 2)
    {"sha2_128f", 64, 32, 17088}, {"sha2_128s", 64, 32, 7856}, {"sha2_192f", 96, 48, 35664}, {"sha2_192s", 96, 48, 16224}, {"sha2_256f", 128, 64, 49856}, {"sha2_256s", 128, 64, 29792},
    {"shake_128f", 64, 32, 17088}, {"shake_128s", 64, 32, 7856}, {"shake_192f", 96, 48, 35664}, {"shake_192s", 96, 48, 16224}, {"shake_256f", 128, 64, 49856}, {"shake_256s", 128, 64, 29792}};
static const SizeRow &row(const Set &s) { for (auto &r : SIZES) if (s.name == r.name) return r; failf("internal: %s", s.name.c_str()); }
// the sizes of a set, after any history of other queries
PROPERTY(c15_table, "C15.table") {
    int before = s.draw(12); std::string log; KNOBS();
    auto ask = [&](const Set &set, int which) {
        const SizeRow &r = row(set); unsigned want = which == 0 ? r.sk : which == 1 ? r.pk : r.sig, got = (which == 0 ? A->size_private_key : which == 1 ? A->size_public_key : A->size_signature)(set.ps); const char *nm[] = {"private key", "public key", "signature"};
        log += fmt(" %s:%s", set.name.c_str(), nm[which]); REQUIRE(got == want, "%s: %s size %u, specification %u | queries:%s", set.name.c_str(), nm[which], got, want, log.c_str());
    };
    for (int i = 0; i < before; i++) { int k = s.draw(sets.size() + 2), w = s.draw(3); if (k < (int)sets.size()) ask(sets[k], w); else if (k == (int)sets.size()) { for (auto &q : sets) ask(q, w); } else { const Set &q = sets[s.draw(sets.size())]; Ctx c(300); Bytes pk = s.bytes(2 * q.n()); initVerify(c.c(), pk.data(), 3, q, pk.data()); log += " session:" + q.name; } }
    const Set &set = sets[s.sweep(s.idx, sets.size())]; int o = s.draw(6); static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int k : ord[o]) ask(set, k);
    s.label(set.name); if (before) s.label("after other queries"); s.desc("sizes:%s", log.c_str()); s.nontrivial();
}
PROPERTY(c15_keys, "C15.keys") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const SizeRow &r = row(set); Bytes seed = randBytes(s, 3 * set.n()); bool pub = s.draw(2); KNOBS(); s.label(set.name); s.desc("%s key extents, public=%d", set.name.c_str(), pub);
    // every byte is written (two prefills give the same content), none beyond
    Bytes got[2], gpk[2];
    for (int i = 0; i < 2; i++) {
        u8 fill = i ? 0xff : 0x00; Bytes a(r.sk + 64, fill), b(r.pk + 64, fill); Rng g(seed); int rc = genKey(a.data() + 32, pub ? b.data() + 32 : nullptr, set, &g); if (rc != 1) { s.label("key generation failed"); return; }
        for (unsigned k = 0; k < 32; k++) { REQUIRE(a[k] == fill && a[32 + r.sk + k] == fill, "%s: key generation wrote outside the %u bytes of the private key", set.name.c_str(), r.sk); REQUIRE(b[k] == fill && b[32 + r.pk + k] == fill, "%s: key generation wrote outside the %u bytes of the public key", set.name.c_str(), r.pk); }
        got[i].assign(a.begin() + 32, a.begin() + 32 + r.sk); gpk[i].assign(b.begin() + 32, b.begin() + 32 + r.pk);
        if (!set.fast()) { Mem sk(r.sk), pk(r.pk); break; }
    }
    if (!got[1].empty()) {
        REQUIRE(got[0] == got[1], "%s: key generation left byte %zu of the private key unwritten", set.name.c_str(), firstDiff(got[0].data(), got[1].data(), r.sk));
        if (pub) REQUIRE(gpk[0] == gpk[1], "%s: key generation left byte %zu of the public key unwritten", set.name.c_str(), firstDiff(gpk[0].data(), gpk[1].data(), r.pk));
    }
    s.nontrivial();
}
static void deliver(Src &s, const Set &set) {
    const SizeRow &r = row(set); const int n = set.n(); Bytes sk = randBytes(s, 4 * n), msg = s.bytes(s.draw(100)); KNOBS(); Ctx ctx(s.draw(3) * 300); initSign(ctx.c(), msg.data(), msg.size(), set, sk.data(), nullptr);
    size_t total = 0; int style = s.draw(6), calls = 0; size_t fixed = 1 + (style == 1 ? 0 : style == 2 ? s.draw(3 * n) : s.draw(3000)); u8 *big = nullptr; size_t bigN = 0xffffffffu; std::string d;
    if (style == 5) { big = (u8 *)mmap(nullptr, bigN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) throw Discard(); }
    std::vector<u8> buf(70000);
    while (calls++ < 60000) {
        size_t m = style == 0 ? r.sig + s.draw(100) : style <= 3 ? fixed : style == 4 ? s.size(r.sig, n) : bigN; if (m == 0) { REQUIRE(doSign(buf.data(), 0, ctx.c()) == 0, "%s: empty request delivered bytes", set.name.c_str()); continue; }
        unsigned got = doSign(big ? big : buf.data(), std::min<size_t>(m, big ? bigN : buf.size()), ctx.c());
        REQUIRE(got <= m, "%s: %u bytes delivered for a request of %zu", set.name.c_str(), got, m); total += got; REQUIRE(total <= r.sig, "%s: more than %u signature bytes delivered", set.name.c_str(), r.sig);
        if (got < m) break;
    }
    if (big) munmap(big, bigN);
    REQUIRE(total == r.sig, "%s: %zu signature bytes delivered, reported size %u (style %d)", set.name.c_str(), total, r.sig, style);
    for (int i = 0; i < 3; i++) { unsigned m = s.draw(3) ? 1 + s.draw(100) : 60000; REQUIRE(doSign(buf.data(), m, ctx.c()) == 0, "%s: further bytes delivered after the signature's end", set.name.c_str()); }
    s.label(set.name); s.label(fmt("request style %d", style)); s.desc("%s delivery style %d size %zu", set.name.c_str(), style, fixed); s.nontrivial();
}
PROPERTY(c15_deliver, "C15.deliver") { auto f = kinds(true); if (f.empty()) throw Discard(); deliver(s, sets[f[s.sweep(s.idx, f.size())]]); }
PROPERTY(c15_deliverslow, "C15.deliverslow") { auto f = kinds(false); if (f.empty()) throw Discard(); s.cpu(600); deliver(s, sets[f[s.sweep(s.idx, f.size())]]); }
PROPERTY(c15_accept, "C15.accept") {
    const Set &set = sets[s.sweep(s.idx, sets.size())]; const SizeRow &r = row(set); const ref::Key &k = poolKey(set, 0); Bytes msg = s.bytes(s.draw(60)), pk = k.publicBytes(); Rand rr(s.seed());
    Bytes sig = ref::craft(k, msg.data(), msg.size(), [&](u8 *q, size_t m) { rr.fill(q, m); }, ref::CraftOpt()); KNOBS(); int kind = s.draw(6); size_t len = r.sig; s.label(set.name);
    if (kind == 1) len = r.sig - 1 - s.draw(2 * set.n()); if (kind == 2) len = r.sig + 1 + s.draw(2 * set.n()); if (kind == 3) len = s.size(2 * r.sig, set.n());
    if (kind == 4) len = r.sig + (1u << (8 + 8 * s.draw(2))) * (1 + s.draw(3));            // lengths that look the same in a narrower integer
    if (kind == 5) { size_t less = 256 * (1 + s.draw(60)); len = less < r.sig ? r.sig - less : r.sig + less; }
    Bytes d = sig; d.resize(len, 0); if (len > r.sig && s.draw(2)) for (size_t i = r.sig; i < len; i++) d[i] = sig[(i - r.sig) % r.sig];
    bool v = verifyAll(set, pk.data(), msg, d), whole = len == r.sig ? v : verifyAll(set, pk.data(), msg, sig);
    s.desc("%s offered %zu bytes of %u", set.name.c_str(), len, r.sig); s.label(len < r.sig ? "shorter" : len > r.sig ? "longer" : "exact");
    if (len > r.sig && s.draw(2)) {               // what is too much comes later
        Ctx ctx(0x21); initVerify(ctx.c(), msg.data(), msg.size(), set, pk.data()); size_t first = s.draw(2) ? r.sig : s.draw(len + 1); updateVerify(d.data(), first, ctx.c()); updateVerify(d.data() + first, len - first, ctx.c()); v |= doVerify(ctx.c());
    }
    if (len != r.sig) REQUIRE(!v, "%s: accepted with %zu bytes, the reported size is %u", set.name.c_str(), len, r.sig);
    REQUIRE(whole, "%s: a signature of the reported size is not accepted", set.name.c_str()); s.nontrivial();
}

// ================================================================== C16
// several signatures of the library under one key; all their parts must fit one hypertree
struct Forest {
    const Set &set; const ref::Key &pub; const ref::Params &p; int shared = 0, sharedTrees = 0, sigs = 0;
    std::map<std::tuple<int, uint64_t, uint32_t>, std::pair<Bytes, Bytes>> wots; std::map<std::tuple<int, uint64_t, int, uint32_t>, Bytes> node;
    Forest(const Set &s, const ref::Key &k) : set(s), pub(k), p(*s.p) {}
    void add(const Bytes &msg, const Bytes &sig) {
        const int n = p.n; sigs++; ref::Digest D = ref::hMsg(pub, sig.data(), msg.data(), msg.size()); auto v = ref::recompute(pub, D, sig.data());
        uint64_t t = D.tree; uint32_t leaf = D.leaf; size_t off = n + p.forsBytes();
        for (int L = 0; L < p.d; L++) {
            Bytes w(sig.begin() + off, sig.begin() + off + n * p.len());
            if (L > 0) {
                auto it = wots.find({L, t, leaf});
                if (it == wots.end()) wots[{L, t, leaf}] = {v[L], w};
                else {
                    shared++; REQUIRE(it->second.first == v[L], "%s: the one-time key (layer %d, tree %llu, leaf %u) signed two different values: %s and %s (signature %d)", set.name.c_str(), L, (unsigned long long)t, leaf, hex(it->second.first.data(), n).c_str(), hex(v[L].data(), n).c_str(), sigs);
                    REQUIRE(it->second.second == w, "%s: the one-time key (layer %d, tree %llu, leaf %u) revealed two different sets of chain values (signature %d)", set.name.c_str(), L, (unsigned long long)t, leaf, sigs);
                }
            }
            off += n * p.len();
            for (int h = 0; h < p.hp; h++, off += n) {
                Bytes a(sig.begin() + off, sig.begin() + off + n); uint32_t idx = (leaf >> h) ^ 1; auto key = std::make_tuple(L, t, h, idx); auto it = node.find(key);
                if (it == node.end()) node[key] = a; else { sharedTrees++; REQUIRE(it->second == a, "%s: node (layer %d, tree %llu, height %d, index %u) was given two different values (signature %d)", set.name.c_str(), L, (unsigned long long)t, h, idx, sigs); }
            }
            leaf = t & ((1u << p.hp) - 1); t >>= p.hp;
        }
        REQUIRE(!memcmp(v[p.d].data(), pub.root, n), "%s: the top root of signature %d is not the root in the public key", set.name.c_str(), sigs);
    }
};
static void forest(Src &s, const Set &set, int nsig) {
    const int n = set.n(); const ref::Params &p = *set.p; Bytes sk(4 * n), pkb(2 * n); Rng g(s.bytes(3 * n)); KNOBS();
    if (genKey(sk.data(), pkb.data(), set, &g) != 1) throw Discard();
    ref::Key pub; pub.setPublic(set.p, pkb.data()); ref::Key sec; sec.setSecret(set.p, sk.data()); Forest F(set, pub); Ctx ctx(s.draw(3) * 300); Bytes sig0; std::vector<Set> f; for (auto &q : sets) if (q.fast() == set.fast()) f.push_back(q); uint64_t tree0 = 0; uint32_t leaf0 = 0; (void)leaf0; int steered = 0;
    for (int i = 0; i < nsig; i++) {
        Bytes msg = s.bytes(s.draw(80)), o = s.bytes(n); bool use = s.draw(2); const u8 *eff = use ? o.data() : &sk[2 * n];
        if (i && s.draw(4) != 0) {                          // steer: same position in the upper layers as the first signature
            int bits = 3 + s.draw(p.hp < 5 ? 12 : p.hp + 4), total = p.h - p.hp; if (msg.size() < 8) msg.resize(8); uint64_t c = s.seed(); u8 R[32]; bool hit = false; int keep = std::min(bits, total);
            for (int k = 0; k < (2 << std::min(bits, 15)) && !hit; k++) { c++; memcpy(msg.data(), &c, 8); ref::prfMsg(sec, eff, msg.data(), msg.size(), R); ref::Digest D = ref::hMsg(pub, R, msg.data(), msg.size()); hit = (D.tree >> (total - keep)) == (tree0 >> (total - keep)); }
            if (hit) steered++;
        }
        // one context for all, or a fresh one; sometimes after other activities in it
        Rng r(o); Bytes sig; int how = s.draw(4);
        if (how == 0) sig = signAll(set, sk.data(), msg, use ? &r : nullptr);
        else {
            int pre = s.draw(5); Bytes junk = s.bytes(4 * 32), part(s.draw(2) ? 20 * n : n * (1 + s.draw(200)));
            if (pre == 1) { const Set &q = sets[s.draw(sets.size())]; initVerify(ctx.c(), junk.data(), 5, q, junk.data()); updateVerify(sig0.data(), std::min<size_t>(sig0.size(), part.size()), ctx.c()); s.label("context left by a verification"); }
            if (pre == 2) { initSign(ctx.c(), junk.data(), 7, set, sk.data(), nullptr); doSign(part.data(), part.size(), ctx.c()); s.label("context left in the middle of a signature"); }
            if (pre == 3) { const Set &q = f[s.draw(f.size())]; initSign(ctx.c(), junk.data(), 7, q, junk.data(), nullptr); doSign(part.data(), part.size(), ctx.c()); s.label("context left by another parameter set"); }
            sig.resize(p.sig() + 1); initSign(ctx.c(), msg.data(), msg.size(), set, sk.data(), use ? &r : nullptr); size_t a = 0;
            while (a < sig.size()) { unsigned m = how == 1 ? sig.size() - a : std::min<size_t>(sig.size() - a, 1 + s.draw(6000)); unsigned got = doSign(&sig[a], m, ctx.c()); if (got > m) break; a += got; if (got < m) break; }
            sig.resize(a); s.label("context used again");
        }
        if (!i) sig0 = sig;
        REQUIRE(sig.size() == p.sig(), "%s: signature %d does not end where the top of the hypertree is (%zu bytes%s)", set.name.c_str(), i, sig.size(), sig.size() > p.sig() ? " or more" : "");
        if (!i) { ref::Digest D = ref::hMsg(pub, sig.data(), msg.data(), msg.size()); tree0 = D.tree; leaf0 = D.leaf; }
        F.add(msg, sig);
        if (s.draw(6) == 5) { Bytes sig2 = signAll(set, sk.data(), msg, use ? &r : nullptr); (void)sig2; }
    }
    s.label(set.name); s.desc("%s: %d signatures, %d steered, %d one-time keys and %d nodes met again", set.name.c_str(), nsig, steered, F.shared, F.sharedTrees); s.label(F.shared ? "one-time key met again" : "no one-time key met again"); if (F.sharedTrees) s.label("tree met again");
    if (F.shared) s.nontrivial();
}
PROPERTY(c16_fast, "C16.fast") { auto f = kinds(true); if (f.empty()) throw Discard(); s.cpu(300); forest(s, sets[f[s.sweep(s.idx, f.size())]], 4 + s.draw(8)); }
PROPERTY(c16_slow, "C16.slow") { auto f = kinds(false); if (f.empty()) throw Discard(); s.cpu(600); forest(s, sets[f[s.sweep(s.idx, f.size())]], 3 + s.draw(3)); }
