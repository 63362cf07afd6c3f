// C01-C04: conformance of keys, signatures and verdicts with the reference model.
#include "lib.h"

static const Set &sweepSet(Src &s, uint64_t v) { return sets[s.sweep(v, sets.size())]; }

// ================================================================== C01
PROPERTY(c01_keygen, "C01.keygen") {
    const Set &set = sweepSet(s, s.idx); const int n = set.n();
    Bytes seed = s.chance(1, 4) ? s.bytes(3 * n) : randBytes(s, 3 * n);
    if (s.chance(1, 6)) { Bytes b = s.bytes(n); size_t f = s.draw(3); std::copy(b.begin(), b.end(), seed.begin() + f * n); s.label("patterned field"); }
    bool wantPub = s.chance(1, 2); int mode = s.draw(2), fill = s.draw(3) * 127;
    KNOBS();
    Mem sk(4 * n, mode, fill), pk(2 * n, mode, fill ^ 0x55); Bytes pk0 = pk.bytes();
    Rng g(seed);
    s.desc("%s seed=%s public=%d", set.name.c_str(), hex(seed.data(), 24).c_str(), wantPub);
    s.label(set.name); s.label(wantPub ? "public buffer" : "no public buffer"); s.nontrivial();
    int rc = genKey(sk.p, wantPub ? pk.p : nullptr, set, &g);
    REQUIRE(rc == 1, "key generation of %s returned %d although the random source succeeded", set.name.c_str(), rc);
    ref::Key k; k.setSeeds(set.p, seed.data()); Bytes want = k.secretBytes();
    size_t d = firstDiff(sk.p, want.data(), 4 * n);
    REQUIRE(d == (size_t)4 * n, "%s private key differs from the specification in %s at byte %zu: got %s want %s", set.name.c_str(),
            d < (size_t)n ? "SK.seed" : d < (size_t)2 * n ? "SK.prf" : d < (size_t)3 * n ? "PK.seed" : "PK.root", d, hex(sk.p + d / n * n, n).c_str(), hex(&want[d / n * n], n).c_str());
    if (wantPub) REQUIRE(!memcmp(pk.p, sk.p + 2 * n, 2 * n), "%s public key is not the last 2N bytes of the private key", set.name.c_str());
    else REQUIRE(pk.bytes() == pk0, "public buffer written although not supplied");
    REQUIRE(g.taken == (size_t)3 * n, "key generation took %zu bytes of randomness, not 3N=%d", g.taken, 3 * n);
}

// ================================================================== C02
static Bytes drawMsg(Src &s, const Set &set, size_t maxLen) {
    size_t unit = !set.p->sha2 ? 136 : set.n() == 16 ? 64 : 128, len;
    switch (s.draw(4)) {
    case 0: len = s.draw(70); break;
    case 1: {                              // near a block boundary of one of the message hashes (prefix N, 2N, 3N, HMAC)
        size_t pre = set.n() * s.draw(4); len = (1 + s.draw(6)) * unit + 20; len -= s.draw(40);
        len = len > pre ? len - pre : len; s.label("msg near hash block boundary"); break; }
    case 2: len = s.draw(1500); break;
    default: len = s.size(maxLen, unit);
    }
    if (len > maxLen) len = maxLen;
    if (len == 0) s.label("msg empty"); else if (len > 4096) s.label("msg > 4096"); else s.label("msg 1..4096");
    return s.bytes(len);
}
struct KeyIn { ref::Key key; bool exact; Bytes sk; };
// A private key in the standard format.  exact: the root field is the real root
static KeyIn drawKey(Src &s, const Set &set) {
    const int n = set.n(); KeyIn k; int kind = s.draw(5);
    if (kind == 0 || (kind == 1 && !set.fast())) { k.key = poolKey(set, s.draw(3)); k.exact = true; s.label("key=pool"); }
    else if (kind == 1) { Bytes b = s.bytes(3 * n); k.key.setSeeds(set.p, b.data()); k.exact = true; s.label("key=fresh"); }
    else { Bytes b = s.bytes(2 * n), c = s.bytes(2 * n); b.insert(b.end(), c.begin(), c.end()); k.key.setSecret(set.p, b.data()); k.exact = false; s.label("key=imported"); }
    k.sk = k.key.secretBytes(); return k;
}
static void compareSig(const Set &set, const u8 *got, const Bytes &want, size_t n) {
    size_t d = firstDiff(got, want.data(), n);
    REQUIRE(d == n, "%s signature differs from the specification at %s: got %s want %s", set.name.c_str(), mpos(set, d).c_str(),
            hex(got + d / set.n() * set.n(), set.n()).c_str(), hex(&want[d / set.n() * set.n()], set.n()).c_str());
}
static void fullCase(Src &s, const Set &set, const KeyIn &k, const Bytes &msg, OptRand &o) {
    KNOBS();
    Mem m(msg, s.draw(2)), key(k.sk, s.draw(2)); m.readOnly(); key.readOnly();
    Bytes want = ref::sign(k.key, o.eff.data(), msg.data(), msg.size());
    Ctx ctx(s.draw(3) * 300); Mem out(want.size() + 1, 0, 0xc3);
    initSign(ctx.c(), m.p, m.n, set, key.p, o.use ? &o.rng : nullptr);
    unsigned got;
    if (s.chance(1, 4)) {                                    // in two requests
        unsigned a = s.draw(want.size() + 1); got = doSign(out.p, a, ctx.c());
        REQUIRE(got == a, "request of %u bytes delivered %u", a, got);
        got += doSign(out.p + a, want.size() + 1 - a, ctx.c());
    } else got = doSign(out.p, want.size() + 1, ctx.c());
    REQUIRE(got == want.size(), "%s signature has %u bytes, the specification says %zu", set.name.c_str(), got, want.size());
    compareSig(set, out.p, want, want.size());
    s.nontrivial();
}
PROPERTY(c02_full, "C02.full") {
    const Set &set = sweepSet(s, s.idx);
    KeyIn k = drawKey(s, set); Bytes msg = drawMsg(s, set, s.chance(1, 20) ? 1 << 20 : 1 << 14); OptRand o = drawOpt(s, set, Bytes(k.key.pk_seed, k.key.pk_seed + set.n()));
    s.label(set.name); s.desc("full %s len=%zu opt=%d", set.name.c_str(), msg.size(), o.use);
    fullCase(s, set, k, msg, o);
}
PROPERTY(c02_fast, "C02.fast") {            // as C02.full, fast sets only
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i);
    const Set &set = sets[f[s.sweep(s.idx, f.size())]];
    KeyIn k = drawKey(s, set); Bytes msg = drawMsg(s, set, 1 << 14); OptRand o = drawOpt(s, set, Bytes(k.key.pk_seed, k.key.pk_seed + set.n()));
    s.label(set.name); s.desc("full %s len=%zu opt=%d", set.name.c_str(), msg.size(), o.use);
    fullCase(s, set, k, msg, o);
}
// Messages whose digest hits a wanted position: leaf 0 / last of a layer, FORS index 0 / last, high tree bits, the same
// (or the sibling) leaf in two neighbouring layers, the same index in two neighbouring FORS trees, special bytes of R
static bool target(Src &s, const Set &set, const ref::Key &key, const u8 *opt, Bytes &msg, int kind) {
    const ref::Params &p = *set.p; int layer = s.draw(p.d), tree = s.draw(p.k); bool high = s.draw(2); const uint32_t lm = (1u << p.hp) - 1;
    int layer2 = layer, tree2 = tree;
    if (kind == 4 || kind == 7) { layer = s.draw(p.d - 1); layer2 = s.draw(2) ? s.draw(p.d) : layer + 1; if (layer2 == layer) layer2++; }
    if (kind == 5) { tree = s.draw(p.k - 1); tree2 = s.draw(2) ? s.draw(p.k) : tree + 1; if (tree2 == tree) tree2++; }
    if (msg.size() < 8) msg.resize(8);
    std::string what = kind <= 1 ? fmt("layer leaf %s", high ? "last" : "0") : kind == 2 ? fmt("FORS index %s", high ? "last" : "0") : kind == 3 ? fmt("tree address top bits %s", high ? "1" : "0")
        : kind == 4 ? "same leaf in two layers" : kind == 5 ? "same index in two FORS trees" : kind == 6 ? fmt("R byte %s", high ? "ff" : "0") : "sibling leaves in two layers";
    uint64_t ctr = 0; memcpy(&ctr, msg.data(), 8); u8 R[32];
    for (int i = 0; i < 60000; i++, ctr++) {
        memcpy(msg.data(), &ctr, 8);
        ref::prfMsg(key, opt, msg.data(), msg.size(), R); ref::Digest D = ref::hMsg(key, R, msg.data(), msg.size());
        bool hit; auto leaf = [&](int j) { return j == 0 ? D.leaf : (uint32_t)((j == 1 ? D.tree : D.tree >> ((j - 1) * p.hp)) & lm); };
        if (kind <= 1) hit = leaf(layer) == (high ? lm : 0);
        else if (kind == 2) hit = D.fors[tree] == (high ? (1u << p.a) - 1 : 0);
        else if (kind == 3) hit = (D.tree >> (p.h - p.hp - 8)) == (high ? 255 : 0);
        else if (kind == 4) hit = leaf(layer) == leaf(layer2);
        else if (kind == 5) hit = D.fors[tree] == D.fors[tree2];
        else if (kind == 6) hit = R[tree % set.n()] == (high ? 255 : 0);
        else hit = leaf(layer) == (leaf(layer2) ^ 1);
        if (hit) { s.label("target " + what); s.desc(" target: %s", what.c_str()); return true; }
    }
    s.label("target not reached"); return false;
}
// The message with the most coincidences among many: equal leaves in different layers, equal indices in different FORS trees
static void coincide(Src &s, const Set &set, const ref::Key &key, const u8 *opt, Bytes &msg, int kind) {
    const ref::Params &p = *set.p; const uint32_t lm = (1u << p.hp) - 1; if (msg.size() < 8) msg.resize(8); uint64_t ctr = 0, bestCtr; int best = -1; memcpy(&ctr, msg.data(), 8); bestCtr = ctr; u8 R[32];
    for (int i = 0; i < 40000; i++, ctr++) {
        memcpy(msg.data(), &ctr, 8); ref::prfMsg(key, opt, msg.data(), msg.size(), R); ref::Digest D = ref::hMsg(key, R, msg.data(), msg.size()); std::vector<uint32_t> v;
        if (kind == 0) v = D.fors; else { uint64_t t = D.tree; v.push_back(D.leaf); for (int j = 1; j < p.d; j++) { v.push_back(t & lm); t >>= p.hp; } }
        int c = 0; for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < a; b++) c += v[a] == v[b];
        if (c > best) { best = c; bestCtr = ctr; }
    }
    memcpy(msg.data(), &bestCtr, 8); s.label(kind ? "target many equal leaves" : "target many equal FORS indices"); s.desc(" target: %d equal pairs of %s", best, kind ? "leaves" : "FORS indices");
}
PROPERTY(c02_target, "C02.target") {
    const Set &set = sweepSet(s, s.idx);
    KeyIn k = drawKey(s, set); Bytes msg = s.bytes(8 + s.draw(60)); OptRand o = drawOpt(s, set, Bytes(k.key.pk_seed, k.key.pk_seed + set.n()));
    s.label(set.name); s.desc("%s len=%zu", set.name.c_str(), msg.size());
    int kind = s.sweep(s.idx / sets.size(), 10);
    if (kind < 8) target(s, set, k.key, o.eff.data(), msg, kind); else coincide(s, set, k.key, o.eff.data(), msg, kind - 8);
    fullCase(s, set, k, msg, o);
}
// Every short message length for every set: R, FORS part (all trees for fast sets, some for slow ones)
static void prefixCase(Src &s, const Set &set, const KeyIn &k, const u8 *msg, size_t len, OptRand &o, int trees) {
    u8 R[32]; ref::prfMsg(k.key, o.eff.data(), msg, len, R); ref::Digest D = ref::hMsg(k.key, R, msg, len);
    Bytes want = ref::signFors(k.key, R, D, trees);
    Ctx ctx(s.draw(3) * 300); Mem out(want.size(), 0, 0xc3);
    initSign(ctx.c(), msg, len, set, k.sk.data(), o.use ? &o.rng : nullptr);
    unsigned got = doSign(out.p, want.size(), ctx.c());
    REQUIRE(got == want.size(), "%s: request of %zu bytes delivered %u", set.name.c_str(), want.size(), got);
    compareSig(set, out.p, want, want.size());
    // the rest of the digest (tree, leaf) shows in the first WOTS+ value
    if (trees == set.p->k && set.fast()) {
        ref::Key pub = k.key; std::vector<Bytes> v; Bytes full(set.p->sig()); memcpy(full.data(), out.p, out.n);
        Bytes fpk = ref::recompute(pub, D, full.data())[0];
        Bytes w(set.p->len() * set.n()), g(w.size()); ref::wotsSign(k.key, 0, D.tree, D.leaf, fpk.data(), w.data());
        got = doSign(g.data(), 2 * set.n(), ctx.c());
        REQUIRE(got == (unsigned)2 * set.n() && !memcmp(g.data(), w.data(), 2 * set.n()), "%s: first WOTS+ values differ from the specification (tree %llu leaf %u)", set.name.c_str(), (unsigned long long)D.tree, D.leaf);
    }
    s.nontrivial();
}
// Signatures with a rare WOTS+ checksum: of the trees of the upper layers of a key, one whose root has the most
// extreme checksum is looked up (N = 24: below 256, once in 1800), then a message that leads through it
struct Rare { ref::Key key; int layer; uint64_t tree; int sum; };
static const Rare &rareTree(const Set &set, bool high) {
    static std::map<int, Rare> m; auto it = m.find(set.id * 2 + high); if (it != m.end()) return it->second;
    const ref::Params &p = *set.p; const int n = p.n; Rare r; r.key = poolKey(set, 0); r.layer = -1; int best = 0; const int bits = n == 24 ? 14 : 10;
    for (int L = p.d - 2; L >= 0 && p.h - p.hp * (L + 1) <= bits; L--) for (uint64_t t = 0; t < 1ull << (p.h - p.hp * (L + 1)); t++) {
        ref::Tree x = ref::xmssTree(r.key, L, t); auto dg = ref::wotsDigits(p, x.root()); int sum = dg[2 * n] * 256 + dg[2 * n + 1] * 16 + dg[2 * n + 2], v = high ? sum : -sum;
        if (r.layer < 0 || v > best) { best = v; r.layer = L; r.tree = t; r.sum = sum; }
        if (n == 24 && (high ? sum >= 470 : sum < 256)) goto found;
    }
found:
    return m[set.id * 2 + high] = r;
}
PROPERTY(c02_extreme, "C02.extreme") {
    s.cpu(200);
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i);
    if (f.empty()) throw Discard();
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const ref::Params &p = *set.p; const int n = set.n(); const Rare &r = rareTree(set, s.draw(4) == 3); if (r.layer < 0) throw Discard();
    KeyIn k; k.key = r.key; k.exact = true; k.sk = k.key.secretBytes(); OptRand o = drawOpt(s, set, Bytes(k.key.pk_seed, k.key.pk_seed + n)); Bytes msg = randBytes(s, 8 + s.draw(30)); uint64_t ctr = s.seed(); bool hit = false;
    for (int i = 0; i < 300000 && !hit; i++, ctr++) { memcpy(msg.data(), &ctr, 8); u8 R[32]; ref::prfMsg(k.key, o.eff.data(), msg.data(), msg.size(), R); ref::Digest D = ref::hMsg(k.key, R, msg.data(), msg.size()); hit = (D.tree >> (r.layer * p.hp)) == r.tree; }
    s.label(set.name); s.label(!hit ? "not reached" : n == 24 && r.sum < 256 ? "leading checksum digit 0 (N=24)" : "extreme checksum"); s.desc("%s checksum %d in layer %d, len=%zu%s", set.name.c_str(), r.sum, r.layer + 1, msg.size(), hit ? "" : ", not reached");
    fullCase(s, set, k, msg, o);
}
PROPERTY(c02_length, "C02.length") {
    uint64_t per = (s.count + sets.size() - 1) / sets.size();
    const Set &set = sweepSet(s, s.idx / (per ? per : 1)); size_t len = s.sweep(s.idx % (per ? per : 1), 1 << 16);
    KeyIn k = drawKey(s, set); OptRand o = drawOpt(s, set, Bytes(k.key.pk_seed, k.key.pk_seed + set.n()));
    Mem m(randBytes(s, len), s.draw(2)); m.readOnly(); KNOBS();
    s.label(set.name); s.desc("prefix %s len=%zu", set.name.c_str(), len);
    int trees = set.fast() ? (s.chance(1, 8) ? set.p->k : 3) : s.chance(1, 40) ? set.p->k : 1;
    s.label(trees == set.p->k ? "whole FORS part" : "first FORS trees");
    prefixCase(s, set, k, m.p, m.n, o, trees);
}
// Messages of 512 MiB to over 4 GiB (a file mapped repeatedly): R and the first FORS trees
#include <sys/mman.h>
#include <unistd.h>
Huge hugeMap(size_t total) {
    const size_t C = 64 << 20; static int fd = -1;
    if (fd < 0) {
        fd = memfd_create("huge", 0); if (fd < 0 || ftruncate(fd, C)) throw Discard();
        u8 *w = (u8 *)mmap(nullptr, C, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); Rand r(g_run_seed); r.fill(w, C); munmap(w, C);
    }
    size_t n = (total + C - 1) / C * C;
    u8 *b = (u8 *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) throw Discard();
    for (size_t o = 0; o < n; o += C) if (mmap(b + o, C, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw Discard();
    return {b, n};
}
void hugeUnmap(Huge h) { munmap(h.p, h.n); }
PROPERTY(c02_huge, "C02.huge") {
    s.cpu(600);
    static const char *fam[] = {"sha2_128f", "sha2_192f", "shake_128f", "sha2_256f", "shake_256f"};
    std::string want = fam[s.sweep(s.idx, 5)]; const Set *set = nullptr;
    for (auto &x : sets) if (x.name == want) set = &x;
    if (!set) throw Discard();
    static const uint64_t base[] = {1ull << 32, 1ull << 32, 1ull << 31, 1ull << 29};
    size_t len = base[s.sweep(s.idx / 3, 4)] + s.draw(5000);
    KeyIn k; k.key = poolKey(*set, 0); k.sk = k.key.secretBytes();
    OptRand o = drawOpt(s, *set, Bytes(k.key.pk_seed, k.key.pk_seed + set->n()));
    Huge h = hugeMap(len); s.label(set->name); s.label(fmt("message >= 2^%d", len >= 1ull << 32 ? 32 : len >= 1ull << 31 ? 31 : 29)); s.desc("huge %s len=%zu", want.c_str(), len);
    prefixCase(s, *set, k, h.p + (h.n - len), len, o, 3);
    hugeUnmap(h);
}

// ================================================================== C03
static void mustAccept(Src &s, const Set &set, const Bytes &pkb, const Bytes &msg, const Bytes &sig, const char *origin) {
    KNOBS();
    Mem m(msg, s.draw(2)), pk(pkb, s.draw(2)), sg(sig, s.draw(2)); m.readOnly(); pk.readOnly(); sg.readOnly();
    Ctx ctx(s.draw(3) * 300); initVerify(ctx.c(), m.p, m.n, set, pk.p);
    size_t a = 0; int np = s.draw(4);
    for (int i = 0; i < np; i++) {                          // most often in one piece
        size_t l = s.size(sig.size() - a, set.n()); int r = updateVerify(sg.p + a, l, ctx.c()); a += l;
        REQUIRE(r == 1, "%s: a valid signature (%s) was reported as failing after %zu of %zu bytes", set.name.c_str(), origin, a, sig.size());
    }
    if (a < sig.size()) {
        int r = updateVerify(sg.p + a, sig.size() - a, ctx.c());
        REQUIRE(r == 1, "%s: a valid signature (%s) was reported as failing at the end", set.name.c_str(), origin);
    }
    int v = doVerify(ctx.c());
    REQUIRE(v == 1, "%s: a valid signature (%s) was rejected (verdict %d)", set.name.c_str(), origin, v);
    s.label(std::string("origin: ") + origin); s.nontrivial();
}
Bytes craftDraw(Src &s, const ref::Key &key, const Bytes &msg, bool label) {
    const ref::Params &p = *key.p; ref::CraftOpt co; int es = 0;
    if (s.chance(1, 3)) { co.extremeLayer = s.draw(p.d); co.extremeHigh = s.draw(2); co.trials = 30 + s.draw(300); }
    if (s.chance(1, 5)) { co.mirror = 1 + s.draw((1u << (p.a > p.hp ? p.a : p.hp)) - 1); co.mirrorTree = s.draw(p.k); co.mirrorLayer = s.draw(p.d - 1); }
    uint64_t seed = s.seed(); int kind = s.draw(8); Rand r(seed);
    Bytes sig = ref::craft(key, msg.data(), msg.size(), [&](u8 *q, size_t n) {
        if (kind == 1) memset(q, 0, n); else if (kind == 2) memset(q, 0xff, n);
        else { r.fill(q, n); if (kind == 3) for (size_t i = 0; i + p.n <= n; i += p.n) if (!(r.next() % 3)) memset(q + i, r.next() & 1 ? 0 : 0xff, p.n);
            if (kind == 4) for (size_t i = p.n; i + p.n <= n; i += p.n) if (!(r.next() % 4)) memcpy(q + i, q + p.n * (r.next() % (i / p.n)), p.n); }
    }, co, &es);
    if (label) {
        s.label(kind == 1 ? "crafted zero blocks" : kind == 2 ? "crafted ff blocks" : kind == 3 ? "crafted mixed blocks" : kind == 4 ? "crafted repeated blocks" : "crafted random blocks");
        if (co.mirror) s.label("equal siblings");
        if (co.trials) s.label(co.extremeHigh ? "extreme checksum low" : "extreme checksum high");
    }
    return sig;
}
static Bytes shortMsg(Src &s) { return s.bytes(s.chance(1, 6) ? s.size(3000, 64) : s.draw(300)); }
PROPERTY(c03_craft, "C03.crafted") {
    const Set &set = sweepSet(s, s.idx); ref::Key key = poolKey(set, s.draw(4)); Bytes msg = shortMsg(s);
    if (set.fast() && s.chance(1, 5)) { Bytes b = s.bytes(3 * set.n()); key = ref::Key(); key.setSeeds(set.p, b.data()); s.label("key=fresh"); }
    s.label(set.name); s.desc("crafted %s len=%zu", set.name.c_str(), msg.size());
    Bytes sig = craftDraw(s, key, msg, true);
    mustAccept(s, set, key.publicBytes(), msg, sig, "crafted by the key owner");
}
// WOTS+ checksums no ordinary signature has: the key owner searches until the leading checksum digit is the largest
// a search of this size can reach (N = 24: 2, with a value no random test meets)
PROPERTY(c03_extreme, "C03.extreme") {
    s.cpu(200);
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].n() == 24) f.push_back(i);
    if (f.empty()) for (size_t i = 0; i < sets.size(); i++) f.push_back(i);
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const ref::Params &p = *set.p; ref::Key key = poolKey(set, s.draw(2)); Bytes msg = randBytes(s, s.draw(40));
    ref::CraftOpt co; co.extremeLayer = 1 + s.draw(p.d - 1); co.extremeHigh = s.draw(4) == 3; co.trials = 6000000; int es = -1; const int top = 30 * set.n();
    // N=24: checksum >= 512.  Otherwise about 4.5 standard deviations.
    co.stopAt = set.n() == 24 ? (co.extremeHigh ? 505 : top - 512) : co.extremeHigh ? top / 2 + (int)(4.5 * 4.61 * __builtin_sqrt(2. * set.n())) : top / 2 - (int)(4.5 * 4.61 * __builtin_sqrt(2. * set.n()));
    Rand r(s.seed());
    Bytes sig = ref::craft(key, msg.data(), msg.size(), [&](u8 *q, size_t m) { r.fill(q, m); }, co, &es);
    s.label(set.name); s.label(es < 0 ? "?" : (co.extremeHigh ? es >= co.stopAt : es <= co.stopAt) ? "wanted checksum reached" : "wanted checksum not reached"); s.label(co.extremeHigh ? "low checksum" : "high checksum");
    s.desc("%s layer %d checksum %d", set.name.c_str(), co.extremeLayer, top - es);
    mustAccept(s, set, key.publicBytes(), msg, sig, "crafted by the key owner");
}
PROPERTY(c03_ref, "C03.foreign") {
    const Set &set = sweepSet(s, s.idx); const ref::Key &key = poolKey(set, s.draw(4)); Bytes msg = shortMsg(s), o = s.bytes(set.n());
    s.label(set.name); s.desc("foreign %s len=%zu", set.name.c_str(), msg.size());
    Bytes sig = ref::sign(key, o.data(), msg.data(), msg.size());
    mustAccept(s, set, key.publicBytes(), msg, sig, "another implementation");
}
static void ownCase(Src &s, const Set &set) {
    const int n = set.n(); Rng g(s.bytes(3 * n)); Bytes sk(4 * n), pk(2 * n), msg = shortMsg(s);
    REQUIRE(genKey(sk.data(), pk.data(), set, &g) == 1, "key generation failed");
    Rng o(s.bytes(n)); Bytes sig = signAll(set, sk.data(), msg, s.draw(2) ? &o : nullptr);
    s.label(set.name); s.desc("own %s len=%zu", set.name.c_str(), msg.size());
    REQUIRE(sig.size() == set.p->sig(), "signature has %zu bytes", sig.size());
    mustAccept(s, set, pk, msg, sig, "this package");
}
PROPERTY(c03_own, "C03.own") {
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i);
    ownCase(s, sets[f[s.sweep(s.idx, f.size())]]);
}
PROPERTY(c03_ownslow, "C03.ownslow") {
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (!sets[i].fast()) f.push_back(i);
    ownCase(s, sets[f[s.sweep(s.idx, f.size())]]);
}
PROPERTY(c03_huge, "C03.huge") {
    s.cpu(600);
    static const char *fam[] = {"sha2_128s", "sha2_256s", "shake_192s", "sha2_192f", "shake_128f"};
    std::string want = fam[s.sweep(s.idx, 5)]; const Set *set = nullptr;
    for (auto &x : sets) if (x.name == want) set = &x;
    if (!set) throw Discard();
    static const uint64_t base[] = {1ull << 32, 1ull << 32, 1ull << 31, 1ull << 29};
    size_t len = base[s.sweep(s.idx / 3, 4)] + s.draw(5000); Huge h = hugeMap(len); const u8 *msg = h.p + (h.n - len);
    const ref::Key &key = poolKey(*set, 0); Rand r(s.seed());
    Bytes sig = ref::craft(key, msg, len, [&](u8 *q, size_t n) { r.fill(q, n); }, ref::CraftOpt());
    s.label(set->name); s.label(fmt("message >= 2^%d", len >= 1ull << 32 ? 32 : len >= 1ull << 31 ? 31 : 29)); s.desc("huge %s len=%zu", want.c_str(), len);
    Ctx ctx(0); Bytes pk = key.publicBytes(); initVerify(ctx.c(), msg, len, *set, pk.data());
    REQUIRE(updateVerify(sig.data(), sig.size(), ctx.c()) == 1 && doVerify(ctx.c()) == 1, "%s: valid signature of a message of %zu bytes rejected", want.c_str(), len);
    s.nontrivial(); hugeUnmap(h);
}

// ================================================================== C04
// feeds sig (in pieces) and requires rejection
static void mustReject(Src &s, const Set &set, const Bytes &pkb, const Bytes &msg, const Bytes &sig, const std::string &why, bool pieces = true) {
    KNOBS();
    Mem m(msg), pk(pkb), sg(sig); m.readOnly(); pk.readOnly(); sg.readOnly();
    Ctx ctx(s.draw(3) * 300); initVerify(ctx.c(), m.p, m.n, set, pk.p);
    size_t a = 0; int np = pieces ? s.draw(4) : 0;
    for (int i = 0; i < np; i++) { size_t l = s.size(sig.size() - a, set.n()); updateVerify(sg.p + a, l, ctx.c()); a += l; }
    if (a < sig.size() || !np) updateVerify(sg.p + a, sig.size() - a, ctx.c());
    int v = doVerify(ctx.c());
    REQUIRE(v == 0, "%s: accepted although %s", set.name.c_str(), why.c_str());
    s.nontrivial();
}
struct Valid { ref::Key key; Bytes msg, sig; };
static Valid drawValid(Src &s, const Set &set) {
    Valid v; v.key = poolKey(set, s.draw(4)); v.msg = shortMsg(s);
    if (s.draw(4) == 3 && set.fast()) { Bytes o = s.bytes(set.n()); v.sig = ref::sign(v.key, o.data(), v.msg.data(), v.msg.size()); s.label("base=honest"); }
    else { v.sig = craftDraw(s, v.key, v.msg, false); s.label("base=crafted"); }
    return v;
}
// the library against itself: its own signature of a message is not a signature of any other message
PROPERTY(c04_message, "C04.ownmessage") {
    s.cpu(200);
    std::vector<int> f; for (size_t i = 0; i < sets.size(); i++) if (sets[i].fast()) f.push_back(i);
    const Set &set = sets[f[s.sweep(s.idx, f.size())]]; const int n = set.n(); const Sess &x = poolSess(set, s.draw(2), false);
    static const size_t B[] = {64, 128, 136, 512, 1024, 4096, 16384, 65536, 131072, 1 << 20, 3 << 20};
    size_t len; switch (s.draw(4)) { case 0: len = s.draw(400); break; case 1: len = s.size(20000, 64); break; default: { size_t b = B[s.draw(11)]; len = b + s.draw(2 * b < 3000 ? 2 * b : 3000); if (s.draw(3) == 0) len = b - s.draw(b < 200 ? b : 200); } }
    Bytes msg = randBytes(s, len); if (s.draw(4) == 3) { Rand r(s.seed()); for (size_t i = 0; i < len; i++) msg[i] = r.next() % 64 ? 0 : 1; s.label("sparse message"); }
    Bytes o = s.bytes(n); Rng g(o); Bytes sig = signAll(set, x.sk.data(), msg, s.draw(2) ? &g : nullptr);
    s.label(set.name); s.label(len >= 65536 ? "message >= 64 KiB" : len >= 1024 ? "message >= 1 KiB" : "short message"); s.desc("%s message of %zu bytes", set.name.c_str(), len);
    int tries = len > 500000 ? 3 : 8;
    for (int t = 0; t < tries; t++) {
        Bytes m = msg, pk = x.pk; std::string what;
        switch (s.draw(9)) {
        case 0: case 1: if (m.empty()) continue; { size_t b = 8 * (s.draw(2) ? len - 1 - s.draw(len < 200 ? len : 200) : s.draw(len)) + s.draw(8); m[b / 8] ^= 1 << (b % 8); what = fmt("bit %zu of the message was changed", b); } break;
        case 2: { size_t l = s.draw(3) ? s.range(1, 300) : s.range(1, 70000); Bytes e = s.draw(3) ? randBytes(s, l) : Bytes(l, 0); m.insert(m.end(), e.begin(), e.end()); what = fmt("%zu bytes were appended to the message", l); } break;
        case 3: if (m.empty()) continue; { size_t l = s.draw(2) ? 1 + s.draw(len < 300 ? len : 300) : 1 + s.draw(len); m.resize(len - l); what = fmt("the last %zu bytes of the message are missing", l); } break;
        case 4: if (m.empty()) continue; { size_t l = 1 + s.draw(len < 300 ? len : 300); m.erase(m.begin(), m.begin() + l); what = fmt("the first %zu bytes of the message are missing", l); } break;
        case 5: if (len < 2) continue; { size_t w = s.draw(2) ? 1 : 64; if (len < 2 * w) continue; size_t a = s.draw(len / w), b = s.draw(len / w); std::swap_ranges(m.begin() + a * w, m.begin() + (a + 1) * w, m.begin() + b * w); what = "parts of the message were exchanged"; } break;
        case 6: if (m.empty()) continue; { size_t a = s.draw(len), k = s.range(1, 600); for (size_t i = a; i < a + k && i < len; i++) m[i] = s.draw(256); what = fmt("bytes of the message from %zu were replaced", a); } break;
        case 7: if (len < 300) continue; { size_t a = s.draw(len - 1), k = 1 + s.draw(256); m.erase(m.begin() + a, m.begin() + std::min(len, a + k)); what = fmt("bytes of the message from %zu were cut out", a); } break;
        default: { size_t b = s.draw(16 * n); pk[b / 8] ^= 1 << (b % 8); what = fmt("bit %zu of the public key was changed", b); }
        }
        if (m == msg && pk == x.pk) continue;
        mustReject(s, set, pk, m, sig, what, s.draw(4) == 0);
    }
}
// one bit in every N-byte block of every set
PROPERTY(c04_block, "C04.everyblock") {
    // position enumerated over all blocks of all sets; the run stops at 'count', so a stride covers evenly
    size_t total = 0; for (auto &x : sets) total += x.p->sig() / x.n();
    size_t pos = s.sweep((s.idx * 2654435761ull) % total, total), k = 0;
    while (pos >= sets[k].p->sig() / sets[k].n()) pos -= sets[k].p->sig() / sets[k].n(), k++;
    const Set &set = sets[k]; const ref::Key &key = poolKey(set, s.draw(2)); Bytes msg = randBytes(s, s.draw(40)); Rand r(s.seed());
    Bytes sig = ref::craft(key, msg.data(), msg.size(), [&](u8 *q, size_t n) { r.fill(q, n); }, ref::CraftOpt());
    size_t bit = pos * set.n() * 8 + s.draw(set.n() * 8);
    sig[bit / 8] ^= 1 << (bit % 8);
    s.label(set.name); s.desc("%s bit %zu flipped: %s", set.name.c_str(), bit, mpos(set, bit / 8).c_str());
    if (ref::verify(key, msg.data(), msg.size(), sig.data(), sig.size())) { s.label("still valid"); return; }
    mustReject(s, set, key.publicBytes(), msg, sig, fmt("bit %zu of the signature was flipped (%s)", bit, mpos(set, bit / 8).c_str()), false);
}
// a signature whose recomputed root differs from the key's root in exactly one bit, for every root bit
PROPERTY(c04_root, "C04.rootbit") {
    size_t total = 0; for (auto &x : sets) total += 8 * x.n();
    size_t b = s.sweep(s.idx % total, total), k = 0;
    while (b >= (size_t)8 * sets[k].n()) b -= 8 * sets[k].n(), k++;
    const Set &set = sets[k]; ref::Key key = poolKey(set, s.draw(2));
    int more = s.draw(6);                                   // mostly one bit; sometimes several
    key.root[b / 8] ^= 1 << (b % 8);
    if (more == 5) { size_t from = s.draw(set.n()), to = s.range(from, set.n() - 1); for (size_t i = from; i <= to; i++) if (i != b / 8) key.root[i] ^= s.draw(256); }
    Bytes msg = shortMsg(s); Bytes sig = craftDraw(s, key, msg, false);
    s.label(set.name); s.desc("%s root bit %zu altered%s", set.name.c_str(), b, more == 5 ? " and a byte range" : "");
    REQUIRE(!ref::verify(key, msg.data(), msg.size(), sig.data(), sig.size()), "internal: near-miss signature is valid");
    mustReject(s, set, key.publicBytes(), msg, sig, fmt("its recomputed root differs from the public key's root (bit %zu)", b), false);
}
// the same with differences that a careless comparison could overlook: equal or opposite differences in several
// words, words exchanged, only a part equal, ...
PROPERTY(c04_near, "C04.nearmiss") {
    const Set &set = sweepSet(s, s.idx); const int n = set.n(); ref::Key key = poolKey(set, s.draw(2)); u8 *r = key.root; Bytes old(r, r + n);
    static const int W[] = {1, 2, 4, 8}; const int w = W[s.draw(4)], nw = n / w, kind = s.draw(8); const char *what = "";
    switch (kind) {
    case 0: case 1: {                                       // one difference in an even number of words, XORed or added and subtracted
        what = kind ? "added and subtracted difference" : "one XOR difference in several words"; Bytes d = s.draw(2) ? Bytes(w) : s.bytes(w); bool z = true; for (u8 b : d) z &= !b; if (z) d[s.draw(w)] = 1 << s.draw(8);
        std::set<int> at; int m = 2 * (1 + s.draw(nw / 2)); if (s.draw(2)) m = 2; while ((int)at.size() < m) at.insert(s.draw(nw));
        int k = 0; for (int i : at) { int c = 0; for (int j = w - 1; j >= 0; j--) { u8 &b = r[i * w + j]; if (!kind) b ^= d[j]; else if (k & 1) { int v = b - d[j] - c; b = v; c = v < 0; } else { int v = b + d[j] + c; b = v; c = v >> 8; } } k++; }
        break; }
    case 2: { what = "two words exchanged"; int a = s.draw(nw), b = s.draw(nw); std::swap_ranges(r + a * w, r + (a + 1) * w, r + b * w); if (a == b) r[a * w] ^= 1; break; }
    case 3: { what = "rotated"; std::rotate(r, r + w * (1 + s.draw(nw - 1)), r + n); break; }
    case 4: { what = "only the first part equal"; size_t k = s.draw(n); Bytes b = s.bytes(n - k); std::copy(b.begin(), b.end(), r + k); r[n - 1] = ~old[n - 1]; break; }
    case 5: { what = "only the last part equal"; size_t k = 1 + s.draw(n); Bytes b = s.bytes(k); std::copy(b.begin(), b.end(), r); r[0] = ~old[0]; break; }
    case 6: { what = "constant word"; int a = s.draw(nw), e = s.draw(2) ? nw : a + 1; for (int i = a * w; i < e * w; i++) r[i] = s.draw(2) ? 0 : 0xff; break; }
    default: { what = "complement"; int a = s.draw(nw); for (int i = 0; i < n; i++) if (s.draw(2) == 0 || i / w == a) r[i] = ~r[i]; }
    }
    if (!memcmp(r, old.data(), n)) r[s.draw(n)] ^= 0x80;
    Bytes msg = shortMsg(s); Bytes sig = craftDraw(s, key, msg, false);
    s.label(set.name); s.label(what); s.desc("%s root: %s, words of %d", set.name.c_str(), what, w);
    REQUIRE(!ref::verify(key, msg.data(), msg.size(), sig.data(), sig.size()), "internal: near-miss signature is valid");
    mustReject(s, set, key.publicBytes(), msg, sig, fmt("its recomputed root differs from the public key's root (%s, words of %d bytes)", what, w), false);
}
PROPERTY(c04_mutate, "C04.mutate") {
    const Set &set = sweepSet(s, s.idx); Valid v = drawValid(s, set); const int n = set.n(); Bytes pk = v.key.publicBytes(), sig = v.sig, msg = v.msg;
    const ref::Params &p = *set.p; size_t nb = sig.size() / n; std::string what;
    const Set *as = &set; size_t lb = p.layerBytes(), fb = n + p.forsBytes();
    switch (s.draw(14)) {
    case 0: { size_t b = s.draw(8 * sig.size()); sig[b / 8] ^= 1 << (b % 8); what = "signature bit"; break; }
    case 1: { size_t o = s.draw(sig.size()), l = s.range(1, 64); for (size_t i = o; i < o + l && i < sig.size(); i++) sig[i] = s.draw(256); what = "signature bytes"; break; }
    case 2: { size_t a = s.draw(nb), b = s.draw(nb); std::swap_ranges(sig.begin() + a * n, sig.begin() + (a + 1) * n, sig.begin() + b * n); if (a == b) sig[a * n] ^= 1; what = "two blocks swapped"; break; }
    case 3: { size_t a = s.draw(p.k), b = s.draw(p.k), w = (p.a + 1) * n; std::swap_ranges(sig.begin() + n + a * w, sig.begin() + n + (a + 1) * w, sig.begin() + n + b * w); what = "two FORS trees swapped"; break; }
    case 4: { size_t a = s.draw(p.d), b = s.draw(p.d); std::swap_ranges(sig.begin() + fb + a * lb, sig.begin() + fb + (a + 1) * lb, sig.begin() + fb + b * lb); what = "two layers swapped"; break; }
    case 5: if (msg.empty()) msg.push_back(0); else { size_t b = s.draw(8 * msg.size()); msg[b / 8] ^= 1 << (b % 8); } what = "message bit"; break;
    case 6: { size_t l = s.range(1, 200); Bytes t = s.bytes(l); if (s.draw(2)) msg.insert(msg.end(), t.begin(), t.end()); else msg.insert(msg.begin(), t.begin(), t.end()); what = "message extended"; break; }
    case 7: if (msg.empty()) msg.push_back(0x80); else msg.resize(s.draw(msg.size())); what = "message truncated"; break;
    case 8: { size_t b = s.draw(16 * n); pk[b / 8] ^= 1 << (b % 8); what = b < (size_t)8 * n ? "PK.seed bit" : "PK.root bit"; break; }
    case 9: { Bytes q = poolKey(set, 4 + s.draw(2)).publicBytes(); int part = s.draw(3); if (part != 1) std::copy(q.begin(), q.begin() + n, pk.begin()); if (part != 0) std::copy(q.begin() + n, q.end(), pk.begin() + n); what = "other public key"; break; }
    case 10: {                                              // the same key bytes and signature under the other hash family
        for (auto &x : sets) if (x.p->sig() == set.p->sig() && x.id != set.id) as = &x;
        if (as == &set) sig[0] ^= 1;
        what = "other hash family"; break; }
    case 11: {                                              // layers grafted from a signature of another message
        Valid w; w.msg = shortMsg(s); w.msg.push_back(1); w.sig = craftDraw(s, v.key, w.msg, false);
        size_t from = s.draw(p.d + 1); size_t off = from == 0 ? n : fb + (from - 1) * lb;
        std::copy(w.sig.begin() + off, w.sig.end(), sig.begin() + off); what = "upper part of another signature"; break; }
    case 12: { size_t o = s.draw(sig.size()); std::fill(sig.begin() + o, sig.end(), s.draw(2) ? 0 : 0xff); what = "tail constant"; break; }
    default: { size_t r = s.range(1, sig.size() - 1); std::rotate(sig.begin(), sig.begin() + r, sig.end()); what = "rotated"; }
    }
    s.label("mutation: " + what); s.label(set.name); s.desc("%s mutation: %s", set.name.c_str(), what.c_str());
    ref::Key pub; pub.setPublic(as->p, pk.data());
    if (ref::verify(pub, msg.data(), msg.size(), sig.data(), sig.size())) { s.label("still valid"); return; }
    mustReject(s, *as, pk, msg, sig, "the reference model rejects it (" + what + ")");
}
// length: every truncation point class, any amount of surplus, delivered anyhow
PROPERTY(c04_length, "C04.length") {
    const Set &set = sweepSet(s, s.idx); Valid v = drawValid(s, set); const int n = set.n(); const size_t L = v.sig.size(); Bytes pk = v.key.publicBytes();
    s.label(set.name); KNOBS();
    Mem m(v.msg), pkm(pk); Ctx ctx(s.draw(3) * 300); initVerify(ctx.c(), m.p, m.n, set, pkm.p);
    if (s.draw(3) == 0) {                                   // truncated
        size_t cut = s.draw(3) == 0 ? s.range(1, 2 * n) : s.draw(2) ? n * s.range(1, L / n) : s.range(1, L);
        s.desc("%s truncated by %zu", set.name.c_str(), cut); s.label("truncated");
        mustReject(s, set, pk, v.msg, Bytes(v.sig.begin(), v.sig.end() - cut), fmt("%zu bytes are missing", cut)); return;
    }
    static const size_t U[] = {0, 1, 256, 65536, 1 << 20};
    size_t unit = U[s.draw(5)]; if (!unit) unit = n; if (unit == 1 && s.draw(2)) unit = L;
    size_t surplus = unit * s.range(1, unit >= 65536 ? 3 : 40) + (s.draw(3) == 2 ? s.draw(n) : 0);
    Bytes all = v.sig; Bytes extra(surplus); int fill = s.draw(3);
    for (size_t i = 0; i < surplus; i++) extra[i] = fill == 0 ? v.sig[i % L] : fill == 1 ? 0 : v.sig[L - n + i % n];
    all.insert(all.end(), extra.begin(), extra.end());
    // the split between what comes with the end of the signature and what comes later
    size_t a = s.draw(3) == 0 ? 0 : s.size(L, n), with = s.draw(3) == 0 ? surplus : s.draw(2) ? 0 : s.draw(surplus + 1);
    s.desc("%s surplus %zu, %zu of it in the call that completes the signature", set.name.c_str(), surplus, with); s.label(with == 0 ? "surplus in later calls" : with == surplus ? "surplus in the same call" : "surplus split");
    Mem sg(all); sg.readOnly();
    updateVerify(sg.p, a, ctx.c()); updateVerify(sg.p + a, L + with - a, ctx.c());
    size_t o = L + with; int calls = 0;
    while (o < all.size()) { size_t l = calls++ > 40 ? all.size() - o : s.draw(2) ? 1 + s.draw(n) : s.range(1, all.size() - o); if (l > all.size() - o) l = all.size() - o; updateVerify(sg.p + o, l, ctx.c()); o += l; }
    REQUIRE(doVerify(ctx.c()) == 0, "%s: accepted with %zu surplus bytes (%zu in the completing call)", set.name.c_str(), surplus, with);
    s.nontrivial();
}
// surplus whose count is congruent to 0 modulo 2^16, 2^24, 2^31 or close to 2^32
PROPERTY(c04_hugesurplus, "C04.hugesurplus") {
    s.cpu(300);
    const Set &set = sweepSet(s, s.idx * 5 + 1); const ref::Key &key = poolKey(set, 0); Rand r(s.seed()); u8 msg[3] = {1, 2, 3};
    Bytes sig = ref::craft(key, msg, 3, [&](u8 *q, size_t n) { r.fill(q, n); }, ref::CraftOpt()), pk = key.publicBytes();
    static const uint64_t U[] = {1ull << 16, 1ull << 24, 1ull << 31, 0xffffffffull, 1ull << 30};
    uint64_t extra = U[s.sweep(s.idx, 5)]; if (extra + sig.size() > 0xffffffffull) extra = 0xffffffffull - sig.size();
    size_t tot = sig.size() + extra; u8 *b = (u8 *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) throw Discard();
    memcpy(b, sig.data(), sig.size()); Ctx ctx(0); initVerify(ctx.c(), msg, 3, set, pk.data()); bool split = s.draw(2);
    if (split) { updateVerify(b, sig.size(), ctx.c()); updateVerify(b + sig.size(), extra, ctx.c()); } else updateVerify(b, (unsigned)tot, ctx.c());
    int v = doVerify(ctx.c()); munmap(b, tot);
    s.label(set.name); s.desc("%s surplus %llu split=%d", set.name.c_str(), (unsigned long long)extra, split); s.nontrivial();
    REQUIRE(v == 0, "%s: accepted with %llu surplus bytes", set.name.c_str(), (unsigned long long)extra);
}
