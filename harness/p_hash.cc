// C12, C13: the hash functions against the reference model.
#include "lib.h"
#include <sys/mman.h>


static Bytes refSha(bool big, const u8 *m, size_t n) {
    Bytes d(big ? 64 : 32);
    if (big) { ref::Sha512 h; h.update(m, n); h.final(d.data()); } else { ref::Sha256 h; h.update(m, n); h.final(d.data()); }
    return d;
}
static std::string sizes(const std::vector<size_t> &v) { std::string o; for (size_t i = 0; i < v.size() && i < 30; i++) o += fmt("%s%zu", i ? "+" : "", v[i]); if (v.size() > 30) o += "+..."; return o; }
// a division of n bytes into calls
static std::vector<size_t> division(Src &s, size_t n, size_t unit) {
    std::vector<size_t> v; size_t left = n; int style = s.draw(6);
    if (style == 0) { v.push_back(n); return v; }
    if (style == 5 && n <= 2000) { for (size_t i = 0; i < n; i++) v.push_back(1); return v; }
    size_t fixed = style == 4 ? 1 + s.draw(2 * unit) : 0;
    while (left) {
        size_t l = v.size() > 60 ? left : fixed ? fixed : style == 1 ? 1 + s.draw(left) : style == 2 ? s.draw(unit + 2) : s.size(left, unit);
        if (l > left) l = left;
        v.push_back(l); left -= l;
    }
    if (s.draw(3) == 2) v.push_back(0);
    return v;
}
// a message copied piece by piece into memory of exactly that extent
static void feedSha(Src &s, const vt_sha &h, void *ctx, const u8 *m, const std::vector<size_t> &div) {
    int mode = s.draw(3); size_t a = 0;
    for (size_t l : div) {
        if (mode == 2) h.update(ctx, m + a, l);
        else { Mem p(Bytes(m + a, m + a + l), mode); p.readOnly(); h.update(ctx, p.p, l); }
        a += l;
    }
}
static void finishSha(Src &s, const vt_sha &h, bool big, void *ctx, const Bytes &want, const std::string &what) {
    unsigned w = big ? 8 : 4, full = big ? 64 : 32, n; bool trunc = s.draw(2);
    n = trunc ? w * s.draw(full / w + 1) : full;
    Mem o(n + 8, s.draw(2), 0x9d);
    if (trunc) h.final_trunc(o.p, ctx, n); else h.final(o.p, ctx);
    size_t d = firstDiff(o.p, want.data(), n);
    REQUIRE(d == n, "%s: %s byte %zu of the %sdigest is wrong: got %s want %s", what.c_str(), big ? "SHA-512" : "SHA-256", d, trunc ? "truncated " : "", hex(o.p, n).c_str(), hex(want.data(), n).c_str());
    for (size_t i = n; i < n + 8; i++) REQUIRE(o.p[i] == 0x9d, "%s: %s wrote beyond the %u digest bytes asked for", what.c_str(), big ? "SHA-512" : "SHA-256", n);
    s.label(trunc ? "truncated digest" : "full digest");
}
static void shaCase(Src &s, bool big, size_t len) {
    const vt_sha &h = big ? A->sha512 : A->sha256; Bytes m = s.bytes(len); auto div = division(s, len, h.block);
    KNOBS(); Mem c(h.ctx_size, Mem::ALIGNED, s.draw(4) * 100); h.init(c.p); feedSha(s, h, c.p, m.data(), div);
    std::string what = fmt("%s of %zu bytes as %s", big ? "SHA-512" : "SHA-256", len, sizes(div).c_str()); s.desc("%s", what.c_str());
    finishSha(s, h, big, c.p, refSha(big, m.data(), len), what);
    s.label(big ? "SHA-512" : "SHA-256"); s.label(div.size() > 1 ? "several updates" : "one update"); s.nontrivial();
    if (s.draw(4) == 3) {                                     // the context is used again
        size_t l2 = s.draw(300); Bytes m2 = s.bytes(l2); h.init(c.p); h.update(c.p, m2.data(), l2); finishSha(s, h, big, c.p, refSha(big, m2.data(), l2), fmt("context used again, %zu bytes", l2)); s.label("context used again");
    }
}
PROPERTY(c12_length, "C12.length") { bool big = s.sweep(s.idx & 1, 2); shaCase(s, big, s.sweep((s.idx >> 1) % 1200, 1200)); }
PROPERTY(c12_split, "C12.split") { bool big = s.sweep(s.idx & 1, 2); shaCase(s, big, s.size(1 << s.draw(18), big ? 128 : 64)); }
PROPERTY(c12_state, "C12.state") {
    bool big = s.sweep(s.idx & 1, 2); const vt_sha &h = big ? A->sha512 : A->sha256; size_t blk = h.block, rest = s.sweep((s.idx >> 1) % 700, 700); KNOBS();
    Bytes m = s.bytes(blk + rest); Mem c(h.ctx_size, Mem::ALIGNED, s.draw(4) * 100), st(h.state_size, Mem::ALIGNED, 0x31), c2(h.ctx_size, Mem::ALIGNED, s.draw(5) * 99);
    auto first = division(s, blk, blk / 4), second = division(s, rest, blk);
    h.init(c.p); feedSha(s, h, c.p, m.data(), first); h.save(st.p, c.p);
    int target = s.draw(4);                                   // into fresh garbage, the same context, one in the middle of another hash
    u8 *t = c2.p;
    if (target == 1) t = c.p;
    if (target == 2) { Bytes o = s.bytes(s.draw(3 * blk)); h.init(c2.p); h.update(c2.p, o.data(), o.size()); }
    if (target == 3) { Bytes o = s.bytes(s.draw(2 * blk)); h.update(c.p, o.data(), o.size()); t = c.p; }
    int times = 1 + s.draw(2);
    for (int i = 0; i < times; i++) {                         // the saved state serves any number of times
        h.restore(t, st.p); feedSha(s, h, t, m.data() + blk, second);
        std::string what = fmt("%s continued from the state saved after one block, then %s (use %d, target %d)", big ? "SHA-512" : "SHA-256", sizes(second).c_str(), i + 1, target); if (!i) s.desc("%s", what.c_str());
        finishSha(s, h, big, t, refSha(big, m.data(), m.size()), what);
    }
    s.label(big ? "SHA-512" : "SHA-256"); static const char *T[] = {"restored into garbage", "restored into the same context", "restored into a used context", "restored into the same context after more input"}; s.label(T[target]); s.nontrivial();
}
// totals beyond 512 MiB and single updates beyond 4 GiB
static void bigSha(Src &s, bool big, size_t len, bool single) {
    s.cpu(800); const vt_sha &h = big ? A->sha512 : A->sha256; Huge g = hugeMap(len); const u8 *m = g.p + (g.n - len);
    Mem c(h.ctx_size, Mem::ALIGNED, 0x77); h.init(c.p); std::vector<size_t> div;
    if (single) { size_t a = s.draw(2) ? s.draw(200) : 0; if (a) div.push_back(a); div.push_back(len - a); }
    else { size_t left = len; while (left) { size_t l = div.size() > 40 ? left : std::min<size_t>(left, 1 + s.draw(64u << 20)); div.push_back(l); left -= l; } }
    size_t a = 0; for (size_t l : div) { h.update(c.p, m + a, l); a += l; }
    std::string what = fmt("%zu bytes as %s", len, sizes(div).c_str()); s.desc("%s %s", big ? "SHA-512" : "SHA-256", what.c_str());
    Bytes want = refSha(big, m, len); hugeUnmap(g);
    finishSha(s, h, big, c.p, want, what); s.label(big ? "SHA-512" : "SHA-256"); s.label(single ? "single update" : "many updates"); s.label(len >> 32 ? ">= 4 GiB" : ">= 512 MiB"); s.nontrivial();
}
PROPERTY(c12_total, "C12.total") { bool big = s.sweep(s.idx & 1, 2); size_t len = (1ull << 29) + (s.draw(2) ? s.draw(300) : s.draw(200u << 20)); bigSha(s, big, len, s.draw(2)); }
PROPERTY(c12_huge, "C12.huge") { bool big = s.sweep(s.idx & 1, 2); size_t len = (1ull << 32) + s.draw(400); bigSha(s, big, len, true); }

// ================================================================== C13
static void feedShake(Src &s, void *ctx, const u8 *m, const std::vector<size_t> &div) {
    int mode = s.draw(3); size_t a = 0;
    for (size_t l : div) {
        if (mode == 2) A->shake256.absorb(ctx, m + a, l);
        else { Mem p(Bytes(m + a, m + a + l), mode); p.readOnly(); A->shake256.absorb(ctx, p.p, l); }
        a += l;
    }
}
static void squeeze(Src &s, void *ctx, ref::Shake256 &h, size_t out, const std::string &what, std::vector<size_t> *dv = nullptr) {
    auto div = division(s, out, 136); size_t a = 0;
    for (size_t l : div) {
        Mem o(l + 8, s.draw(2), 0x9d); A->shake256.squeeze(o.p, l, ctx); Bytes w(l); h.squeeze(w.data(), l); size_t d = firstDiff(o.p, w.data(), l);
        REQUIRE(d == l, "SHAKE-256 of %s: output byte %zu (squeezed as %s) is wrong", what.c_str(), a + d, sizes(div).c_str());
        for (size_t i = l; i < l + 8; i++) REQUIRE(o.p[i] == 0x9d, "SHAKE-256 of %s wrote beyond the %zu bytes asked for", what.c_str(), l);
        a += l;
    }
    if (dv) *dv = div;
}
static void shakeCase(Src &s, size_t len, size_t out) {
    Bytes m = s.bytes(len); auto div = division(s, len, 136); KNOBS();
    Mem c(A->shake256.ctx_size, Mem::ALIGNED, s.draw(4) * 100); A->shake256.init(c.p); feedShake(s, c.p, m.data(), div); A->shake256.finalize(c.p);
    ref::Shake256 h; h.update(m.data(), len); std::string what = fmt("%zu bytes absorbed as %s", len, sizes(div).c_str()); std::vector<size_t> od;
    squeeze(s, c.p, h, out, what, &od);
    s.desc("SHAKE-256 of %s, %zu bytes squeezed as %s", what.c_str(), out, sizes(od).c_str());
    s.label(div.size() > 1 ? "several absorbs" : "one absorb"); s.label(od.size() > 1 ? "several squeezes" : "one squeeze"); if (out > 136) s.label("output beyond one block"); if (len % 136 == 135) s.label("padding in one byte"); if (len % 136 == 0) s.label("message of whole blocks");
    s.nontrivial();
    if (s.draw(4) == 3) { size_t l2 = s.draw(300); Bytes m2 = s.bytes(l2); A->shake256.init(c.p); A->shake256.absorb(c.p, m2.data(), l2); A->shake256.finalize(c.p); ref::Shake256 h2; h2.update(m2.data(), l2); squeeze(s, c.p, h2, 40, fmt("context used again, %zu bytes", l2)); s.label("context used again"); }
}
PROPERTY(c13_length, "C13.length") { size_t len = s.sweep(s.idx % 1000, 1000); shakeCase(s, len, s.draw(3) ? s.size(600, 136) : 64); }
PROPERTY(c13_output, "C13.output") { size_t out = s.sweep(s.idx % 1000, 1000); shakeCase(s, s.draw(3) ? s.size(500, 136) : s.draw(60), out); }
PROPERTY(c13_split, "C13.split") { size_t len = s.size(1 << s.draw(16), 136); shakeCase(s, len, s.size(1 << s.draw(15), 136)); }
PROPERTY(c13_huge, "C13.huge") {
    s.cpu(850); bool over4 = s.sweep(s.idx % 2 == 0, 2); size_t len = (over4 ? 1ull << 32 : 1ull << 29) + s.draw(400); Huge g = hugeMap(len); const u8 *m = g.p + (g.n - len); size_t a = s.draw(2) ? s.draw(300) : 0;
    Mem c(A->shake256.ctx_size, Mem::ALIGNED, 0x77); A->shake256.init(c.p); if (a) A->shake256.absorb(c.p, m, a);
    A->shake256.absorb(c.p, m + a, len - a); A->shake256.finalize(c.p); ref::Shake256 h; h.update(m, len); hugeUnmap(g);
    s.desc("SHAKE-256 of %zu bytes, %zu of them first", len, a); s.label(over4 ? ">= 4 GiB" : ">= 512 MiB"); s.nontrivial(); squeeze(s, c.p, h, 200, fmt("%zu bytes", len));
}
