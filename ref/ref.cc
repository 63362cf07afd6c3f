#include "ref.h"
#include <string.h>
#include <assert.h>

namespace ref {

const Params PARAMS[12] = {
    // name                 n   k   a   h   d  hp
    {"sha2_128f_simple",  16, 33,  6, 66, 22, 3, true},
    {"sha2_128s_simple",  16, 14, 12, 63,  7, 9, true},
    {"sha2_192f_simple",  24, 33,  8, 66, 22, 3, true},
    {"sha2_192s_simple",  24, 17, 14, 63,  7, 9, true},
    {"sha2_256f_simple",  32, 35,  9, 68, 17, 4, true},
    {"sha2_256s_simple",  32, 22, 14, 64,  8, 8, true},
    {"shake_128f_simple", 16, 33,  6, 66, 22, 3, false},
    {"shake_128s_simple", 16, 14, 12, 63,  7, 9, false},
    {"shake_192f_simple", 24, 33,  8, 66, 22, 3, false},
    {"shake_192s_simple", 24, 17, 14, 63,  7, 9, false},
    {"shake_256f_simple", 32, 35,  9, 68, 17, 4, false},
    {"shake_256s_simple", 32, 22, 14, 64,  8, 8, false},
};
const Params *find(const std::string &name) {
    for (auto &p : PARAMS) if (name == p.name) return &p;
    return nullptr;
}

// ---------------------------------------------------------------- primitives, generic over lanes
typedef uint32_t V32 __attribute__((vector_size(64)));
typedef uint64_t V64 __attribute__((vector_size(64)));

static const uint32_t K256[64] = {
#define _(x) 0x##x
    _(428a2f98),_(71374491),_(b5c0fbcf),_(e9b5dba5),_(3956c25b),_(59f111f1),_(923f82a4),_(ab1c5ed5),
    _(d807aa98),_(12835b01),_(243185be),_(550c7dc3),_(72be5d74),_(80deb1fe),_(9bdc06a7),_(c19bf174),
    _(e49b69c1),_(efbe4786),_(0fc19dc6),_(240ca1cc),_(2de92c6f),_(4a7484aa),_(5cb0a9dc),_(76f988da),
    _(983e5152),_(a831c66d),_(b00327c8),_(bf597fc7),_(c6e00bf3),_(d5a79147),_(06ca6351),_(14292967),
    _(27b70a85),_(2e1b2138),_(4d2c6dfc),_(53380d13),_(650a7354),_(766a0abb),_(81c2c92e),_(92722c85),
    _(a2bfe8a1),_(a81a664b),_(c24b8b70),_(c76c51a3),_(d192e819),_(d6990624),_(f40e3585),_(106aa070),
    _(19a4c116),_(1e376c08),_(2748774c),_(34b0bcb5),_(391c0cb3),_(4ed8aa4a),_(5b9cca4f),_(682e6ff3),
    _(748f82ee),_(78a5636f),_(84c87814),_(8cc70208),_(90befffa),_(a4506ceb),_(bef9a3f7),_(c67178f2)
#undef _
};
static const uint32_t IV256[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                                  0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static const uint64_t IV512[8] = {
    0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};

// SHA-512 constants: first 64 bits of the fractional parts of the cube roots of the first 80 primes.
// Computed (integer cube root by bisection) rather than copied.
static uint64_t K512[80];
static struct InitK512 {
    InitK512() {
        int cnt = 0;
        for (int q = 2; cnt < 80; q++) {
            bool prime = true;
            for (int r = 2; r * r <= q; r++) if (q % r == 0) prime = false;
            if (!prime) continue;
            // find floor(cbrt(q) * 2^64) = floor(cbrt(q * 2^192)): x in [2^64, 8*2^64)
            unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 64;
            auto le = [&](unsigned __int128 x) {   // x^3 <= q * 2^192 ?
                // 256-bit arithmetic in 32-bit limbs
                uint32_t xl[3] = {(uint32_t)x, (uint32_t)(x >> 32), (uint32_t)(x >> 64)};
                uint32_t sq[6] = {0}, cu[9] = {0};
                for (int i = 0; i < 3; i++) { uint64_t c = 0;
                    for (int j = 0; j < 3; j++) { c += (uint64_t)xl[i] * xl[j] + sq[i + j]; sq[i + j] = (uint32_t)c; c >>= 32; }
                    sq[i + 3] = (uint32_t)c; }
                for (int i = 0; i < 6; i++) { uint64_t c = 0;
                    for (int j = 0; j < 3; j++) { c += (uint64_t)sq[i] * xl[j] + cu[i + j]; cu[i + j] = (uint32_t)c; c >>= 32; }
                    cu[i + 3] = (uint32_t)c; }
                // compare with q << 192 (limb 6)
                uint64_t top = cu[6] | ((uint64_t)cu[7] << 32);
                if (cu[8]) return false;
                if (top != (uint64_t)q) return top < (uint64_t)q;
                for (int i = 0; i < 6; i++) if (cu[i]) return false;
                return true;
            };
            while (hi - lo > 1) { auto m = lo + (hi - lo) / 2; if (le(m)) lo = m; else hi = m; }
            K512[cnt++] = (uint64_t)lo;
        }
    }
} initK512;

#define ROR32(x, r) (((x) >> (r)) | ((x) << (32 - (r))))
#define ROR64(x, r) (((x) >> (r)) | ((x) << (64 - (r))))
#define ROL64(x, r) (((x) << (r)) | ((x) >> (64 - (r))))

template <class V> static inline void comp256(V st[8], const V *blk) {
    V w[64];
    for (int i = 0; i < 16; i++) w[i] = blk[i];
    for (int i = 16; i < 64; i++) {
        V x = w[i - 15], y = w[i - 2];
        V s0 = ROR32(x, 7) ^ ROR32(x, 18) ^ (x >> 3);
        V s1 = ROR32(y, 17) ^ ROR32(y, 19) ^ (y >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    V a = st[0], b = st[1], c = st[2], d = st[3], e = st[4], f = st[5], g = st[6], h = st[7];
    for (int i = 0; i < 64; i++) {
        V t1 = h + (ROR32(e, 6) ^ ROR32(e, 11) ^ ROR32(e, 25)) + ((e & f) ^ (~e & g)) + K256[i] + w[i];
        V t2 = (ROR32(a, 2) ^ ROR32(a, 13) ^ ROR32(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    st[0] += a; st[1] += b; st[2] += c; st[3] += d; st[4] += e; st[5] += f; st[6] += g; st[7] += h;
}
template <class V> static inline void comp512(V st[8], const V *blk) {
    V w[80];
    for (int i = 0; i < 16; i++) w[i] = blk[i];
    for (int i = 16; i < 80; i++) {
        V x = w[i - 15], y = w[i - 2];
        V s0 = ROR64(x, 1) ^ ROR64(x, 8) ^ (x >> 7);
        V s1 = ROR64(y, 19) ^ ROR64(y, 61) ^ (y >> 6);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    V a = st[0], b = st[1], c = st[2], d = st[3], e = st[4], f = st[5], g = st[6], h = st[7];
    for (int i = 0; i < 80; i++) {
        V t1 = h + (ROR64(e, 14) ^ ROR64(e, 18) ^ ROR64(e, 41)) + ((e & f) ^ (~e & g)) + K512[i] + w[i];
        V t2 = (ROR64(a, 28) ^ ROR64(a, 34) ^ ROR64(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
        h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    st[0] += a; st[1] += b; st[2] += c; st[3] += d; st[4] += e; st[5] += f; st[6] += g; st[7] += h;
}
// Keccak-f[1600]: round constants from the LFSR and rotation offsets from the rho recurrence of FIPS 202.
struct KeccakTab {
    uint64_t rc[24]; int rot[25];
    KeccakTab() {
        u8 r = 1;
        for (int i = 0; i < 24; i++) {
            rc[i] = 0;
            for (int j = 0; j < 7; j++) {
                if (r & 1) rc[i] |= 1ull << ((1 << j) - 1);
                r = (r & 0x80) ? (r << 1) ^ 0x71 : r << 1;
            }
        }
        int x = 1, y = 0;
        memset(rot, 0, sizeof rot);
        for (int t = 0; t < 24; t++) {
            rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny;
        }
    }
};
static const KeccakTab KT;
template <class V> static inline V rolv(V x, int r) { return r ? (x << r) | (x >> (64 - r)) : x; }
template <class V> static void keccakf(V *A) {
    for (int rnd = 0; rnd < 24; rnd++) {
        V C[5], D[5], B[25];
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rolv(C[(x + 1) % 5], 1);
#pragma GCC unroll 25
        for (int i = 0; i < 25; i++) {
            int x = i % 5, y = i / 5;
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rolv(A[i] ^ D[x], KT.rot[i]);
        }
#pragma GCC unroll 25
        for (int i = 0; i < 25; i++) {
            int x = i % 5, y = i - x;
            A[i] = B[i] ^ (~B[y + (x + 1) % 5] & B[y + (x + 2) % 5]);
        }
        A[0] ^= KT.rc[rnd];
    }
}

static inline uint32_t be32(const u8 *p) { uint32_t v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
static inline uint64_t be64(const u8 *p) { uint64_t v; memcpy(&v, p, 8); return __builtin_bswap64(v); }
static inline void pbe(u8 *p, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) { p[i] = (u8)v; v >>= 8; } }

// ---- incremental single hashes
Sha256::Sha256() { memcpy(s, IV256, 32); total = 0; }
static void blk256(uint32_t *s, const u8 *p) { uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i); comp256<uint32_t>(s, w); }
static void blk512(uint64_t *s, const u8 *p) { uint64_t w[16]; for (int i = 0; i < 16; i++) w[i] = be64(p + 8 * i); comp512<uint64_t>(s, w); }
void Sha256::update(const void *v, size_t n) {
    const u8 *p = (const u8 *)v;
    while (n) {
        size_t have = total % 64;
        if (have == 0 && n >= 64) { blk256(s, p); p += 64; n -= 64; total += 64; continue; }
        buf[have] = *p++; n--; total++;
        if (total % 64 == 0) blk256(s, buf);
    }
}
void Sha256::final(u8 *out) {
    uint64_t bits = total * 8; u8 one = 0x80, z = 0, l[8];
    update(&one, 1); while (total % 64 != 56) update(&z, 1);
    pbe(l, bits, 8); update(l, 8);
    for (int i = 0; i < 8; i++) pbe(out + 4 * i, s[i], 4);
}
Sha512::Sha512() { memcpy(s, IV512, 64); total = 0; }
void Sha512::update(const void *v, size_t n) {
    const u8 *p = (const u8 *)v;
    while (n) {
        size_t have = total % 128;
        if (have == 0 && n >= 128) { blk512(s, p); p += 128; n -= 128; total += 128; continue; }
        buf[have] = *p++; n--; total++;
        if (total % 128 == 0) blk512(s, buf);
    }
}
void Sha512::final(u8 *out) {
    uint64_t t = total; u8 one = 0x80, z = 0, l[16];
    update(&one, 1); while (total % 128 != 112) update(&z, 1);
    pbe(l, t >> 61, 8); pbe(l + 8, t << 3, 8); update(l, 16);
    for (int i = 0; i < 8; i++) pbe(out + 8 * i, s[i], 8);
}
Shake256::Shake256() { memset(s, 0, sizeof s); pos = 0; squeezing = false; }
void Shake256::update(const void *v, size_t n) {
    const u8 *p = (const u8 *)v;
    while (n) {
        if (pos == 0 && n >= 136) {
            for (int i = 0; i < 17; i++) { uint64_t w; memcpy(&w, p + 8 * i, 8); s[i] ^= w; }
            keccakf<uint64_t>(s); p += 136; n -= 136; continue;
        }
        ((u8 *)s)[pos++] ^= *p++; n--;
        if (pos == 136) { keccakf<uint64_t>(s); pos = 0; }
    }
}
void Shake256::squeeze(u8 *out, size_t n) {
    if (!squeezing) { ((u8 *)s)[pos] ^= 0x1f; ((u8 *)s)[135] ^= 0x80; keccakf<uint64_t>(s); pos = 0; squeezing = true; }
    while (n--) { if (pos == 136) { keccakf<uint64_t>(s); pos = 0; } *out++ = ((u8 *)s)[pos++]; }
}

// ---------------------------------------------------------------- addresses
Adrs::Adrs() { memset(b, 0, 32); }
Adrs &Adrs::layer(uint32_t v) { pbe(b, v, 4); return *this; }
Adrs &Adrs::tree(uint64_t v) { memset(b + 4, 0, 4); pbe(b + 8, v, 8); return *this; }
Adrs &Adrs::type(uint32_t v) { pbe(b + 16, v, 4); memset(b + 20, 0, 12); return *this; }   // setTypeAndClear
Adrs &Adrs::keypair(uint32_t v) { pbe(b + 20, v, 4); return *this; }
Adrs &Adrs::w2(uint32_t v) { pbe(b + 24, v, 4); return *this; }
Adrs &Adrs::w3(uint32_t v) { pbe(b + 28, v, 4); return *this; }
enum { WOTS_HASH, WOTS_PK, TREE, FORS_TREE, FORS_ROOTS, WOTS_PRF, FORS_PRF };

// ---------------------------------------------------------------- keys
void Key::mids() {
    if (!p->sha2) return;
    u8 blk[128] = {0};
    memcpy(blk, pk_seed, p->n);
    memcpy(mid256, IV256, 32); blk256(mid256, blk);
    memcpy(mid512, IV512, 64); blk512(mid512, blk);
}
void Key::setSecret(const Params *pp, const u8 *k) {
    p = pp; int n = p->n;
    memcpy(sk_seed, k, n); memcpy(sk_prf, k + n, n); memcpy(pk_seed, k + 2 * n, n); memcpy(root, k + 3 * n, n);
    top.reset(); mids();
}
void Key::setPublic(const Params *pp, const u8 *k) {
    p = pp; int n = p->n;
    memset(sk_seed, 0, 32); memset(sk_prf, 0, 32); memcpy(pk_seed, k, n); memcpy(root, k + n, n);
    top.reset(); mids();
}
void Key::setSeeds(const Params *pp, const u8 *k) {
    p = pp; int n = p->n;
    memcpy(sk_seed, k, n); memcpy(sk_prf, k + n, n); memcpy(pk_seed, k + 2 * n, n);
    top.reset(); mids();
    memcpy(root, topTree().root(), n);
}
Bytes Key::secretBytes() const {
    int n = p->n; Bytes r(4 * n);
    memcpy(&r[0], sk_seed, n); memcpy(&r[n], sk_prf, n); memcpy(&r[2 * n], pk_seed, n); memcpy(&r[3 * n], root, n);
    return r;
}
Bytes Key::publicBytes() const { Bytes s = secretBytes(); return Bytes(s.begin() + 2 * p->n, s.end()); }
const Tree &Key::topTree() const {
    if (!top) top = std::make_shared<Tree>(xmssTree(*this, p->d - 1, 0));
    return *top;
}

// ---------------------------------------------------------------- tweakable hashes, batched
// out[i] = first n bytes of Hash(PK.seed, adrs[i], in[i][0..m))
static void batch(const Key &key, size_t cnt, const Adrs *ad, const u8 *in, size_t stride, size_t m, u8 *out) {
    const int n = key.p->n;
    if (key.p->sha2) {
        const bool big = m > (size_t)n && n > 16;
        const size_t B = big ? 128 : 64, lenb = big ? 16 : 8;
        const size_t tot = 22 + m, nblk = (tot + 1 + lenb + B - 1) / B;
        std::vector<u8> buf(nblk * B);
        const int L = big ? 8 : 16;
        std::vector<V32> w32(big ? 0 : nblk * 16);
        std::vector<V64> w64(big ? nblk * 16 : 0);
        for (size_t i0 = 0; i0 < cnt; i0 += L) {
            int act = cnt - i0 < (size_t)L ? (int)(cnt - i0) : L;
            for (int l = 0; l < act; l++) {
                memset(buf.data(), 0, buf.size());
                const u8 *a = ad[i0 + l].b;
                buf[0] = a[3]; memcpy(&buf[1], a + 8, 8); buf[9] = a[19]; memcpy(&buf[10], a + 20, 12);
                memcpy(&buf[22], in + (i0 + l) * stride, m);
                buf[tot] = 0x80; pbe(&buf[buf.size() - 8], (B + tot) * 8, 8);
                if (big) for (size_t j = 0; j < nblk * 16; j++) w64[j][l] = be64(&buf[8 * j]);
                else for (size_t j = 0; j < nblk * 16; j++) w32[j][l] = be32(&buf[4 * j]);
            }
            if (big) {
                V64 st[8]; for (int j = 0; j < 8; j++) st[j] = (V64){} + key.mid512[j];
                for (size_t b = 0; b < nblk; b++) comp512<V64>(st, &w64[16 * b]);
                for (int l = 0; l < act; l++) for (int j = 0; j < n / 8; j++) pbe(out + (i0 + l) * n + 8 * j, st[j][l], 8);
            } else if (act <= 2) {      // not worth the lanes
                for (int l = 0; l < act; l++) {
                    uint32_t st[8], w[16]; memcpy(st, key.mid256, 32);
                    for (size_t b = 0; b < nblk; b++) { for (int j = 0; j < 16; j++) w[j] = w32[16 * b + j][l]; comp256<uint32_t>(st, w); }
                    for (int j = 0; j < n / 4; j++) pbe(out + (i0 + l) * n + 4 * j, st[j], 4);
                }
            } else {
                V32 st[8]; for (int j = 0; j < 8; j++) st[j] = (V32){} + key.mid256[j];
                for (size_t b = 0; b < nblk; b++) comp256<V32>(st, &w32[16 * b]);
                for (int l = 0; l < act; l++) for (int j = 0; j < n / 4; j++) pbe(out + (i0 + l) * n + 4 * j, st[j][l], 4);
            }
        }
    } else {
        const size_t R = 136, tot = n + 32 + m, nblk = tot / R + 1;
        std::vector<u8> buf(nblk * R);
        std::vector<V64> w(nblk * 17);
        for (size_t i0 = 0; i0 < cnt; i0 += 8) {
            int act = cnt - i0 < 8 ? (int)(cnt - i0) : 8;
            for (int l = 0; l < act; l++) {
                memset(buf.data(), 0, buf.size());
                memcpy(&buf[0], key.pk_seed, n); memcpy(&buf[n], ad[i0 + l].b, 32);
                memcpy(&buf[n + 32], in + (i0 + l) * stride, m);
                buf[tot] ^= 0x1f; buf[buf.size() - 1] ^= 0x80;
                for (size_t j = 0; j < nblk * 17; j++) { uint64_t x; memcpy(&x, &buf[8 * j], 8); w[j][l] = x; }
            }
            V64 st[25]; for (auto &x : st) x = (V64){};
            for (size_t b = 0; b < nblk; b++) { for (int j = 0; j < 17; j++) st[j] ^= w[17 * b + j]; keccakf<V64>(st); }
            for (int l = 0; l < act; l++) for (int j = 0; j < n / 8; j++) { uint64_t x = st[j][l]; memcpy(out + (i0 + l) * n + 8 * j, &x, 8); }
        }
    }
}

// ---------------------------------------------------------------- message hashing
void prfMsg(const Key &k, const u8 *opt, const u8 *msg, size_t len, u8 *R) {
    int n = k.p->n;
    if (!k.p->sha2) {
        Shake256 s; s.update(k.sk_prf, n); s.update(opt, n); s.update(msg, len); s.squeeze(R, n); return;
    }
    const size_t B = n == 16 ? 64 : 128;
    u8 ik[128], ok[128], h[64];
    for (size_t i = 0; i < B; i++) { u8 c = i < (size_t)n ? k.sk_prf[i] : 0; ik[i] = c ^ 0x36; ok[i] = c ^ 0x5c; }
    if (n == 16) {
        Sha256 a; a.update(ik, B); a.update(opt, n); a.update(msg, len); a.final(h);
        Sha256 b; b.update(ok, B); b.update(h, 32); b.final(h);
    } else {
        Sha512 a; a.update(ik, B); a.update(opt, n); a.update(msg, len); a.final(h);
        Sha512 b; b.update(ok, B); b.update(h, 64); b.final(h);
    }
    memcpy(R, h, n);
}
Digest hMsg(const Key &k, const u8 *R, const u8 *msg, size_t len) {
    const Params &p = *k.p; int n = p.n;
    size_t mdl = (p.k * p.a + 7) / 8, tl = (p.h - p.hp + 7) / 8, ll = (p.hp + 7) / 8, m = mdl + tl + ll;
    Digest D; D.raw.resize(m);
    if (!p.sha2) {
        Shake256 s; s.update(R, n); s.update(k.pk_seed, n); s.update(k.root, n); s.update(msg, len); s.squeeze(D.raw.data(), m);
    } else {
        u8 h[64]; size_t hl = n == 16 ? 32 : 64;
        if (n == 16) { Sha256 s; s.update(R, n); s.update(k.pk_seed, n); s.update(k.root, n); s.update(msg, len); s.final(h); }
        else { Sha512 s; s.update(R, n); s.update(k.pk_seed, n); s.update(k.root, n); s.update(msg, len); s.final(h); }
        size_t o = 0;
        for (uint32_t c = 0; o < m; c++) {
            u8 cb[4], t[64]; pbe(cb, c, 4);
            if (n == 16) { Sha256 s; s.update(R, n); s.update(k.pk_seed, n); s.update(h, hl); s.update(cb, 4); s.final(t); }
            else { Sha512 s; s.update(R, n); s.update(k.pk_seed, n); s.update(h, hl); s.update(cb, 4); s.final(t); }
            for (size_t i = 0; i < hl && o < m; i++) D.raw[o++] = t[i];
        }
    }
    for (int i = 0; i < p.k; i++) {
        uint32_t v = 0;
        for (int j = 0; j < p.a; j++) { int bit = i * p.a + j; v = v << 1 | ((D.raw[bit / 8] >> (7 - bit % 8)) & 1); }
        D.fors.push_back(v);
    }
    D.tree = 0; for (size_t i = 0; i < tl; i++) D.tree = D.tree << 8 | D.raw[mdl + i];
    int tb = p.h - p.hp; if (tb < 64) D.tree &= ((uint64_t)1 << tb) - 1;
    D.leaf = 0; for (size_t i = 0; i < ll; i++) D.leaf = D.leaf << 8 | D.raw[mdl + tl + i];
    D.leaf &= (1u << p.hp) - 1;
    return D;
}

// ---------------------------------------------------------------- WOTS+
std::vector<int> wotsDigits(const Params &p, const u8 *v) {
    std::vector<int> d; int cs = 0;
    for (int i = 0; i < p.n; i++) { d.push_back(v[i] >> 4); d.push_back(v[i] & 15); }
    for (int x : d) cs += 15 - x;
    for (int s = 8; s >= 0; s -= 4) d.push_back(cs >> s & 15);
    return d;
}
// advance cnt chains; chain c of keypair kp[c], index ci[c], from from[c] to to[c] (exclusive), in place
static void chains(const Key &k, int layer, uint64_t tree, const std::vector<uint32_t> &kp, const std::vector<uint32_t> &ci,
                   const std::vector<int> &from, const std::vector<int> &to, u8 *val) {
    const int n = k.p->n;
    std::vector<Adrs> ad; std::vector<u8> in, out; std::vector<size_t> idx;
    for (int s = 0; s < 15; s++) {
        ad.clear(); in.clear(); idx.clear();
        for (size_t c = 0; c < kp.size(); c++) if (from[c] <= s && s < to[c]) {
            Adrs a; a.layer(layer).tree(tree).type(WOTS_HASH).keypair(kp[c]).w2(ci[c]).w3(s);
            ad.push_back(a); idx.push_back(c); in.insert(in.end(), val + c * n, val + (c + 1) * n);
        }
        if (idx.empty()) continue;
        out.resize(in.size());
        batch(k, idx.size(), ad.data(), in.data(), n, n, out.data());
        for (size_t i = 0; i < idx.size(); i++) memcpy(val + idx[i] * n, &out[i * n], n);
    }
}
static void wotsSecrets(const Key &k, int layer, uint64_t tree, const std::vector<uint32_t> &kp, const std::vector<uint32_t> &ci, u8 *val) {
    std::vector<Adrs> ad;
    for (size_t c = 0; c < kp.size(); c++) { Adrs a; a.layer(layer).tree(tree).type(WOTS_PRF).keypair(kp[c]).w2(ci[c]).w3(0); ad.push_back(a); }
    batch(k, kp.size(), ad.data(), k.sk_seed, 0, k.p->n, val);
}
void wotsSign(const Key &k, int layer, uint64_t tree, uint32_t leaf, const u8 *value, u8 *out) {
    int len = k.p->len(); auto d = wotsDigits(*k.p, value);
    std::vector<uint32_t> kp(len, leaf), ci(len); for (int i = 0; i < len; i++) ci[i] = i;
    wotsSecrets(k, layer, tree, kp, ci, out);
    chains(k, layer, tree, kp, ci, std::vector<int>(len, 0), d, out);
}
static void pkCompress(const Key &k, int layer, uint64_t tree, uint32_t leaf, const u8 *tops, u8 *out) {
    Adrs a; a.layer(layer).tree(tree).type(WOTS_PK).keypair(leaf);
    batch(k, 1, &a, tops, 0, (size_t)k.p->n * k.p->len(), out);
}
static void buildUp(const Key &k, Tree &t, Adrs base, uint32_t firstLeafIndex) {
    const int n = k.p->n; uint32_t first = firstLeafIndex;
    for (uint32_t z = 1; t.level.back().size() > (size_t)n; z++) {
        const Bytes &lo = t.level.back(); size_t cnt = lo.size() / n / 2; first >>= 1;
        std::vector<Adrs> ad(cnt, base);
        for (size_t i = 0; i < cnt; i++) ad[i].w2(z).w3(first + i);
        Bytes up(cnt * n); batch(k, cnt, ad.data(), lo.data(), 2 * n, 2 * n, up.data());
        t.level.push_back(up);
    }
}
Tree xmssTree(const Key &k, int layer, uint64_t tree) {
    const Params &p = *k.p; const int n = p.n, len = p.len(), N = 1 << p.hp;
    Tree t; t.level.push_back(Bytes((size_t)N * n));
    const int G = 32;                                     // leaves per group, to bound memory
    for (int l0 = 0; l0 < N; l0 += G) {
        int g = N - l0 < G ? N - l0 : G;
        std::vector<uint32_t> kp, ci;
        for (int l = 0; l < g; l++) for (int i = 0; i < len; i++) { kp.push_back(l0 + l); ci.push_back(i); }
        Bytes v((size_t)g * len * n);
        wotsSecrets(k, layer, tree, kp, ci, v.data());
        chains(k, layer, tree, kp, ci, std::vector<int>(kp.size(), 0), std::vector<int>(kp.size(), 15), v.data());
        std::vector<Adrs> ad(g);
        for (int l = 0; l < g; l++) ad[l].layer(layer).tree(tree).type(WOTS_PK).keypair(l0 + l);
        batch(k, g, ad.data(), v.data(), (size_t)len * n, (size_t)len * n, &t.level[0][(size_t)l0 * n]);
    }
    Adrs b; b.layer(layer).tree(tree).type(TREE);
    buildUp(k, t, b, 0);
    return t;
}

// ---------------------------------------------------------------- FORS
static Tree forsTree(const Key &k, uint64_t tree, uint32_t leaf, int i, Bytes *secrets) {
    const Params &p = *k.p; const int n = p.n; size_t N = (size_t)1 << p.a;
    std::vector<Adrs> ad(N);
    for (size_t j = 0; j < N; j++) ad[j].layer(0).tree(tree).type(FORS_PRF).keypair(leaf).w2(0).w3(i * N + j);
    secrets->resize(N * n);
    batch(k, N, ad.data(), k.sk_seed, 0, n, secrets->data());
    for (size_t j = 0; j < N; j++) { ad[j] = Adrs(); ad[j].layer(0).tree(tree).type(FORS_TREE).keypair(leaf).w2(0).w3(i * N + j); }
    Tree t; t.level.push_back(Bytes(N * n));
    batch(k, N, ad.data(), secrets->data(), n, n, t.level[0].data());
    Adrs b; b.layer(0).tree(tree).type(FORS_TREE).keypair(leaf);
    buildUp(k, t, b, i * N);
    return t;
}
static void authPath(const Tree &t, uint32_t idx, int height, int n, Bytes &out) {
    for (int z = 0; z < height; z++) {
        size_t s = (idx >> z) ^ 1;
        out.insert(out.end(), t.level[z].begin() + s * n, t.level[z].begin() + (s + 1) * n);
    }
}
Bytes signFors(const Key &k, const u8 *R, const Digest &D, int trees) {
    const Params &p = *k.p; Bytes out(R, R + p.n);
    for (int i = 0; i < trees && i < p.k; i++) {
        Bytes sec; Tree t = forsTree(k, D.tree, D.leaf, i, &sec);
        out.insert(out.end(), sec.begin() + (size_t)D.fors[i] * p.n, sec.begin() + (size_t)(D.fors[i] + 1) * p.n);
        authPath(t, D.fors[i], p.a, p.n, out);
    }
    return out;
}
static thread_local unsigned g_mirror;                      // craft: heights at which the sibling is made equal to the node
static void climb(const Key &k, Adrs base, uint32_t idx, uint32_t absIdx, const u8 *auth, int height, u8 *node) {
    const int n = k.p->n; u8 in[64];
    for (int z = 0; z < height; z++) {
        if (g_mirror >> z & 1) memcpy(const_cast<u8 *>(auth) + z * n, node, n);
        if (idx >> z & 1) { memcpy(in, auth + z * n, n); memcpy(in + n, node, n); }
        else { memcpy(in, node, n); memcpy(in + n, auth + z * n, n); }
        Adrs a = base; a.w2(z + 1).w3(absIdx >> (z + 1));
        batch(k, 1, &a, in, 0, 2 * n, node);
    }
}
static void forsPk(const Key &k, const Digest &D, const u8 *roots, u8 *out) {
    Adrs a; a.layer(0).tree(D.tree).type(FORS_ROOTS).keypair(D.leaf);
    batch(k, 1, &a, roots, 0, (size_t)k.p->n * k.p->k, out);
}
static void forsRootFromSig(const Key &k, const Digest &D, int i, const u8 *s, u8 *node) {
    const Params &p = *k.p; uint32_t abs = ((uint32_t)i << p.a) + D.fors[i];
    Adrs a; a.layer(0).tree(D.tree).type(FORS_TREE).keypair(D.leaf).w2(0).w3(abs);
    batch(k, 1, &a, s, 0, p.n, node);
    Adrs b; b.layer(0).tree(D.tree).type(FORS_TREE).keypair(D.leaf);
    climb(k, b, D.fors[i], abs, s + p.n, p.a, node);
}
static void layerRoot(const Key &k, int layer, uint64_t tree, uint32_t leaf, const u8 *value, const u8 *s, u8 *node) {
    const Params &p = *k.p; int len = p.len();
    auto d = wotsDigits(p, value);
    std::vector<uint32_t> kp(len, leaf), ci(len); for (int i = 0; i < len; i++) ci[i] = i;
    Bytes v(s, s + (size_t)len * p.n);
    chains(k, layer, tree, kp, ci, d, std::vector<int>(len, 15), v.data());
    pkCompress(k, layer, tree, leaf, v.data(), node);
    Adrs b; b.layer(layer).tree(tree).type(TREE);
    climb(k, b, leaf, leaf, s + (size_t)len * p.n, p.hp, node);
}
static void position(const Params &p, const Digest &D, int layer, uint64_t &tree, uint32_t &leaf) {
    tree = D.tree; leaf = D.leaf;
    for (int j = 0; j < layer; j++) { leaf = (uint32_t)(tree & ((1u << p.hp) - 1)); tree >>= p.hp; }
}

// ---------------------------------------------------------------- signatures
Bytes sign(const Key &k, const u8 *opt, const u8 *msg, size_t len) {
    const Params &p = *k.p; const int n = p.n; u8 R[32], node[32];
    prfMsg(k, opt, msg, len, R);
    Digest D = hMsg(k, R, msg, len);
    Bytes out = signFors(k, R, D, p.k), roots;
    for (int i = 0; i < p.k; i++) {
        forsRootFromSig(k, D, i, &out[n + (size_t)i * (p.a + 1) * n], node);
        roots.insert(roots.end(), node, node + n);
    }
    forsPk(k, D, roots.data(), node);
    for (int j = 0; j < p.d; j++) {
        uint64_t tree; uint32_t leaf; position(p, D, j, tree, leaf);
        Bytes w((size_t)p.len() * n); wotsSign(k, j, tree, leaf, node, w.data());
        out.insert(out.end(), w.begin(), w.end());
        Tree tmp; const Tree *t;
        if (j == p.d - 1) t = &k.topTree(); else { tmp = xmssTree(k, j, tree); t = &tmp; }
        authPath(*t, leaf, p.hp, n, out);
        memcpy(node, t->root(), n);
    }
    return out;
}
std::vector<Bytes> recompute(const Key &k, const Digest &D, const u8 *sig) {
    const Params &p = *k.p; const int n = p.n; u8 node[32], nx[32]; Bytes roots; std::vector<Bytes> r;
    const u8 *s = sig + n;
    for (int i = 0; i < p.k; i++, s += (p.a + 1) * n) { forsRootFromSig(k, D, i, s, node); roots.insert(roots.end(), node, node + n); }
    forsPk(k, D, roots.data(), node);
    r.push_back(Bytes(node, node + n));
    for (int j = 0; j < p.d; j++, s += p.layerBytes()) {
        uint64_t tree; uint32_t leaf; position(p, D, j, tree, leaf);
        layerRoot(k, j, tree, leaf, node, s, nx); memcpy(node, nx, n);
        r.push_back(Bytes(node, node + n));
    }
    return r;
}
bool verify(const Key &k, const u8 *msg, size_t len, const u8 *sig, size_t siglen) {
    if (siglen != k.p->sig()) return false;
    Digest D = hMsg(k, sig, msg, len);
    return !memcmp(recompute(k, D, sig).back().data(), k.root, k.p->n);
}

static int digitSum(const u8 *v, int n) { int s = 0; for (int i = 0; i < n; i++) s += (v[i] >> 4) + (v[i] & 15); return s; }

Bytes craft(const Key &k, const u8 *msg, size_t len, const std::function<void(u8 *, size_t)> &fill, const CraftOpt &o, int *extremeSum) {
    const Params &p = *k.p; const int n = p.n;
    Bytes sig(p.sig());
    fill(&sig[0], n);                                          // R is free
    Digest D = hMsg(k, &sig[0], msg, len);
    size_t lower = p.forsBytes() + (size_t)(p.d - 1) * p.layerBytes();
    fill(&sig[n], lower);
    u8 node[32], nx[32]; Bytes roots; u8 *s = &sig[n];
    // keeps the auth-path node (at 'last') with the most extreme digit sum of the resulting value
    auto search = [&](u8 *last, const std::function<void(u8 *)> &eval, u8 *result) {
        Bytes best(last, last + n); eval(result); int bs = digitSum(result, n);
        uint64_t c0; memcpy(&c0, last, 8);
        for (int t = 1; t < o.trials; t++) {
            uint64_t c = c0 + t; memcpy(last, &c, 8);
            u8 r[32]; eval(r); int v = digitSum(r, n);
            if (o.extremeHigh ? v > bs : v < bs) { bs = v; best.assign(last, last + n); memcpy(result, r, n); }
        }
        memcpy(last, best.data(), n);
        if (extremeSum) *extremeSum = bs;
    };
    for (int i = 0; i < p.k; i++, s += (p.a + 1) * n) { if (o.mirror && i == o.mirrorTree) g_mirror = o.mirror; forsRootFromSig(k, D, i, s, node); g_mirror = 0; roots.insert(roots.end(), node, node + n); }
    if (o.extremeLayer == 0 && o.trials) {
        u8 *last = s - n;
        // everything below the last node of the last FORS tree is fixed: precompute the child
        u8 child[32]; uint32_t abs = ((uint32_t)(p.k - 1) << p.a) + D.fors[p.k - 1];
        const u8 *f = s - (p.a + 1) * n;
        Adrs a; a.layer(0).tree(D.tree).type(FORS_TREE).keypair(D.leaf).w2(0).w3(abs);
        batch(k, 1, &a, f, 0, n, child);
        Adrs b; b.layer(0).tree(D.tree).type(FORS_TREE).keypair(D.leaf);
        climb(k, b, D.fors[p.k - 1], abs, f + n, p.a - 1, child);
        search(last, [&](u8 *r) {
            u8 in[64]; bool right = D.fors[p.k - 1] >> (p.a - 1) & 1;
            memcpy(in + (right ? n : 0), child, n); memcpy(in + (right ? 0 : n), last, n);
            Adrs c = b; c.w2(p.a).w3(abs >> p.a);
            batch(k, 1, &c, in, 0, 2 * n, &roots[(size_t)(p.k - 1) * n]);
            forsPk(k, D, roots.data(), r);
        }, node);
        forsRootFromSig(k, D, p.k - 1, s - (p.a + 1) * n, &roots[(size_t)(p.k - 1) * n]);
    }
    forsPk(k, D, roots.data(), node);
    for (int j = 0; j < p.d - 1; j++, s += p.layerBytes()) {
        uint64_t tree; uint32_t leaf; position(p, D, j, tree, leaf);
        if (o.mirror && j == o.mirrorLayer) g_mirror = o.mirror;
        layerRoot(k, j, tree, leaf, node, s, nx); g_mirror = 0;
        if (o.extremeLayer == j + 1 && o.trials) {
            // child of the last climb step
            u8 child[32]; auto d = wotsDigits(p, node); int wl = p.len();
            std::vector<uint32_t> kp(wl, leaf), ci(wl); for (int i = 0; i < wl; i++) ci[i] = i;
            Bytes v(s, s + (size_t)wl * n);
            chains(k, j, tree, kp, ci, d, std::vector<int>(wl, 15), v.data());
            pkCompress(k, j, tree, leaf, v.data(), child);
            Adrs b; b.layer(j).tree(tree).type(TREE);
            climb(k, b, leaf, leaf, s + (size_t)wl * n, p.hp - 1, child);
            u8 *last = s + p.layerBytes() - n;
            const int G = 16; bool right = leaf >> (p.hp - 1) & 1;
            std::vector<Adrs> ca(G, b); for (auto &x : ca) x.w2(p.hp).w3(0);
            Bytes in(G * 2 * n), out(G * n); uint64_t c0; memcpy(&c0, last, 8); int bs = digitSum(nx, n); Bytes best(last, last + n);
            auto done = [&] { return o.stopAt >= 0 && (o.extremeHigh ? bs >= o.stopAt : bs <= o.stopAt); };
            for (int t = 1; t < o.trials && !done(); t += G) {
                for (int g = 0; g < G; g++) {
                    u8 *q = &in[(size_t)g * 2 * n]; uint64_t c = c0 + t + g;
                    memcpy(q + (right ? n : 0), child, n); memcpy(q + (right ? 0 : n), last, n); memcpy(q + (right ? 0 : n), &c, 8);
                }
                batch(k, G, ca.data(), in.data(), 2 * n, 2 * n, out.data());
                for (int g = 0; g < G; g++) {
                    int v = digitSum(&out[(size_t)g * n], n);
                    if (o.extremeHigh ? v > bs : v < bs) { bs = v; memcpy(nx, &out[(size_t)g * n], n); uint64_t c = c0 + t + g; memcpy(best.data(), &c, 8); }
                }
            }
            memcpy(last, best.data(), n); if (extremeSum) *extremeSum = bs;
        }
        memcpy(node, nx, n);
    }
    uint64_t tree; uint32_t leaf; position(p, D, p.d - 1, tree, leaf);
    wotsSign(k, p.d - 1, tree, leaf, node, s);
    Bytes ap; authPath(k.topTree(), leaf, p.hp, n, ap);
    memcpy(s + (size_t)p.len() * n, ap.data(), ap.size());
    return sig;
}
}
