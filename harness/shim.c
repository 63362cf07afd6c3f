/* Compiled with each configuration of the library; the only harness file that sees the project's headers. */
#include "tiny_sphincs.h"
/* VT_NO_SHA, VT_NO_SHAKE: the hash functions cannot be reached under their names; only C12, C13, C09.hash and C18.message need them */
#ifndef VT_NO_SHA
#include "sha2.h"
#endif
#ifndef VT_NO_SHAKE
#include "fips202.h"
#endif
#include "vt_api.h"

#define W(x) extern const struct ts_parameter_set ts_ps_##x##_simple __attribute__((weak));
W(sha2_128f) W(sha2_128s) W(sha2_192f) W(sha2_192s) W(sha2_256f) W(sha2_256s)
W(shake_128f) W(shake_128s) W(shake_192f) W(shake_192s) W(shake_256f) W(shake_256s)

#define L3ON (TS_SUPPORT_L3 || TS_SUPPORT_L5)
#define S(x) { #x, &ts_ps_##x##_simple },
static const struct vt_set sets[] = {
#if TS_SUPPORT_SHA2
    S(sha2_128f)
#if TS_SUPPORT_S
    S(sha2_128s)
#endif
#if L3ON
    S(sha2_192f)
#if TS_SUPPORT_S
    S(sha2_192s)
#endif
#endif
#if TS_SUPPORT_L5
    S(sha2_256f)
#if TS_SUPPORT_S
    S(sha2_256s)
#endif
#endif
#endif
#if TS_SUPPORT_SHAKE
    S(shake_128f)
#if TS_SUPPORT_S
    S(shake_128s)
#endif
#if L3ON
    S(shake_192f)
#if TS_SUPPORT_S
    S(shake_192s)
#endif
#endif
#if TS_SUPPORT_L5
    S(shake_256f)
#if TS_SUPPORT_S
    S(shake_256s)
#endif
#endif
#endif
};

#ifndef VT_NO_SHA
static void i256(void *c) { ts_SHA256_init(c); }
static void u256(void *c, const void *m, uint64_t n) { ts_SHA256_update(c, m, n); }
static void f256(unsigned char *d, void *c) { ts_SHA256_final(d, c); }
static void t256(unsigned char *d, void *c, unsigned n) { ts_SHA256_final_trunc(d, c, n); }
static void s256(void *s, const void *c) { ts_SHA256_save_state(s, c); }
static void r256(void *c, const void *s) { ts_SHA256_restore_state_after_64(c, s); }
static void i512(void *c) { ts_SHA512_init(c); }
static void u512(void *c, const void *m, uint64_t n) { ts_SHA512_update(c, m, n); }
static void f512(unsigned char *d, void *c) { ts_SHA512_final(d, c); }
static void t512(unsigned char *d, void *c, unsigned n) { ts_SHA512_final_trunc(d, c, n); }
static void s512(void *s, const void *c) { ts_SHA512_save_state(s, c); }
static void r512(void *c, const void *s) { ts_SHA512_restore_state_after_128(c, s); }
#endif
#ifndef VT_NO_SHAKE
static void ik(void *c) { ts_shake256_inc_init(c); }
static void ak(void *c, const uint8_t *p, size_t n) { ts_shake256_inc_absorb(c, p, n); }
static void fk(void *c) { ts_shake256_inc_finalize(c); }
static void sk(uint8_t *o, size_t n, void *c) { ts_shake256_inc_squeeze(o, n, c); }
#endif

static int run_keygen(unsigned char *p, const struct ts_parameter_set *ps, vt_rng r) { return ts_gen_key(p, 0, ps, r); }
static void run_sign(const struct ts_parameter_set *ps, const unsigned char *key, const void *msg, size_t len, vt_rng r,
                     unsigned char *out, const unsigned *pieces, unsigned np) {
    struct ts_context ctx;
    ts_init_sign(&ctx, msg, len, ps, key, r);
    while (np--) { ts_sign(out, *pieces, &ctx); out += *pieces++; }
}
static int run_verify(const struct ts_parameter_set *ps, const unsigned char *pk, const void *msg, size_t len,
                      const unsigned char *sig, const unsigned *pieces, unsigned np) {
    struct ts_context ctx;
    ts_init_verify(&ctx, msg, len, ps, pk);
    while (np--) { ts_update_verify(sig, *pieces, &ctx); sig += *pieces++; }
    return ts_verify(&ctx);
}

static const struct vt_api api = {
    sizeof(struct ts_context), sizeof sets / sizeof sets[0], sets,
    ts_gen_key, ts_init_sign, ts_sign, ts_init_verify, ts_update_verify, ts_verify,
    ts_size_private_key, ts_size_public_key, ts_size_signature,
#ifdef VT_NO_SHA
    { 0 }, { 0 },
#else
    { sizeof(SHA256_CTX), 32, 64, 32, i256, u256, f256, t256, s256, r256 },
    { sizeof(SHA512_CTX), 64, 128, 64, i512, u512, f512, t512, s512, r512 },
#endif
#ifdef VT_NO_SHAKE
    { 0 },
#else
    { sizeof(SHAKE256_CTX), ik, ak, fk, sk },
#endif
    run_keygen, run_sign, run_verify,
};
const struct vt_api *vt_get_api(void) { return &api; }
