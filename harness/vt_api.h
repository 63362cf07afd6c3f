/* The stable table every build of the library exports to the harness (see shim.c). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ts_context;
struct ts_parameter_set;
typedef int (*vt_rng)(unsigned char *, size_t);

struct vt_set { const char *name; const struct ts_parameter_set *ps; };

struct vt_sha {                 /* SHA-256 or SHA-512 */
    unsigned ctx_size, state_size, block, digest;
    void (*init)(void *ctx);
    void (*update)(void *ctx, const void *msg, uint64_t count);
    void (*final)(unsigned char *digest, void *ctx);
    void (*final_trunc)(unsigned char *digest, void *ctx, unsigned n);
    void (*save)(void *state, const void *ctx);
    void (*restore)(void *ctx, const void *state);
};
struct vt_shake {
    unsigned ctx_size;
    void (*init)(void *ctx);
    void (*absorb)(void *ctx, const uint8_t *in, size_t n);
    void (*finalize)(void *ctx);
    void (*squeeze)(uint8_t *out, size_t n, void *ctx);
};
struct vt_api {
    unsigned ctx_size;
    unsigned nsets;                     /* sets the documentation promises for this configuration */
    const struct vt_set *sets;          /* ps == NULL: promised but not in the library */
    int (*gen_key)(unsigned char *, unsigned char *, const struct ts_parameter_set *, vt_rng);
    void (*init_sign)(struct ts_context *, const void *, size_t, const struct ts_parameter_set *, const unsigned char *, vt_rng);
    unsigned (*sign)(unsigned char *, unsigned, struct ts_context *);
    void (*init_verify)(struct ts_context *, const void *, size_t, const struct ts_parameter_set *, const unsigned char *);
    int (*update_verify)(const unsigned char *, unsigned, struct ts_context *);
    int (*verify)(struct ts_context *);
    unsigned (*size_private_key)(const struct ts_parameter_set *);
    unsigned (*size_public_key)(const struct ts_parameter_set *);
    unsigned (*size_signature)(const struct ts_parameter_set *);
    struct vt_sha sha256, sha512;
    struct vt_shake shake256;
    /* operations with the context on the stack, for RAM measurement.  'next' returns the size of the next
       request / piece; signature bytes go to / come from the caller's buffer */
    int (*run_keygen)(unsigned char *sk, const struct ts_parameter_set *, vt_rng);
    void (*run_sign)(const struct ts_parameter_set *, const unsigned char *sk, const void *msg, size_t len, vt_rng,
                     unsigned char *out, const unsigned *pieces, unsigned npieces);
    int (*run_verify)(const struct ts_parameter_set *, const unsigned char *pk, const void *msg, size_t len,
                      const unsigned char *sig, const unsigned *pieces, unsigned npieces);
};
const struct vt_api *vt_get_api(void);
#ifdef __cplusplus
}
#endif
