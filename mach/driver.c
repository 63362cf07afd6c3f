/* Serves the library on another machine: requests on standard input, answers on standard output (little-endian lengths and
   numbers whatever the machine).  Freestanding; see p_mach.cc for the other end. */
#include "vt_api.h"
#include <string.h>
typedef unsigned char u8; typedef uint32_t u32;

/* ---- system calls and the few functions a compiler expects */
static long sys3(long n, long a, long b, long c) {
#if defined __i386__
    long r; __asm__ volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r;
#elif defined __mips__
    register long v0 __asm__("$2") = n; register long a0 __asm__("$4") = a; register long a1 __asm__("$5") = b; register long a2 __asm__("$6") = c;
    __asm__ volatile("syscall" : "+r"(v0) : "r"(a0), "r"(a1), "r"(a2) : "$7", "memory"); return v0;
#else
#error no such machine
#endif
}
void *memcpy(void *d, const void *s, size_t n) { volatile u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n) { volatile u8 *a = d; const u8 *b = s; if ((size_t)(a - b) >= n) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t n) { volatile u8 *a = d; while (n--) *a++ = c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const volatile u8 *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (((const volatile char *)s)[n]) n++; return n; }
/* functions a library without much of a C library may still expect */
#define WEAK __attribute__((weak))
WEAK int strcmp(const char *x, const char *y) { const volatile u8 *a = (const u8 *)x, *b = (const u8 *)y; while (*a && *a == *b) a++, b++; return *a - *b; }
WEAK void *memchr(const void *p, int c, size_t n) { const volatile u8 *a = p; for (; n--; a++) if (*a == (u8)c) return (void *)a; return 0; }
WEAK void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
WEAK void bzero(void *p, size_t n) { memset(p, 0, n); }
WEAK void abort(void) { for (;;) sys3(1, 90, 0, 0); }
WEAK void __assert_fail(const char *a, const char *f, unsigned l, const char *g) { (void)a; (void)f; (void)l; (void)g; abort(); }
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
#define NET16(v) (v)
#define NET32(v) (v)
#else
#define NET16(v) __builtin_bswap16(v)
#define NET32(v) __builtin_bswap32(v)
#endif
WEAK u32 htonl(u32 v) { return NET32(v); }
WEAK u32 ntohl(u32 v) { return NET32(v); }
WEAK uint16_t htons(uint16_t v) { return NET16(v); }
WEAK uint16_t ntohs(uint16_t v) { return NET16(v); }
typedef unsigned long long u64; typedef long long i64;
u64 __udivmoddi4(u64 a, u64 b, u64 *r) { u64 q = 0, m = 0; for (int i = 63; i >= 0; i--) { m = m << 1 | (a >> i & 1); if (m >= b) { m -= b; q |= 1ull << i; } } if (r) *r = m; return q; }
u64 __udivdi3(u64 a, u64 b) { return __udivmoddi4(a, b, 0); }
u64 __umoddi3(u64 a, u64 b) { u64 r; __udivmoddi4(a, b, &r); return r; }
i64 __divdi3(i64 a, i64 b) { u64 q = __udivdi3(a < 0 ? -(u64)a : (u64)a, b < 0 ? -(u64)b : (u64)b); return (a < 0) != (b < 0) ? -(i64)q : (i64)q; }
i64 __moddi3(i64 a, i64 b) { u64 r = __umoddi3(a < 0 ? -(u64)a : (u64)a, b < 0 ? -(u64)b : (u64)b); return a < 0 ? -(i64)r : (i64)r; }
#ifdef __mips__
union dw { u64 v; struct { u32 hi, lo; } w; };
u64 __ashldi3(u64 v, int n) { union dw x; x.v = v; if (n >= 32) { x.w.hi = x.w.lo << (n & 31); x.w.lo = 0; } else if (n) { x.w.hi = x.w.hi << n | x.w.lo >> (32 - n); x.w.lo <<= n; } return x.v; }
u64 __lshrdi3(u64 v, int n) { union dw x; x.v = v; if (n >= 32) { x.w.lo = x.w.hi >> (n & 31); x.w.hi = 0; } else if (n) { x.w.lo = x.w.lo >> n | x.w.hi << (32 - n); x.w.hi >>= n; } return x.v; }
i64 __ashrdi3(i64 v, int n) { union dw x; x.v = v; if (n >= 32) { x.w.lo = (int)x.w.hi >> (n & 31); x.w.hi = (int)x.w.hi >> 31; } else if (n) { x.w.lo = x.w.lo >> n | x.w.hi << (32 - n); x.w.hi = (int)x.w.hi >> n; } return x.v; }
#endif

static void quit(int code) { for (;;) sys3(1, code, 0, 0); }
static void in(void *p, u32 n) { u8 *b = p; while (n) { long k = sys3(3, 0, (long)b, n); if (k <= 0) quit(k ? 97 : 0); b += k; n -= k; } }
static void out(const void *p, u32 n) { const u8 *b = p; while (n) { long k = sys3(4, 1, (long)b, n); if (k <= 0) quit(96); b += k; n -= k; } }
/* memory that ends where the accessible memory ends */
static u8 *region(u32 size) {
    long args[6] = { 0, (long)size + 8192, 0, 0x4022, -1, 0 }; size = (size + 4095) & ~4095u;
    u8 *p = (u8 *)sys3(90, (long)args, 0, 0); if ((unsigned long)p > 0xfffff000ul) quit(95);
    if (sys3(125, (long)p, size, 3)) quit(94);
    return p + size;
}

enum { IN = 1 << 20, SLOTS = 4, MSG = 1 << 17, PIECE = 1 << 17 };
static u8 req[IN]; static u32 reqn, at;
static u32 g8(void) { if (at >= reqn) quit(93); return req[at++]; }
static u32 g32(void) { u32 a = g8(), b = g8(), c = g8(), d = g8(); return a | b << 8 | c << 16 | d << 24; }
static const u8 *gb(u32 *n) { *n = g32(); if (*n > reqn - at) quit(92); at += *n; return req + at - *n; }
static u8 ans[1 << 18]; static u32 ansn;
static void p32(u32 v) { for (int i = 0; i < 4; i++) ans[ansn++] = v >> (8 * i); }
static void pb(const void *p, u32 n) { if (n > sizeof ans - ansn - 64) quit(91); for (u32 i = 0; i < n; i++) ans[ansn++] = ((const u8 *)p)[i]; }

static const u8 *stream; static u32 streamn, taken, rngfail;
static int rng(unsigned char *p, size_t n) {
    if (rngfail) { for (size_t i = 0; i < n; i++) p[i] = 0x5e; return 0; }
    for (size_t i = 0; i < n; i++, taken++) p[i] = taken < streamn ? stream[taken] : 0xe7 ^ (u8)taken;
    return 1;
}

static u8 *keyEnd[SLOTS], *msgEnd[SLOTS], *ctxEnd[SLOTS], *hugeEnd; static u32 hugen; static u8 *pieceEnd, *outEnd, *skEnd, *pkEnd;
static u8 *put(u8 *end, const u8 *p, u32 n) { memcpy(end - n, p, n); return end - n; }
#define CTX(c) ((struct ts_context *)(ctxEnd[c] - ((api->ctx_size + 7) & ~7u)))

static void serve(const struct vt_api *api) {
    u32 op = g8(), n;
    if (op == 1) {
        u32 k = g8(); if (k >= api->nsets || !api->sets[k].ps) { p32(0); return; }
        const struct ts_parameter_set *ps = api->sets[k].ps; p32(1); pb(api->sets[k].name, strlen(api->sets[k].name) + 1); while (ansn & 31) ans[ansn++] = 0;
        p32(api->size_private_key(ps)); p32(api->size_public_key(ps)); p32(api->size_signature(ps)); p32(api->ctx_size); p32(sizeof(void *)); return;
    }
    if (op == 2) {
        const struct ts_parameter_set *ps = api->sets[g8()].ps; u32 flags = g8(); stream = gb(&streamn); taken = 0; rngfail = flags & 2;
        u32 s = api->size_private_key(ps), p = api->size_public_key(ps); if (s > 4000 || p > 4000) quit(90); u8 *sk = skEnd - s, *pk = pkEnd - p; memset(sk, 0xa5, s); memset(pk, 0xa5, p);
        p32(api->gen_key(flags & 8 ? 0 : sk, flags & 1 ? pk : 0, ps, rng)); p32(taken); pb(sk, s); pb(pk, p); return;
    }
    if (op == 3 || op == 5) {       /* a session: context, set, garbage, key, message (or the huge one), randomness */
        u32 c = g8() % SLOTS; const struct ts_parameter_set *ps = api->sets[g8()].ps; u32 fill = g32(); if (fill < 256) memset(CTX(c), fill, api->ctx_size);
        const u8 *k = gb(&n); u8 *key = put(keyEnd[c], k, n); u32 huge = g8(); const u8 *m = gb(&n); const void *msg; if (huge) { msg = hugeEnd - hugen; n = hugen; } else msg = put(msgEnd[c], m, n);
        u32 mode = g8(); stream = gb(&streamn); taken = 0; rngfail = mode == 2;
        if (op == 3) api->init_sign(CTX(c), msg, n, ps, key, mode ? rng : 0); else api->init_verify(CTX(c), msg, n, ps, key);
        p32(taken); return;
    }
    if (op == 4) { u32 c = g8() % SLOTS, m = g32(), room = m > PIECE ? PIECE : m; u8 *o = outEnd - room; memset(o, 0xa5, room); p32(api->sign(o, m, CTX(c))); pb(o, room); return; }
    if (op == 6) { u32 c = g8() % SLOTS; const u8 *p = gb(&n); if (n > PIECE) quit(89); p = put(pieceEnd, p, n); p32(api->update_verify(p, n, CTX(c))); return; }
    if (op == 7) { p32(api->verify(CTX(g8() % SLOTS))); return; }
    if (op == 8) {                  /* a hash: kind, saved after a first block, input pieces (one more byte string, or lengths into the huge message), outputs */
        u32 kind = g8(), save = g8(), huge = g8(), np = g32(); static u64 ctx[128], other[128], st[16]; u8 *cur = (u8 *)ctx; const struct vt_sha *h = kind ? &api->sha512 : &api->sha256;
        const u8 *hp = hugeEnd - hugen; memset(ctx, 0x3c, sizeof ctx); memset(other, 0xc3, sizeof other);
        if (!(kind == 2 ? (void *)api->shake256.init : (void *)h->init) || h->ctx_size > sizeof ctx || api->shake256.ctx_size > sizeof ctx) { p32(0); return; }
        if (kind == 2) api->shake256.init(cur); else h->init(cur);
        while (np--) {
            const u8 *p; if (huge) { n = g32(); p = hp; hp += n; } else { p = gb(&n); p = put(pieceEnd, p, n); }
            if (kind == 2) api->shake256.absorb(cur, p, n); else h->update(cur, p, n);
            if (save && kind < 2) { save = 0; h->save(st, cur); cur = (u8 *)other; h->restore(cur, st); }
        }
        p32(1); if (kind == 2) api->shake256.finalize(cur);
        u32 no = g32(); while (no--) { n = g32(); if (n > 60000) quit(88); u8 *o = outEnd - n; memset(o, 0xa5, n); if (kind == 2) api->shake256.squeeze(o, n, cur); else if (n == h->digest && g8()) h->final(o, cur); else h->final_trunc(o, cur, n); pb(o, n); }
        return;
    }
    if (op == 9) { hugen = g32(); hugeEnd = region(hugen); u32 k = g32(); while (k--) { u32 off = g32(), v = g8(); hugeEnd[off - hugen] = v; } p32(1); return; }   /* zeros but for some bytes */
    quit(87);
}

#ifdef __i386__
__attribute__((force_align_arg_pointer))
#endif
void _start(void) {
    const struct vt_api *api = vt_get_api();
    for (int i = 0; i < SLOTS; i++) { keyEnd[i] = region(4096); msgEnd[i] = region(MSG); ctxEnd[i] = region(16384); }
    pieceEnd = region(PIECE); outEnd = region(PIECE); skEnd = region(4096); pkEnd = region(4096);
    for (;;) {
        u8 l[4]; in(l, 4); reqn = l[0] | l[1] << 8 | l[2] << 16 | (u32)l[3] << 24; if (reqn > IN) quit(86); in(req, reqn); at = 0; ansn = 0; serve(api);
        u8 h[4] = { ansn, ansn >> 8, ansn >> 16, ansn >> 24 }; out(h, 4); out(ans, ansn);
    }
}
