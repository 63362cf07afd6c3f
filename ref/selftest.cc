// Checks the reference model against the vectors of the original SPHINCS+ reference code
// (vectors.inc: same data as the project's testvector.h, kept here so that the model does not depend on /repo)
// and against itself.
#include "ref.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ref;
struct V { const char *name; u8 pk[64], opt[32], hash[32]; } vec[] = {
#include "vectors.inc"
};
int main(int argc, char **argv) {
    if (argc == 3) {      // hash stdin-free digest for comparison with hashlib:  selftest LEN SEED
        size_t n = strtoull(argv[1], 0, 10); unsigned s = atoi(argv[2]); Bytes m(n);
        for (auto &b : m) { s = s * 1103515245u + 12345u; b = s >> 16; }
        u8 h[64]; Sha256 a; a.update(m.data(), n); a.final(h); for (int i = 0; i < 32; i++) printf("%02x", h[i]); printf("\n");
        Sha512 b; b.update(m.data(), n); b.final(h); for (int i = 0; i < 64; i++) printf("%02x", h[i]); printf("\n");
        Shake256 c; c.update(m.data(), n); Bytes o(n + 7); c.squeeze(o.data(), o.size()); for (u8 x : o) printf("%02x", x); printf("\n");
        return 0;
    }
    int bad = 0, n = 0;
    for (auto &v : vec) {
        const Params *p = find(v.name);
        if (!p) { printf("unknown %s\n", v.name); bad++; continue; }
        u8 seed[96]; for (int i = 0; i < 96; i++) seed[i] = i;
        Key k; k.setSeeds(p, seed); Bytes pk = k.publicBytes();
        if (memcmp(pk.data(), v.pk, 2 * p->n)) { printf("pk mismatch %s\n", v.name); bad++; }
        Bytes s = sign(k, v.opt, (const u8 *)"abc", 3);
        u8 h[32]; Sha256 c; c.update(s.data(), s.size()); c.final(h);
        if (s.size() != p->sig() || memcmp(h, v.hash, 32)) { printf("sig mismatch %s\n", v.name); bad++; }
        Key pub; pub.setPublic(p, pk.data());
        if (!verify(pub, (const u8 *)"abc", 3, s.data(), s.size())) { printf("verify fails %s\n", v.name); bad++; }
        s[100] ^= 1; if (verify(pub, (const u8 *)"abc", 3, s.data(), s.size())) { printf("verify accepts %s\n", v.name); bad++; }
        for (int ex = 0; ex < p->d; ex++) {
            unsigned x = 7; CraftOpt o; o.extremeLayer = ex; o.extremeHigh = ex & 1; o.trials = 50; int es = -1;
            Bytes cs = craft(k, (const u8 *)"xyz", 3, [&](u8 *q, size_t m) { while (m--) { x = x * 1103515245u + 12345u; *q++ = x >> 16; } }, o, &es);
            if (!verify(pub, (const u8 *)"xyz", 3, cs.data(), cs.size())) { printf("crafted signature invalid %s layer %d\n", v.name, ex); bad++; }
        }
        n++;
    }
    printf("selftest: %d sets, %d errors\n", n, bad);
    return bad || n != 12;
}
