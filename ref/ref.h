// Independent reference model of SPHINCS+ (round 3.1 / FIPS 205 slh_*_internal), written from the
// specification; shares nothing with /repo.  Works on whole trees (no treehash, no streaming) and hashes
// many independent inputs at once in vector lanes.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <memory>
#include <map>
#include <string>
#include <vector>

namespace ref {
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

struct Params {
    const char *name;
    int n, k, a, h, d, hp;
    bool sha2;
    int len() const { return 2 * n + 3; }
    size_t sig() const { return (size_t)n * (1 + k * (a + 1) + h + d * len()); }
    size_t forsBytes() const { return (size_t)n * k * (a + 1); }
    size_t layerBytes() const { return (size_t)n * (len() + hp); }
};
extern const Params PARAMS[12];
const Params *find(const std::string &name);

// ---- single-message hashes (incremental, FIPS 180-4 / FIPS 202) ----
struct Sha256 {
    uint32_t s[8]; uint64_t total; u8 buf[64];
    Sha256(); void update(const void *p, size_t n); void final(u8 out[32]);
};
struct Sha512 {
    uint64_t s[8]; uint64_t total; u8 buf[128];
    Sha512(); void update(const void *p, size_t n); void final(u8 out[64]);
};
struct Shake256 {
    uint64_t s[25]; size_t pos; bool squeezing;
    Shake256(); void update(const void *p, size_t n); void squeeze(u8 *out, size_t n);
};

struct Adrs {               // the uncompressed 32-byte address
    u8 b[32];
    Adrs();
    Adrs &layer(uint32_t v); Adrs &tree(uint64_t v); Adrs &type(uint32_t v);
    Adrs &keypair(uint32_t v); Adrs &w2(uint32_t v); Adrs &w3(uint32_t v);
};

struct Digest { std::vector<uint32_t> fors; uint64_t tree; uint32_t leaf; Bytes raw; };

struct Tree {               // a complete Merkle tree: level[0] = leaves ... level[hp] = root
    std::vector<Bytes> level;
    const u8 *root() const { return level.back().data(); }
};

struct Key {
    const Params *p = nullptr;
    u8 sk_seed[32], sk_prf[32], pk_seed[32], root[32];
    uint32_t mid256[8];
    uint64_t mid512[8];
    void setSecret(const Params *p, const u8 *sk4n);       // SK.seed SK.prf PK.seed PK.root
    void setSeeds(const Params *p, const u8 *seed3n);      // root computed
    void setPublic(const Params *p, const u8 *pk2n);
    Bytes secretBytes() const, publicBytes() const;
    const Tree &topTree() const;                           // cached
private:
    void mids();
    mutable std::shared_ptr<Tree> top;
};

void prfMsg(const Key &, const u8 *optrand, const u8 *msg, size_t len, u8 *R);
Digest hMsg(const Key &, const u8 *R, const u8 *msg, size_t len);
Tree xmssTree(const Key &, int layer, uint64_t tree);
// WOTS+ signature of an n-byte value
void wotsSign(const Key &, int layer, uint64_t tree, uint32_t leaf, const u8 *value, u8 *out);
std::vector<int> wotsDigits(const Params &, const u8 *value);

Bytes sign(const Key &, const u8 *optrand, const u8 *msg, size_t len);
// R and the FORS part only (the first n + forsBytes() bytes of the signature)
Bytes signFors(const Key &, const u8 *R, const Digest &, int trees);

// The value each layer's WOTS signs (index 0: FORS public key ... d: recomputed top root)
std::vector<Bytes> recompute(const Key &pub, const Digest &, const u8 *sig);
bool verify(const Key &pub, const u8 *msg, size_t len, const u8 *sig, size_t siglen);

// A valid signature made by the key owner with freely chosen components: 'fill' writes the
// arbitrary parts (R, FORS part, layers 0..d-2).  key.topTree().root() must equal key.root.
struct CraftOpt { int extremeLayer = -1; bool extremeHigh = false; int trials = 0; int stopAt = -1;    // stopAt: digit sum at which the search ends
    unsigned mirror = 0; int mirrorTree = -1, mirrorLayer = -1; };                   // heights at which an authentication node equals the node itself
Bytes craft(const Key &, const u8 *msg, size_t len, const std::function<void(u8 *, size_t)> &fill,
            const CraftOpt &opt, int *extremeSum = nullptr);
}
