// The library under test as the harness sees it, plus memory, randomness and pooled sessions.
#pragma once
#include "engine.h"
#include "vt_api.h"
#include "../ref/ref.h"

struct Set {
    std::string name; const ts_parameter_set *ps; const ref::Params *p; int id;
    bool fast() const { return name.back() == 'f'; }
    int n() const { return p->n; }
};
extern const vt_api *A;                       // library under test
extern std::vector<Set> sets;                 // its parameter sets
extern const vt_api *A2;                      // second library (baseline), may be null
extern std::vector<Set> sets2;
extern void *g_libHandle; extern std::string g_libPath;
bool libOpen(const std::string &path, const std::string &path2);
void caseReset();
void caseEnd();

// ---- randomness given to the library
struct Rng {
    Bytes stream; size_t taken = 0; int calls = 0; int failCall = -1; bool failFills = true;
    std::function<void(size_t)> hook;         // called inside the callback
    explicit Rng(const Bytes &b = Bytes()) : stream(b) {}
};

// ---- memory of exactly n bytes; out-of-extent accesses fault (guard pages) or are reported (ASan)
class Mem {
public:
    enum Mode { END = 0, START = 1, ALIGNED = 2 };   // which side touches the guard page; ALIGNED: END, at a multiple of 8
    explicit Mem(size_t n, int mode = END, int fill = -1);
    explicit Mem(const Bytes &b, int mode = END);
    ~Mem();
    Mem(const Mem &) = delete; Mem &operator=(const Mem &) = delete;
    u8 *p; size_t n;
    void readOnly(); void none(); void writable();
    Bytes bytes() const { return Bytes(p, p + n); }
private:
    u8 *base; size_t total;
    void map(size_t n, int mode);
};
struct Ctx : Mem {                            // a context; filled with the given garbage
    explicit Ctx(int garbage = 0, int mode = ALIGNED) : Mem(A->ctx_size, mode, garbage) {}
    ts_context *c() { return (ts_context *)p; }
};

// ---- calls (each first poisons the stack below with g_poison when >= 0)
extern thread_local int g_poison;
extern thread_local Rng *g_rng;            // the source the running call uses
int genKey(u8 *sk, u8 *pk, const Set &, Rng *);
void initSign(ts_context *, const void *msg, size_t len, const Set &, const u8 *sk, Rng *);
unsigned doSign(u8 *dest, unsigned m, ts_context *);
void initVerify(ts_context *, const void *msg, size_t len, const Set &, const u8 *pk);
int updateVerify(const u8 *sig, unsigned m, ts_context *);
int doVerify(ts_context *);

// ---- conveniences
Bytes signAll(const Set &, const u8 *sk, const Bytes &msg, Rng *);             // one request, fresh zeroed context
bool verifyAll(const Set &, const u8 *pk, const Bytes &msg, const Bytes &sig); // fed at once
const ref::Key &poolKey(const Set &, int k);                                   // complete reference key (top tree cached)
struct Sess { const Set *set; Bytes sk, pk, msg, opt, sig; };                  // made by the library alone
const Sess &poolSess(const Set &, int k, bool wantSig = true);
// a streamed signing session with the context saved before every n-byte block (restored at the same address)
struct Stream { const Sess *s; Mem *ctx, *key, *msg; std::vector<Bytes> snap; bool verify; };
Stream &poolStream(const Set &, int k, bool verify);
Bytes randBytes(Src &, size_t n);
std::string mpos(const Set &, size_t off);    // names a signature position ("FORS tree 3 auth 2", ...)
struct OptRand { Rng rng; bool use; Bytes eff; };
OptRand drawOpt(Src &, const Set &, const Bytes &pkSeed);
Bytes craftDraw(Src &, const ref::Key &, const Bytes &msg, bool label);  // a valid signature with freely chosen components
struct Huge { u8 *p; size_t n; };             // that many bytes in little memory
Huge hugeMap(size_t total); void hugeUnmap(Huge h);
bool machOpen(const std::string &path, std::vector<Set> &out);    // p_mach.cc
size_t firstDiff(const u8 *a, const u8 *b, size_t n);
#define KNOBS() drawKnobs(s)
void drawKnobs(Src &s);                       // stack poison pattern
