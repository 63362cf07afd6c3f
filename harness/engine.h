// A small property-based testing engine.  Every random decision of a case is a bounded draw; the recorded
// draws are the case.  Failures are shrunk on the draws, each candidate in a forked process.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef std::vector<u8> Bytes;

struct Fail { std::string msg; };
struct Discard {};                                  // the draws do not make a case
[[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while (0)
std::string hex(const u8 *p, size_t n);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Rand {                                       // splitmix64
    uint64_t s;
    explicit Rand(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void fill(u8 *p, size_t n) { while (n) { uint64_t v = next(); size_t m = n < 8 ? n : 8; memcpy(p, &v, m); p += m; n -= m; } }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const std::string &);

class Src {
public:
    uint64_t idx = 0, count = 0;                    // case number, number of cases of this run
    uint64_t draw(uint64_t bound);                  // uniform in 0..bound-1 (bound >= 1); 0 is the simplest
    uint64_t sweep(uint64_t value, uint64_t bound); // a value enumerated from idx, recorded like a draw
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    uint64_t seed() { return draw(~0ULL); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    // byte string contents: random, zero, 0xff, counting, one bit set, repeated byte
    void content(u8 *p, size_t n);
    Bytes bytes(size_t n) { Bytes b(n); content(b.data(), n); return b; }
    // a size in 0..max, biased to small values and to near multiples of the given unit
    uint64_t size(uint64_t max, uint64_t unit);
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial() { nt = true; }
    void desc(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void cpu(int seconds);                          // CPU limit of this case (default 60 s)
    std::set<std::string> labels; bool nt = false; std::string d;
    uint64_t prng = 0; const std::vector<uint64_t> *replay = nullptr; size_t pos = 0;
};

typedef std::function<void(Src &)> PropFn;
struct Prop { const char *name; PropFn fn; };
std::vector<Prop> &props();
struct Register { Register(const char *n, PropFn f) { props().push_back({n, f}); } };
#define PROPERTY(id, name) static void id(Src &); static Register reg_##id(name, id); static void id(Src &s)

struct Options {
    std::string prop, lib, lib2, cfg, out, replay, arg, arg2, only, tier = "quick";
    uint64_t seed = 1, from = 0, step = 1, count = 0, to = ~0ull; double deadline = 600;
    bool asan = false;
};
extern Options opt;
extern uint64_t g_run_seed;                          // VERIF_SEED
