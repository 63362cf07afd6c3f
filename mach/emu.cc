// A strict interpreter of big-endian MIPS32r2 programs (integer instructions), for running the package on a machine that is
// not the host: 32-bit words, most significant byte first, aligned accesses only.  Memory is a 4 GiB range of the host in
// which only what the program maps is accessible.  System calls: the i386 numbers 1 3 4 90 125, arguments in a0..a2.
#include <elf.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

typedef uint32_t u32; typedef int32_t i32; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16;
static u8 *M; static u32 R[32], HI, LO, PC, NPC, brk_ = 0x50000000;
[[noreturn]] static void die(const char *why, u32 v) { fprintf(stderr, "machine stopped: %s (%08x) at %08x\n", why, v, PC); _exit(99); }
static void onSegv(int, siginfo_t *si, void *) { char b[120]; u64 a = (u8 *)si->si_addr - M; int n = snprintf(b, sizeof b, "machine stopped: access to unmapped address %08llx at %08x\n", (unsigned long long)a, PC); if (write(2, b, n)) {} _exit(99); }
template <class T> static inline T swap(T v) { return sizeof(T) == 4 ? __builtin_bswap32(v) : sizeof(T) == 2 ? __builtin_bswap16(v) : v; }
template <class T> static inline T ld(u32 a) { if (a & (sizeof(T) - 1)) die("misaligned load", a); T v; memcpy(&v, M + a, sizeof v); return swap(v); }
template <class T> static inline void st(u32 a, T v) { if (a & (sizeof(T) - 1)) die("misaligned store", a); v = swap(v); memcpy(M + a, &v, sizeof v); }
static void map(u32 a, u32 n, int prot) { u32 e = (a + n + 4095) & ~4095u; a &= ~4095u; if (mprotect(M + a, e - a, prot)) die("mprotect", a); }

static void sys() {
    u32 a = R[4], b = R[5], c = R[6], r;
    switch (R[2]) {
    case 1: _exit(a);
    case 3: { ssize_t k = read(a, M + b, c); r = k < 0 ? -1 : k; break; }
    case 4: { ssize_t k = write(a, M + b, c); r = k < 0 ? -1 : k; break; }
    case 90: { u32 len = (ld<u32>(a + 4) + 4095) & ~4095u; r = brk_; brk_ += len; if (brk_ > 0xd0000000u) die("out of memory", len); if (ld<u32>(a + 8)) map(r, len, PROT_READ | PROT_WRITE); break; }
    case 125: map(a, b, c ? PROT_READ | PROT_WRITE : PROT_NONE); r = 0; break;
    default: die("system call", R[2]);
    }
    R[2] = r; R[7] = 0;
}

static void run() {
    for (;;) {
        u32 w = ld<u32>(PC), op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31, next = NPC + 4, a; i32 im = (int16_t)w; u32 ui = w & 0xffff; bool skip = false;
#define BR(c) do { if (c) next = PC + 4 + (im << 2); } while (0)
#define BRL(c) do { if (c) next = PC + 4 + (im << 2); else skip = true; } while (0)
        switch (op) {
        case 0: switch (w & 63) {
            case 0: R[rd] = R[rt] << sa; break;
            case 2: R[rd] = rs & 1 ? R[rt] >> sa | (sa ? R[rt] << (32 - sa) : 0) : R[rt] >> sa; break;
            case 3: R[rd] = (i32)R[rt] >> sa; break;
            case 4: R[rd] = R[rt] << (R[rs] & 31); break;
            case 6: { u32 k = R[rs] & 31; R[rd] = sa & 1 ? R[rt] >> k | (k ? R[rt] << (32 - k) : 0) : R[rt] >> k; break; }
            case 7: R[rd] = (i32)R[rt] >> (R[rs] & 31); break;
            case 8: next = R[rs]; break;
            case 9: a = R[rs]; R[rd] = PC + 8; next = a; break;
            case 10: if (!R[rt]) R[rd] = R[rs]; break;
            case 11: if (R[rt]) R[rd] = R[rs]; break;
            case 12: sys(); break;
            case 13: die("break", w);
            case 15: break;
            case 16: R[rd] = HI; break;
            case 17: HI = R[rs]; break;
            case 18: R[rd] = LO; break;
            case 19: LO = R[rs]; break;
            case 24: { i64 p = (i64)(i32)R[rs] * (i32)R[rt]; HI = (u64)p >> 32; LO = p; break; }
            case 25: { u64 p = (u64)R[rs] * R[rt]; HI = p >> 32; LO = p; break; }
            case 26: if (R[rt] && !(R[rs] == 0x80000000u && R[rt] == 0xffffffffu)) { LO = (i32)R[rs] / (i32)R[rt]; HI = (i32)R[rs] % (i32)R[rt]; } break;
            case 27: if (R[rt]) { LO = R[rs] / R[rt]; HI = R[rs] % R[rt]; } break;
            case 32: case 33: R[rd] = R[rs] + R[rt]; break;
            case 34: case 35: R[rd] = R[rs] - R[rt]; break;
            case 36: R[rd] = R[rs] & R[rt]; break;
            case 37: R[rd] = R[rs] | R[rt]; break;
            case 38: R[rd] = R[rs] ^ R[rt]; break;
            case 39: R[rd] = ~(R[rs] | R[rt]); break;
            case 42: R[rd] = (i32)R[rs] < (i32)R[rt]; break;
            case 43: R[rd] = R[rs] < R[rt]; break;
            case 48: if ((i32)R[rs] >= (i32)R[rt]) die("trap", w); break;
            case 49: if (R[rs] >= R[rt]) die("trap", w); break;
            case 50: if ((i32)R[rs] < (i32)R[rt]) die("trap", w); break;
            case 51: if (R[rs] < R[rt]) die("trap", w); break;
            case 52: if (R[rs] == R[rt]) die("trap", w); break;
            case 54: if (R[rs] != R[rt]) die("trap", w); break;
            default: die("instruction", w); } break;
        case 1: switch (rt) {
            case 0: BR((i32)R[rs] < 0); break; case 1: BR((i32)R[rs] >= 0); break;
            case 2: BRL((i32)R[rs] < 0); break; case 3: BRL((i32)R[rs] >= 0); break;
            case 16: { bool c = (i32)R[rs] < 0; R[31] = PC + 8; BR(c); break; }
            case 17: { bool c = (i32)R[rs] >= 0; R[31] = PC + 8; BR(c); break; }
            default: die("instruction", w); } break;
        case 2: next = (PC + 4) & 0xf0000000u | (w & 0x3ffffff) << 2; break;
        case 3: R[31] = PC + 8; next = (PC + 4) & 0xf0000000u | (w & 0x3ffffff) << 2; break;
        case 4: BR(R[rs] == R[rt]); break;
        case 5: BR(R[rs] != R[rt]); break;
        case 6: BR((i32)R[rs] <= 0); break;
        case 7: BR((i32)R[rs] > 0); break;
        case 20: BRL(R[rs] == R[rt]); break;
        case 21: BRL(R[rs] != R[rt]); break;
        case 22: BRL((i32)R[rs] <= 0); break;
        case 23: BRL((i32)R[rs] > 0); break;
        case 8: case 9: R[rt] = R[rs] + im; break;
        case 10: R[rt] = (i32)R[rs] < im; break;
        case 11: R[rt] = R[rs] < (u32)im; break;
        case 12: R[rt] = R[rs] & ui; break;
        case 13: R[rt] = R[rs] | ui; break;
        case 14: R[rt] = R[rs] ^ ui; break;
        case 15: R[rt] = ui << 16; break;
        case 28: switch (w & 63) {
            case 0: { i64 p = (i64)((u64)HI << 32 | LO) + (i64)(i32)R[rs] * (i32)R[rt]; HI = (u64)p >> 32; LO = p; break; }
            case 1: { u64 p = ((u64)HI << 32 | LO) + (u64)R[rs] * R[rt]; HI = p >> 32; LO = p; break; }
            case 2: R[rd] = R[rs] * R[rt]; break;
            case 4: { i64 p = (i64)((u64)HI << 32 | LO) - (i64)(i32)R[rs] * (i32)R[rt]; HI = (u64)p >> 32; LO = p; break; }
            case 5: { u64 p = ((u64)HI << 32 | LO) - (u64)R[rs] * R[rt]; HI = p >> 32; LO = p; break; }
            case 32: R[rd] = R[rs] ? __builtin_clz(R[rs]) : 32; break;
            case 33: R[rd] = ~R[rs] ? __builtin_clz(~R[rs]) : 32; break;
            default: die("instruction", w); } break;
        case 31: switch (w & 63) {
            case 0: { u32 size = rd + 1; R[rt] = R[rs] >> sa & (size == 32 ? ~0u : (1u << size) - 1); break; }
            case 4: { u32 m = (rd - sa + 1 == 32 ? ~0u : (1u << (rd - sa + 1)) - 1) << sa; R[rt] = R[rt] & ~m | R[rs] << sa & m; break; }
            case 32: switch (sa) { case 2: R[rd] = (R[rt] & 0x00ff00ff) << 8 | (R[rt] >> 8 & 0x00ff00ff); break; case 16: R[rd] = (int8_t)R[rt]; break; case 24: R[rd] = (int16_t)R[rt]; break; default: die("instruction", w); } break;
            default: die("instruction", w); } break;
        case 32: R[rt] = (int8_t)ld<u8>(R[rs] + im); break;
        case 33: R[rt] = (int16_t)ld<u16>(R[rs] + im); break;
        case 34: { a = R[rs] + im; u32 v = ld<u32>(a & ~3u), k = 8 * (a & 3); R[rt] = k ? v << k | R[rt] & ((1u << k) - 1) : v; break; }
        case 35: R[rt] = ld<u32>(R[rs] + im); break;
        case 36: R[rt] = ld<u8>(R[rs] + im); break;
        case 37: R[rt] = ld<u16>(R[rs] + im); break;
        case 38: { a = R[rs] + im; u32 v = ld<u32>(a & ~3u), k = 8 * (3 - (a & 3)); R[rt] = k ? v >> k | R[rt] & ~(~0u >> k) : v; break; }
        case 40: st<u8>(R[rs] + im, R[rt]); break;
        case 41: st<u16>(R[rs] + im, R[rt]); break;
        case 42: { a = R[rs] + im; u32 v = ld<u32>(a & ~3u), k = 8 * (a & 3); st<u32>(a & ~3u, k ? R[rt] >> k | v & ~(~0u >> k) : R[rt]); break; }
        case 43: st<u32>(R[rs] + im, R[rt]); break;
        case 46: { a = R[rs] + im; u32 v = ld<u32>(a & ~3u), k = 8 * (3 - (a & 3)); st<u32>(a & ~3u, k ? R[rt] << k | v & ((1u << k) - 1) : R[rt]); break; }
        case 51: break;
        default: die("instruction", w);
        }
        R[0] = 0;
        if (skip) { PC = NPC + 4; NPC = PC + 4; } else { PC = NPC; NPC = next; }
    }
}

int main(int argc, char **argv) {
    (void)argc; std::string path = std::string(argv[0]) + ".elf"; FILE *f = fopen(path.c_str(), "rb"); if (!f) { perror(path.c_str()); return 98; }
    std::vector<u8> x; u8 buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) x.insert(x.end(), buf, buf + k); fclose(f);
    M = (u8 *)mmap(nullptr, (1ull << 32) + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (M == MAP_FAILED) { perror("mmap"); return 98; }
    Elf32_Ehdr *e = (Elf32_Ehdr *)x.data(); if (x.size() < sizeof *e || memcmp(e->e_ident, ELFMAG, 4) || e->e_ident[EI_DATA] != ELFDATA2MSB || swap(e->e_machine) != EM_MIPS) { fprintf(stderr, "not a big-endian MIPS program\n"); return 98; }
    for (int i = 0; i < swap(e->e_phnum); i++) { Elf32_Phdr *p = (Elf32_Phdr *)(x.data() + swap(e->e_phoff)) + i; if (swap(p->p_type) != PT_LOAD) continue; u32 a = swap(p->p_vaddr); map(a, swap(p->p_memsz), PROT_READ | PROT_WRITE); memcpy(M + a, x.data() + swap(p->p_offset), swap(p->p_filesz)); }
    map(0x7ff00000, 0x80000, PROT_READ | PROT_WRITE); R[29] = 0x7ff80000 - 64; R[25] = PC = swap(e->e_entry); NPC = PC + 4;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    run();
}
