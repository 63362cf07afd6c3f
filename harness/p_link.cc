// C19: programs that use a drawn part of the package, linked against it as an archive (opt.arg).
#include "lib.h"
#include <fcntl.h>
#include <spawn.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
extern char **environ;

static int runCmd(std::vector<std::string> a, const std::string &out) {
    std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t p; if (posix_spawnp(&p, v[0], &fa, nullptr, v.data(), environ)) throw Discard();
    posix_spawn_file_actions_destroy(&fa);
    int st; if (waitpid(p, &st, 0) != p) throw Discard();
    return st;
}
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }

PROPERTY(c19_link, "C19.link") {
    s.cpu(120);
    const size_t ns = sets.size(); std::vector<int> use; std::string names; int style = s.draw(4);
    if (style == 0) use.push_back(s.draw(ns));
    else if (style == 1) { uint64_t m = s.draw(1ull << ns); for (size_t i = 0; i < ns; i++) if (m >> i & 1) use.push_back(i); }
    else if (style == 2) { bool sha = s.draw(2); for (size_t i = 0; i < ns; i++) if (sets[i].p->sha2 == sha && s.draw(2)) use.push_back(i); }
    else { int n = 16 + 8 * s.draw(3); for (size_t i = 0; i < ns; i++) if (sets[i].n() == n && s.draw(3)) use.push_back(i); }
    int ops = 1 + s.draw(15);          // key generation, signing, verification, sizes
    bool any256 = false, any512 = false, anyShake = false;
    for (int i : use) { names += " " + sets[i].name; if (!sets[i].p->sha2) anyShake = true; else { any256 = true; if (sets[i].n() > 16) any512 = true; } }
    s.label(use.empty() ? "no set" : use.size() == 1 ? "one set" : use.size() == ns ? "all sets" : "several sets");
    s.desc("image using%s%s%s%s of%s", ops & 1 ? " keygen" : "", ops & 2 ? " sign" : "", ops & 4 ? " verify" : "", ops & 8 ? " sizes" : "", names.empty() ? " nothing" : names.c_str());

    std::string t = "#include <stddef.h>\n#include <stdio.h>\nstruct ts_parameter_set; struct ts_context;\n"
        "int ts_gen_key(unsigned char*,unsigned char*,const struct ts_parameter_set*,int(*)(unsigned char*,size_t));\n"
        "void ts_init_sign(struct ts_context*,const void*,size_t,const struct ts_parameter_set*,const unsigned char*,int(*)(unsigned char*,size_t));\n"
        "unsigned ts_sign(unsigned char*,unsigned,struct ts_context*);\n"
        "void ts_init_verify(struct ts_context*,const void*,size_t,const struct ts_parameter_set*,const unsigned char*);\n"
        "int ts_update_verify(const unsigned char*,unsigned,struct ts_context*);\nint ts_verify(struct ts_context*);\n"
        "unsigned ts_size_private_key(const struct ts_parameter_set*),ts_size_public_key(const struct ts_parameter_set*),ts_size_signature(const struct ts_parameter_set*);\n";
    for (int i : use) t += "extern const struct ts_parameter_set ts_ps_" + sets[i].name + "_simple;\n";
    t += "static const struct ts_parameter_set *const ps[]={";
    for (int i : use) t += "&ts_ps_" + sets[i].name + "_simple,";
    t += "0};\nstatic long long mem[1024]; static unsigned char sk[128], pk[64], sg[400];\n"
         "static int none(unsigned char*b,size_t n){return 0;}\n"
         "int main(void){struct ts_context*c=(void*)mem;unsigned i,j;for(i=0;i<128;i++)sk[i]=i*7;for(i=0;ps[i];i++){\n";
    if (ops & 8) t += "printf(\"%u %u %u \",ts_size_private_key(ps[i]),ts_size_public_key(ps[i]),ts_size_signature(ps[i]));\n";
    if (ops & 1) t += "printf(\"%d \",ts_gen_key(sk+0,pk,ps[i],none)); for(j=0;j<128;j++)sk[j]=j*7;\n";
    if (ops & 2) t += "ts_init_sign(c,\"abc\",3,ps[i],sk,0); j=ts_sign(sg,99,c); printf(\"%u \",j); for(j=0;j<99;j++)printf(\"%02x\",sg[j]);\n";
    if (ops & 4) t += "ts_init_verify(c,\"abc\",3,ps[i],sk); printf(\" %d\",ts_update_verify(sk,99,c)); printf(\" %d\",ts_verify(c));\n";
    t += "printf(\"\\n\");}\nreturn 0;}\n";

    // what the image has to print: the library in this process does the same
    std::string want;
    for (int i : use) {
        const Set &set = sets[i]; u8 sk[128], pk[64], sg[99]; for (int k = 0; k < 128; k++) sk[k] = k * 7; std::vector<uint64_t> mem(1024); ts_context *c = (ts_context *)mem.data();
        if (A->ctx_size > sizeof(uint64_t) * 1024) throw Discard();
        if (ops & 8) want += fmt("%u %u %u ", A->size_private_key(set.ps), A->size_public_key(set.ps), A->size_signature(set.ps));
        if (ops & 1) { u8 k2[128]; Rng r; r.failCall = 0; want += fmt("%d ", genKey(k2, pk, set, &r)); }
        if (ops & 2) { initSign(c, "abc", 3, set, sk, nullptr); memset(sg, 0, 99); unsigned j = doSign(sg, 99, c); want += fmt("%u ", j); for (u8 b : sg) want += fmt("%02x", b); }
        if (ops & 4) { initVerify(c, "abc", 3, set, sk); int u = updateVerify(sk, 99, c); want += fmt(" %d %d", u, doVerify(c)); }
        want += "\n";
    }
    char dir[] = "/tmp/vt_link_XXXXXX"; if (!mkdtemp(dir)) throw Discard();
    std::string d = dir, out, syms; int rc1, rc2 = 0, rc3 = 0; { std::ofstream f(d + "/m.c"); f << t; }
    rc1 = runCmd({"gcc", "-O0", "-w", "-o", d + "/m", d + "/m.c", opt.arg}, d + "/log"); std::string log = slurp(d + "/log");
    if (!rc1) { rc2 = runCmd({"nm", "--defined-only", d + "/m"}, d + "/nm"); syms = slurp(d + "/nm"); rc3 = runCmd({d + "/m"}, d + "/o"); out = slurp(d + "/o"); }
    for (const char *f : {"/m", "/m.c", "/log", "/nm", "/o"}) unlink((d + f).c_str());
    rmdir(dir);
    REQUIRE(!rc1, "a program that uses only%s does not link: %.600s", names.c_str(), log.c_str());
    if (rc2) throw Discard();
    std::set<std::string> have; { std::stringstream in(syms); std::string a, b, c; while (in >> a >> b >> c) have.insert(c); }
    std::set<std::string> wanted; for (int i : use) wanted.insert("ts_ps_" + sets[i].name + "_simple");
    for (size_t i = 0; i < ns; i++) {
        std::string y = "ts_ps_" + sets[i].name + "_simple"; bool in = have.count(y);
        REQUIRE(in == (wanted.count(y) > 0), "the image of a program that uses%s %s the parameter set %s", names.empty() ? " none" : names.c_str(), in ? "also contains" : "lacks", sets[i].name.c_str());
    }
    auto absent = [&](bool used, const char *sym, const char *what) { if (!used) REQUIRE(!have.count(sym), "the image of a program that uses%s contains %s, which none of them needs", names.empty() ? " no set" : names.c_str(), what); };
    absent(any256, "ts_SHA256_update", "the SHA-256 code"); absent(any512, "ts_SHA512_update", "the SHA-512 code"); absent(anyShake, "ts_shake256_inc_absorb", "the SHAKE-256 code");
    REQUIRE(!rc3 && out == want, "the program that uses only%s ends with status %d and prints %.300s instead of %.300s", names.c_str(), rc3, out.c_str(), want.c_str());
    s.nontrivial();
}
