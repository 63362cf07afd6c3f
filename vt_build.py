"""Builds everything a check needs from /repo's current working tree, into /verif/.build."""
import concurrent.futures, functools, glob, hashlib, os, re, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, ".build"))
JOBS = max(1, min(8, os.cpu_count() or 1))
GCC, GXX, CLANG = "gcc", "g++", "clang"

SETS = [h + "_" + z + v for h in ("sha2", "shake") for z in ("128", "192", "256") for v in "fs"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tune(shake=1, sha2=1, l5=1, l3=1, s=1, opt=1, kopt=0):
    return ["-DTUNE_H_", f"-DTS_SUPPORT_SHAKE={shake}", f"-DTS_SUPPORT_SHA2={sha2}", f"-DTS_SUPPORT_L5={l5}", f"-DTS_SUPPORT_L3={l3}",
            f"-DTS_SUPPORT_S={s}", f"-DTS_SHA2_OPTIMIZATION={opt}", f"-DTS_SHAKE256_OPT={kopt}"]


def min_tune(name, opt=0, kopt=2):
    h, z = name.split("_")
    n = int(z[:3])
    return tune(int(h == "shake"), int(h == "sha2"), int(n == 256), int(n >= 192), int(z[3] == "s"), opt, kopt)


PLAIN = ["-fomit-frame-pointer"]
# an empty message may be NULL: copying nothing from there is no harm, whatever the letter of C99
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]
CT = ["-fno-builtin", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"] + [f"-Dmem{x}=vt_mem{x}" for x in ("cmp", "cpy", "move", "set")]
CONFIGS = {
    # name: (compiler, flags, tuning or None for tune.h as it stands)
    "os1": (GCC, ["-Os"] + PLAIN, tune()),
    "o2k1": (GCC, ["-O2"] + PLAIN, tune(kopt=1)),
    "small": (GCC, ["-Os"] + PLAIN, tune(opt=0, kopt=2)),
    "clang": (CLANG, ["-O2"], tune()),
    "clangk1": (CLANG, ["-O3"], tune(opt=0, kopt=1)),
    "clangk2": (CLANG, ["-Os"], tune(opt=0, kopt=2)),
    "o3": (GCC, ["-O3", "-march=native"], tune(opt=0)),
    "o0": (GCC, ["-O0"], tune()),
    "tune": (GCC, ["-Os"] + PLAIN, None),
    "trace": (GCC, ["-O1", "-fsanitize-coverage=trace-pc"], tune()),
    "trace0": (GCC, ["-O1", "-fsanitize-coverage=trace-pc"], tune(opt=0, kopt=1)),
    "trace2": (GCC, ["-O1", "-fsanitize-coverage=trace-pc"], tune(kopt=2)),
    "tracect": (CLANG, ["-O1"] + CT, tune()),
    "tracect0": (CLANG, ["-O2"] + CT, tune(opt=0, kopt=1)),
    "tracect2": (CLANG, ["-Os"] + CT, tune(opt=0, kopt=2)),
    "asan": (GCC, SAN, tune()),
    "asank1": (GCC, SAN, tune(opt=0, kopt=1)),
    "asank2": (GCC, SAN, tune(opt=0, kopt=2)),
    "asano0": (GCC, ["-O0"] + SAN[1:], tune()),
    "hashk0": (GCC, ["-O2"], tune(kopt=0)),
    "hashk1": (GCC, ["-O2"], tune(kopt=1)),
    "hashk2": (GCC, ["-O2"], tune(kopt=2)),
}
for _n in SETS:
    CONFIGS["min_" + _n] = (GCC, ["-Os"] + PLAIN, min_tune(_n))
    CONFIGS["minfast_" + _n] = (GCC, ["-O2"] + PLAIN, min_tune(_n, 1, 0))
    CONFIGS["asanmin_" + _n] = (GCC, SAN, min_tune(_n))
    CONFIGS["asanminfast_" + _n] = (GCC, SAN, min_tune(_n, 1, 0))
# other machines: 32-bit programs without a C library, see mach/
MACH = ["-U_FORTIFY_SOURCE", "-ffreestanding", "-fno-pic", "-fno-stack-protector"]
MIPS = ["--target=mips-linux-gnu", "-march=mips32r2", "-msoft-float", "-mno-abicalls", "-G0"] + MACH
CONFIGS.update({
    "m32os": (GCC, ["-m32", "-Os"] + PLAIN + MACH, tune()),
    "m32clang": (CLANG, ["-m32", "-O2", "-funsigned-char", "-fshort-enums"] + MACH, tune(opt=0, kopt=1)),
    "m32ub": (GCC, ["-m32", "-O1", "-fsanitize=undefined", "-fno-sanitize=nonnull-attribute", "-fsanitize-undefined-trap-on-error"] + MACH, tune(kopt=2)),
    "m32tune": (GCC, ["-m32", "-O2"] + MACH, None),
    "mips": (CLANG, ["-O2"] + MIPS, tune()),
    "mipssmall": (CLANG, ["-O1", "-funsigned-char"] + MIPS, tune(opt=0, kopt=2)),
    "mipsk1": (CLANG, ["-O2"] + MIPS, tune(opt=0, kopt=1)),
})
COMBOS = []
for _h in ((1, 1), (1, 0), (0, 1)):
    for _l in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for _s in (0, 1):
            for _o in (0, 1):
                for _k in (0, 1, 2):
                    _name = f"combo_h{_h[0]}{_h[1]}_l{_l[0]}{_l[1]}_s{_s}_o{_o}_k{_k}"
                    COMBOS.append(_name)
                    CONFIGS[_name] = (GCC, ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], tune(_h[0], _h[1], _l[0], _l[1], _s, _o, _k))
CONFIGS["combobase"] = (GCC, ["-O2"] + PLAIN, tune())


def is_asan(cfg):
    return cfg.startswith("asan") or cfg.startswith("combo_")


_lock = threading.Lock()
_pool = concurrent.futures.ThreadPoolExecutor(JOBS)
_objs = {}


def library_sources():
    """All C files of the package except programs (anything defining main) and the measuring utility."""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "*.c"))):
        b = os.path.basename(f)
        if b.startswith("test_") or b in ("ramspace.c", "get_space.c", "get_space2.c", "stack.c"):
            continue
        with open(f, errors="replace") as fh:
            if re.search(r"^\s*(int|void)\s+main\s*\(", fh.read(), re.M):
                continue
        out.append(f)
    if not out:
        raise BuildError("no library sources in " + REPO)
    return out


def compile_obj(cc, flags, src, incs=()):
    """Object file, cached by preprocessed text, flags and compiler."""
    inc = ["-I" + REPO] + ["-I" + i for i in incs]
    rc, text = 0, ""
    p = subprocess.run([cc] + flags + inc + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError(f"{os.path.basename(src)}: " + p.stderr.decode("utf-8", "replace")[-1500:])
    fl = [f for f in flags if not f.startswith("-D")]
    dbg = b"" if "-g" not in flags and "-g1" not in flags else src.encode()
    key = hashlib.sha256(b"\0".join([cc.encode(), " ".join(fl).encode(), dbg, p.stdout])).hexdigest()[:32]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    out = os.path.join(BUILD, "obj", key + ".o")
    with _lock:
        ev = _objs.get(out)
        mine = ev is None
        if mine:
            ev = _objs[out] = [threading.Event(), None]
    if mine:
        try:
            if not os.path.exists(out):
                tmp = out + f".{os.getpid()}.tmp.o"
                rc, text = sh([cc] + flags + inc + ([] if "-fno-pic" in flags else ["-fPIC"]) + ["-w", "-c", src, "-o", tmp])
                if rc:
                    ev[1] = f"{os.path.basename(src)}: {text[-1500:]}"
                else:
                    os.rename(tmp, out)
        except Exception as e:  # noqa
            ev[1] = str(e)
        finally:
            ev[0].set()
    else:
        ev[0].wait()
    if ev[1]:
        raise BuildError(ev[1])
    return out


no_hash = {}         # property, configuration -> why the hash functions cannot be called by name


@functools.lru_cache(None)
def symbols(obj, which):
    rc, text = sh(["nm", which, obj])
    return frozenset(w[-1] for w in (x.split() for x in text.splitlines()) if w)


def build_machine(cfg):
    """Program that serves the library on another machine."""
    cc, flags, defs = CONFIGS[cfg]
    mips, md, hd = cfg.startswith("mips"), os.path.join(VERIF, "mach"), os.path.join(VERIF, "harness")
    sysinc = ["-isystem", os.path.join(md, "include"), "-isystem", "/usr/include", "-isystem", "/usr/include/x86_64-linux-gnu"]
    fl = flags + sysinc + (defs or [])
    own = [f for f in fl if not f.startswith("-fsanitize")]
    objs = [compile_obj(cc, fl, s) for s in library_sources()] + [compile_obj(cc, own, os.path.join(md, "driver.c"), [hd])]
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    out, text = None, ""
    for no in ([], ["-DVT_NO_SHA"], ["-DVT_NO_SHAKE"], ["-DVT_NO_SHA", "-DVT_NO_SHAKE"]):
        try:
            all_ = objs + [compile_obj(cc, own + no, os.path.join(hd, "shim.c"), [hd])]
        except BuildError as e:
            text = text or str(e)
            continue
        h = hashlib.sha256("\0".join(all_).encode())
        if mips:
            with open(os.path.join(md, "emu.cc"), "rb") as f:
                h.update(f.read())
        out = os.path.join(BUILD, "lib", f"{cfg}-{h.hexdigest()[:20]}.mach")
        if os.path.exists(out) and (not mips or os.path.exists(out + ".elf")):
            return out
        tmp = out + f".{os.getpid()}.tmp"
        rc, t = sh(["ld.lld", "-static", "-e", "_start", "-o", tmp] + all_ if mips else [GCC, "-m32", "-nostdlib", "-static", "-no-pie", "-o", tmp] + all_)
        if not rc:
            break
        text, out = text or t, None
    if not out:
        raise BuildError("link: " + text[-1500:])
    if mips:
        os.rename(tmp, out + ".elf")
        rc, t = sh([GXX, "-O2", "-w", "-o", tmp, os.path.join(md, "emu.cc")])
        if rc:
            raise BuildError(t[-1500:])
    os.rename(tmp, out)
    return out


def build_lib(cfg):
    """Shared library of one configuration; raises BuildError."""
    if cfg.startswith(("m32", "mips")):
        return build_machine(cfg)
    cc, flags, defs = CONFIGS[cfg]
    fl = flags + (defs or [])
    objs = [compile_obj(cc, fl, s) for s in library_sources()]
    shimflags = [f for f in fl if not f.startswith("-fsanitize-coverage")]
    shim = os.path.join(VERIF, "harness", "shim.c")
    hd = [os.path.join(VERIF, "harness")]
    have = set().union(*(symbols(o, "--defined-only") for o in objs))
    no = []
    for fam, pre, pid in (("SHA", "ts_SHA", "C12"), ("SHAKE", "ts_shake", "C13")):
        try:
            only = ["-DVT_NO_" + x for x in ("SHA", "SHAKE") if x != fam]
            missing = {x for x in symbols(compile_obj(cc, shimflags + only, shim, hd), "-u") if x.startswith(pre)} - have
            if missing:
                raise BuildError("no " + " ".join(sorted(missing)))
        except BuildError as e:
            no.append("-DVT_NO_" + fam)
            no_hash[pid, cfg] = str(e)
    so = compile_obj(cc, shimflags + no, shim, hd)
    objs.append(so)
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "lib", f"{cfg}-{key}.so")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        link = [cc, "-shared", "-nostartfiles", "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,relro", "-o", tmp] + [f for f in flags if f.startswith("-fsanitize=")] + objs
        if not is_asan(cfg) and not cfg.startswith("trace"):
            link.append("-Wl,-z,defs")
        rc, text = sh(link)
        if rc:
            raise BuildError("link: " + text[-1500:])
        os.rename(tmp, out)
    return out


def build_libs(cfgs):
    """name -> path, name -> error"""
    ok, bad = {}, {}
    # submitting whole configurations; the object cache removes duplicates
    futs = {c: _pool.submit(build_lib, c) for c in dict.fromkeys(cfgs)}
    for c, f in futs.items():
        try:
            ok[c] = f.result()
        except BuildError as e:
            bad[c] = str(e)
    return ok, bad


HARNESS = ["engine", "lib", "p_conform", "p_session", "p_hash", "p_misc", "p_work", "p_link", "p_ct", "p_mach"]


def _cxx(src, flags, tag):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "ref", "*.h"))) + [src]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(" ".join(flags).encode())
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    out = os.path.join(BUILD, "obj", f"{tag}-{h.hexdigest()[:24]}.o")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp.o"
        rc, text = sh([GXX, "-std=c++17"] + flags + ["-c", src, "-o", tmp])
        if rc:
            raise BuildError(text[-3000:])
        os.rename(tmp, out)
    return out


def build_harness(asan):
    hd = os.path.join(VERIF, "harness")
    fl = ["-O1", "-fno-omit-frame-pointer"] + (["-fsanitize=address"] if asan else [])
    names = HARNESS + ([] if asan else ["p_ram"])
    futs = [_pool.submit(_cxx, os.path.join(VERIF, "ref", "ref.cc"), ["-O3", "-march=native", "-Wno-psabi"], "ref")]
    futs += [_pool.submit(_cxx, os.path.join(hd, n + ".cc"), fl, n + ("-asan" if asan else "")) for n in names]
    objs = [f.result() for f in futs]
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f"harness{'-asan' if asan else ''}-{key}")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        rc, text = sh([GXX, "-rdynamic"] + (["-fsanitize=address,undefined"] if asan else []) + ["-o", tmp] + objs + ["-ldl", "-lpthread"])
        if rc:
            raise BuildError(text[-3000:])
        os.rename(tmp, out)
    return out


def prune(keep_hours=12):
    """Old build products go."""
    import time
    lim = time.time() - keep_hours * 3600
    for d in ("obj", "lib"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                if os.stat(f).st_mtime < lim:
                    os.unlink(f)
            except OSError:
                pass
