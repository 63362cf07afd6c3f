#!/usr/bin/env python3
"""check.py C05                 decide property C05 on /repo's working tree (VERIF_SEED, VERIF_TIER)
   check.py C05 --replay FILE   run one recorded failure again
   check.py --setup             build everything once and run the reference model's self test
Exit status: 0 held on everything explored, 1 violated (VIOLATION line), 2 the check itself failed."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt_build as vb
from plan import PLAN, RULES, ASSUMPTIONS, SPECIAL

VERIF = vb.VERIF
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
LIMIT = float(os.environ.get("VERIF_SECONDS", "480" if TIER == "quick" else "800"))      # start of the wind-down
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=99", LC_ALL="C")


class Violation(Exception):
    def __init__(self, msg, replay):
        self.msg, self.replay = msg, replay


class CheckError(Exception):
    pass


def known_findings(pid):
    """[(regex, text)] of the recorded, unrepaired findings of this property"""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def summary(err):
    for line in err.splitlines():
        if "SUMMARY: " in line or "runtime error: " in line:
            line = re.sub(r"/\S*/", "", line)
            return line.strip()[:300]
    return ""


class Run:
    def __init__(self, pid):
        self.pid, self.dir = pid, tempfile.mkdtemp(prefix=pid + "-", dir=self._tmp())
        self.jobs, self.skipped, self.notes, self.findings, self.procs = [], {}, [], [], set()
        self.stop = False
        self.keeper = None
        self.lock = threading.Lock()
        self.violation = None
        self.error = None

    @staticmethod
    def _tmp():
        d = os.path.join(vb.BUILD, "tmp")
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        for p in list(self.procs):
            self.kill(p)
        shutil.rmtree(self.dir, ignore_errors=True)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    # -------------------------------------------------------------- one worker process
    def command(self, job, out, extra):
        name = job["cfg"].split("/")[0]
        cmd = [self.harness[vb.is_asan(name)], "--prop", job["sub"], "--lib", self.libs[name], "--cfg", job["cfg"], "--out", out, "--seed", str(job.get("seed", SEED)), "--tier", TIER]
        if "/" in job["cfg"]:
            cmd += ["--only", job["cfg"].split("/")[1]]
        if job.get("lib2"):
            cmd += ["--lib2", self.libs[job["lib2"]]]
        for a in ("arg", "arg2"):
            if job.get(a):
                cmd += ["--" + a, job[a]]
        return cmd + extra

    def spawn(self, cmd, err):
        with self.lock:
            if self.stop:
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV, start_new_session=True)
            self.procs.add(p)
            return p

    def chunk(self, job, lo, hi, n):
        """cases lo..hi-1 of a job; returns statistics or raises Violation"""
        stats = []
        while lo < hi and not self.stop:
            out = os.path.join(self.dir, f"{n}-{lo}")
            left = LIMIT - (time.time() - T0)
            if left < 3:
                self.notes.append(f"{job['sub']} [{job['cfg']}]: cases {lo}..{hi - 1} not run, time limit")
                break
            with open(out + ".err", "w+") as err:
                p = self.spawn(self.command(job, out, ["--from", str(lo), "--to", str(hi), "--count", str(job["count"]), "--deadline", str(int(left))]), err)
                if p is None:
                    return stats
                while p.poll() is None:
                    time.sleep(0.05)
                    if time.time() - T0 > LIMIT + (200 if TIER == "quick" else 60) and not os.path.exists(out + ".fail"):
                        self.notes.append(f"{job['sub']} [{job['cfg']}]: a case did not finish in time")
                        self.kill(p)
                    if os.path.exists(out + ".fail"):
                        self.winddown(p)
                with self.lock:
                    self.procs.discard(p)
                err.seek(0)
                errtext = err.read()
            if os.path.exists(out):
                with open(out) as f:
                    stats.append(json.load(f))
            if p.returncode == 0:
                return stats
            if self.stop and self.keeper is not None and self.keeper is not p:
                return stats
            if (p.returncode == 1 or self.keeper is p) and os.path.exists(out + ".failure"):
                with open(out + ".failure") as f:
                    fl = json.load(f)
                if errtext and ("abnormal exit" in fl["message"] or "crash" in fl["message"]):
                    sm = summary(errtext)
                    if sm:
                        fl["message"] += " | " + sm
                hit = [t for r, t in known_findings(self.pid) if r.search(fl["message"])]
                if hit:
                    with self.lock:
                        self.findings.append(hit[0])
                    self.stop = False
                    lo = fl["idx"] + 1
                    continue
                fl["property"] = self.pid
                fl["tier"] = TIER
                raise Violation(fl["message"], fl)
            if self.stop or p.returncode < 0:
                if not self.stop and p.returncode < 0 and time.time() - T0 <= LIMIT:
                    raise CheckError(f"{job['sub']} [{job['cfg']}] worker killed by signal {-p.returncode}")
                return stats
            raise CheckError(f"{job['sub']} [{job['cfg']}] ended with {p.returncode}: {errtext[-800:]}")
        return stats

    def winddown(self, keep):
        """a failure has been confirmed and is being shrunk: everything else stops"""
        if known_findings(self.pid):
            return
        with self.lock:
            if self.keeper is not None:
                return
            self.keeper = keep
            self.stop = True
            for q in list(self.procs):
                if q is not keep:
                    self.kill(q)

    # -------------------------------------------------------------- all of them
    def prepare(self, cfgs, plain=True, asan=True):
        cfgs = list(dict.fromkeys(cfgs))
        self.harness = {}
        if any(not vb.is_asan(c) for c in cfgs):
            self.harness[False] = vb.build_harness(False)
        if any(vb.is_asan(c) for c in cfgs):
            self.harness[True] = vb.build_harness(True)
        self.libs, self.bad = vb.build_libs(cfgs)
        for (pid, c), why in vb.no_hash.items():
            if self.pid == pid and self.libs.pop(c, None):
                self.bad[c] = "the hash functions cannot be called by name: " + why

    def run(self, jobs):
        work = []
        for j in jobs:
            name = j["cfg"].split("/")[0]
            if name not in self.libs or (j.get("lib2") and j["lib2"] not in self.libs):
                self.skipped[j["cfg"]] = self.bad.get(name, "baseline not built")
                continue
            j["stats"], j["wall"] = [], 0.0
            self.jobs.append(j)
            total = j["count"] * j["sec"]
            k = max(1, min(j["count"], j.get("chunks") or int(total / 12 + 0.999), 32))
            cuts = [j["count"] * i // k for i in range(k + 1)]
            for a, b in zip(cuts, cuts[1:]):
                work.append(((b - a) * j["sec"], len(work), j, a, b))
        if not work:
            return
        work.sort(key=lambda w: (-w[0], w[1]))
        it = iter(work)

        def worker():
            while True:
                with self.lock:
                    w = next(it, None)
                if w is None or self.stop:
                    return
                t = time.time()
                try:
                    st = self.chunk(w[2], w[3], w[4], w[1])
                    with self.lock:
                        w[2]["stats"] += st
                        w[2]["wall"] += time.time() - t
                except Violation as v:
                    with self.lock:
                        self.violation = self.violation or v
                        self.stop = True
                        for q in list(self.procs):
                            self.kill(q)
                    return
                except Exception as e:  # noqa
                    with self.lock:
                        self.error = self.error or e
                    return

        th = [threading.Thread(target=worker) for _ in range(vb.JOBS)]
        [t.start() for t in th]
        [t.join() for t in th]

    def evidence(self, extra):
        ev, dn, disc, labels, samples, rows = 0, 0, 0, {}, [], []
        for j in self.jobs:
            e = sum(s["evaluations"] for s in j["stats"])
            d = set()
            for s in j["stats"]:
                d.update(s["distinct"])
                disc += s["discards"]
                for k, v in s["labels"].items():
                    labels.setdefault(j["sub"], {})
                    labels[j["sub"]][k] = labels[j["sub"]].get(k, 0) + v
            ev += e
            dn += len(d)
            got = [x for s in j["stats"] for x in s["samples"]]
            samples += got[:2]
            rows.append({"check": j["sub"], "configuration": j["cfg"], "cases": e, "distinct_nontrivial": len(d), "planned": j["count"],
                         "stopped_by_time": any(s["stopped"] for s in j["stats"]), "cpu_s": round(j["wall"], 1)})
        ev += extra.get("evaluations", 0)
        dn += extra.get("distinct_nontrivial", 0)
        samples = extra.get("samples", []) + samples
        cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": RULES[self.pid], "samples": samples[:40], "discarded": disc, "jobs": rows,
               "labels": {k: dict(sorted(v.items(), key=lambda x: -x[1])[:60]) for k, v in labels.items()}}
        if extra.get("coverage"):
            cov.update(extra["coverage"])
        if self.skipped:
            cov["configurations_not_built"] = {k: v[-300:] for k, v in self.skipped.items()}
        if self.notes:
            cov["notes"] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        doc = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS.get(self.pid, []) + ASSUMPTIONS["all"],
               "wall_s": round(time.time() - T0, 1), "violations": 1 if self.violation else 0}
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.rename(p + ".tmp", p)
        return ev, dn


def jobs_of(pid):
    out = []
    for row in PLAN[pid](TIER):
        sub, cfg, q, t, sec = row[:5]
        opts = row[5] if len(row) > 5 else {}
        n = q if TIER == "quick" else t
        if n:
            out.append(dict(opts, sub=sub, cfg=cfg, count=n, sec=sec))
    return out


def write_replay(pid, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{data.get('sub', 'special').replace('.', '_')}-seed{SEED}.json")
    with open(p, "w") as f:
        json.dump(data, f)
    return p


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    pid = sys.argv[1]
    if pid not in PLAN:
        print("no such property", pid)
        return 2
    vb.prune()
    r = Run(pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(r, sys.argv[3])
        extra = {}
        jobs = jobs_of(pid)
        pre = SPECIAL.get(pid)
        cfgs = [j["cfg"].split("/")[0] for j in jobs] + [j["lib2"] for j in jobs if j.get("lib2")]
        r.prepare(cfgs)
        if not r.libs:
            raise CheckError("nothing builds: " + next(iter(r.bad.values())))
        if pre:
            try:
                extra = pre(r, jobs, TIER) or {}
            except Exception as e:
                if not hasattr(e, "special"):
                    raise
                r.violation = Violation(str(e), dict(e.special, property=pid, sub="special", tier=TIER))
        if not r.violation:
            r.run(jobs)
        for f in dict.fromkeys(r.findings):
            print(f"KNOWN-FINDING: property={pid} {f}")
        ev, dn = r.evidence(extra)
        if r.violation:
            path = write_replay(pid, r.violation.replay)
            print(r.violation.msg)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if r.error:
            raise r.error
        if r.stop:
            raise CheckError("a failure was found but its report was lost")
        print(f"{pid} {TIER} seed={SEED}: {ev} cases, {dn} distinct non-trivial, no violation, {time.time() - T0:.0f} s" + (f"; not built: {', '.join(r.skipped)}" if r.skipped else ""))
        return 0
    except (CheckError, vb.BuildError, OSError) as e:
        print(f"check error: {e}")
        return 2
    finally:
        r.close()


def replay(r, path):
    with open(path) as f:
        d = json.load(f)
    if d["sub"] == "special":
        r.prepare(d.get("cfgs", []))
        try:
            SPECIAL[r.pid](r, [], d.get("tier", "quick"))
        except Exception as e:
            if not hasattr(e, "special"):
                raise
            print(e)
            print(f"VIOLATION property={r.pid} replay={path}")
            return 1
        print("passes")
        return 0
    global TIER
    TIER = d.get("tier", "quick")
    cand = [j for j in jobs_of(r.pid) if j["sub"] == d["sub"] and j["cfg"] == d["cfg"]]
    job = dict(cand[0] if cand else {}, sub=d["sub"], cfg=d["cfg"], count=d["count"], seed=d["seed"], sec=1)
    r.prepare([d["cfg"].split("/")[0]] + ([job["lib2"]] if job.get("lib2") else []))
    if r.bad:
        print("check error:", next(iter(r.bad.values())))
        return 2
    if r.pid in SPECIAL:
        try:
            SPECIAL[r.pid](r, [job], TIER)
        except Exception as e:
            if not hasattr(e, "special"):
                raise
    f = os.path.join(r.dir, "replay")
    with open(f, "w") as fh:
        fh.write(f"H {d['first']} {d['step']} {d['idx']}\n" if d["history"] else "C " + " ".join(map(str, d["choices"])) + "\n")
    p = subprocess.run(r.command(job, os.path.join(r.dir, "o"), ["--count", str(d["count"]), "--replay", f]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    print(p.stdout.decode().strip())
    if p.returncode == 1:
        s = summary(p.stderr.decode("utf-8", "replace"))
        if s:
            print(s)
        print(f"VIOLATION property={r.pid} replay={path}")
        return 1
    if p.returncode:
        print("check error:", p.stderr.decode("utf-8", "replace")[-800:])
        return 2
    return 0


def setup():
    """reference model self test; harness and one configuration build"""
    vb.build_harness(False)
    vb.build_harness(True)
    ok, bad = vb.build_libs(["os1"])
    exe = os.path.join(vb.BUILD, "selftest")
    rc, out = vb.sh([vb.GXX, "-std=c++17", "-O3", "-march=native", "-Wno-psabi", "-o", exe, os.path.join(VERIF, "ref", "ref.cc"), os.path.join(VERIF, "ref", "selftest.cc")], cwd=os.path.join(VERIF, "ref"))
    if rc:
        print(out[-2000:])
        return 2
    rc, out = vb.sh([exe], cwd=os.path.join(VERIF, "ref"), timeout=600)
    print(out[-500:])
    if bad:
        print(bad)
    return 2 if rc else 0


if __name__ == "__main__":
    sys.exit(main())
