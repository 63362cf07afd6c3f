"""What each check runs: rows (sub-property, configuration[/filter], quick cases, thorough cases, seconds per case, options)."""
import json, os, re, shutil, stat, subprocess, sys
import vt_build as vb

FAST_SHAKE_CONFIGS = ("os1", "o2k1", "clang", "o3", "tune")


def c01(t):
    K = "C01.keygen"
    rows = [(K, "os1/f", 900, 20000, .02), (K, "os1/s", 72, 1500, .4), (K, "tune/f", 90, 1000, .02), (K, "tune/s", 12, 120, .4), (K, "o2k1/f", 120, 4000, .02), (K, "o3/f", 120, 4000, .02), (K, "clang/f", 120, 4000, .02),
            (K, "clangk1/f", 60, 2000, .02), (K, "o0/f", 60, 600, .05), (K, "small/sha2+f", 120, 3000, .03), (K, "small/shake+f", 60, 1500, .2), (K, "clangk2/f", 60, 1000, .1), (K, "small/sha2+s", 6, 120, .6), (K, "small/shake+s", 3, 48, 5), (K, "o2k1/s", 6, 240, .4)]
    rows += [(K, "min_" + n + "/" + n, 6 if n[-1] == "f" else 1, 60 if n[-1] == "f" else 4, .2 if n[-1] == "f" else 4) for n in vb.SETS]
    return rows


def c02(t):
    rows = [("C02.huge", "os1", 3, 15, 60, {"chunks": 3 if t == "quick" else 8}), ("C02.huge", "o2k1", 0, 5, 60, {"chunks": 5}), ("C02.huge", "clangk2", 0, 5, 90, {"chunks": 5}),
            ("C02.full", "os1", 48, 600, 1.4), ("C02.target", "os1", 120, 1200, 1.4), ("C02.extreme", "os1", 60, 1500, 1.2, {"chunks": 6 if t == "quick" else 60}), ("C02.extreme", "min_sha2_192f", 6, 60, .8), ("C02.extreme", "min_shake_192f", 3, 60, 3), ("C02.extreme", "o3", 0, 300, 1.2), ("C02.fast", "os1", 240, 5000, .3), ("C02.length", "os1", 7200, 60000, .012),
            ("C02.fast", "tune", 24, 120, .3), ("C02.fast", "o2k1", 48, 600, .4), ("C02.fast", "o3", 24, 600, .3), ("C02.fast", "clang", 24, 600, .3), ("C02.fast", "clangk1", 12, 300, .4), ("C02.fast", "o0", 12, 60, .8), ("C02.fast", "small/sha2", 24, 300, .4), ("C02.fast", "small/shake", 9, 60, 2.5), ("C02.fast", "clangk2/f", 12, 60, 2),
            ("C02.length", "o2k1", 1200, 12000, .015), ("C02.length", "small/f", 1200, 12000, .02), ("C02.length", "small/s", 240, 2400, .1), ("C02.length", "o3", 600, 6000, .012), ("C02.length", "clangk2", 600, 6000, .03),
            ("C02.full", "o3", 0, 120, 1.2), ("C02.full", "small/sha2", 6, 60, 1.6), ("C02.full", "small/shake+s", 0, 9, 30), ("C02.full", "clangk1", 0, 60, 2)]
    rows += [("C02.full", "min_" + n + "/" + n, 1 if n[-1] == "f" or n[:4] == "sha2" else 0, 12 if n[-1] == "f" else 2, 1 if n[-1] == "f" else 5 if n[:4] == "sha2" else 30) for n in vb.SETS]
    return rows


def c03(t):
    rows = [("C03.crafted", "os1", 12000, 400000, .008), ("C03.foreign", "os1", 360, 10000, .15), ("C03.own", "os1", 60, 1200, .25), ("C03.ownslow", "os1", 18, 240, 2.2), ("C03.huge", "os1", 3, 15, 40, {"chunks": 3 if t == "quick" else 8}), ("C03.extreme", "os1", 48, 4000, .4),
            ("C03.extreme", "min_sha2_192f", 12, 120, .3), ("C03.extreme", "small/shake_192f", 6, 60, .4), ("C03.extreme", "o3", 12, 600, .4), ("C03.extreme", "clang", 12, 600, .4)]
    for c, w in (("tune", .1), ("o2k1", .2), ("small", .2), ("clang", .2), ("clangk1", .1), ("clangk2", .2), ("o3", .2), ("o0", .05), ("asan", .05)):
        rows.append(("C03.crafted", c, int(6000 * w), int(100000 * w), .012 if c not in ("small", "clangk2", "asan", "o0") else .03))
    rows += [("C03.crafted", "min_" + n + "/" + n, 60, 3000, .02) for n in vb.SETS] + [("C03.crafted", "minfast_" + n + "/" + n, 30, 1500, .02) for n in vb.SETS]
    rows += [("C03.own", "o3", 12, 120, .25), ("C03.own", "small/sha2", 6, 120, .4), ("C03.huge", "clangk2", 0, 5, 80, {"chunks": 5}), ("C03.own", "tune", 6, 60, .3), ("C03.ownslow", "tune", 0, 24, 2.2)]
    return rows


def c04(t):
    rows = [("C04.mutate", "os1", 9000, 300000, .01), ("C04.everyblock", "os1", 9000, 200000, .006), ("C04.rootbit", "os1", 2304, 60000, .01), ("C04.nearmiss", "os1", 6000, 200000, .01), ("C04.length", "os1", 4800, 100000, .012), ("C04.hugesurplus", "os1", 5, 40, 3)]
    for c in ("o2k1", "small", "clang", "o3", "clangk2", "tune", "o0"):
        slow = .03 if c in ("small", "clangk2", "o0") else .01
        rows += [("C04.mutate", c, 480, 20000, slow), ("C04.everyblock", c, 480, 20000, slow), ("C04.rootbit", c, 2304 if c in ("small", "o3") else 480, 4608, slow), ("C04.nearmiss", c, 360, 10000, slow), ("C04.length", c, 240, 10000, slow)]
    rows += [("C04.rootbit", "min_" + n + "/" + n, 256, 2048, .02) for n in vb.SETS] + [("C04.nearmiss", "min_" + n + "/" + n, 60, 1000, .02) for n in vb.SETS]
    rows += [("C04.ownmessage", "os1", 360, 12000, .2)] + [("C04.ownmessage", c, 36, 1500, .4) for c in ("o3", "small/sha2+f", "clang")]
    rows += [("C04.mutate", "asan", 240, 6000, .03), ("C04.length", "asan", 120, 3000, .03), ("C04.hugesurplus", "o3", 0, 10, 3)]
    return rows


def c05(t):
    return [("C05.stream", "os1", 12000, 300000, .007), ("C05.streamslow", "os1", 2400, 40000, .03, {"chunks": 6 if t == "quick" else 24}), ("C05.whole", "os1", 72, 3000, .5), ("C05.after", "os1", 3000, 60000, .01), ("C05.after", "small/sha2", 300, 6000, .01), ("C05.after", "clang", 300, 6000, .01),
            ("C05.stream", "o2k1", 1200, 30000, .007), ("C05.stream", "small/sha2", 1200, 20000, .01), ("C05.stream", "small/shake", 300, 3000, .05), ("C05.stream", "clang", 900, 30000, .007), ("C05.stream", "o3", 600, 30000, .007), ("C05.stream", "o0", 300, 6000, .02), ("C05.stream", "asan", 600, 12000, .03), ("C05.stream", "tune", 300, 6000, .01),
            ("C05.whole", "small/sha2+f", 6, 120, .7), ("C05.whole", "o3", 6, 300, .5), ("C05.whole", "clangk1", 6, 300, .5), ("C05.streamslow", "small/sha2", 300, 3000, .04, {"chunks": 3}), ("C05.streamslow", "o3", 0, 6000, .03, {"chunks": 6})] + \
           [("C05.stream", "min_" + n + "/" + n, 240 if n[:4] == "sha2" else 60, 3000 if n[:4] == "sha2" else 300, .02 if n[:4] == "sha2" else .1) for n in vb.SETS if n[-1] == "f"]


def c06(t):
    return [("C06.feed", "os1", 9000, 300000, .012), ("C06.split", "os1", 36000, 600000, .003), ("C06.surplus", "os1", 6000, 120000, .003), ("C06.surplus", "small", 600, 12000, .01), ("C06.surplus", "clang", 600, 12000, .005), ("C06.feed", "o2k1", 900, 20000, .015), ("C06.feed", "small", 900, 20000, .03), ("C06.feed", "clang", 900, 20000, .012), ("C06.feed", "o3", 900, 20000, .012), ("C06.feed", "o0", 300, 6000, .03), ("C06.feed", "tune", 300, 6000, .012), ("C06.feed", "asan", 600, 12000, .04),
            ("C06.split", "small", 3000, 60000, .01), ("C06.split", "o3", 3000, 60000, .003)] + [("C06.feed", "min_" + n + "/" + n, 90, 2400, .03) for n in vb.SETS]


def c07(t):
    return [("C07.history", "os1", 2400, 60000, .05), ("C07.history", "small/sha2", 300, 6000, .1), ("C07.history", "o3", 300, 12000, .05), ("C07.history", "clang", 300, 12000, .05), ("C07.history", "o2k1", 300, 12000, .06), ("C07.history", "o0", 120, 2400, .15), ("C07.history", "asan", 240, 6000, .2), ("C07.history", "asank1", 60, 1200, .3),
            ("C07.schedule", "trace", 90, 3000, .6), ("C07.schedule", "trace0", 45, 1500, .8), ("C07.schedule", "trace2/f", 16, 300, 3),
            ("C07.first", "trace", 360, 9000, .25), ("C07.first", "trace0", 60, 1500, .5), ("C07.first", "trace2/f", 16, 240, 3), ("C07.firsthistory", "os1", 600, 12000, .05), ("C07.firsthistory", "small/sha2", 120, 2400, .1), ("C07.firstthreads", "os1", 60, 1200, .3, {"chunks": 2}), ("C07.firstthreads", "o3", 30, 600, .3, {"chunks": 1}),
            ("C07.threads", "os1", 40, 900, .6, {"chunks": 2}), ("C07.threads", "o3", 20, 600, .6, {"chunks": 2}), ("C07.threads", "small/sha2+f", 10, 200, .8, {"chunks": 1})]


def c08(t):
    rows = [("C08.history", "os1", 1800, 40000, .05), ("C08.sign", "os1", 6000, 150000, .006), ("C08.signslow", "os1", 1200, 20000, .03, {"chunks": 6 if t == "quick" else 24}), ("C08.verify", "os1", 5400, 150000, .012), ("C08.zero", "os1", 3000, 60000, .003),
            ("C08.history", "asan", 180, 5000, .2)]
    for c in ("asan", "asano0", "o0", "small", "clang", "o3", "o2k1", "asank2"):
        rows.append(("C08.zero", c, 600, 12000, .006))
        if c != "asano0":
            rows.append(("C08.verify", c, 300, 8000, .04 if c in ("asan", "small", "asank2", "o0") else .012))
    rows += [("C08.sign", "o3", 600, 12000, .006), ("C08.sign", "small/sha2", 600, 12000, .01), ("C08.sign", "asan", 300, 6000, .03)]
    rows += [("C08.zero", "min_" + n, 240, 4000, .004) for n in vb.SETS] + [("C08.verify", "min_" + n, 60, 1500, .03) for n in vb.SETS]
    return rows


def c09(t):
    rows = [("C09.history", "asan", 480, 12000, .2), ("C09.untrusted", "asan", 1800, 40000, .03), ("C09.sign", "asan", 600, 12000, .15), ("C09.keygen", "asan/f", 36, 600, .15), ("C09.keygen", "asan/s", 6, 60, 3), ("C09.hash", "asan", 3000, 100000, .001),
            ("C09.history", "asank1", 120, 3000, .3), ("C09.untrusted", "asank1", 360, 12000, .04), ("C09.sign", "asank1", 120, 3000, .2), ("C09.hash", "asank1", 1200, 40000, .001),
            ("C09.history", "asank2", 60, 1500, .4), ("C09.untrusted", "asank2", 360, 12000, .05), ("C09.sign", "asank2", 60, 1500, .5), ("C09.hash", "asank2", 1200, 40000, .001), ("C09.untrusted", "asano0", 240, 6000, .06), ("C09.sign", "asano0", 48, 1200, .4), ("C09.hash", "asano0", 600, 20000, .002),
            ("C09.history", "os1", 600, 20000, .05), ("C09.untrusted", "os1", 1800, 60000, .012), ("C09.sign", "os1", 600, 20000, .08), ("C09.hash", "os1", 1200, 60000, .001), ("C09.untrusted", "o3", 600, 20000, .012), ("C09.sign", "o3", 120, 6000, .06), ("C09.untrusted", "clangk2", 300, 6000, .03), ("C09.whole", "asan/f", 6, 120, 1), ("C09.whole", "asan/s", 2, 24, 12, {"chunks": 2 if t == "quick" else 12})]
    for n in vb.SETS:
        slow = n[:5] == "shake"
        rows += [("C09.untrusted", "asanmin_" + n, 60, 1500, .06), ("C09.sign", "asanmin_" + n, 12 if slow else 24, 300, .8 if slow else .3), ("C09.untrusted", "asanminfast_" + n, 60, 1500, .03), ("C09.sign", "asanminfast_" + n, 18, 300, .3), ("C09.untrusted", "min_" + n, 60, 1500, .03)]
        if n[-1] == "f":
            rows += [("C09.keygen", "asanmin_" + n, 2, 20, 1.5 if slow else .3), ("C09.keygen", "asanminfast_" + n, 2, 20, .3), ("C09.whole", "asanminfast_" + n, 1, 12, 2)]
    return rows


def c10(t):
    rows = [("C10.static", "os1", 48, 600, .4), ("C10.static", "small/sha2", 12, 120, .5), ("C10.static", "o3/f", 12, 120, .3), ("C10.static", "o2k1/f", 12, 120, .4)]
    for n in vb.SETS:
        c, f, slow = f"min_{n}/{n}", n[-1] == "f", n[:5] == "shake"
        rows += [("C10.keygen", c, 4 if f else 1, 40 if f else 4, .3 if f else 5), ("C10.sign", c, (2 if slow else 6) if f else 1, 60 if f else 3, (2 if slow else .3) if f else (30 if slow else 4)),
                 ("C10.signpart", c, 60 if not slow else 24, 1500 if not slow else 300, .08 if not slow else .5), ("C10.verify", c, 300, 10000, .03)]
    return rows


def c11(t):
    rows = []
    for n in vb.COMBOS:
        k = n[-1]
        rows += [("C11.offer", n, 12, 12, .0005, {"lib2": "combobase"}), ("C11.same", n, 36, 360, .06 if k != "2" else .12, {"lib2": "combobase"})]
    for n in ("o2k1", "small", "clang", "clangk2", "o3"):
        rows += [("C11.same", n + ("/f" if n in ("small", "clangk2") else ""), 120, 2400, .05, {"lib2": "combobase"})]
    rows += [("C11.whole", "o2k1/f", 6, 60, .6, {"lib2": "combobase"}), ("C11.whole", "small/sha2+f", 6, 60, .6, {"lib2": "combobase"}), ("C11.whole", "small/sha2+s", 3, 24, 5, {"lib2": "combobase"}), ("C11.whole", "small/shake+f", 3, 24, 3, {"lib2": "combobase"}),
             ("C11.whole", "o2k1/s", 0, 24, 8, {"lib2": "combobase"}), ("C11.whole", "small/shake+s", 0, 6, 40, {"lib2": "combobase"})]
    for n in vb.SETS:
        fast = n[-1] == "f"
        rows += [("C11.whole", f"min_{n}", 1 if fast or n[:4] == "sha2" else 0, 4 if fast else 1, 1 if fast else 6 if n[:4] == "sha2" else 40, {"lib2": "combobase"}), ("C11.whole", f"minfast_{n}", 1, 6, 1 if fast else 5, {"lib2": "combobase"})]
    return rows


def c12(t):
    rows = [("C12.huge", "hashk0", 2, 8, 30, {"chunks": 2 if t == "quick" else 8}), ("C12.total", "hashk0", 6, 40, 4, {"chunks": 6 if t == "quick" else 8}), ("C12.huge", "os1", 0, 4, 40, {"chunks": 4}), ("C12.total", "small", 2, 8, 6, {"chunks": 2})]
    for c in ("hashk0", "os1", "small", "clang", "clangk2", "o3", "o0", "tune"):
        w = 4 if c in ("hashk0", "os1") else 1
        rows += [("C12.length", c, 2400 * w, 60000 * w, .001), ("C12.split", c, 1000 * w, 30000 * w, .002), ("C12.state", c, 1400 * w, 40000 * w, .001)]
    for n in ("sha2_128f", "sha2_256s", "sha2_192f"):
        for p in ("min_", "minfast_"):
            rows += [("C12.length", p + n, 2400, 24000, .001), ("C12.state", p + n, 1400, 14000, .001)]
    return rows


def c13(t):
    rows = [("C13.huge", "hashk0", 2, 4, 30, {"chunks": 2}), ("C13.huge", "hashk1", 2, 4, 30, {"chunks": 2}), ("C13.huge", "hashk2", 0, 2, 250, {"chunks": 2})]
    for c in ("hashk0", "hashk1", "hashk2", "os1", "o2k1", "small", "clang", "clangk1", "clangk2", "o3", "o0", "tune"):
        w = 4 if c.startswith("hashk") else 1
        rows += [("C13.length", c, 1000 * w, 40000 * w, .001), ("C13.output", c, 1000 * w, 40000 * w, .001), ("C13.split", c, 600 * w, 20000 * w, .003)]
    for n in ("shake_128f", "shake_256s"):
        for p in ("min_", "minfast_"):
            rows += [("C13.length", p + n, 1000, 10000, .001), ("C13.output", p + n, 1000, 10000, .001)]
    return rows


def c14(t):
    rows = [("C14.keygenfail", "os1", 6000, 100000, .002), ("C14.latefail", "os1", 120, 2000, .05), ("C14.signfail", "os1", 1800, 30000, .04), ("C14.pure", "os1", 1800, 30000, .04)]
    for c in ("o2k1", "o3", "clang", "o0", "small/sha2", "asan", "tune"):
        slow = 3 if c in ("o0", "asan") else 1
        rows += [("C14.keygenfail", c, 600, 10000, .004), ("C14.signfail", c, 180, 4000, .04 * slow), ("C14.pure", c, 180, 4000, .05 * slow), ("C14.latefail", c + ("+f" if "/" in c else "/f"), 12, 120, .06 * slow)]
    rows += [("C14.pure", "small/shake+f", 24, 300, .6), ("C14.signfail", "small/shake", 60, 600, .3)]
    rows += [("C14.keygenfail", "min_" + n, 180, 3000, .003) for n in vb.SETS] + [("C14.signfail", "min_" + n, 24, 300, .2 if n[:5] == "shake" else .06) for n in vb.SETS]
    return rows


def c15(t):
    rows = [("C15.table", "os1", 3000, 60000, .0005), ("C15.keys", "os1/f", 120, 3000, .05), ("C15.keys", "os1/s", 12, 120, .7), ("C15.deliver", "os1", 120, 3000, .3), ("C15.deliverslow", "os1", 12, 240, 2.2, {"chunks": 6}), ("C15.accept", "os1", 6000, 150000, .008)]
    for c in ("o2k1", "o3", "clang", "o0", "small", "tune", "asan"):
        f = "/f" if c != "small" else "/sha2+f"
        rows += [("C15.table", c, 600, 6000, .0005), ("C15.keys", c + f, 12, 240, .06), ("C15.deliver", c + f, 12, 120, .5), ("C15.accept", c, 360, 12000, .02)]
    for n in vb.SETS:
        fast, slow = n[-1] == "f", n[:5] == "shake"
        rows += [("C15.table", "min_" + n, 12, 60, .001), ("C15.accept", "min_" + n, 90, 2000, .03), ("C15.table", "minfast_" + n, 12, 60, .001), ("C15.accept", "minfast_" + n, 60, 2000, .02), ("C15.keys", "min_" + n, 2 if fast else 1, 20 if fast else 2, .3 if fast else 4)]
        if fast:
            rows += [("C15.deliver", "min_" + n, 1, 12, 2 if slow else .5)]
        else:
            rows += [("C15.deliverslow", "minfast_" + n, 1, 12, 4)]
    return rows


def c16(t):
    return [("C16.fast", "os1", 240, 4000, 1.5), ("C16.slow", "os1", 12, 180, 9, {"chunks": 12 if t == "quick" else 60}), ("C16.fast", "o3", 12, 300, 1.5), ("C16.fast", "small/sha2+f", 6, 120, 2), ("C16.fast", "clang", 12, 200, 1.5), ("C16.fast", "o2k1", 12, 200, 2), ("C16.fast", "minfast_shake_128f", 3, 60, 1.2), ("C16.fast", "min_sha2_192f", 3, 60, 1.5), ("C16.fast", "min_sha2_256f", 2, 60, 2), ("C16.fast", "min_sha2_128f", 3, 60, 1.5), ("C16.slow", "o3", 0, 60, 8)]


def c17(t):
    rows = [("C17.probe", "os1", 9000, 100000, .0005)]
    for n in vb.SETS:
        rows.append(("C17.report", f"min_{n}/{n}", 4, 12, 2 if n[-1] == "f" else 8, {"chunks": 1}))
    return rows


def c18(t):
    rows = []
    for c in ("trace", "trace0", "trace2"):
        k = 5 if c == "trace2" else 1
        rows += [("C18.sign", c, 3600 // k, 60000 // k, .02 * k), ("C18.verify", c, 3600 // k, 100000 // k, .006 * k), ("C18.feed", c, 720 // k, 20000 // k, .03 * k), ("C18.untrusted", c, 960 // k, 30000 // k, .015 * k), ("C18.idle", c, 3000 // k, 60000 // k, .002 * k),
                 ("C18.total", c, 12 if k == 1 else 6, 60 if k == 1 else 12, .5 * k), ("C18.message", c, 480 // k, 12000 // k, .003 * k)]
    return rows


def c19(t):
    return [("C19.link", "os1", 720, 8000, .15)] + [("C19.link", c, 96, 1500, .15) for c in ("small", "o0", "o3", "o2k1", "tune", "clang")] + [("C19.link", "combo_h%s_l%s_s%d_o1_k0" % (h, l, z), 16, 200, .15) for h in ("11", "10", "01") for l in ("00", "01", "10", "11") for z in (0, 1)]


def c20(t):
    rows = [("C20.keygen", c, q, h, e) for c, q, h, e in (("tracect", 360, 9000, .25), ("tracect0", 120, 3000, .35), ("tracect2", 18, 600, 1.5), ("trace", 120, 3000, .15))]
    rows += [("C20.start", c, q, 20 * q, .002) for c, q in (("tracect", 12000), ("tracect0", 6000), ("tracect2", 3000), ("trace", 3000))]
    rows += [("C20.sign", c, q, h, e) for c, q, h, e in (("tracect", 18, 300, 6), ("tracect0", 6, 150, 9), ("tracect2", 0, 36, 46), ("trace", 12, 300, 3))]
    rows += [("C20.signpart", c, q, h, e) for c, q, h, e in (("tracect", 60, 1500, .8), ("tracect0", 30, 600, 1.2), ("tracect2", 6, 150, 5))]
    rows += [("C20.keygenslow", c, q, h, e, {"chunks": 6}) for c, q, h, e in (("tracect", 6, 60, 5), ("tracect0", 0, 30, 7), ("tracect2", 0, 12, 40))]
    rows += [("C20.signslow", c, q, h, e) for c, q, h, e in (("tracect", 36, 600, .8), ("tracect0", 18, 300, 1.2))]
    return rows


def c21(t):
    rows = [("C21.sizes", c, 12, 12, .01) for c in ("m32os", "m32clang", "m32ub", "m32tune", "mips", "mipssmall", "mipsk1")]
    rows += [("C21.hugehash", "m32os", 3, 24, 13, {"chunks": 3 if t == "quick" else 24}), ("C21.hugemsg", "m32os", 2, 24, 23, {"chunks": 2 if t == "quick" else 24}), ("C21.hugehash", "m32clang", 1, 12, 20, {"chunks": 1 if t == "quick" else 12})]
    for c, k, slow in (("m32os", 1, 1), ("m32clang", .4, 1), ("m32ub", .4, 3), ("m32tune", .2, 1)):
        r = lambda q: max(3, int(q * k))
        rows += [("C21.keygen", c + "/f", r(240), r(6000), .05 * slow), ("C21.keygen", c + "/s", r(18), r(360), .6 * slow), ("C21.sign", c, r(30), r(900), .35 * slow), ("C21.signslow", c, 4 if k == 1 else 0, r(120), 3 * slow),
                 ("C21.prefix", c, r(720), r(20000), .04 * slow), ("C21.verify", c, r(1000), r(40000), .05), ("C21.sessions", c, r(240), r(6000), .15), ("C21.hash", c, r(3000), r(60000), .001)]
    for c, k, slow in (("mips", 1, 1), ("mipssmall", .2, 2), ("mipsk1", .3, 1)):
        r = lambda q: max(3, int(q * k))
        rows += [("C21.keygen", c + "/sha2+f", r(24), r(600), .6 * slow), ("C21.keygen", c + "/shake+f", r(6), r(150), 4 * slow), ("C21.sign", c + "/sha2", 3 if k == 1 else 0, r(90), 8 * slow), ("C21.sign", c + "/shake_128", 0, r(12), 60 * slow),
                 ("C21.prefix", c, r(96), r(3000), .25 * slow), ("C21.verify", c, r(100), r(4000), .6 * slow), ("C21.sessions", c, r(18), r(600), 2.3 * slow), ("C21.hash", c, r(600), r(9000), .008 * slow)]
    return rows


PLAN = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}

RULES = {
    "C01": "A case is (parameter set, 3N seed bytes, public buffer given or not, prior buffer/stack content). Non-trivial: the library's key was compared byte for byte with the reference key generation. Distinct by the draws.",
    "C02": "A case is (set, private key generated/imported, OptRand given/default, message of drawn length and content, request pattern); C02.length sweeps every message length from 0 for every set comparing R, FORS values and first WOTS+ values; C02.target searches messages whose digest hits extreme positions; C02.huge uses messages of 512 MiB to over 4 GiB. Non-trivial: signature bytes were compared with the reference signature.",
    "C03": "A case is a (key, message, signature) the reference model says is valid: crafted by the key owner (free FORS and lower layers, extreme WOTS+ checksums), made by the reference signer, or by the library itself, fed in drawn pieces. Non-trivial: the verdict of a valid signature was compared.",
    "C04": "A case is an invalid (public key, message, byte string): one bit in each N-byte block, near-miss public roots for every root bit, structural mutations of signature/message/key, truncations and surplus of any amount. Only cases the reference verifier calls invalid count as non-trivial.",
    "C05": "A case is a start position (block) of a signature plus a sequence of request sizes, or a whole session with the message released/overwritten/protected. Non-trivial: at least one request was compared (count, bytes, nothing written beyond).",
    "C06": "A case is (valid/prefix/altered/overlong/random byte string, sequence of pieces with empty ones, early verdict queries, feeding after the end). Non-trivial: more than one piece, or a two-piece split at a swept offset.",
    "C07": "A case is a history of API calls over 2-4 contexts (start/restart in either role, garbage contents, requests, pieces, verdicts, key generations, calls from inside the random callback), an interleaving at basic-block level of 2-3 jobs on coroutines, or jobs on 2-6 threads; results are compared with the session alone. Non-trivial: at least two activities interleaved.",
    "C08": "A case is a session (position drawn) with misplaced calls inserted, a misplaced-call history, or calls on an all-zero context. Non-trivial: at least one misplaced call was made and its refusal and lack of effect checked.",
    "C09": "A case is a call sequence with exact-extent buffers at drawn alignment under AddressSanitizer+UBSan or guard pages; inputs (keys, messages, signatures) untrusted and compared afterwards. Non-trivial: at least one API call processed drawn data.",
    "C10": "A case is one operation (key generation, signing with drawn message/request pattern, verification of valid/altered/overlong signatures) of one set in its minimal configuration on a painted stack, with allocator calls counted and the library's writable segment compared. Non-trivial: the RAM of the operation was measured.",
    "C11": "A case is one operation (key, signature part, verdict) of one set, done by one of the 144 configurations (AddressSanitizer) and by the one with everything enabled, compared. The headers of all 144 configurations are compiled and the declared sets compared with the documentation. Non-trivial: both libraries produced a result.",
    "C12": "A case is (message, division into updates, truncation length, save/restore point and target context). Non-trivial: a digest was compared with the reference.",
    "C13": "A case is (message, division into absorbs, output length, division into squeezes) for one of the Keccak variants. Non-trivial: output was compared with the reference.",
    "C14": "A case is a random source (content, failing at the first or a later call, filling or not filling the buffer), missing argument, or a repetition with different surroundings (stack, buffers, surplus randomness). Non-trivial: outcome compared.",
    "C15": "A case is (set, configuration, key buffers with canaries / request pattern / length offered to verification). Non-trivial: sizes compared with the specification's table.",
    "C16": "A case is one private key and 4-11 (slow sets 3-5) signatures of drawn messages, most steered so that their paths meet; all parts must fit one hypertree. Non-trivial: at least one one-time key above the bottom layer was met by two signatures.",
    "C17": "A case is a probed stack depth and content, or one figure (context, key generation, signing, verification) of the report of one set compared with our own painted-stack measurement. Non-trivial: figures compared.",
    "C18": "A case is a stretch of a signature (drawn start, length, division into requests or pieces), untrusted bytes, calls with nothing to do, a whole signature, or a message length; the executed basic blocks of the library are counted and compared with the same work done in one call. Non-trivial: two counts compared, with more than one call where a division is the point.",
    "C20": "A case is a pair or a few runs of one operation that differ in secrets only (random bytes of key generation; keys, OptRand and message content at the start of a signature; SK.seed while the signature is made), in builds that report every basic block and every load and store address. Non-trivial: the traces of at least two runs were compared.",
    "C21": "A case is one operation or a history of several sessions of the library built for another machine (32-bit x86 run natively, big-endian MIPS interpreted), with drawn parameter set, keys, messages, OptRand and pieces; hash inputs up to 2 GiB. Non-trivial: its result was compared with the reference model's.",
    "C19": "A case is a program that uses a drawn subset of the parameter sets and of the operations, linked against the package as an archive of its object files. Non-trivial: the image's symbols and the program's output were compared.",
}
ASSUMPTIONS = {
    "all": ["x86-64, the installed gcc and clang", "the reference model in /verif/ref is right (checked against the SPHINCS+ reference vectors and hashlib)", "a finite sample of an infinite space: absence of a violation is evidence, not proof"],
    "C07": ["schedules are explored at basic-block granularity on one core (coroutines) plus free-running threads"],
    "C10": ["RAM is that of gcc -Os -fomit-frame-pointer on x86-64; the published figures are those of the pinned ramspace.out"],
    "C21": ["the MIPS interpreter in /verif/mach is right about the instructions the compiler uses (it refuses others)", "int has at least 32 bits"],
    "C17": ["the reporting utility is built with the project's own Makefile in a scratch copy"],
}


# ------------------------------------------------------------------ parts that are not engine jobs
class SpecialViolation(Exception):
    def __init__(self, msg, **special):
        Exception.__init__(self, msg)
        self.special = special


def documented(cfg):
    """parameter sets the documentation (read.me, tune.h) promises for a combination"""
    m = re.match(r"combo_h(.)(.)_l(.)(.)_s(.)_o._k.", cfg)
    shake, sha2, l5, l3, s = (x == "1" for x in m.groups())
    out = []
    for n in vb.SETS:
        if (n.startswith("sha2") and not sha2) or (n.startswith("shake") and not shake):
            continue
        if n.endswith("s") and not s:
            continue
        if n[-4:-1] == "256" and not l5:
            continue
        if n[-4:-1] == "192" and not (l3 or l5):
            continue
        out.append(n)
    return out


def c11_special(r, jobs, tier):
    cfgs = [c for c in vb.COMBOS]
    bad = getattr(r, "bad", {})
    for c in cfgs:
        if c in bad:
            raise SpecialViolation(f"configuration {c} does not build: {bad[c][:600]}", cfgs=["combobase", c])
    src = os.path.join(r.dir, "offer.c")
    with open(src, "w") as f:
        f.write('#include "tiny_sphincs.h"\nconst struct ts_parameter_set *p[] = {\n' + "".join(f"&ts_ps_{n}_simple,\n" for n in vb.SETS) + "};\n")
    samples, n = [], 0

    def one(c):
        rc, text = vb.sh(["env", "LC_ALL=C", vb.GCC, "-fsyntax-only", "-I" + vb.REPO] + vb.CONFIGS[c][2] + [src])
        missing = re.findall(r"'ts_ps_(\w+)_simple' undeclared", text)
        if rc and not missing:
            return None, text
        return [x for x in vb.SETS if x not in missing], text

    res = list(vb._pool.map(one, cfgs))
    for c, (got, text) in zip(cfgs, res):
        want = documented(c)
        if got is None:
            raise SpecialViolation(f"configuration {c}: the header does not compile: {text[:500]}", cfgs=["combobase"])
        if got != want:
            raise SpecialViolation(f"configuration {c} declares {sorted(set(got) - set(want))} beyond and lacks {sorted(set(want) - set(got))} of the documented parameter sets", cfgs=["combobase"])
        n += 1
        if n % 48 == 1:
            samples.append(f"C11.header {c}: declares {', '.join(got)}")
    return {"evaluations": n, "distinct_nontrivial": n, "samples": samples, "coverage": {"configurations_enumerated": n, "exhaustive_over_configurations": True}}


def scratch_copy(dst):
    os.makedirs(dst)
    for f in os.listdir(vb.REPO):
        p = os.path.join(vb.REPO, f)
        if os.path.isfile(p) and not f.endswith(".o") and f not in ("ramspace", "ramspace.out"):
            shutil.copy2(p, os.path.join(dst, f))


MAKE_SHIM = """#!/usr/bin/env python3
import json, os, sys
with open(os.environ["VT_MAKE_LOG"], "a") as f:
    f.write(json.dumps(sys.argv[1:]) + "\\n")
"""


def c17_special(r, jobs, tier):
    """Runs the report script with a make that only records, checks what it asks for, then does what it asked for
    (each stretch between two 'make clean' in a scratch copy of its own) and hands the lines to C17.report."""
    d = os.path.join(r.dir, "script")
    scratch_copy(d)
    bind = os.path.join(r.dir, "bin")
    os.makedirs(bind)
    with open(os.path.join(bind, "make"), "w") as f:
        f.write(MAKE_SHIM)
    os.chmod(os.path.join(bind, "make"), 0o755)
    log = os.path.join(r.dir, "make.log")
    open(log, "w").close()
    env = dict(os.environ, PATH=bind + ":" + os.environ["PATH"], VT_MAKE_LOG=log)
    for v in ("MAKEFLAGS", "MFLAGS", "DFLAGS", "PARM_SET"):
        env.pop(v, None)
    p = subprocess.run([sys.executable, "ramspace.py"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode:
        raise SpecialViolation("the report script fails: " + p.stdout.decode("utf-8", "replace")[-500:], cfgs=[])
    calls = [json.loads(x) for x in open(log)]
    groups, cur, asked = [], [], []
    for c in calls:
        if "clean" in c and not any(x.startswith("PARM_SET=") for x in c):
            if cur:
                groups.append(cur)
            cur = []
            continue
        v = dict(x.split("=", 1) for x in c if "=" in x and not x.startswith("-"))
        if "PARM_SET" not in v:
            cur.append(c)
            continue
        asked.append((v["PARM_SET"], v.get("DFLAGS", "")))
        cur.append(c)
    if cur:
        groups.append(cur)
    names = [a[0] for a in asked]
    want = [f"ts_ps_{n}_simple" for n in vb.SETS]
    for w in want:
        if names.count(w) != 1:
            raise SpecialViolation(f"the report script measures {w} {names.count(w)} times (it measures {', '.join(names)})", cfgs=[])
    extra = [x for x in names if x not in want]
    if extra:
        raise SpecialViolation(f"the report script measures unknown parameter sets {extra}", cfgs=[])
    # what it asked for, each stretch in its own copy; kept off the check's own set if only a replay is run
    need = None
    if len(jobs) == 1 and jobs[0]["sub"] == "C17.report":
        need = "ts_ps_" + jobs[0]["cfg"].split("/")[1] + "_simple"
    lines, errs = [], []

    def stretch(k):
        dd = os.path.join(r.dir, f"build{k}")
        scratch_copy(dd)
        for c in groups[k]:
            v = dict(x.split("=", 1) for x in c if "=" in x)
            q = subprocess.run(["make"] + c, cwd=dd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700, env={k2: v2 for k2, v2 in os.environ.items() if k2 not in ("MAKEFLAGS", "MFLAGS", "DFLAGS", "PARM_SET")})
            if q.returncode:
                errs.append(f"make for {v.get('PARM_SET')} ({v.get('DFLAGS')}): " + q.stdout.decode("utf-8", "replace")[-400:])
        o = os.path.join(dd, "ramspace.out")
        text = open(o, errors="replace").read() if os.path.exists(o) else ""
        shutil.rmtree(dd, ignore_errors=True)
        return text

    order = [k for k in range(len(groups)) if need is None or any("PARM_SET=" + need in c for c in groups[k]) or len(groups) == 1]
    order.sort(key=lambda k: 0 if "shake" in str(groups[k]) and "s_simple" in str(groups[k]) else 1)
    for text in vb._pool.map(stretch, order):
        lines += text.splitlines()
    rep = os.path.join(r.dir, "report")
    with open(rep, "w") as f:
        f.write("\n".join(lines) + "\n")
    so = os.path.join(r.dir, "stack.so")
    rc, text = vb.sh([vb.GCC, "-fomit-frame-pointer", "-fPIC", "-shared", "-nostartfiles", "-Wl,-z,now", "-I" + vb.REPO, "-o", so, os.path.join(vb.REPO, "stack.c")])
    if rc:
        raise SpecialViolation("the stack probe does not build: " + text[-400:], cfgs=[])
    for j in jobs:
        j["arg"], j["arg2"] = rep, so
    if errs:
        r.notes.append("make errors: " + " || ".join(errs)[:1500])
    return {"evaluations": len(asked), "distinct_nontrivial": len(set(asked)), "samples": [f"C17.script {n} with {f}" for n, f in asked[:3]], "coverage": {"report_lines": [x for x in lines if x.startswith("ts_ps_")]}}


def c19_special(r, jobs, tier):
    """the package of each configuration as an archive, one member per source file"""
    for c in dict.fromkeys(j["cfg"] for j in jobs):
        cc, flags, defs = vb.CONFIGS[c]
        flags = [f for f in flags if not f.startswith("-fsanitize") and not f.startswith("-g")] + (defs or [])
        try:
            objs = list(vb._pool.map(lambda s: (s, vb.compile_obj(cc, flags, s)), vb.library_sources()))
        except vb.BuildError:
            continue                    # C11 reports configurations that do not build
        d = os.path.join(r.dir, "ar-" + c)
        os.makedirs(d)
        members = []
        for s, o in objs:
            m = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            shutil.copy2(o, m)
            members.append(m)
        rc, text = vb.sh(["ar", "rcs", os.path.join(d, "libts.a")] + members)
        if rc:
            raise SpecialViolation("no archive: " + text[-300:], cfgs=[])
        for j in jobs:
            if j["cfg"] == c:
                j["arg"] = os.path.join(d, "libts.a")
    return {}


SPECIAL = {"C19": c19_special, "C11": c11_special, "C17": c17_special}
