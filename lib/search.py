"""The concrete side: builds of the real crate, search for failing inputs, replays.
It confirms what the verifier reports, and stands in (bounded) where the extraction cannot follow."""
import os, re, shutil, subprocess, time, concurrent.futures as cf
from prove import base_env, sh, VERIF, REPO

H = os.path.join(VERIF, "harness")
# build name -> (cargo arguments, environment)
BUILDS = {
    "dbg": ([], {}),
    "rel": (["--release"], {}),
    "avx": ([], {"MMTEST_FEATURE": "avx"}),
    "sse2": ([], {"MMTEST_FEATURE": "sse2"}),
    "none": ([], {"MMTEST_FEATURE": "none"}),
    "fma": ([], {"MMTEST_FEATURE": "fma"}),
    "relnone": (["--release"], {"MMTEST_FEATURE": "none"}),
    "relavx": (["--release"], {"MMTEST_FEATURE": "avx"}),
    "nt": (["--no-default-features", "--features", "std"], {}),
    "ns": (["--no-default-features"], {}),
    "nsfma": (["--no-default-features"], {"RUSTFLAGS": "-Ctarget-feature=+avx,+avx2,+fma"}),
}


def conf_env(kind):
    """accepted blocking configurations (MC, KC, NC) per type; chosen to exercise every loop boundary"""
    t = {
        "small": dict(S=(8, 8, 8), D=(8, 8, 8), C=(4, 4, 4), Z=(4, 4, 4)),
        "odd": dict(S=(11, 13, 17), D=(9, 9, 10), C=(5, 7, 9), Z=(5, 6, 7)),
        "wide": dict(S=(9, 10, 65536), D=(13, 40, 65535), C=(7, 33, 65536), Z=(6, 9, 4097)),
        "tall": dict(S=(65, 66, 67), D=(33, 500, 501), C=(300, 301, 302), Z=(100, 100, 100)),
        # to be refused: smaller than the kernel / out of order / too large
        "bad1": dict(S=(7, 64, 64), D=(3, 64, 64), C=(1, 64, 64), Z=(1, 64, 64)),
        "bad2": dict(S=(64, 63, 64), D=(64, 32, 64), C=(64, 63, 65), Z=(64, 8, 64)),
        "bad3": dict(S=(64, 256, 255), D=(64, 256, 64), C=(32, 256, 8), Z=(32, 256, 255)),
        "bad4": dict(S=(64, 256, 65537), D=(64, 256, 100000), C=(32, 256, 65537), Z=(32, 256, 18446744073709551615)),
        "bad5": dict(S=(0, 256, 1024), D=(0, 256, 1024), C=(0, 256, 1024), Z=(0, 256, 1024)),
    }[kind]
    e = {}
    for k, v in t.items():
        for n, x in zip(("MC", "KC", "NC"), v):
            e["MATMUL_%sGEMM_%s" % (k, n)] = str(x)
    return e, t


class Search:
    def __init__(self, scratch):
        self.scratch = scratch
        self.bins = {}
        self.errors = {}
        self.runs = []

    def build(self, name):
        if name in self.bins:
            return self.bins[name]
        tgt = os.path.join(self.scratch, "h_" + name)
        if name.startswith("conf:"):
            args, env = ["--features", "constconf"], conf_env(name[5:])[0]
            tgt = os.path.join(self.scratch, "h_conf_" + name[5:])
        elif name.startswith("confr:"):
            args, env = ["--release", "--features", "constconf"], conf_env(name[6:])[0]
            tgt = os.path.join(self.scratch, "h_confr_" + name[6:])
        else:
            args, env = BUILDS[name]
        crate = os.path.join(self.scratch, "hsrc")
        rc, o, e = sh(["cargo", "build", "--offline", "-q"] + args, cwd=crate, env=base_env(CARGO_TARGET_DIR=tgt, **env))
        b = os.path.join(tgt, "release" if "--release" in args else "debug", "mmh")
        if rc != 0 or not os.path.exists(b):
            self.errors[name] = e[-3000:]
            b = None
        self.bins[name] = b
        return b

    def prepare(self):
        d = os.path.join(self.scratch, "hsrc")
        if not os.path.exists(d):
            shutil.copytree(H, d, ignore=shutil.ignore_patterns("target"))

    def run(self, build, args, nt=None, timeout=120):
        b = self.bins.get(build)
        if not b:
            return None
        env = base_env()
        if nt is not None:
            env["MATMUL_NUM_THREADS"] = str(nt)
        rc, o, e = sh([b] + [str(x) for x in args], env=env, timeout=timeout)
        return rc, o, e


FAIL = re.compile(r"^FAIL kind=(\S+) \| ([^|]*)(?:\| (.*))?$", re.M)


def kinds_to_props(kind, case):
    v = case.split()
    ty = v[1] if len(v) > 4 and v[0] in "xznibr" else "?"
    num = {"s": ["C01"], "d": ["C01"], "c": ["C02"], "z": ["C02"]}.get(ty, ["C01", "C02"])
    empty = len(v) > 4 and v[0] in "xznib" and "0" in (v[2], v[3], v[4])
    if kind == "value":
        return num
    if kind == "value-k0":
        return num + ["C05"]
    if kind == "nanbeta":
        return num + ["C04"] + (["C05"] if empty else [])
    if kind == "canary" or kind == "fault-C-write":
        return ["C03"]
    if kind.startswith("fault-A") or kind.startswith("fault-B") or kind == "fault-C-read":
        return ["C06"]
    if kind.startswith("fault-W") or kind in ("workspace-overrun", "dealloc-layout", "leak", "gpfault"):
        return ["C07"]
    if kind.startswith("fault-?"):
        return num + (["C05"] if empty else ["C06", "C07"]) + ["C08"]
    if kind == "sigill":
        return num + ["C11", "C08"]
    if kind in ("panic", "hang", "abort", "crash"):
        return num + ["C08"] + (["C05"] if empty else [])
    if kind == "leak-through":
        return ["C12"]
    if kind == "threads":
        return ["C09"]
    return []


# profile runs per property: (build, profile, types, threads)
PLAN = {
    "C01": [("dbg", "x", "sd", 4), ("rel", "x", "sd", 1), ("avx", "x", "sd", 2), ("sse2", "x", "sd", 3), ("none", "x", "sd", 4), ("nt", "x", "sd", None), ("ns", "x", "sd", None), ("dbg", "x", "ds", 1)],
    "C02": [("dbg", "x", "cz", 4), ("rel", "x", "cz", 1), ("none", "x", "cz", 2), ("avx", "x", "cz", 3), ("nt", "x", "cz", None), ("ns", "x", "cz", None), ("dbg", "x", "zc", 1)],
    "C03": [("dbg", "C03", "sdcz", 4), ("rel", "C03", "sdcz", 1), ("avx", "C03", "sd", 2), ("sse2", "C03", "sd", 1), ("none", "C03", "sdcz", 4), ("ns", "C03", "sdcz", None)],
    "C04": [("dbg", "C04", "sdcz", 4), ("rel", "C04", "sdcz", 1), ("avx", "C04", "sd", 2), ("sse2", "C04", "sd", 1), ("none", "C04", "sdcz", 4), ("ns", "C04", "sdcz", None), ("nt", "n", "sdcz", None)],
    "C05": [("dbg", "C05", "sdcz", 4), ("rel", "C05", "sdcz", 1), ("none", "C05", "sdcz", 1), ("ns", "C05", "sdcz", None), ("nt", "C05", "sdcz", None), ("avx", "C05", "sd", 2), ("sse2", "C05", "sd", 2)],
    "C06": [("dbg", "C06", "sdcz", 4), ("rel", "C06", "sdcz", 1), ("avx", "C06", "sd", 2), ("sse2", "C06", "sd", 1), ("none", "C06", "sdcz", 4), ("ns", "C06", "sdcz", None)],
    "C07": [("dbg", "x", "sdcz", 4), ("rel", "x", "sdcz", 1), ("rel", "x", "sdcz", 4), ("avx", "x", "sd", 2), ("sse2", "x", "sd", 1), ("none", "x", "sdcz", 4), ("ns", "x", "sdcz", None)],
    "C08": [("dbg", "x", "sdcz", 4), ("dbg", "x", "sdcz", 1), ("rel", "x", "sdcz", 4), ("avx", "x", "sd", 2), ("sse2", "x", "sd", 3), ("none", "x", "sdcz", 4), ("nt", "x", "sdcz", None), ("ns", "x", "sdcz", None)],
    "C12": [("dbg", "i", "sdcz", 4), ("rel", "i", "sdcz", 1), ("avx", "i", "sd", 2), ("sse2", "i", "sd", 1), ("none", "i", "sdcz", 4), ("ns", "i", "sdcz", None)],
}
MIRI = {"C06": "x", "C07": "x"}


def plan(prop):
    if prop in PLAN:
        return [b for b, _, _, _ in PLAN[prop]]
    return {"C09": ["dbg", "rel"]}.get(prop, [])


def done(o):
    m = re.search(r"DONE cases=(\d+) distinct=(\d+) sample=(.*)", o or "")
    return (int(m.group(1)), int(m.group(2)), m.group(3).strip()) if m else (0, 0, "")


class Result:
    def __init__(self):
        self.fails = []      # dicts: kind, case, detail, build, threads, cmd
        self.cases = 0
        self.distinct = 0
        self.samples = []
        self.notes = []
        self.ran = 0


def parallel(jobs, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda j: j(), jobs))


def search(s, prop, seed, ms, rounds=1):
    """look for an input that breaks `prop` on the real crate"""
    r = Result()
    s.prepare()
    names = sorted(set(plan(prop)))
    bad = ["conf:bad%d" % (1 + (seed + i) % 5) for i in range(2)] if prop == "C05" else []
    names += bad
    parallel([lambda n=n: s.build(n) for n in names], 4)
    for n in names:
        if n in s.errors:
            r.notes.append("build %s failed: %s" % (n, s.errors[n][-400:]))

    if prop in PLAN:
        jobs = []
        for rd in range(rounds):
            for i, (b, prof, types, nt) in enumerate(PLAN[prop]):
                sd = seed * 1000 + rd * 100 + i
                jobs.append(lambda b=b, prof=prof, types=types, nt=nt, sd=sd: (b, nt, ["run", prof, types, sd, ms], s.run(b, ["run", prof, types, sd, ms], nt, ms / 1000 + 60)))
        for b, nt, args, out in parallel(jobs):
            if out is None:
                continue
            collect(r, prop, b, nt, args, out)
    for b in bad:
        # a blocking configuration the call would refuse does not touch calls with an empty dimension
        out = s.run(b, ["empty", "sdcz"], 2, 60)
        if out is not None:
            collect(r, prop, b, 2, ["empty", "sdcz"], out)
            for f in r.fails:
                if f["build"] == b:
                    f["detail"] += "; environment at build time: " + " ".join("%s=%s" % x for x in conf_env(b[5:])[0].items())
    if prop == "C09":
        c09(s, r, seed, ms * rounds)
    return r


def collect(r, prop, b, nt, args, out):
    rc, o, e = out
    r.ran += 1
    c, d, smp = done(o)
    r.cases += c
    r.distinct += d
    if smp:
        r.samples.append(smp)
    seen = False
    for m in FAIL.finditer(o):
        seen = True
        kind, case, det = m.group(1), m.group(2).strip(), (m.group(3) or "").strip()
        if prop in kinds_to_props(kind, case):
            r.fails.append(dict(kind=kind, case=case, detail=det, build=b, threads=nt, args=args))
        else:
            r.notes.append("not of this property: %s | %s" % (kind, case))
    if rc not in (0, 1) and not seen:
        if rc == -9:
            if prop == "C08":
                r.fails.append(dict(kind="hang", case=" ".join(map(str, args)), detail="no answer", build=b, threads=nt, args=args))
            r.notes.append("timeout of %s" % args)
        elif prop in ("C08", "C07", "C01", "C02"):
            r.fails.append(dict(kind="crash", case=" ".join(map(str, args)), detail="exit %s" % rc, build=b, threads=nt, args=args))


def c09(s, r, seed, ms):
    """bit-identical results for 1 to 4 threads; no wrong value with several"""
    cnt = max(60, int(ms / 40))
    parts = 4
    jobs, keys = [], []
    for b in ("dbg", "rel"):
        for part in range(parts if b == "dbg" else 2):
            for nt in (1, 2, 3, 4):
                args = ["hash", seed * 77 + part, cnt, "sdcz"]
                jobs.append(lambda b=b, nt=nt, args=args: s.run(b, args, nt, 300))
                keys.append((b, part, nt, args))
    outs = parallel(jobs)
    table = {}
    for (b, part, nt, args), out in zip(keys, outs):
        if out is None:
            continue
        r.ran += 1
        rc, o, e = out
        v = re.findall(r"^HASH (\S+) \| (.*)$", o, re.M)
        bad = FAIL.findall(o)
        table.setdefault((b, part), {})[nt] = (v, bad, rc, args)
    for (b, part), t in table.items():
        base, bbad, brc, args = t.get(1, ([], [], 0, []))
        r.cases += sum(len(x[0]) for x in t.values())
        r.distinct += len(set(c for _, c in base))
        if base and len(r.samples) < 3:
            r.samples.append(base[0][1])
        for nt in (2, 3, 4):
            v, bad, rc, args = t.get(nt, ([], [], 0, []))
            if (bad or len(v) != len(base)) and not bbad and brc == 0:
                r.fails.append(dict(kind="threads", case=(bad[0][1] if bad else " ".join(map(str, args))), detail="fails with %d threads, not with 1: %s" % (nt, bad[:1]), build=b, threads=nt, args=args))
                continue
            for (h1, c1), (h2, c2) in zip(base, v):
                if c1 == c2 and h1 != h2:
                    r.fails.append(dict(kind="threads", case=c1, detail="result bits differ between 1 and %d threads (%s, %s)" % (nt, h1, h2), build=b, threads=nt, args=["replay"] + c1.split()))
                    break


def miri(s, prop, seed, ncases, procs=8):
    """small cases under Miri: provenance, bounds, initialisation, alignment, deallocation"""
    r = Result()
    s.prepare()
    tgt = os.path.join(s.scratch, "h_miri")
    env = base_env(CARGO_TARGET_DIR=tgt, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance", MATMUL_NUM_THREADS="1",
                   RUSTFLAGS="-Ctarget-feature=+avx,+avx2,+fma")
    crate = os.path.join(s.scratch, "hsrc")
    flavours = [("fma", "+sse2,+avx,+avx2,+fma", None), ("none", "+sse2", "none"), ("avx", "+avx", None), ("sse2", "+sse2", None)]
    # build once per flavour, then run in parallel
    def one(fl, seed, types, nt):
        name, tf, mm = fl
        env = base_env(CARGO_TARGET_DIR=tgt + "_" + name, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance",
                       MATMUL_NUM_THREADS=str(nt), RUSTFLAGS="-Ctarget-feature=" + tf)
        if mm:
            env["MMTEST_FEATURE"] = mm
        return fl, types, nt, seed, sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "run", MIRI[prop], types, str(seed), str(ncases)], cwd=crate, env=env, timeout=240)
    first = parallel([lambda fl=fl: one((fl[0], fl[1], fl[2]), seed, "sdcz", 1) for fl in flavours], 4)
    outs = first
    if procs > 4:
        outs = outs + parallel([lambda fl=fl, i=i: one(fl, seed + 1 + i, "sdcz", 4 if i else 1) for i in range(procs // 4 - 1) for fl in flavours], 8)
    for fl, types, nt, sd, (rc, o, e) in outs:
        c, d, smp = done(o)
        r.ran += 1
        r.cases += c
        r.distinct += d
        if "error: Undefined Behavior" in e:
            i = e.index("error: Undefined Behavior")
            r.fails.append(dict(kind="miri", case="miri run x %s %d %d" % (types, sd, ncases), detail=e[i:i + 1500], build="miri-" + fl[0], threads=nt, args=["run", MIRI[prop], types, sd, ncases]))
        elif not c:
            r.notes.append("miri %s gave no answer: %s" % (fl[0], e[-300:]))
    return r


def shrink(s, f):
    """smaller dimensions that still fail the same way"""
    v = f["case"].split()
    if len(v) < 19 or f["build"] not in s.bins:
        return f["case"]
    best = v[:]
    t = time.time()
    changed = True
    while changed and time.time() - t < 15:
        changed = False
        for idx in (2, 3, 4):
            x = int(best[idx])
            for y in {x // 2, x - 8, x - 1}:
                if 0 < y < x:
                    w = best[:]
                    w[idx] = str(y)
                    out = s.run(f["build"], ["replay"] + w, f["threads"], 30)
                    if out and "FAIL kind=" + f["kind"] in out[1]:
                        best = w
                        changed = True
                        break
    return " ".join(best)
