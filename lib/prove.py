"""The deductive side: expand /repo, extract it into Verus, verify, map failures to properties."""
import json, os, re, signal, subprocess, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
XLAT = None
CFGS = {
    "dbg": ["--features", "threading,cgemm"],
    "rel": ["--release", "--features", "threading,cgemm"],
    "nt": ["--features", "cgemm"],
    "ns": ["--no-default-features", "--features", "cgemm"],
    "cc": ["--features", "threading,cgemm,constconf"],
    "ccr": ["--release", "--features", "threading,cgemm,constconf"],    # contracts of cc
}
ENV_DROP = ("RUSTFLAGS", "MMTEST_FEATURE", "MMTEST_ENSUREFEATURE", "MATMUL_NUM_THREADS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER")


def base_env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ENV_DROP and not re.match(r"MATMUL_[SDCZ]GEMM_", k)}
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(kw)
    return e


def sh(cmd, cwd=None, env=None, timeout=600, out=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # with its solver
        except OSError:
            pass
        p.communicate()
        return -9, "", "timeout"


def build_xlat(scratch):
    """the extractor: the committed source, built once per sandbox"""
    global XLAT
    src = os.path.join(VERIF, "xlat")
    for cand in (os.path.join(src, "target"), os.path.join(scratch, "xlat")):
        try:
            os.makedirs(cand, exist_ok=True)
        except OSError:
            continue
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=src, env=base_env(CARGO_TARGET_DIR=cand))
        if rc == 0:
            XLAT = os.path.join(cand, "release", "xlat")
            return True, ""
    return False, e[-2000:]


def expand(cfg, scratch):
    """macro-expanded source with hygiene of one configuration"""
    env = base_env(CARGO_TARGET_DIR=os.path.join(scratch, "expand_" + cfg), RUSTC_BOOTSTRAP="1")
    rc, o, e = sh(["cargo", "rustc", "--offline", "--lib", "--manifest-path", REPO + "/Cargo.toml"] + CFGS[cfg] +
                  ["--", "-Zunpretty=expanded,hygiene"], cwd=REPO, env=env)
    if rc != 0:
        return None, e[-3000:]
    p = os.path.join(scratch, "exp_%s.rs" % cfg)
    open(p, "w").write(o)
    return p, ""


BEGIN = re.compile(r"^//@BEGIN (\S+)")
END = re.compile(r"^//@END (\S+)")
CLAUSE = re.compile(r"/\*@(\w+) (\S+) \[([^\]]*)\]\*/")


class Gen:
    """one generated Verus file"""
    def __init__(self, cfg, path, meta):
        self.cfg, self.path = cfg, path
        self.meta = meta
        self.fns = {f["path"]: f for f in meta["functions"]}
        self.load()

    def load(self):
        self.lines = open(self.path).read().split("\n")
        self.region = {}
        st = None
        for i, l in enumerate(self.lines):
            m = BEGIN.match(l)
            if m:
                st = (m.group(1), i)
            m = END.match(l)
            if m and st:
                self.region.setdefault(st[0], (st[1], i))
                st = None

    def fn_at(self, line):
        for p, (a, b) in self.region.items():
            if a <= line <= b:
                return p
        return None

    def header(self, p):
        a, b = self.region[p]
        r = []
        for l in self.lines[a:b]:
            if l == "{":
                break
            r.append(l)
        return "\n".join(r)

    def text(self, p):
        a, b = self.region[p]
        return "\n".join(self.lines[a:b + 1])

    def rest(self):
        skip = set()
        for a, b in self.region.values():
            skip.update(range(a, b + 1))
        return [l for i, l in enumerate(self.lines) if i not in skip]

    def prelude(self):
        """the modules of the environment's contracts and lemmas: name -> (first line, last line)"""
        r, cur = {}, None
        for i, l in enumerate(self.lines):
            m = re.match(r"pub mod (pre_\w+) \{", l)
            if m:
                cur = (m.group(1), i)
            if cur and l == "} // verus!":
                r[cur[0]] = (cur[1], i)
                cur = None
        return r

    def write_focused(self, path, keep, premods=()):
        """the same file, line for line, with bodies only for the functions in keep and the lemmas of
        the prelude modules in premods; every other function is its contract (verified elsewhere)"""
        out = list(self.lines)
        for p, (a, b) in self.region.items():
            if p in keep or self.fns.get(p, {}).get("status") != "verified":
                continue
            out[a] = "#[verifier::external_body] " + out[a]
            for i in range(a, b):
                if out[i] == "{":
                    out[i] = "{ unimplemented!() }"
                    for j in range(i + 1, b):
                        out[j] = ""
                    break
        for m, (a, b) in self.prelude().items():
            if m in premods:
                continue
            i = a
            while i < b:
                if out[i].startswith("pub proof fn "):
                    j = i
                    while j < b and out[j] != "{" and not out[j].startswith("}") and not (j > i and out[j].startswith("pub ")):
                        j += 1
                    if j < b and out[j] == "{":
                        k = j
                        while k < b and out[k] != "}":
                            k += 1
                        out[i] = "#[verifier::external_body] " + out[i]
                        out[j] = "{ unimplemented!() }"
                        for x in range(j + 1, k + 1):
                            out[x] = ""
                        i = k
                i += 1
        open(path, "w").write("\n".join(out))

    def needed_prelude(self, keep):
        """prelude modules whose lemmas the functions in keep use, directly or through other lemmas"""
        pre = self.prelude()
        decl = {m: set(re.findall(r"^(?:pub )?(?:broadcast )?proof fn (\w+)", "\n".join(self.lines[a:b]), re.M)) for m, (a, b) in pre.items()}
        ids = {m: identifiers("\n".join(self.lines[a:b])) for m, (a, b) in pre.items()}
        todo = set()
        for p in keep:
            if p in self.region:
                todo |= identifiers(self.text(p))
        need = set()
        while True:
            new = {m for m in pre if m not in need and decl[m] & todo}
            if not new:
                return need
            need |= new
            for m in new:
                todo |= ids[m]


WEIGHTS = os.path.join(VERIF, "lib", "weights.json")


def plan(gen, keep, premods, target=20000):
    """verifier processes of about equal length: [(functions, prelude modules, weight)]"""
    try:
        w = json.load(open(WEIGHTS))
    except (OSError, ValueError):
        w = {}
    pre = gen.prelude()
    items = []
    for p in keep:
        if p in gen.region:
            n = gen.region[p][1] - gen.region[p][0]
            items.append((w.get(p, {}).get(gen.cfg) or w.get(p, {}).get("dbg") or 12 * n, p, False))
    for m in premods:
        items.append((w.get(m, {}).get("dbg") or 12 * (pre[m][1] - pre[m][0]), m, True))
    items.sort(key=lambda x: (-x[0], x[1]))
    nb = max(1, -(-sum(x[0] for x in items) // target))
    bins = [[0, [], []] for _ in range(nb)]
    for t, p, isp in items:
        b = min(bins, key=lambda b: b[0])
        b[0] += t
        (b[2] if isp else b[1]).append(p)
    return [(b[1], b[2], b[0]) for b in bins if b[1] or b[2]]


def extract(cfg, src, scratch, external):
    o = os.path.join(scratch, cfg + ".rs")
    j = os.path.join(scratch, cfg + ".json")
    cmd = [XLAT, src, os.path.join(VERIF, "contracts"), o, j, {"ccr": "cc"}.get(cfg, cfg)]
    if external:
        cmd += ["--external", ",".join(sorted(external))]
    rc, so, se = sh(cmd)
    if rc != 0:
        return None, (so + se)[-2000:]
    return Gen(cfg, o, json.load(open(j))), ""


def identifiers(t):
    return set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", t))


def same_as(base, other):
    """functions of `other` whose obligations are textually those of `base`: same text, and every
    item they mention has the same declaration and contract"""
    br, orr = base.rest(), other.rest()
    diff = set(identifiers("\n".join(collections.Counter(br) - collections.Counter(orr)))) | \
        set(identifiers("\n".join(collections.Counter(orr) - collections.Counter(br))))
    # identifiers that only occur in differing lines' names: functions, consts, types declared there
    decl = set(re.findall(r"\b(?:fn|struct|const|trait|enum|type)\s+([A-Za-z_0-9]+)", "\n".join(
        list((collections.Counter(br) - collections.Counter(orr)).keys()) + list((collections.Counter(orr) - collections.Counter(br)).keys()))))
    for p in set(base.region) | set(other.region):
        if p not in base.region or p not in other.region or base.header(p) != other.header(p):
            decl.add(p.rsplit("::", 1)[-1])
    r = set()
    for p in other.region:
        if p in base.region and base.fns.get(p, {}).get("status") == "verified" and base.text(p) == other.text(p):
            if not (identifiers(other.text(p)) & decl):
                r.add(p)
    return r


def run_verus(gen, path, modules, threads, extra=(), timeout=600):
    cmd = ["verus", os.path.basename(path), "--num-threads", str(threads), "--output-json", "--time-expanded", "--no-report-long-running",
           "--multiple-errors", "5"]
    for m in modules:
        cmd += ["--verify-only-module", m]
    cmd += list(extra) + ["--", "--error-format=json"]
    t = time.time()
    rc, o, e = sh(cmd, cwd=os.path.dirname(gen.path), timeout=timeout, env=base_env(RUST_MIN_STACK=str(512 << 20)))
    try:
        res = json.loads(o[o.index("{"):]) if "{" in o else {}
    except ValueError:
        res = {}
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    return rc, res, diags, time.time() - t, e, cmd


def qname(module, path):
    """module and the last two components, as the verifier and the extractor both spell them: the
    extraction names the primitive types f32 and f64 by wrapper types, and a constant by NAME_"""
    return module, tuple(c.lower().rstrip("_") for c in path.split("::")[-2:])


def was_visited(gen, path, seen):
    m = gen.fns[path]["module"] or "root"
    parts = path.split("::")
    nested = len(parts) > len(m.split("::")) + 2    # a function in a function is emitted into the module
    return qname(m, path) in seen or nested and qname(m, m + "::" + parts[-1]) in seen


def visited(res):
    """the functions for which the solver was asked at least once"""
    try:
        return {qname(m["module"], f["function"]) for m in res["times-ms"]["smt"]["smt-run-module-times"] for f in m.get("function-breakdown", [])}
    except (KeyError, TypeError):
        return set()


def describe(gen, d, props_of):
    """one verifier error -> (function, obligation text, properties)"""
    lines = [s["line_start"] - 1 for s in d["spans"]]
    fn = None
    # the function whose obligation failed: prefer the primary span
    for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
        f = gen.fn_at(s["line_start"] - 1)
        if f and gen.fns.get(f, {}).get("status") == "verified":
            fn = f
            break
    # a failed precondition's clause may lie in another function's header: the caller fails
    if "precondition" in d["message"]:
        for s in d["spans"]:
            if s["is_primary"]:
                fn = gen.fn_at(s["line_start"] - 1) or fn
    tags, names = set(), []
    for s in d["spans"]:
        for ln in range(s["line_start"] - 1, s["line_end"]):
            for m in CLAUSE.finditer(gen.lines[ln] if ln < len(gen.lines) else ""):
                tags |= set(m.group(3).split())
                names.append("%s %s" % (m.group(1), m.group(2)))
    msg = d["message"]
    fprops = set(props_of(fn)) if fn else set()
    if "arithmetic" in msg or "underflow" in msg or "division by zero" in msg or "decreases" in msg or "termination" in msg:
        props = {"C08"}
    elif tags & fprops:
        props = tags & fprops
    elif tags:
        props = tags if not fprops else fprops
    else:
        props = fprops
    text = " // ".join(gen.lines[l].strip()[:160] for l in lines[:3] if l < len(gen.lines))
    return {"cfg": gen.cfg, "function": fn, "message": msg, "clauses": sorted(set(names)), "props": sorted(props), "text": text,
            "rendered": d.get("rendered", "")[:3000]}
