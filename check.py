#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree.

The deciding step is the deductive verifier: /repo's source is expanded and extracted into Verus on
every run, and every obligation of the functions the property depends on must be discharged.
A search on the real crate supplies the failing input for what the verifier reports, and is the
(bounded, labelled) stand-in for functions the extraction cannot follow."""
import json, os, re, shutil, sys, tempfile, threading, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import prove, search, special
from properties import PROOF, TRUSTED_BASE, ASSUMPTIONS

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
for i, a in enumerate(sys.argv):
    if a == "--tier":
        TIER = sys.argv[i + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
T0 = time.time()
EV = os.path.join(VERIF, "evidence")
os.makedirs(EV, exist_ok=True)


def log(*a):
    print("#", "%.1fs" % (time.time() - T0), *a, flush=True)


class Proof:
    def __init__(self):
        self.verified = 0
        self.errors = []        # failed obligations of any property
        self.undecided = []     # (cfg, function, why)
        self.functions = {}     # path -> {cfg: status}
        self.clauses = 0
        self.solver_ms = 0
        self.queries = 0
        self.cmds = []
        self.trusted = set()
        self.infra = []
        self.reused = 0
        self.assumed = set()


class Pool:
    """at most n verifier processes at a time, the heaviest waiting one first"""
    def __init__(self, n):
        self.n, self.cv, self.waiting = n, threading.Condition(), []

    def open(self, n):
        with self.cv:
            self.n += n
            self.cv.notify_all()

    def run(self, weight, f):
        me = (-weight, id(f))
        with self.cv:
            self.waiting.append(me)
            while self.n <= 0 or min(self.waiting) != me:
                self.cv.wait()
            self.waiting.remove(me)
            self.n -= 1
            self.cv.notify_all()
        try:
            return f()
        finally:
            with self.cv:
                self.n += 1
                self.cv.notify_all()


POOL = Pool(0)     # opened when every configuration has planned its processes


def do_proof(scratch):
    pr = Proof()
    cfgs = PROOF[PROP]["cfgs"]
    ok, e = prove.build_xlat(scratch)
    if not ok:
        pr.infra.append("the extractor does not build: " + e)
        return pr
    srcs = dict(zip(cfgs, search.parallel([lambda c=c: prove.expand(c, scratch) for c in cfgs], 4)))
    log("expanded", list(srcs))
    gens = {}

    def one(cfg, threads):
        src, e = srcs[cfg]
        if not src:
            pr.infra.append("%s: expansion failed: %s" % (cfg, e))
            return
        external = set()
        for attempt in range(5):
            gen, e = prove.extract(cfg, src, scratch, external)
            if gen is None:
                pr.infra.append("%s: extraction failed: %s" % (cfg, e))
                return
            raw = prove.Gen(cfg, gen.path, gen.meta)
            keep = {p for p, f in gen.fns.items() if PROP in f["props"] and f["status"] == "verified"}
            if cfg != cfgs[0]:
                base_ready.wait(300)
                if cfgs[0] in gens:
                    same = prove.same_as(gens[cfgs[0]][0], raw) & keep
                    pr.reused += len(same)
                    keep -= same
                else:
                    same = set()
            else:
                same = set()
                gens[cfg] = (raw, None)
                base_ready.set()
            premods = sorted(raw.needed_prelude(keep)) if cfg == cfgs[0] else []
            groups = prove.plan(raw, keep, premods)
            if not groups:
                break

            def job(k, g):
                fs, pm, _ = g
                path = os.path.join(scratch, "%s_%d_%d.rs" % (cfg, attempt, k))
                raw.write_focused(path, set(fs), pm)
                mods = sorted({gen.fns[p]["module"] or "root_" for p in fs} | set(pm))
                return prove.run_verus(gen, path, mods, 1, PROOF[PROP].get("args", ()), max(60, min(400, 520 - (time.time() - T0))))
            planned(cfg)
            outs = search.parallel([lambda k=k, g=g: POOL.run(g[2], lambda: job(k, g)) for k, g in enumerate(groups)], len(groups))
            log(cfg, "verified", ", ".join("%d+%d:%.0f/%.0fs" % (len(g[0]), len(g[1]), o[3], g[2] / 1000) for g, o in zip(groups, outs)))
            if os.environ.get("MMV_TIMES"):
                times(cfg, gen, outs)
            vir = [d for rc, res, ds, t, err, cmd in outs for d in ds if res.get("verification-results", {}).get("encountered-vir-error", True)]
            late = set()
            # a process that ran out of time leaves its functions undecided, the others count
            for g, o in zip(groups, outs):
                if o[0] == -9:
                    pr.undecided += [(cfg, f, "the verifier ran out of time") for f in g[0] + g[1]]
                    keep -= set(g[0])
                    late |= set(g[0])
            done = [(g, o) for g, o in zip(groups, outs) if o[0] != -9]
            groups, outs = [g for g, o in done], [o for g, o in done]
            noresult = [(g, o) for g, o in zip(groups, outs) if "verified" not in o[1].get("verification-results", {}) or o[1]["verification-results"].get("encountered-vir-error")]
            if noresult:
                # type or mode errors: take the functions they lie in out and try again
                bad = set()
                for d in noresult[0][1][2]:
                    for s in d["spans"]:
                        f = gen.fn_at(s["line_start"] - 1)
                        if f:
                            bad.add(f)
                bad -= external
                if bad and attempt < 4:
                    external |= bad
                    continue
                pr.infra.append("%s: verifier gave no result: %s" % (cfg, noresult[0][1][4][-1500:]))
                return
            for g, (rc, res, ds, t, err, cmd) in zip(groups, outs):
                vr = res["verification-results"]
                pr.verified += vr["verified"]
                pr.queries += vr["verified"] + vr["errors"]
                pr.cmds.append(" ".join(cmd[:1] + cmd[2:]))
                seen_by_solver = prove.visited(res)
                for f in g[0]:
                    if not prove.was_visited(gen, f, seen_by_solver):
                        pr.undecided.append((cfg, f, "the verifier made no query for it"))
                try:
                    pr.solver_ms += sum(int(x.get("time", 0)) for x in res["times-ms"]["smt"]["smt-run-module-times"])
                except (KeyError, TypeError):
                    pass
                seen = set()
                for d in ds:
                    x = prove.describe(gen, d, lambda f: gen.fns[f]["props"] if f in gen.fns else [])
                    if "rlimit" in d["message"] or "Resource limit" in d["message"]:
                        pr.undecided.append((cfg, x["function"], "the solver gave up"))
                        continue
                    if x["function"] is None:
                        if d["message"].startswith("aborting"):
                            continue
                        pr.undecided.append((cfg, "prelude", d["message"] + ": " + x["text"]))
                        continue
                    pr.errors.append(x)
                if vr["errors"] and not ds:
                    pr.undecided.append((cfg, ",".join(g[0] + g[1]), "errors without a diagnostic"))
            # the inventory
            for p, f in gen.fns.items():
                if f["status"] == "trusted":
                    pr.trusted.add("%s (%s)" % (p, f["reason"]))
                if PROP not in f["props"]:
                    if f["status"] == "verified":
                        pr.assumed.add(p)
                    continue
                st = "out of time" if p in late else "verified" if p in keep else ("identical to " + cfgs[0] if p in same else f["status"])
                pr.functions.setdefault(p, {})[cfg] = st
                if f["status"] in ("unsupported", "compile-error"):
                    pr.undecided.append((cfg, p, f["reason"] or f["status"]))
            for p in keep:
                pr.clauses += len(prove.CLAUSE.findall(gen.text(p)))
            for mname in gen.meta.get("missing", []):
                pr.undecided.append((cfg, str(mname), "under contract, but not found in the source"))
            break

    base_ready = threading.Event()
    ths = []
    for i, c in enumerate(cfgs):
        t = threading.Thread(target=guard(one, pr), args=(c, 6 if i == 0 else 3))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return pr


PLANNED = set()


def planned(cfg):
    PLANNED.add(cfg)
    if len(PLANNED) == len(PROOF[PROP]["cfgs"]) and "" not in PLANNED:
        PLANNED.add("")
        threading.Timer(0.3, POOL.open, (8,)).start()


def times(cfg, gen, outs):
    """development aid: solver time per function, for lib/weights.json"""
    with open(os.environ["MMV_TIMES"], "a") as o:
        for _, res, _, t, _, _ in outs:
            for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                o.write(json.dumps([cfg, m]) + "\n")


def guard(f, pr):
    def g(cfg, *a):
        try:
            f(cfg, *a)
        except Exception:
            pr.infra.append(traceback.format_exc()[-1500:])
        finally:
            planned(cfg)
    return g


def do_search(s, scratch, ms, seed, rounds=1):
    if PROP == "C10":
        return special.c10(scratch, seed, THOROUGH)
    if PROP == "C11":
        return special.c11(scratch, seed, THOROUGH)
    if PROP == "C13":
        return special.c13(scratch, seed, THOROUGH)
    if PROP == "C14":
        return special.c14(s, seed, ms, THOROUGH)
    r = search.search(s, PROP, seed, ms, rounds)
    if PROP == "C09":
        special.c09_partition(scratch, r)
    if PROP in search.MIRI:
        m = search.miri(s, PROP, seed, 60 if THOROUGH else 12, 8 if THOROUGH else 4)
        r.fails += m.fails
        r.cases += m.cases
        r.distinct += m.distinct
        r.notes += m.notes
    return r


def known(kind, text):
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", l)
            if m and m.group(1) == PROP and m.group(2) == kind and m.group(3).strip() in text:
                return l.strip()
    return None


def main():
    scratch = tempfile.mkdtemp(prefix="mmv_%s_" % PROP)
    rc = 0
    try:
        rc = decide(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(scratch):
    s = search.Search(scratch)
    box = {}

    def bg():
        try:
            box["r"] = do_search(s, scratch, 90000 if THOROUGH else 6000, SEED, 1)
        except Exception:
            r = search.Result()
            r.notes.append("search failed: " + traceback.format_exc()[-1500:])
            box["r"] = r
    th = threading.Thread(target=bg)
    th.start()
    pr = do_proof(scratch)
    log("proof: %d queries, %d verified, %d failed, %d undecided, infra %s" % (pr.queries, pr.verified, len(pr.errors), len(pr.undecided), pr.infra[:1]))
    th.join()
    r = box["r"]
    log("search: %d cases, %d failures, notes %s" % (r.cases, len(r.fails), r.notes[:3]))
    mine = [e for e in pr.errors if PROP in e["props"]]
    other = [e for e in pr.errors if PROP not in e["props"]]
    # functions of this property outside the proof: the bounded search stands in, deeper
    stand_in = sorted({"%s: %s" % (f, w) for _, f, w in pr.undecided} | set(pr.infra))
    if (mine or stand_in) and not r.fails:
        more = do_search(s, scratch, 30000, SEED + 1000, 1)
        r.cases += more.cases
        r.distinct += more.distinct
        r.fails += more.fails
        r.notes += more.notes
        log("deeper search: %d cases, %d failures" % (more.cases, len(more.fails)))
    viol = []
    for f in r.fails:
        if f["build"] in s.bins and len(f["case"].split()) >= 19:
            try:
                f["case"] = search.shrink(s, f)
            except Exception:
                pass
    kf = []
    fails = []
    for f in r.fails:
        k = known(f["kind"], "%s %s" % (f["case"], f["detail"]))
        if k:
            kf.append(k)
        else:
            fails.append(f)
    rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % PROP)
    if fails or mine:
        with open(rp, "w") as o:
            o.write("property %s\n\n" % PROP)
            for f in fails[:10]:
                o.write("FAILING INPUT kind=%s build=%s MATMUL_NUM_THREADS=%s\n  case: %s\n  %s\n" % (f["kind"], f["build"], f["threads"], f["case"], f["detail"]))
                if len(f["case"].split()) >= 19:
                    o.write("  fields: mode type m k n rsa csa rsb csb rsc csc alpha(re,im) beta(re,im) beta-minus-zero C-NaN end seed\n"
                            "  replay: cd %s/harness && MATMUL_NUM_THREADS=%s cargo run --offline%s -- replay %s\n" % (VERIF, f["threads"] or "", build_args(f["build"]), f["case"]))
            for e in mine[:20]:
                o.write("\nFAILED OBLIGATION in %s (configuration %s): %s\n  clauses: %s\n  at: %s\n%s\n" % (e["function"], e["cfg"], e["message"], ", ".join(e["clauses"]), e["text"], e["rendered"]))
    evidence(pr, r, mine, other, stand_in, fails)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (PROP, k))
    if stand_in:
        print("NOTE property=%s not decided by the verifier on this tree, bounded search instead: %s" % (PROP, "; ".join(stand_in)[:1500]))
    if fails:
        print("FAILING INPUT %s | %s | %s" % (fails[0]["kind"], fails[0]["case"], fails[0]["detail"]))
        for e in mine[:5]:
            print("FAILED OBLIGATION %s %s %s" % (e["function"], e["message"], e["clauses"]))
        print("VIOLATION property=%s replay=%s" % (PROP, rp))
        return 1
    if mine:
        for e in mine[:8]:
            print("FAILED OBLIGATION %s %s %s | %s" % (e["function"], e["message"], e["clauses"], e["text"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, rp))
        return 1
    print("OK property=%s: %d obligations of %d functions discharged; %d concrete cases" % (PROP, pr.verified, len(pr.functions), r.cases))
    return 0


def build_args(b):
    if b in search.BUILDS:
        a, e = search.BUILDS[b]
        return " " + " ".join(a) + ("   (built with %s)" % e if e else "")
    return ""


def evidence(pr, r, mine, other, stand_in, fails):
    level = PROOF[PROP]["level"]
    cov = {
        "obligations": pr.queries,
        "discharged": pr.verified,
        "obligations_rule": "one per verifier query: a function body against its contract, loop invariants and callee preconditions; or a lemma. %d tagged contract clauses lie in the function bodies and headers checked" % pr.clauses,
        "checker_cmd": "python3 /verif/check.py %s ; verus (back end z3): %s" % (PROP, " ; ".join(sorted(set(pr.cmds)))[:1500]),
        "solver_time_s": round(pr.solver_ms / 1000, 1),
        "functions_under_contract": {p: c for p, c in sorted(pr.functions.items())},
        "functions_identical_across_configurations": pr.reused,
        "contracts_discharged_by_other_checks": sorted(pr.assumed),
        "trusted_base": TRUSTED_BASE + sorted(pr.trusted),
        "not_decided_by_the_verifier": stand_in,
        "bounded_search": {"evaluations": r.cases, "distinct_nontrivial": r.distinct,
                           "rule": "calls of the real crate with generated shapes, strides and data; distinct by type, shape, unit strides and beta = 0; non-trivial: non-empty, alpha not 0",
                           "samples": r.samples[:6], "notes": r.notes[:10]},
        "evaluations": r.cases,
        "distinct_nontrivial": r.distinct,
        "rule": "see bounded_search",
        "samples": (r.samples or ["none"])[:4],
        "failed_obligations": [{k: e[k] for k in ("cfg", "function", "message", "clauses", "text")} for e in mine],
        "failed_obligations_of_other_properties": [{k: e[k] for k in ("cfg", "function", "message", "clauses")} for e in other][:20],
    }
    if level == "other":
        cov["explanation"] = PROOF[PROP]["explanation"]
    ev = {"property": PROP, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + PROOF[PROP].get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(fails) + len(mine)}
    json.dump(ev, open(os.path.join(EV, PROP + ".json"), "w"), indent=1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        # no alarm without a reason: a failure of the machinery is not a violation
        sys.exit(2)
