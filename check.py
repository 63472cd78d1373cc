#!/usr/bin/env python3-vt
"""Decide one property: regenerate IR from /repo, run its verification units, write evidence, replay failures."""
import sys, os, json, time, importlib, tempfile, shutil, traceback, hashlib
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import api
from engine import exec as X
from engine import sym

HERE = os.path.dirname(os.path.abspath(__file__))


def run_unit(a):
    prop, idx, irs, tier = a
    t0 = time.time()
    mod = importlib.import_module("specs." + prop)
    u = mod.UNITS[idx]
    sym.STATS.__init__()
    use = [irs[t] for t in u.tus]
    err = None
    try:
        while True:
            ctx = api.Ctx(use, tier)
            ctx.budget = u.budget * (3 if tier == "thorough" else 1)
            try:
                u.run(ctx)
                break
            except X.NoBody as e:
                # the callee lives in a translation unit the specification does not name (code was moved): use its real body
                more = [] if e.sym.startswith(("_ZNS", "_ZNKS", "_ZS", "_ZNK9__gnu", "_ZN9__gnu")) else [f for f in defining(e.sym, os.path.dirname(use[0])) if f not in use]
                if not more:
                    raise
                use = use + more
    except api.EngineError as e:
        err = "engine: " + str(e)
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        err = "engine: " + repr(e) + "\n" + traceback.format_exc()[-1500:]
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    obls, trusted, contracts, inlined = [], {}, {}, {}
    for ex in ctx.execs:
        obls += ex.obls
        for d, s in ((trusted, ex.trusted_used), (contracts, ex.contract_used)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        for k, v in ex.inlined.items():
            k = ex.p.dem.get(k, k)
            inlined[k] = inlined.get(k, 0) + v
    for o in ctx.extra:
        obls.append(o)
    if err:
        under = ctx.execs[-1].under if ctx.execs else u.name
        obls.append({"name": "all paths of the function are covered by the contract proof", "fn": under, "ok": False, "by": "engine", "t": 0,
                     "reason": err, "loc": None, "goal": "", "model": None, "trace": []})
    if not obls:
        obls.append({"name": "unit generates obligations", "fn": u.name, "ok": False, "by": "engine", "t": 0, "reason": "zero obligations",
                     "loc": None, "goal": "", "model": None, "trace": []})
    for o in obls:
        o["unit"] = u.name
    return {"unit": u.name, "obls": obls, "trusted": trusted, "contracts": contracts, "inlined": inlined, "functions": ctx.functions,
            "wall": time.time() - t0, "queries": sym.STATS.queries, "solver_s": sym.STATS.time, "backends": dict(sym.STATS.backend),
            "bounded": u.bounded}


def defining(sym_, d):
    """IR files of libfuxedo's translation units that define a symbol"""
    from engine.lib import libtus
    out = []
    for t in libtus():
        f = os.path.join(d, t + ".opt.ll")
        if not os.path.exists(f):
            d2 = os.path.join(d, "x%d" % os.getpid())
            os.makedirs(d2, exist_ok=True)
            f = os.path.join(d2, t + ".opt.ll")
            if not os.path.exists(f):
                try:
                    api.build_ir(t, d2)
                except Exception:
                    continue
        if any(l.startswith("define ") and "@%s(" % sym_ in l for l in open(f)):
            out.append(f)
            break
    return out


def main():
    prop = sys.argv[1]
    tier = "quick"
    only = None
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--unit="):
            only = a[7:]
    if tier == "thorough":
        sym.TIMEOUT = X.TIMEOUT = 60000
    t0 = time.time()
    mod = importlib.import_module("specs." + prop)
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(prop, tier, only, mod, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(t):
    try:
        return api.build_ir(t[0], t[1])
    except Exception as e:
        return e


def decide(prop, tier, only, mod, tmp, t0):
    units = [i for i, u in enumerate(mod.UNITS) if (only is None or only in u.name) and (tier == "thorough" or not u.thorough_only)]
    tus = sorted({t for i in units for t in mod.UNITS[i].tus})
    procs = min(8, os.cpu_count() or 8)
    with mp.Pool(procs, maxtasksperchild=1) as pool:
        built = pool.map(build, [(t, tmp) for t in tus], chunksize=1)
        for b in built:
            if isinstance(b, Exception):
                print("cannot build IR:", b)
                return 2
        irs = dict(zip(tus, built))
        order = sorted(units, key=lambda i: -mod.UNITS[i].budget)
        res = pool.map(run_unit, [(prop, i, irs, tier) for i in order], chunksize=1)
    res.sort(key=lambda r: r["unit"])
    obls = [o for r in res for o in r["obls"]]
    failed = [o for o in obls if not o["ok"]]
    if os.environ.get("VC_VERBOSE"):
        for r in res:
            print("%-50s %4d obligations %3d failed %6.1fs (%d queries %.1fs solver)" % (
                r["unit"], len(r["obls"]), sum(not o["ok"] for o in r["obls"]), r["wall"], r["queries"], r["solver_s"]))
        for o in failed:
            print("FAILED [%s] %s: %s (line %s) %s" % (o["unit"], o["fn"], o["name"], o["loc"], o["reason"]))
            if os.environ["VC_VERBOSE"] != "1":
                print("   goal:", o["goal"][:1500])
                for t in o["trace"]:
                    print("     ", t)
                print("   model:", {k: v for k, v in (o["model"] or {}).items()})
    # ------------------------------------------------ known findings
    known = load_known(prop)
    kf = []
    unlisted = []
    for o in failed:
        k = next((k for k in known if k["match_fn"] in o["fn"] and k["match_obl"] in o["name"]), None)
        if k:
            if k not in kf:
                kf.append(k)
        else:
            unlisted.append(o)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violations = []
    rc = 0
    if unlisted:
        rc = 1
        path, found = replay(prop, mod, unlisted, tmp)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
        violations.append({"obligations": ["%s: %s" % (o["fn"], o["name"]) for o in unlisted][:50], "replay": path, "failing_input": found})
    write_evidence(prop, tier, mod, res, obls, failed, kf, violations, time.time() - t0)
    if not unlisted:
        print("OK property=%s units=%d obligations=%d discharged=%d wall=%.1fs" % (
            prop, len(res), len(obls), len(obls) - len(failed), time.time() - t0))
    return rc


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def replay(prop, mod, failed, tmp):
    """concrete witness search against the real code, after an obligation failed"""
    d = os.path.join(HERE, "replay_out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.txt" % prop)
    out = ["property %s: %d obligation(s) of the deductive proof failed on the current tree" % (prop, len(failed)), ""]
    for o in failed[:30]:
        out.append("FAILED OBLIGATION  function: %s\n  obligation: %s\n  source line: %s\n  verifier: %s %s\n  goal: %s\n  path: %s\n  counterexample: %s\n" % (
            o["fn"], o["name"], o["loc"], o["by"], o["reason"], o["goal"], " | ".join(o["trace"]), json.dumps(o["model"])))
    found = False
    try:
        f = getattr(mod, "replay", None)
        if f:
            txt = f(failed, tmp)
            if txt:
                found = True
                out.append("FAILING INPUT AGAINST THE REAL CODE\n" + txt)
            else:
                out.append("No concrete failing input was found by the replay driver.")
    except Exception as e:
        out.append("replay driver error: %r" % e)
    open(path, "w").write("\n".join(out) + "\n")
    return path, found


def write_evidence(prop, tier, mod, res, obls, failed, kf, violations, wall):
    backends = {}
    for o in obls:
        if o["ok"]:
            backends[o["by"]] = backends.get(o["by"], 0) + 1
    trusted = sorted({k for r in res for k in r["trusted"]})
    contracts = sorted({k for r in res for k in r["contracts"]})
    functions = sorted({k for r in res for k in r["functions"]})
    inlined = sorted({k for r in res for k in r["inlined"]})
    proved = [o for r in res for o in r["obls"] if not r["bounded"]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": len(proved), "discharged": sum(o["ok"] for o in proved),
            "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier),
            "trusted_base": getattr(mod, "TRUSTED", []) + BASE_TRUST + ["model of library function: " + t for t in trusted],
            "functions_under_contract": functions,
            "callee_contracts_used": contracts,
            "functions_inlined": inlined[:400],
            "backends": backends,
            "solver_seconds": round(sum(r["solver_s"] for r in res), 2),
            "solver_queries": sum(r["queries"] for r in res),
            "units": {r["unit"]: {"obligations": len(r["obls"]), "failed": sum(not o["ok"] for o in r["obls"]), "wall_s": round(r["wall"], 2),
                                  "bounded": r["bounded"]} for r in res},
            "bounded_obligations_not_counted": sum(len(r["obls"]) for r in res if r["bounded"]),
            "violations_reported": violations,
            "known_findings_reported": [k["what"] for k in kf],
            "sample": obls[0]["fn"] + ": " + obls[0]["name"] if obls else "",
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUME,
        "violations": len(violations), 
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


BASE_TRUST = ["clang 18 front end and the LLVM passes sroa/mem2reg that produce the verified IR", "engine/*.py verification-condition generator",
              "z3 5.3.2", "cvc5 (only for obligations z3 leaves unknown)"]
BASE_ASSUME = ["the shipped binary (g++ -O2) implements the same C++ semantics as the clang IR that is verified",
               "signed integer overflow wraps (UBSan-style overflow is not an obligation)",
               "distinct objects do not overlap; operator new does not fail; no other thread writes the objects during a call",
               "floating-point conversions are uninterpreted functions of their operand bits"]

if __name__ == "__main__":
    sys.exit(main())
