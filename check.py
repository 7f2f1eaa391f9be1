#!/usr/bin/env python3-vt
"""check.py <property id> : decide one property on /repo's current tree.
exit 0  property held (all obligations discharged; or, where an obligation could not be generated or decided,
        the bounded run of the same contract on the real code found no violation - labelled in the evidence)
exit 1  + VIOLATION line"""
import sys, os, json, time, traceback, importlib, tempfile, shutil, subprocess, re, threading
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
import multiprocessing as mp

def section_worker(args):
    """run one section of a property module: generate obligations and discharge them"""
    pid, sec, tier, seed = args
    from engine import spec, prover
    mod = G["mod"]; prog = G["prog"]
    t0 = time.time()
    for k in prover.STAT: prover.STAT[k] = 0
    v = spec.V(pid, prog); v.section = sec
    out = {"section": sec, "error": None, "obls": [], "functions": [], "notes": [], "opaque": [], "assume": [], "inlined": [], "vacuous": []}
    def body():
        try:
            getattr(mod, sec)(v)
        except Exception as e:
            out["error"] = "%s: %s" % (type(e).__name__, str(e)[:800]); out["trace"] = traceback.format_exc()[-1500:]
        tmo = 30.0 if tier == "quick" else 120.0
        tsec = time.time()
        for r in v.runs:
            # vacuity guard: requires + path condition must not be contradictory
            try:
                p = prover.prove(r.requires + r.pc, spec.FALSE, 3.0)
                if p.status == "proved" and r.alive and not getattr(r, "vacuous_ok", False): out["vacuous"].append(r.name)
            except Exception: pass
        for o in v.obls:
            left = 240 - (time.time() - tsec) if tier == "quick" else 900 - (time.time() - tsec)
            if left < 5:
                o.status = "unknown"; o.info = "section time budget exhausted"
            else:
                spec.discharge(o, min(tmo, left), seed)
            out["obls"].append(dict(name=o.name, kind=o.kind, fn=o.fn, status=o.status, how=o.how, info=o.info[:1500], secs=round(o.secs, 3), model=o.model,
                                    goal=spec.show(o.goal)[:3000] if o.status != "proved" else None,
                                    hyps=[spec.show(h)[:500] for h in o.hyps][:40] if o.status != "proved" else None))
        out["functions"] = v.functions; out["notes"] = sorted(v.notes); out["opaque"] = sorted(v.opaque)
        out["assume"] = sorted(v.assume_list); out["inlined"] = sorted(set().union(*[r.inl for r in v.runs]) if v.runs else [])
        out["stat"] = dict(prover.STAT)
        out["secs"] = time.time() - t0
    th = threading.Thread(target=body); th.start(); th.join()
    return out

G = {}

def run_driver(pid, mod, tier, seed, workdir, hints):
    """compile the property's C++ driver against the current sources and run it"""
    from engine import build
    src = os.path.join(HERE, "drivers", getattr(mod, "DRIVER"))
    t0 = time.time()
    try:
        exe, tus = build.build_driver(src, workdir)
    except build.BuildError as e:
        return {"status": "builderror", "info": str(e)[-2500:]}
    env = dict(os.environ, CANTERA_DATA=os.path.join(build.extract.REPO, "data"), VERIF_HINTS=" ".join(hints), VERIF_SEED=str(seed), VERIF_TIER=tier)
    tmo = 120 if tier == "quick" else 600
    try:
        r = subprocess.run([exe], capture_output=True, text=True, timeout=tmo, env=env, cwd=workdir)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""); rc = "timeout"; err = ""
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    cases = sum(int(l.split()[1]) for l in out.splitlines() if l.startswith("CASES "))
    clauses = {}
    for l in out.splitlines():
        if l.startswith("CLAUSE "):
            p = l.split(); clauses[p[1]] = int(p[2])
    st = "fail" if fails else ("pass" if rc == 0 and "DONE" in out else "crash")
    return {"status": st, "fails": fails, "cases": cases, "rc": rc, "stderr": err[-1500:], "recompiled": tus, "secs": round(time.time() - t0, 1), "clauses": clauses,
            "samples": [l[7:] for l in out.splitlines() if l.startswith("SAMPLE ")][:5]}

def literal_hints(prog, sigs):
    """numeric literals in the bodies of the functions under contract (inputs for the replay driver)"""
    vals = set()
    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("float", "int") and "v" in n:
                try: vals.add(float(n["v"]))
                except Exception: pass
            for x in n.values(): walk(x)
        elif isinstance(n, list):
            for x in n: walk(x)
    for s in sigs:
        f = prog.fns.get(s)
        if f: walk(f.get("body"))
    return [repr(v) for v in sorted(vals) if abs(v) < 1e30][:200]

def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[6:] for a in sys.argv if a.startswith("--sec=")]
    t0 = time.time()
    from engine import extract, spec
    mod = importlib.import_module("specs." + pid)
    secs = [s for s in dir(mod) if s.startswith("v_")]
    if only: secs = [s for s in secs if s[2:] in only[0].split(",")]
    secs.sort(key=lambda s: getattr(mod, s).__code__.co_firstlineno)
    undecided = []; results = []; drv = {"status": "none", "fails": [], "cases": 0}
    prog = None; exerr = None
    try:
        prog = extract.Program(mod.TUS)
    except extract.ExtractError as e:
        exerr = str(e)
    if prog is not None:
        G["mod"] = mod; G["prog"] = prog
    tex = time.time() - t0
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        dthread = None
        if getattr(mod, "DRIVER", None) and "--nodriver" not in sys.argv:
            hints = []
            if prog is not None:
                sigs = [f["sig"] for q in getattr(mod, "HINT_FNS", []) for f in prog.find(q)]
                hints = literal_hints(prog, sigs)
            box = {}
            def dr(): box["r"] = run_driver(pid, mod, tier, seed, workdir, hints)
            # driver runs first in its own thread while proofs run in worker processes
            ctx = mp.get_context("fork")
            pool = ctx.Pool(min(8, max(1, len(secs))), maxtasksperchild=4) if prog is not None else None
            dthread = threading.Thread(target=dr)
        else:
            ctx = mp.get_context("fork"); pool = ctx.Pool(min(8, max(1, len(secs))), maxtasksperchild=4) if prog is not None else None
        asy = [(s, pool.apply_async(section_worker, ((pid, s, tier, seed),))) for s in secs] if pool else []
        if dthread: dthread.start()
        limit = 560 if tier == "quick" else 3600
        for s, a in asy:
            try: results.append(a.get(max(5, limit - (time.time() - t0))))
            except mp.TimeoutError: results.append({"section": s, "error": "timeout", "obls": [], "functions": [], "notes": [], "opaque": [], "assume": [], "inlined": [], "vacuous": [], "stat": {}, "secs": 0})
            except Exception as e: results.append({"section": s, "error": "worker: %r" % e, "obls": [], "functions": [], "notes": [], "opaque": [], "assume": [], "inlined": [], "vacuous": [], "stat": {}, "secs": 0})
        if pool: pool.terminate()
        if dthread:
            dthread.join(); drv = box.get("r", drv)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    obls = [o for r in results for o in r["obls"]]
    proved = [o for o in obls if o["status"] == "proved"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unk = [o for o in obls if o["status"] not in ("proved", "refuted")]
    errs = [(r["section"], r["error"]) for r in results if r["error"]]
    if exerr: errs.append(("extraction", exerr))
    vac = [x for r in results for x in r["vacuous"]]
    # known findings: identified by driver clause text or obligation name
    kf = known_findings(pid); kfhit = []
    def known(text):
        for k in kf:
            if any(m in text for m in k["match"]):
                kfhit.append(k); return True
        return False
    dfails = [f for f in drv.get("fails", []) if not known(f)]
    refuted2 = [o for o in refuted if not known(o["name"])]
    unk2 = [o for o in unk if not known(o["name"])]
    ev = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    rep = os.path.join(ev, "replay", "%s.txt" % pid)
    violation = None
    if dfails: violation = ""
    elif refuted2: violation = " no-failing-input-found"
    elif drv["status"] == "crash" and getattr(mod, "DRIVER", None) and (refuted2 or unk2 or True):
        # a crash / abort / hang of the real code under inputs that satisfy the preconditions
        violation = ""; dfails = ["driver did not finish: rc=%s %s" % (drv.get("rc"), drv.get("stderr", "")[-600:])]
    for k in {json.dumps(k, sort_keys=True) for k in kfhit}:
        k = json.loads(k); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    fns = sorted({f for r in results for f in r["functions"]})
    stat = {}
    for r in results:
        for k, x in (r.get("stat") or {}).items(): stat[k] = stat.get(k, 0) + x
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": len(proved),
            "checker_cmd": "check.py %s (symbolic execution of the extracted sources + engine/prover.py: polynomial/indicator/sum calculus, z3)" % pid,
            "trusted_base": ["clang 18 front end and tools/cxxdump (AST extraction)", "engine/exec.py + engine/lib.py (C++ semantics, std library models)",
                             "engine/prover.py (normaliser, sum calculus)", "z3", "real arithmetic for floating point"],
            "functions_under_contract": fns, "functions_inlined": sorted({f for r in results for f in r["inlined"]} - set(fns)),
            "discharged_by": stat, "solver_seconds": round(sum(o["secs"] for o in obls), 2), "extract_seconds": round(tex, 1),
            "kinds": {k: sum(1 for o in obls if o["kind"] == k) for k in {o["kind"] for o in obls}},
            "undecided": [{"name": o["name"], "info": o["info"][:300]} for o in unk] + [{"section": s, "error": e[:400]} for s, e in errs],
            "refuted": [o["name"] for o in refuted], "vacuous": vac,
            "bounded": {"driver": getattr(mod, "DRIVER", None), "status": drv["status"], "cases": drv.get("cases", 0), "clauses": drv.get("clauses", {}), "recompiled": drv.get("recompiled"),
                        "bound": getattr(mod, "BOUND", "randomised inputs of the driver, never counted as proved"), "secs": drv.get("secs"), "samples": drv.get("samples")},
            "samples": [{"obligation": o["name"], "status": o["status"], "by": o["how"], "secs": o["secs"]} for o in obls[:12]],
        },
        "assumptions": sorted({"machine arithmetic treated as mathematical reals/integers"} | {a for r in results for a in r["assume"]} | set(getattr(mod, "ASSUME", []))
                              | {"opaque callee (deterministic function of object state and arguments): " + o for r in results for o in r["opaque"]}
                              | {"note: " + n for r in results for n in r["notes"]}),
        "wall_s": round(wall, 1), "violations": 0}
    nothing = not proved and not errs
    if violation is not None: evd["violations"] = len(dfails) + len(refuted2)
    json.dump(evd, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d section errors; driver %s (%s cases); %.0f s" % (
        pid, len(obls), len(proved), len(refuted), len(unk), len(errs), drv["status"], drv.get("cases"), wall))
    if verbose:
        for r in results:
            print("  section %s: %d obl, %.1fs %s" % (r["section"], len(r["obls"]), r.get("secs", 0), r["error"] or ""))
            if r.get("trace"): print('\n'.join(r["trace"].splitlines()[-7:]))
            for n in r["notes"]: print("    note:", n)
            for o in r["obls"]:
                if o["status"] != "proved" or "-vv" in sys.argv or o["secs"] > 5: print("    %-9s %6.2fs %s [%s] %s" % (o["status"], o["secs"], o["name"], o["how"], o["info"][:600] if o["status"] != "proved" else ""))
                if o["status"] == "refuted": print("        model:", str(o["model"])[:600])
        for f in drv.get("fails", [])[:20]: print("  DRIVER FAIL:", f[:400])
        if drv["status"] not in ("pass", "none"): print("  driver:", {k: drv[k] for k in drv if k not in ("fails",)})
        if vac: print("  VACUOUS:", vac)
    if violation is not None:
        with open(rep, "w") as fh:
            fh.write("property %s\n" % pid)
            for f in dfails: fh.write("FAILING INPUT on the real code: %s\n" % f)
            for o in refuted2: fh.write("FAILED OBLIGATION %s (%s)\n  %s\n  goal: %s\n  hypotheses: %s\n  counterexample model: %s\n" % (o["name"], o["kind"], o["info"], o["goal"], o["hyps"], json.dumps(o["model"], default=str)))
            for o in unk2: fh.write("UNDISCHARGED OBLIGATION %s (%s)\n  %s\n  goal: %s\n" % (o["name"], o["kind"], o["info"], o["goal"]))
            for s, e in errs: fh.write("SECTION %s: %s\n" % (s, e))
        first = ([o["name"] for o in refuted2] + [o["name"] for o in unk2] + dfails)[:1]
        print("failed: %s" % (first[0][:300] if first else ""))
        if dfails: print("failing input: %s" % dfails[0][:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, rep, violation))
        return 1
    if vac or (nothing and not only):
        print("ERROR: vacuous contract or no obligation generated"); return 2
    if errs or unk2:
        for s, e in errs: print("UNDECIDED section %s: %s" % (s, e[:300]))
        for o in unk2: print("UNDECIDED obligation %s: %s" % (o["name"], o["info"][:200]))
        if drv["status"] == "pass" or (drv["status"] == "fail" and kfhit and not dfails):  # (only known findings failed)
            print("bounded stand-in: the driver found no violation in %d cases (bounded, not proved)" % drv["cases"]); return 0
        print("ERROR: undecided and no bounded stand-in result (%s %s)" % (drv["status"], drv.get("info", "")[-300:])); return 2
    if drv["status"] == "builderror":
        print("note: driver did not build against this tree (%s)" % drv["info"][-500:])
    return 0

if __name__ == "__main__":
    sys.exit(main())
