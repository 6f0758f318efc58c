#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: decide one property on the current /repo tree.

1. compile the translation units the property depends on from /repo's working tree to LLVM IR,
2. verify every function contract of the property (contracts/*.py) with the engine (engine/*.py, z3),
3. run the property's concrete scenarios against the real code (bounded; supplies failing inputs),
4. write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines, exit 0/1."""
import sys, os, json, time, tempfile, shutil, subprocess, traceback, multiprocessing, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":  # the order of sets of terms decides the order of solver facts: keep runs reproducible
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "contracts")]
os.chdir(HERE)
import z3
from front import compile_all, Layout, FrontError, REPO, CLANG, FLAGS
from ir import Unsupported, dem
import contracts, fields, registry_of_properties as RP

MODS = []
LAY = None
JOBS = []
TIER = "quick"


def cvc5_cross(eng, solver, o):
    """second opinion on a discharged obligation"""
    st = eng.__dict__.setdefault("cross_stats", {"agree": 0, "unknown": 0, "disagree": 0})
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        p = subprocess.run(["cvc5", "--tlimit=4000", "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=10)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    st["agree" if out == "unsat" else "disagree" if out == "sat" else "unknown"] += 1
    if out == "sat":
        o.status, o.reason = "unknown", "z3 and cvc5 disagree"


def job(i):
    mod, c, hooks = JOBS[i]
    r = contracts.verify(MODS, LAY, c, budget=RP.BUDGET[TIER], base_hooks=hooks, cross=cvc5_cross if TIER == "thorough" else None)
    return {"contract": mod + "." + c.name, "function": dem(r.fn.name) if r.fn else c.fn, "kind": r.kind, "error": r.error, "paths": r.paths,
            "time": round(r.time, 2), "solver": round(r.solver, 2), "queries": r.queries, "inlined": [dem(n) for n in r.inlined],
            "assumed": sorted(getattr(r, "used", {})), "cross": getattr(r, "cross_stats", None),
            "obls": [{"name": o.name, "status": o.status, "where": o.where, "reason": o.reason, "time": round(o.time, 3),
                      "detail": o.formula and {"formula": o.formula[0], "facts": o.formula[1], "path": o.formula[2]},
                      "model": model_str(o)} for o in r.obls]}


def model_str(o):
    if o.status != "failed" or o.model is None:
        return None
    out = []
    try:
        for d in o.model.decls()[:80]:
            v = o.model[d]
            if d.arity() == 0 and not z3.is_array_sort(d.range()) if hasattr(z3, "is_array_sort") else d.arity() == 0:
                out.append("%s = %s" % (d.name(), str(v)[:120]))
    except Exception:
        pass
    return out


def main():
    global MODS, LAY, TIER
    pid = sys.argv[1]
    TIER = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        TIER = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = RP.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    harness = None
    notes = []
    res = []
    hres = None
    try:
        # the concrete scenarios run after the proofs, so that neither disturbs the other
        if P.get("scenarios"):
            import scenarios
            harness = scenarios.start(pid, P["scenarios"], work, TIER, seed)
        cms = [importlib.import_module(m) for m in P["contracts"]]
        tus = []
        for m in cms:
            for t in m.TUS:
                if t not in tus:
                    tus.append(t)
        try:
            if tus:
                LAY = Layout(os.path.join(work, "lay"))
                import concurrent.futures
                with concurrent.futures.ThreadPoolExecutor(1) as ex:
                    extra = [m.EXTRA for m in cms if hasattr(m, "EXTRA")]
                    hs, fs = list(fields.HEADERS), dict(fields.FIELDS)
                    for h, f in extra:
                        hs += h
                        fs.update(f)
                    lf = ex.submit(LAY.load, hs, fs, fields.CONSTS)
                    srcs = [t if not t.startswith("verif:") else os.path.join(HERE, t[6:]) for t in tus]
                    MODS = compile_all(srcs, os.path.join(work, "ir"))
                    lf.result()
            for m in cms:
                only = P.get("only", {}).get(m.__name__)
                for c in m.CONTRACTS:
                    if only and c.name not in only:
                        continue
                    JOBS.append((m.__name__, c, getattr(m, "HOOKS", ())))
            with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
                res = pool.map(job, range(len(JOBS)), chunksize=1)
        except (FrontError, Unsupported) as e:
            notes.append("front end: " + str(e)[:1500])
        if harness is not None:
            hres = scenarios.finish(harness)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rc = report(pid, P, res, hres, notes, seed, t0)
    sys.exit(rc)


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                f = dict(x.split("=", 1) for x in ln[len("finding:"):].split(" | ")[0].split() if "=" in x)
                f["text"] = ln.split(" | ", 1)[1] if " | " in ln else ""
                out.append(f)
    return out


def report(pid, P, res, hres, notes, seed, t0):
    failed, unsup, ok = [], [], []
    nobl = ndis = 0
    for r in res:
        nobl += len(r["obls"])
        ndis += sum(o["status"] == "discharged" for o in r["obls"])
        {"failed": failed, "unsupported": unsup}.get(r["kind"], ok).append(r)
    kf = [f for f in known() if f.get("property") == pid]
    lines = []
    violations = []
    for r in list(failed):
        bad = [o for o in r["obls"] if o["status"] == "failed"]
        left = []
        for o in bad:
            hit = [f for f in kf if f.get("contract") == r["contract"] and f.get("obligation", "").replace("_", " ") in o["name"]]
            if hit:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["text"]))
            else:
                left.append(o)
        if left:
            violations.append((r, left))
    hfail = []
    if hres:
        for f in hres.get("failures", []):
            hit = [k for k in kf if k.get("scenario") and f["scenario"] == k["scenario"]]
            if hit:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["text"]))
            else:
                hfail.append(f)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s.txt" % pid)
    rc = 0
    if violations or hfail:
        rc = 1
        with open(rp, "w") as f:
            f.write("property %s: %s\n\n" % (pid, P["title"]))
            for r, os_ in violations:
                f.write("FUNCTION %s   (contract %s)\n" % (r["function"], r["contract"]))
                for o in os_[:20]:
                    f.write("  FAILED OBLIGATION: %s   %s\n" % (o["name"], o["where"]))
                    if o["detail"]:
                        f.write("    path:\n" + "".join("      %s\n" % x for x in o["detail"]["path"]))
                        f.write("    goal: %s\n" % o["detail"]["formula"][:1500])
                    if o["model"]:
                        f.write("    verifier's counterexample:\n" + "".join("      %s\n" % x for x in o["model"][:60]))
            for h in hfail[:10]:
                f.write("\nCONCRETE FAILING INPUT on the real code: scenario %s\n%s\n" % (h["scenario"], h["output"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if hfail else " no-failing-input-found"))
    for l in sorted(set(lines)):
        print(l)
    proved = not unsup and not notes and res
    fns = sorted({r["function"] for r in ok})
    inl = sorted({n for r in res for n in r["inlined"] if n not in fns and "rotor::" in n.split("(")[0]})
    ass = list(RP.COMMON_ASSUMPTIONS) + list(P.get("assumptions", []))
    cross = {}
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, TIER),
        "trusted_base": RP.TRUSTED,
        "backend": "z3 %s" % z3.get_version_string(),
        "solver_time_s": round(sum(r["solver"] for r in res), 2),
        "solver_queries": sum(r["queries"] for r in res),
        "functions_under_contract": [{"function": r["function"], "contract": r["contract"], "status": r["kind"], "paths": r["paths"],
                                      "obligations": len(r["obls"]), "discharged": sum(o["status"] == "discharged" for o in r["obls"]),
                                      "solver_s": r["solver"], "note": r["error"]} for r in res],
        "obligation_names": sorted({o["name"] for r in res for o in r["obls"]})[:400],
        "executed_without_contract": len(inl),
        "executed_without_contract_names": inl[:200],
        "outside_the_verifier_on_this_tree": [{"contract": r["contract"], "reason": r["error"]} for r in unsup],
        "front_end_notes": notes,
        "bounded_complement": hres and {k: v for k, v in hres.items() if k != "failures"},
    }
    ev = {"property": pid, "tier": TIER, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": ass,
          "wall_s": round(time.time() - t0, 1), "violations": len(violations) + len(hfail)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d/%d obligations discharged, %d outside the verifier, bounded scenarios: %s, %.0fs" % (
        pid, len(res), ndis, nobl, len(unsup), (hres or {}).get("evaluations", "none"), time.time() - t0))
    for r in unsup:
        print("  not decided by proof on this tree: %s: %s" % (r["contract"], (r["error"] or "").split("\n")[0][:200]))
    for n in notes + list((hres or {}).get("notes", [])):
        print("  note: " + n[:300])
    return rc


if __name__ == "__main__":
    main()
