#!/usr/bin/env python3-vt
"""prove.py PID [--tier T] [--unit NAME] [--limit S]: discharges every obligation of the units of PID.

Prints one JSON line: obligations (name, status, backend), functions under contract, assumptions."""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
MODULES = ["component", "update", "lists", "recon", "compare_fn", "work", "tree", "cgxc", "nodes", "texts", "elements", "dictr", "others", "qt", "qtreg", "qtown", "misc", "lemmas"]

TRUSTED = ["pyvc engine (/verif/prover/engine.py): symbolic values, loop rules, path exploration",
           "z3 4.x (python3-vt) and cvc5 1.1.2 as back ends", "CPython 3.12 executing the instrumented source"]
BASE_ASSUMPTIONS = ["ints are mathematical, strings are z3 strings, memory is unbounded, no asynchronous exceptions",
                    "`==` of two references is reflexive and has no side effects unless a contract says otherwise",
                    "termination is not proved: loop rules give partial correctness"]


def all_units():
    out = []
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            out += importlib.import_module("contracts." + m).UNITS
    return out


def job(args):
    name, limit, tier = args
    t0 = time.time()
    try:
        import engine
        engine.KEEP_SMT = tier == "thorough"
        u = next(u for u in all_units() if u.name == name)
        ex = u.run(limit)
        obs = []
        for clause, rs in ex.results.items():
            for i, (s, d, b) in enumerate(rs):
                obs.append({"name": f"{name}.{clause}#{i}", "status": s, "detail": d, "backend": b})
        missing = [c for c in u.covers if c not in ex.covers]
        cross = None
        if tier == "thorough":
            cross = crosscheck(ex.vcs, t0 + limit)
        return {"unit": name, "obs": obs, "missing": missing, "unsupported": ex.unsupported, "stats": ex.stats, "wall": time.time() - t0, "cross": cross}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"unit": name, "obs": [], "missing": [], "unsupported": [f"{type(e).__name__}: {e}"], "tb": traceback.format_exc()[-1500:],
                "stats": {"solver_s": 0, "paths": 0, "complete": 0, "branch_queries": 0}, "wall": time.time() - t0, "cross": None}


def crosscheck(vcs, end):
    """Every discharged VC once more with cvc5 (thorough tier)."""
    import subprocess, tempfile
    n = agree = 0
    disagree = []
    for name, smt in vcs:
        if time.time() > end:
            break
        n += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt)
        try:
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=4000", f.name], capture_output=True, text=True, timeout=10)
            r = (p.stdout.split() or ["unknown"])[0]
        except Exception:
            r = "unknown"
        os.remove(f.name)
        if r == "unsat":
            agree += 1
        elif r == "sat":
            disagree.append(name)
    return {"checked": n, "cvc5_agrees": agree, "cvc5_disagrees": disagree}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit")
    ap.add_argument("--limit", type=float, default=100)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    units = [u for u in all_units() if (a.pid in u.props or a.pid == "all") and (not a.unit or a.unit in u.name)]
    out = {"obligations": [], "functions": [], "assumptions": list(BASE_ASSUMPTIONS), "trusted": list(TRUSTED), "vacuity": {}, "solver_s": 0.0, "paths": 0, "cross": []}
    limit = a.limit * (0.9 if a.tier == "quick" else 0.8)
    if units:
        with mp.get_context("fork").Pool(min(7, len(units)), maxtasksperchild=1) as pool:
            rs = pool.map(job, [(u.name, min(u.limit * (1 if a.tier == "quick" else 4), limit), a.tier) for u in units], chunksize=1)
    else:
        rs = []
    for u, r in zip(units, rs):
        out["solver_s"] = round(out["solver_s"] + r["stats"]["solver_s"], 2)
        out["paths"] += r["stats"]["paths"]
        bad = list(r["unsupported"])
        if r["missing"]:
            bad.append("cover not reached: " + ", ".join(r["missing"]))
        if not r["obs"]:
            bad.append("no obligation was generated")
        # a unit that could not be explored completely proves nothing: its clauses are undecided
        for o in r["obs"]:
            if o["status"] == "proved" and bad:
                o = {**o, "status": "undecided", "detail": "the function was not covered completely: " + bad[0]}
            elif o["status"] == "unknown":
                o = {**o, "status": "undecided"}
            elif o["status"] == "refuted" and u.soft:
                o = {**o, "status": "undecided", "detail": "refuted under an over-approximation: " + o["detail"]}
            out["obligations"].append({**o, "bounded": True} if u.bounded else o)
        if not r["obs"]:
            out["obligations"].append({"name": u.name, "status": "undecided", "detail": "; ".join(bad)[:400], **({"bounded": True} if u.bounded else {})})
        out["functions"].append({"unit": u.name, "functions": u.functions, "obligations": len(r["obs"]),
                                 "proved": sum(1 for o in r["obs"] if o["status"] == "proved") if not bad else 0, "undecided_because": sorted(set(bad))[:4],
                                 "paths": r["stats"]["paths"], "wall_s": round(r["wall"], 2), "contract": u.doc, "bounded": u.bounded})
        out["vacuity"][u.name] = {"complete_paths": r["stats"]["complete"], "covers_reached": [c for c in u.covers if c not in r["missing"]]}
        if r["cross"]:
            out["cross"].append({"unit": u.name, **r["cross"]})
        for x in u.assumes:
            if x not in out["assumptions"]:
                out["assumptions"].append(x)
        if a.v:
            print(f"{u.name:45s} {len(r['obs']):4d} VCs {sum(1 for o in r['obs'] if o['status'] == 'proved'):4d} proved  {r['stats']['paths']:4d} paths {r['wall']:6.1f}s "
                  f"solver {r['stats']['solver_s']:5.1f}s {'INCOMPLETE ' + str(sorted(set(bad))[:4]) if bad else ''} {r.get('tb', '')}", file=sys.stderr)
            shown = 0
            for o in r["obs"]:
                if o["status"] != "proved":
                    shown += 1
                    if shown > 4:
                        break
                    print("   ", o["status"], o["name"], o["detail"][:300], file=sys.stderr)
    print(json.dumps(out))
    sys.stdout.flush()


if __name__ == "__main__":
    main()
