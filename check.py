#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]      (see DESIGN.md, "How a check decides")

1. prover/prove.py (python3-vt) parses /repo's current sources, generates the obligations of every
   contract the property rests on and has the solvers discharge them.
2. harness/run.py (/opt/venv/bin/python) evaluates the same contracts on the running code: it replays
   counterexamples and is the bounded stand-in for the functions that are not under contract.

Exit 0: nothing broken.  Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse, json, os, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "QT_QPA_PLATFORM": "offscreen", "PYTHONHASHSEED": "0"}
CHECKER = "python3-vt prover/prove.py "


def run(cmd, timeout, env=None):
    """(returncode | None on timeout, stdout, stderr); the whole process group is ended at the timeout."""
    p = subprocess.Popen(cmd, cwd=HERE, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def json_lines(text):
    for line in text.splitlines():
        if line.startswith("{"):
            try:
                yield json.loads(line)
            except ValueError:
                pass


def prove(pid, tier, out):
    limit = 150 if tier == "quick" else 420
    rc, so, se = run([VT, "prover/prove.py", pid, "--tier", tier, "--limit", str(limit - 30)], limit)
    res = next((d for d in json_lines(so) if "obligations" in d), None)
    if res is None:
        res = {"obligations": [], "functions": [], "assumptions": [], "error": (se or "prover ended")[-2000:]}
        print(f"prover: no result for {pid} (rc {rc}): {(se or '')[-400:]}", file=sys.stderr)
    out["prove"] = res


def harness(pid, tier, seed, budget, out, key="harness", fams=None):
    """Concrete contract evaluation.  A crash of the interpreter (Qt) is replayed before it counts."""
    cur = os.path.join(HERE, "evidence", f".cur-{pid}-{seed}.json")
    res = {"violations": [], "summary": None, "crashes": 0}
    end = time.time() + budget
    s = seed
    for attempt in range(4):
        left = max(6.0, end - time.time())
        if os.path.exists(cur):
            os.remove(cur)
        rc, so, se = run([PY, "harness/run.py", pid, "--tier", tier, "--seed", str(s), "--budget", f"{left:.1f}"],
                         left * 2 + 90, {"VERIF_CUR": cur})
        for d in json_lines(so):
            if "violation" in d:
                res["violations"].append(d["violation"])
            if "summary" in d:
                merge(res, d["summary"])
        if rc in (0, 1):
            if rc == 1 and not res["violations"] and res["summary"] is None:
                res["error"] = se[-1500:]          # the harness itself failed
            break
        # died or hung: is there a case that does it every time?
        res["crashes"] += 1
        res["error"] = f"rc {rc}: {se[-800:]}"
        try:
            case = json.load(open(cur))
        except Exception:
            case = None
        if case:
            codes = [run([PY, "harness/run.py", pid, "--replay", cur], 90)[0] for _ in range(3)]
            if all(c is None for c in codes):
                res["violations"].append({**case, "property": pid, "kind": "hang", "message": "hang: the call does not return"})
                break
            if all(c is not None and c < 0 for c in codes):
                res["violations"].append({**case, "property": pid, "kind": "crash", "message": f"crash: the interpreter ends with signal {-codes[0]}"})
                break
        s = s * 31 + 7
        if time.time() > end - 3 and attempt >= 1:
            break
    if os.path.exists(cur):
        os.remove(cur)
    out[key] = res


def merge(res, summary):
    if res["summary"] is None:
        res["summary"] = summary
        return
    a = res["summary"]
    a["distinct"] += summary["distinct"]
    for n, st in summary["families"].items():
        if n in a["families"]:
            a["families"][n]["cases"] += st["cases"]
        else:
            a["families"][n] = st


def known_findings(pid):
    out = []
    for line in open(os.path.join(HERE, "known-findings.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if v.get("family") == k["family"] and v.get("kind") == k["kind"] and v.get("case") in k["cases"]:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-prover", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    budget = a.budget or (22 if tier == "quick" else 240)
    out = {}
    threads = [threading.Thread(target=harness, args=(pid, tier, seed, budget, out))]
    if not a.no_prover:
        threads.append(threading.Thread(target=prove, args=(pid, tier, out)))
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    pr = out.get("prove") or {"obligations": [], "functions": [], "assumptions": []}
    hs = out.get("harness") or {"violations": [], "summary": None, "crashes": 0}
    known = known_findings(pid)
    seen_known, violations = {}, []

    def sort(vs):
        for v in vs:
            k = is_known(v, known)
            if k:
                seen_known[k["what"]] = k
            else:
                violations.append(v)
    sort(hs["violations"])
    refuted = [o for o in pr["obligations"] if o["status"] == "refuted"]
    if refuted and not violations:
        # look longer for an input that shows the refuted obligation on the running code
        more = {}
        ts = [threading.Thread(target=harness, args=(pid, tier, seed * 101 + 17 * i + 3, 60, more, i)) for i in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in more:
            sort(more[i]["violations"])
            if more[i]["summary"]:
                merge(hs, more[i]["summary"])
    for k in known:
        if k["what"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    for i, v in enumerate(violations[:5]):
        path = os.path.join(ev_dir, "replay", f"{pid}-{i}.json")
        json.dump({**v, "obligations_refuted": refuted[:5],
                   "replay": f"cd /verif && QT_QPA_PLATFORM=offscreen {PY} harness/run.py {pid} --replay {path}"},
                  open(path, "w"), indent=1, default=repr)
        print(f"  {v.get('message')}"[:600])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    if refuted and not violations:
        path = os.path.join(ev_dir, "replay", f"{pid}-obligation.json")
        json.dump({"property": pid, "failed_obligation": refuted[0]["name"], "failed": refuted,
                   "replay": f"cd /verif && {CHECKER}{pid}"}, open(path, "w"), indent=1, default=repr)
        for o in refuted[:5]:
            print(f"  obligation {o['name']} fails: {o.get('detail', '')}"[:500])
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1
    summ = hs["summary"] or {"families": {}, "distinct": 0, "samples": []}
    # obligations of units that cover their function only up to a stated bound are never counted as proved
    obs = [o for o in pr["obligations"] if not o.get("bounded")]
    bnd = [o for o in pr["obligations"] if o.get("bounded")]
    disch = [o for o in obs if o["status"] == "proved"]
    undec = [o for o in obs if o["status"] not in ("proved", "refuted")]
    backends = {}
    for o in disch:
        backends[o.get("backend", "z3")] = backends.get(o.get("backend", "z3"), 0) + 1
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obs), "discharged": len(disch), "checker_cmd": CHECKER + pid,
            "trusted_base": pr.get("trusted", []),
            "functions_under_contract": pr.get("functions", []),
            "obligations_by_backend": backends,
            "obligations_undecided_left_to_bounded_check": [{"name": o["name"], "why": o.get("detail", "")[:200]} for o in undec][:60],
            "bounded_obligations": {"checked": len(bnd), "hold": sum(1 for o in bnd if o["status"] == "proved"), "refuted": sum(1 for o in bnd if o["status"] == "refuted"),
                                    "bounds": {f["unit"]: f["bounded"] for f in pr.get("functions", []) if f.get("bounded")}},
            "obligations_refuted": [o["name"] for o in refuted],
            "obligation_names": sorted({o["name"].split("#")[0] for o in disch}),
            "vacuity": pr.get("vacuity", {}),
            "solver_s": pr.get("solver_s", 0.0),
            "paths_explored": pr.get("paths", 0),
            "prover_error": pr.get("error"),
            "evaluations": sum(f["cases"] for f in summ["families"].values()),
            "distinct_nontrivial": summ["distinct"],
            "rule": "bounded stand-in (never counted as proved): concrete evaluations of the contracts on the running code, per family below; distinct by value of the generated case",
            "bounded_families": summ["families"], "samples": summ["samples"],
            "interpreter_crashes": hs["crashes"],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": pr.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations) + (1 if refuted and not violations else 0),
    }
    json.dump(evidence, open(os.path.join(ev_dir, f"{pid}.json"), "w"), indent=1, default=repr)
    if rc == 0:
        print(f"{pid}: {len(disch)}/{len(obs)} obligations discharged{f' and {len(bnd)} up to a bound' if bnd else ''}, {evidence['coverage']['evaluations']} concrete evaluations, no violation")
    if hs.get("error") and not hs["summary"]:
        print("harness error: " + hs["error"], file=sys.stderr)
        if rc == 0 and not pr["obligations"]:
            sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
