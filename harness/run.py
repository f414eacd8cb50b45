"""run.py PID [--tier T] [--seed N] [--budget S] [--replay FILE]   (under /opt/venv/bin/python)
Prints one JSON line per violation and a final JSON summary."""
import argparse, importlib, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run_check, shrink, jkey

MODULES = {**{p: "h_core" for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08")}, "C05": "h_c05"}
MODULES.update({"C09": "h_component", "C10": "h_sched", "C11": "h_cgx", "C12": "h_cgx", "C13": "h_cgx", "C14": "h_cgx",
                "C15": "h_cgx", "C16": "h_cgx", "C17": "h_c17", "C18": "h_renderers", "C19": "h_renderers",
                "C20": "h_qt", "C21": "h_qt", "C22": "h_import", "C23": "h_cli"})
EXTRA = {"C04": ["h_component"], "C07": ["h_component"], "C08": ["h_component"], "C15": ["h_component"], "C02": ["h_c17"], "C11": ["h_core"]}


def families(pid):
    out = {}
    for m in [MODULES[pid]] + EXTRA.get(pid, []):
        out.update(importlib.import_module(m).families(pid))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--max", type=int, default=1)
    ap.add_argument("--replay")
    a = ap.parse_args()
    fams = families(a.pid)
    if a.replay:
        r = json.load(open(a.replay))
        msg = run_check(fams[r["family"]][1], r["case"])
        print(msg or "no violation")
        sys.stdout.flush()
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("h_") and hasattr(m, "cleanup"):
                m.cleanup()
        os._exit(1 if msg else 0)
    end = time.time() + a.budget
    rng = random.Random(a.seed * 7919 + 13)
    stats, found = {}, []
    distinct = set()
    samples = []
    cur = os.environ.get("VERIF_CUR")

    def one(name, check, case, st):
        st["cases"] += 1
        distinct.add(hash(name + jkey(case)))
        if cur:
            with open(cur, "w") as f:
                json.dump({"family": name, "case": case}, f, default=repr)
        msg = run_check(check, case)
        if len(samples) < 4 and st["cases"] in (3, 40):
            samples.append({"family": name, "case": case})
        if msg:
            kind = msg.split(":")[0]
            if sum(1 for f in found if f["kind"] == kind and f["family"] == name) >= a.max:
                return
            small, m2 = shrink(check, case, 6.0 if len(found) < 3 else 1.0)
            found.append({"property": a.pid, "family": name, "kind": kind, "case": small, "message": m2 or msg})
            print(json.dumps({"violation": found[-1]}), flush=True)
    for name, (g, check, ex) in fams.items():
        st = stats[name] = {"cases": 0, "exhaustive": bool(ex), "complete": None}
        if ex:
            stop = time.time() + max(5, a.budget * 0.6)
            st["complete"] = True
            for case in ex(a.tier):
                one(name, check, case, st)
                if time.time() > stop or len(found) >= 4:
                    st["complete"] = False
                    break
    rnd = [(n, g, c) for n, (g, c, _) in fams.items() if g]
    t0 = time.time()
    left = max(a.budget * 0.35, end - t0)
    for n, (name, g, check) in enumerate(rnd):
        stop = t0 + left * (n + 1) / len(rnd)
        while time.time() < stop and len(found) < 4:
            one(name, check, g(random.Random(rng.getrandbits(64))), stats[name])
    print(json.dumps({"summary": {"families": stats, "violations": len(found), "distinct": len(distinct), "samples": samples}}, default=repr), flush=True)
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("h_") and hasattr(m, "cleanup"):
            m.cleanup()
    os._exit(1 if found else 0)


if __name__ == "__main__":
    main()
