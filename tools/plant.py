#!/usr/bin/env python3
"""plant.py [ID...]: (re)makes /verif/seeded/<id> from tools/seed_defs.py after confirming, in a scratch copy, that the change
touches original lines, passes the stable tests, and that the demonstration passes without it and fails with it.
plant.py --check: runs every check against its planted bugs (in scratch copies, VERIF_REPO) and prints what was caught."""
import json, os, shutil, subprocess, sys, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
SH = """#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    os.makedirs(f"{d}/r", exist_ok=True)
    sh(f"cp -a /repo/. {d}/r/")
    return d


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))


def apply(d, edits):
    for f, old, new in edits:
        p = f"{d}/r/collagraph/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{s.count(old)} occurrences of {old!r} in {f}"
        open(p, "w").write(s.replace(old, new))
    return None


def mine():
    """(file, line text set) of lines added by later commits."""
    return None


def original_lines(d, diff):
    """whether every removed line (or, for pure insertions, the neighbours) is original"""
    root = sh("git rev-list --max-parents=0 HEAD", cwd="/repo").stdout.strip()
    bad, any_removed = [], False
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            n = int(m[1])
            continue
        if line.startswith("-") and not line.startswith("---"):
            any_removed = True
            b = sh(f"git blame -s -L {n},{n} {f}", cwd="/repo").stdout
            if not b.startswith("^"):
                bad.append((f, n))
            n += 1
        elif line.startswith(" "):
            n += 1
    return any_removed, bad


def plant(s):
    d = scratch()
    try:
        e = apply(d, s["edits"])
        if e:
            return "EDIT " + e
        diff = sh("git diff", cwd=f"{d}/r").stdout
        rem, bad = original_lines(d, diff)
        if bad:
            return f"LINES not original: {bad}"
        t = f"{d}/demo"
        os.makedirs(t)
        open(f"{t}/demo.sh", "w").write(SH)
        os.chmod(f"{t}/demo.sh", 0o755)
        open(f"{t}/demo.py", "w").write(s["demo"].lstrip())
        a = sh(f"bash {t}/demo.sh", cwd="/repo")
        if a.returncode:
            return "DEMO fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:]
        b = sh(f"bash {t}/demo.sh", cwd=f"{d}/r")
        if b.returncode == 0:
            return "DEMO passes with the change"
        # stable tests, run in the copy
        env = dict(os.environ, PYTHONPATH=f"{d}/r", QT_QPA_PLATFORM="offscreen", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], cwd=f"{d}/r", env=env, capture_output=True, text=True, timeout=300)
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        if "failed" in tail or "error" in tail:
            return "TESTS " + tail + " :: " + "; ".join(x for x in r.stdout.splitlines() if x.startswith("FAILED"))[:300]
        out = f"{VERIF}/seeded/{s['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        for x in ("demo.sh", "demo.py"):
            shutil.copy(f"{t}/{x}", out)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        return f"OK ({tail})" + ("" if rem else " [pure insertion]")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ids):
    for i in ids:
        m = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
        d = scratch()
        try:
            a = sh(f"git apply {VERIF}/seeded/{i}/patch.diff", cwd=f"{d}/r")
            env = dict(os.environ, VERIF_REPO=f"{d}/r", VERIF_SEED="1", VERIF_EVIDENCE=f"{d}/ev")
            os.makedirs(f"{d}/ev")
            pr = subprocess.run(["python3-vt", "prover/prove.py", m["property"], "--tier", "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
            try:
                obs = json.loads(pr.stdout.strip().splitlines()[-1])["obligations"]
                ref = sorted({o["name"] for o in obs if o["status"] == "refuted"})
                und = sum(o["status"] not in ("refuted", "proved") for o in obs)
            except Exception as e:
                ref, und = [f"prover: {e} {pr.stderr[-200:]}"], -1
            r = subprocess.run(["python3", "check.py", m["property"], "--tier", "quick", "--no-prover"], cwd=VERIF, env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:12} {m['property']}  harness={'CAUGHT' if v else 'missed rc=%d' % r.returncode}  prover={'REFUTED ' + str(len(ref)) if ref else 'silent'} undecided={und} {ref[:2]}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--check":
        check(a[1:] or sorted(os.listdir(f"{VERIF}/seeded")))
    else:
        import seed_defs
        from concurrent.futures import ThreadPoolExecutor
        todo = [s for s in seed_defs.SEEDS if not a or s["id"] in a]
        with ThreadPoolExecutor(4) as p:
            for s, r in zip(todo, p.map(plant, todo)):
                print(f"{s['id']:12} {s['property']} {r}", flush=True)
