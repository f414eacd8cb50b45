"""Engine self-test: applies one textual change at a time to a scratch copy of /repo and shows what the prover says.
usage: mutate.py UNIT-SUBSTRING FILE OLD NEW   (or with --pid PID)"""
import json, os, shutil, subprocess, sys, tempfile
def run(unit, file, old, new, count=1):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/collagraph", d + "/collagraph")
        p = d + "/collagraph/" + file
        s = open(p).read()
        assert old in s, f"not found: {old}"
        open(p, "w").write(s.replace(old, new, count))
        r = subprocess.run(["python3-vt", "/verif/prover/prove.py", "all", "--unit", unit], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d})
        o = json.loads(r.stdout.splitlines()[-1])
        ref = sorted({x["name"].split("#")[0] for x in o["obligations"] if x["status"] == "refuted"})
        und = sorted({x["name"].split("#")[0] for x in o["obligations"] if x["status"] == "undecided"})
        why = sorted({w for f in o["functions"] for w in f["undecided_because"]})
        print(f"{'REFUTED' if ref else 'undecided' if und else 'PROVED'}: {old[:50]!r} -> {new[:50]!r}: {ref[:4]} {('undecided ' + str(len(und)) + ' ' + str(why[:2])) if und else ''}")
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    if len(sys.argv) == 5:
        run(*sys.argv[1:])
    else:
        from concurrent.futures import ThreadPoolExecutor
        ms = json.load(open(sys.argv[1]))
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda m: run(*m), ms))
