"""DESIGN.md = DESIGN.in.md with the tables of section 3 and 6 filled in."""
import glob, json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, "../prover")]
from manifest_notes import WHAT, NA
import prove
units = prove.all_units()
try:
    caught = json.load(open(os.path.join(H, "caught.json")))
except OSError:
    caught = {}
out = []
for l in open(os.path.join(H, "../properties.jsonl")):
    q = json.loads(l)
    i = q["id"]
    out.append(f"### {i} {q['title']}\n")
    out.append(f"*Proved:* {WHAT[i][0]}.\n")
    out.append(f"*Bounded stand-in:* {WHAT[i][1]}.\n")
    for u in units:
        if i in u.props:
            fs = sorted({f.split("/")[-1] for f in u.functions})
            out.append(f"* `{u.name}` ({', '.join(fs[:6])}{', ...' if len(fs) > 6 else ''}): {' '.join(u.doc.split())[:400]}" + (f" **bounded:** {u.bounded}" if u.bounded else ""))
    out.append("")
seeds = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "../seeded/*/meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {caught.get(n, '')} |")
s = open(os.path.join(H, "DESIGN.in.md")).read().replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(H, "../DESIGN.md"), "w").write(s)
