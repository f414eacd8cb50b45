import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
NOTE = {}
try:
    from manifest_notes import NOTE, NA
except ImportError:
    pass
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": "contract-based deductive verification (VCs from the real source, z3/cvc5)",
                        "level": "proof", "level_note": NOTE.get(i, "contracts on the functions listed in the evidence; the rest bounded")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
