#!/usr/bin/env python3
# Writes MANIFEST.json from lib/plan.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    pl = PLAN[p["id"]]
    mods = []
    for i in pl["quick"] + pl["thorough"]:
        m = i.get("model") or i.get("control")
        if m and m not in mods:
            mods.append(m)
    gens = sorted({i["gen"] for i in pl["quick"] if "gen" in i})
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": "TLA+ specification checked with TLC (%s); behaviours replayed on the code; recorded traces validated by TLC (Conform)" % ", ".join(mods),
        "level": "model_checking",
        "level_note": pl["note"],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. KNOWN_FINDINGS.txt lists the defects repaired by fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
