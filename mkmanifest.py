#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
NOTES = json.load(open(here + "/claims.json"))
checks, na = [], []
for p in props:
    c = NOTES.get(p["id"], {"na": "no contract for it yet"})
    if "na" in c:
        na.append({"property": p["id"], "reason": c["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": c.get("technique", "contract-based deductive verification of the Go code (go/ssa symbolic execution against contracts, obligations discharged by algebraic normalisation and z3/cvc5)"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts are in /verif/contracts, the verifier in /verif/gcv, replay harnesses in /verif/replay. /repo carries no hooks; its extra commits are fixes."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
