#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(D, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
            "technique": c.get("technique", TECH), "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
m["notes"] = "Contracts, invariants and lemmas are Go functions in /verif/spec, overlaid on /repo at load time; nothing in /repo is guarded or instrumented."
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
