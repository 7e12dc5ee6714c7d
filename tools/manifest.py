#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: property -> (technique, level_note); everything else is not applicable, with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_BOTH = "TLA+ specification: exhaustive TLC transitions replayed through the real code, recorded traces validated by TLC"
T_TRACE = "TLA+ specification: traces recorded from the real code validated step by step by TLC"
CLAIMED = {
 "A01": (T_BOTH, "Deltas.tla; all histories up to the stated depth over 1-2 keys, random histories over 5 keys and 5 overlays"),
 "A02": (T_BOTH, "Deltas.tla with undo; as A01, weighted towards undo"),
 "A03": (T_BOTH, "AmountDeltas.tla with the true 128-bit bounds (BigNum.tla)"),
}
NOT = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": CLAIMED[p][0], "level": "model_checking",
                 "level_note": CLAIMED[p][1]} for p in sorted(CLAIMED)],
     "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "no check built yet")} for p in props if p["id"] not in CLAIMED]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(CLAIMED), "claimed")
