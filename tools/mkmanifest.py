#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/lib")
from registry import CHECKS
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = json.load(open(f"{V}/tools/not_applicable.json")) if os.path.exists(f"{V}/tools/not_applicable.json") else {}
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 lib/check.py {i}", "thorough_cmd": f"python3 lib/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "property-based testing: generated cases with shrinking against an explicit oracle"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Generated-input search on the real code built from the working tree; no counterexample on the cases explored, no proof of absence.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built for it yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
