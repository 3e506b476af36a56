#!/usr/bin/env python3
"""kf.py <commit> <property> <what failed>: records a repaired defect in known_findings.jsonl."""
import json, os, sys
c, p, w = sys.argv[1:4]
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
with open(f, "a") as o:
    o.write(json.dumps({"status": "fixed", "property": p, "commit": c, "line": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
