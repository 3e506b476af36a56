#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = open(R + "/DESIGN.md").read()
head = d[:d.index("| planted bug |")] if "| planted bug |" in d else d
rows = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/" + s + "/meta.json"))
    rows.append("| %s | %s | %s |" % (s, m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
open(R + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
