#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = "/verif"
rows = ["| seed | property | breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows) - 2)
