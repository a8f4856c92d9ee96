#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import glob, json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["<!-- seeded -->", "| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught', j['property'])} |")
rows.append("<!-- /seeded -->")
p = H + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"SEEDED_TABLE|<!-- seeded -->.*<!-- /seeded -->", lambda _: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
