#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
rows.append("<!-- /seeds -->")
p = here + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@", "<!-- seeds --><!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
