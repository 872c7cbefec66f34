#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the notes below. usage: mkmanifest.py ID..."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
claimed = sys.argv[1:] or sorted(notes)
checks = []
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    t, note = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": note,
    })
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds /verif/harness against /repo's working tree, runs generated workloads on the real code and judges them with oracles of its own. /repo carries no hooks: the repairs there are unguarded fix: commits."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
