#!/usr/bin/env python3
# Writes MANIFEST.json: python3 tools/mkmanifest.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "levels.json")))
checks = []
for p in props:
    if p not in notes:
        continue
    n = notes[p]
    checks.append(dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="VERIF_TIER=thorough ./check.sh " + p,
                       evidence_file="evidence/%s.json" % p, technique=n["technique"], level=n.get("level", "exploration"), level_note=n["note"]))
na = [dict(property=p, reason="not claimed yet") for p in props if p not in notes]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes through exported API, file descriptors or the built command.")
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
