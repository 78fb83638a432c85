#!/usr/bin/env python3
"""Writes MANIFEST.json from dv/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dv"))
from props import P, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in P: continue
    c = P[i]
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % i,
        evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=i, reason=NA.get(i, "No function this property depends on is under a discharged contract yet, so it is not claimed.")) for i in ids if i not in P]
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.exit(0)' && clang --version >/dev/null && gcc --version >/dev/null", checks=checks, not_applicable=na,
    notes="check.py PROPERTY generates verification conditions from /repo's current sources and discharges them; see DESIGN.md. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
