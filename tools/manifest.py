#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().splitlines() if " hook:" in l]
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check built yet")))
        continue
    tech = "TLA+ specification checked with TLC; spec-generated cases executed on the real code, recorded traces validated against the specification"
    if c.get("models"): tech += "; exhaustive TLC model of the mechanism"
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + p["id"],
        technique=tech, level=c.get("level", "model_checking"), level_note=c.get("note", "Every recorded call of the generated case families is decided exactly against the specification (unbounded integers); inputs outside the families are not explored.")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
    hooks=dict(guard="E_FLOAT_VERIF_DIGITS10", enable="bin/build.py compiles /repo's sources itself; configurations named dN add -DE_FLOAT_VERIF_DIGITS10=N", source_commits=hooks),
    notes="See DESIGN.md. bin/check.py decides one property: it builds the recorder from /repo's working tree, lets TLC generate the cases, records the real code and lets TLC validate the records.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
