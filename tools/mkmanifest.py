#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import json, os, sys, importlib
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root + "/lib", root + "/checks"]
sys.dont_write_bytecode = True
NA = {
    "C91": "numerical exactness of big decimals quantifies over run-time values; and the current implementation is not exact, so no structural clause is a necessary condition that holds",
    "C93": "a statistical property of run-time values; only the bounds handed to the generator are visible in the code (C33)",
    "C95": "stack use is a run-time quantity that depends on the nesting depth of the input and the platform's stack; the code recurses without a limit, and bounding it would change the accepted inputs",
}
TECH = json.load(open(root + "/tools/technique.json"))
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)["id"]
    f = root + "/checks/%s.py" % p.lower()
    if os.path.exists(f):
        m = importlib.import_module(p.lower())
        t = TECH.get(p) or TECH["default"]
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p, technique=t, level=m.LEVEL, level_note=m.EXPLANATION))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not claimed: no sound check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Every check compiles the analysed program from /repo's current headers on each run; nothing of it is executed."), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
