#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, one section per property (statement anchors from properties.jsonl,
method from the check modules, remarks below), seeds and not-applicable reasons."""
import glob, importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root + "/lib", root + "/checks"]
sys.dont_write_bytecode = True
HEAD = open(root + "/tools/design_head.md").read()
NOTES = {}
cur = None
for line in open(root + "/tools/design_notes.md"):
    if line.startswith("## "):
        cur = line[3:].strip()
        NOTES[cur] = ""
    elif cur:
        NOTES[cur] += line
man = json.load(open(root + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [HEAD, "\n## Properties\n"]
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s.\n" % na[i])
        continue
    m = importlib.import_module(i.lower())
    out.append("*How*: %s\n\n" % m.EXPLANATION)
    out.append("*Bounds and assumptions*: %s.\n" % "; ".join(m.ASSUMPTIONS))
    if i in NOTES:
        out.append("\n" + NOTES[i].strip() + "\n")
out.append("\n## Planted bugs\n\nEach directory of seeded/ holds one change that compiles and passes the existing tests, with a demonstration.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(root + "/tools/caught.json")) if os.path.exists(root + "/tools/caught.json") else {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |\n" % (n, d["property"], d["needs"].replace("|", "/"), ", ".join(caught.get(n, [])) or "(none)"))
out.append(open(root + "/tools/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("".join(out))
