"""Writes DESIGN.md from tools/design_head.md, the properties and the checks' own rules, and the seeded bugs."""
import ast
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(ROOT + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
notes = {}
cur = None
for ln in open(ROOT + "/tools/design_notes.md"):
    if ln.startswith("## "):
        cur = ln[3:].strip()
        notes[cur] = ""
    elif cur:
        notes[cur] += ln
out = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## The properties and how they are decided", ""]
for p in props:
    i = p["id"]
    tree = ast.parse(open("%s/vf/props/%s.py" % (ROOT, i.lower())).read())
    v = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS")}
    out += ["### %s %s" % (i, p["title"]), "", "*%s; %s.*" % (man[i]["technique"], man[i]["level_note"]), "", v["RULE"], ""]
    if notes.get(i, "").strip():
        out += [notes[i].strip(), ""]
    if v.get("ASSUMPTIONS"):
        out += ["Assumed: " + "; ".join(v["ASSUMPTIONS"]) + ".", ""]
out += ["## Genuine defects found and repaired", "",
        "Each is one `fix:` commit in /repo, found by the check of the property named (see known_findings.json; there are no open findings).", ""]
out += ["- " + f[len("fixed: property="):] for f in json.load(open(ROOT + "/known_findings.json"))["fixed"]]
out += ["", "## Seeded bugs", "", "Every bug in seeded/ and the property whose check reports it (`tools/try.py`, quick tier, seed 1).", "",
        "| bug | property | needs |", "|---|---|---|"]
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))
    out.append("| %s | %s | %s |" % (b, m["property"], m["needs"]))
tail = notes.get("end", "").strip()
out += ["", tail, ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
