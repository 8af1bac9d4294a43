#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with each property's bounds taken from its harnesses, the repaired defects from
known_findings.json and the planted bugs from tools/detection.json."""
import glob, json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
KNOWN = open(os.path.join(V, "tools", "design_known.md")).read()
HOW = json.load(open(os.path.join(V, "tools", "design_how.json")))
M = json.load(open(os.path.join(V, "MANIFEST.json")))
NA = {x["property"]: x["reason"] for x in M["not_applicable"]}
out = [HEAD]
for p in P:
    pid = p["id"]
    out.append("### %s %s\n" % (pid, p["title"]))
    if pid in NA:
        out.append("Not applicable: %s\n" % NA[pid])
        continue
    out.append(HOW[pid] + "\n")
    for h in sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp"))):
        for l in open(h):
            g = re.match(r"//\s*(BOUNDS|OUTSIDE|ASSUME):\s*(.*)", l)
            if g:
                out.append("- %s, %s: %s" % (os.path.basename(h), {"BOUNDS": "bounds", "OUTSIDE": "outside", "ASSUME": "assumed"}[g.group(1)], g.group(2).strip()))
    out.append("")
out.append("## Defects found and repaired\n")
out.append("Each was reported by a check on the unchanged tree, confirmed natively and repaired in its own `fix:` commit in /repo.\n")
for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    g = re.match(r"fixed: property=(\w+) (\w+) (.*)", f)
    out.append("- %s (%s): %s" % (g.group(1), g.group(2), g.group(3)))
F = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
if F:
    out.append("\n## Defects left unrepaired (known findings)\n")
    out.append(KNOWN)
    for f in F:
        out.append("- %s, entry `%s`, assertion \"%s\"" % (f["property"], f["entry"], f["id"]))
    out.append("")
else:
    out.append("\nNo defect is left unrepaired (the `findings` list is empty).\n")
D = json.load(open(os.path.join(V, "tools", "detection.json")))
out.append("## Planted bugs and which checks catch them\n")
out.append("Each lies in `seeded/<id>/`, compiles, passes the 1053 stable tests and has a demonstration.\n")
out.append("| planted bug | property | caught by | missed by |\n|---|---|---|---|")
for k in sorted(D):
    d = D[k]
    out.append("| %s | %s | %s | %s |" % (k, d["property"], " ".join(d["caught"]) or "-", " ".join(d["missed"]) or ""))
out.append("")
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
