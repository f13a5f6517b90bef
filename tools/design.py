#!/usr/bin/env python3-vt
"""Writes DESIGN.md from the catalog, the property modules and the notes."""
import ast
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(HERE, *p)) as f:
        return f.read()


def module(pid):
    t = ast.parse(read("pbt", "props", pid + ".py"))
    d = {"RULE": "", "ASSUMPTIONS": [], "subs": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Sub":
            d["subs"].append((ast.literal_eval(n.args[0]), ast.literal_eval(n.args[3])))
    return d


out = [read("tools", "design_head.md"), "\n## Properties\n"]
table = ["\n## Cost\n", "Quick tier, measured on this sandbox (8 workers); thorough is about 20 times as long.\n", "| property | cases | non-trivial | seconds |", "|---|---|---|---|"]
costs = {}
path = os.path.join(HERE, "tools", "costs.json")
if os.path.exists(path):
    costs = json.loads(read("tools", "costs.json"))
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    m = module(p["id"])
    tech = [c for c in json.loads(read("MANIFEST.json"))["checks"] if c["property"] == p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* **Quantified over** " + p["quantifier"]["text"] + ".")
    out.append("* **Beyond the tests:** " + p["why_tests_cant"] + ".")
    out.append("* **Oracle:** " + tech[0]["technique"] + ".  " + tech[0]["level_note"])
    out.append("* **Generated:** " + m["RULE"])
    if m["ASSUMPTIONS"]:
        out.append("* **Bounds and what is not judged:** " + "; ".join(m["ASSUMPTIONS"]) + ".")
    out.append("* **Cases (quick):** " + ", ".join("%s %d" % s if s[1] else "%s (known finding, pinned)" % s[0] for s in m["subs"]) + ".\n")
    if p["id"] in costs:
        table.append("| %s | %s | %s | %s |" % (p["id"], *costs[p["id"]]))
n = sum(1 for x in read("known_findings.txt").splitlines() if x.startswith("fixed:"))
out.append("\n".join(table))
out.append(read("tools", "design_tail.md").replace("FIXES", str(n)))
out.append("\n## Planted bugs\n\nEach is kept in `seeded/<id>/` with its demonstration; `detect` is the result of the property's quick check on a copy with the patch.\n")
out.append("| bug | property | needs | detected |\n|---|---|---|---|")
notes = {}
for x in read("tools", "seeded.txt").splitlines():
    if x and x[0] != "#":
        a, b = x.split(None, 1)
        notes[a] = b
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(read("seeded", s, "meta.json"))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), notes.get(s, "?")))
out.append("\n" + read("tools", "design_reverts.md"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
