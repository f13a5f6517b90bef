#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json.

A property is claimed when pbt/props/<id>.py exists.
"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

LIB, PTH, POL, OPS, FMT, CRV, HOB, LBL, CLP = (
    "gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/operation.py",
    "gdspy/gdsiiformat.py", "gdspy/curve.py", "gdspy/hobby.py", "gdspy/label.py", "gdspy/clipper.cpp",
)


def prop(id, title, statement, text, why, mech, technique, note, over=("inputs",), state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()),
        why=" ".join(why.split()), mech=mech, technique=technique, note=" ".join(note.split()),
        state=list(state), observe=list(observe),
    ))


PBT = "property-based testing (Hypothesis): "

exec(open(os.path.join(HERE, "tools", "catalog_data.py")).read())


def build():
    lines = []
    for p in P:
        files = []
        for n, w in p["mech"]:
            f = w.split(":")[0]
            if f not in files:
                files.append(f)
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }
        assert len(d["title"]) <= 80, d["title"]
        assert len(re.findall(r"[.!?](?:\s|$)", d["statement"])) <= 3, d["id"]
        lines.append(json.dumps(d))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "pbt", "props", p["id"] + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3-vt pbt/run.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3-vt pbt/run.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
    man = {
        "version": 1,
        "setup_cmd": "python3-vt pbt/run.py --setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check compiles gdspy.clipper from /repo's sources and imports the .py files of /repo's "
        "working tree; see DESIGN.md. Repaired defects are listed in known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    build()
