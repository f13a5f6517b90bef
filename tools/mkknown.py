#!/usr/bin/env python3
"""Writes known_findings.txt from tools/findings.txt and /repo's fix commits
(run by hand after a fix commit; no check runs it)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
known = []
for line in open(os.path.join(HERE, "tools", "findings.txt")):
    line = line.rstrip("\n")
    if line.startswith("known:"):
        known.append(line)
    elif line and not line.startswith("#"):
        p, s = line.split(" ", 1)
        M[s] = p
out = ["# known: defects that are recorded, not repaired; fixed: repaired in /repo (suppresses nothing)"]
out += known
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "54899f1..HEAD"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if h == "97edb1d" or s.startswith("revert: "):
        continue  # repaired nothing, reverted
    s = s[len("fix: "):]
    key = [k for k in M if s.startswith(k)]
    assert len(key) == 1, (s, key)
    out.append("fixed: property=%s %s %s" % (M[key[0]], h, s))
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
