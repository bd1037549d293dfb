#!/usr/bin/env python3
"""writes known_findings.txt: one 'fixed:' line per fix commit in /repo (property ids from the table)"""
import subprocess, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [l.rstrip("\n").split("|") for l in open(os.path.join(H, "tools", "fixes.txt")) if l.strip()]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
fixes = [(h, s[5:]) for h, s in log if s.startswith("fix: ")]
out = ["# finding: property=<id> key=<regex of violation key> <what fails>   -- known, unrepaired (suppresses exactly that key)",
       "# fixed: property=<id> <commit> <what failed>                          -- repaired, suppresses nothing"]
tab = {t[0].strip(): t[1:] for t in T}
bad = 0
for h, s in fixes:
    if s not in tab:
        print("no property for:", s); bad = 1; continue
    props, what = tab[s][0].strip(), tab[s][1].strip()
    for p in props.split(","):
        out.append("fixed: property=%s %s %s" % (p, h, what))
out += [l.rstrip("\n") for l in open(os.path.join(H, "tools", "findings.txt"))]
open(os.path.join(H, "known_findings.txt"), "w").write("\n".join(out) + "\n")
sys.exit(bad)
