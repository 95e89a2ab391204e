#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo and the table below."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# subject -> (property, what failed)
T = {}
for line in open(os.path.join(V, "tools", "fixes.tsv")):
    p, s, w = line.rstrip("\n").split("\t")
    T[s] = (p, w)
f = V + "/known_findings.json"
k = json.load(open(f))
k["fixed"] = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if s not in T:
            print("no entry for:", s); continue
        p, w = T[s]
        k["fixed"].append("fixed: property=%s %s %s" % (p, h, w))
json.dump(k, open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
print(len(k["fixed"]), "fixed")
