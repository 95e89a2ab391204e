#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/DESIGN.in.md, design.json, known_findings.json and seeded/."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
d = json.load(open(V + "/tools/design.json"))
man = json.load(open(V + "/MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
t = []
for p in props:
    i = p["id"]
    t.append("### %s %s" % (i, p["title"]))
    if i in tech:
        what, cost = d.get(i, ["(see checks/%s.py)" % i, ""])
        t.append("* How: " + what)
        t.append("* Oracle: %s. Cost/bounds: %s." % (tech[i]["technique"], cost or "see evidence"))
        t.append("* Beyond the tests: " + p["why_tests_cant"])
    else:
        t.append("* Not claimed: " + na.get(i, "?"))
    t.append("")
k = json.load(open(V + "/known_findings.json"))
f = ["* %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in k["findings"]] or ["(none)"]
s = []
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    x = json.load(open(m))
    s.append("* `%s` (%s): %s Needs: %s Caught by: %s." % (i, x["property"], x["what_it_breaks"], x["needs"], caught.get(i, "not determined")))
r = open(V + "/tools/restrict.md").read() if os.path.exists(V + "/tools/restrict.md") else ""
out = open(V + "/tools/DESIGN.in.md").read()
for a, b in (("@@TABLE@@", "\n".join(t)), ("@@FINDINGS@@", "\n".join(f)), ("@@SEEDED@@", "\n".join(s) or "(none yet)"), ("@@RESTRICT@@", r)):
    out = out.replace(a, b)
open(V + "/DESIGN.md", "w").write(out)
