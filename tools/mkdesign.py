#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known_findings.json and seeded/*/meta.json (+ seeded/catches.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
fixes = "| property | commit | what failed |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (e["property"], e["commit"][:7], e["what"]) for e in sorted((e for e in k if e["status"] == "fixed"), key=lambda e: e["property"]))
cp = V + "/tools/catches.json"
catch = json.load(open(cp)) if os.path.exists(cp) else {}
seeds = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    seeds += "| %s | %s | %s | %s |\n" % (i, d["property"], d["needs"], catch.get(i, "not run yet"))
p = V + "/DESIGN.md"
s = open(p).read()
for n, t in (("fixes", fixes), ("seeds", seeds)):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (n, n), lambda _: "<!-- %s -->\n%s<!-- /%s -->" % (n, t, n), s, flags=re.S)
open(p, "w").write(s)
