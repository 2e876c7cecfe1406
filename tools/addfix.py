#!/usr/bin/env python3
"""addfix.py PROPERTY "commit subject without fix:" ["what failed"] - commits /repo's changes as a fix and records it."""
import json, subprocess, sys
prop, subj = sys.argv[1:3]
what = sys.argv[3] if len(sys.argv) > 3 else subj
subprocess.run(["git", "-C", "/repo", "commit", "-qam", "fix: " + subj], check=True)
h = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], capture_output=True, text=True, check=True).stdout.strip()
p = "/verif/known_findings.json"
k = json.load(open(p))
k.append({"property": prop, "status": "fixed", "commit": h, "what": what, "entry": "fixed: property=%s %s %s" % (prop, h, what)})
json.dump(k, open(p, "w"), indent=1)
print(h)
