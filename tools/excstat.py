#!/usr/bin/env python3
"""Counts the outcomes per operation in the traces of a kept run: excstat.py build/run/C08-123"""
import glob, json, sys, collections
c = collections.Counter()
for f in glob.glob(sys.argv[1] + "/s*.trace"):
    for l in open(f):
        for e in json.loads(l)["ev"]:
            c[e["op"], e["exc"]] += 1
for k, v in sorted(c.items()):
    print("%6d %s %s" % (v, *k))
