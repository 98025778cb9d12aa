#!/usr/bin/env python3
"""Writes tools/caught.json from the output of an evaluation run (lines 'seed property rc=.. CAUGHT')."""
import json, sys, os
R = os.path.dirname(os.path.abspath(__file__))
f = R + "/caught.json"
c = json.load(open(f)) if os.path.exists(f) else {}
for l in sys.stdin:
    w = l.split()
    if len(w) > 4 and w[-1] in ("CAUGHT", "MISSED"):
        c[w[0]] = w[1] if w[-1] == "CAUGHT" else "missed by " + w[1]
json.dump(c, open(f, "w"), indent=0, sort_keys=True)
