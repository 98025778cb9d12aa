#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: coverage from evidence/, planted bugs from seeded/ and tools/caught.json."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(s, tag, body):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
def n(x):
    return f"{x/1e6:.1f} M" if x >= 1e6 else f"{x/1e3:.0f} k" if x >= 1e4 else str(x)
rows = ["Quick tier, as measured on the 8-core sandbox (states are canonical states or enumerated cases; transitions are checked\nsteps or scheduling decisions; complete means every job reached its fixpoint or bound):\n\n", "| id | states | transitions | complete | wall s |\n|---|---|---|---|---|\n"]
for f in sorted(glob.glob(R + "/evidence/*.json")):
    d = json.load(open(f)); c = d["coverage"]
    rows.append("| %s | %s | %s | %s | %s |\n" % (os.path.basename(f)[:-5], n(c.get("states", 0)), n(c.get("transitions", 0)), "yes" if c.get("exhaustive", c.get("complete")) else "no", round(d.get("wall_s", c.get("wall_s", 0)) or 0, 1)))
s = open(R + "/DESIGN.md").read()
s = put(s, "coverage", "".join(rows))
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
rows = ["| change | needs | caught by |\n|---|---|---|\n"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows.append("| %s | %s | %s |\n" % (i, m["needs"].replace("|", "/"), caught.get(i, "?")))
s = put(s, "seeds", "".join(rows))
open(R + "/DESIGN.md", "w").write(s)
