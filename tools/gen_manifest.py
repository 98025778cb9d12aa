#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (every property is claimed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
SEQ = ("explicit-state model checking of the real implementation: exhaustive exploration of operation histories "
       "with canonical state hashing, reference-model oracle in every state")
ENUM = "exhaustive enumeration of bounded inputs and histories on the real implementation against a reference oracle"
CONC = ("stateless model checking of the real implementation: preemption-bounded enumeration of all interleavings "
        "under a controlled scheduler, with a happens-before race monitor")
BASE = ("Every operation history over the stated alphabets is executed on the code itself and compared with a reference "
        "model (to fixpoint where evidence says complete, otherwise to the stated depth); sizes beyond the alphabets are "
        "reached only by enumerated structured families. Trusts the Go toolchain and 128-bit state hashes.")
NOTE = {
 "M05": BASE + " Logarithmic cost is decided as: AVL-height formula on the reported height and longest search path, and a comparison-count bound per operation.",
 "G01": "Complete over 8-bit triples and over edge values of the other types; weak orderings up to 5 keys; NaN excluded.",
 "G02": "Complete over 8- and 16-bit values; edge values and structured ranges of the wider types; strings up to a length and built in many ways. Collision freedom on wider ranges is only checked where the property claims it.",
 "K01": "All schedules up to the preemption bound at statement granularity; finer interleavings are covered by the race detector on the same executions (no happens-before edges are added by the scheduler). Loops over Go maps inside the library run in one fixed order (S01-S03, B01, X01 and V01 vary it).",
 "K02": "As K01, with up to three goroutines reading one container.",
 "K03": "As K01, with two or three goroutines on disjoint cells of one array.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": CONC if i in ("K01", "K02", "K03") else ENUM if i in ("G01", "G02", "A01", "A02") else SEQ,
        "level": "model_checking",
        "level_note": NOTE.get(i, BASE),
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "hooks": {"guard": "none in /repo (scheduling points are inserted at build time by cmd/instr through go build -overlay)",
              "enable": "check.sh K01|K02|K03 builds with the overlay and -race", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "check.sh replay FILE re-executes a recorded counterexample; REPO=DIR checks another tree.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
