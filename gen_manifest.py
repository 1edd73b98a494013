#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys
done = set(sys.argv[1:])
T = {
 "C20": "exhaustive enumeration of bounded input spaces on the real code in every feature/profile configuration, outcomes compared pairwise",
 "C25": "exhaustive enumeration of bounded input spaces on the real code built for a 32-bit target (run) and a big-endian one (interpreted), every answer compared with the 64-bit little-endian build",
 "C21": "exhaustive enumeration of bounded arc tuples through the real macro, compared with a reference encoder",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if done and i not in done:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T.get(i, "explicit-state exploration: bounded input spaces enumerated exhaustively on the real code, each outcome compared with a reference model"),
        "level": "model_checking",
        "level_note": "Holds for every case of the bounded spaces listed in the evidence file (complete enumeration, no sampling), run on the real library built from /repo; beyond those bounds by the small-scope argument in DESIGN.md. Trusts the reference model and the compiler.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything goes through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
