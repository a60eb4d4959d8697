#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
NOTE = {
 "Trace": "TLC exhaustively checks the code-shaped machines of the specification against the declarative rules within small bounds; the code is bound by TLC judging every call of recorded executions (clauses: %s). Assurance for the code is over the recorded streams, configurations and schedules; trusts TLC and the recorder.",
 "TraceRoll": "TLC checks the rolling object against the closed-form digest within small bounds; every digest, signal and push of recorded executions is judged by TLC (clauses: %s). Trusts TLC and the recorder.",
 "TraceRange": "TLC checks the range model exhaustively over a small domain; every answer recorded from the code, for all bound kinds and all pairs of listed values of several element types, is judged by TLC (clauses: %s). Trusts TLC and the recorder.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in PROPS:
        continue
    p = PROPS[i]
    t = "TLA+ specification: trace validation of the real code by TLC"
    t += " + replay of TLC-generated behaviours" if p["gen"] else ""
    t += " + exhaustive TLC model checking"
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "technique": t, "level": "model_checking", "level_note": NOTE[p["module"]] % ", ".join(p["judge"])})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything judged is observable through the public API. Known findings and repaired defects: known-findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
