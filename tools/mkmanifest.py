#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
DEFAULT = ("Every recorded execution is judged by TLC against the explicit TLA+ machine of the codec; inputs are enumerated from "
           "boundary tables and drawn at random with a fixed seed, so executions that no scenario family reaches are not covered. "
           "Trusts TLC, CPython's codec/Unicode tables and the recorder.")
NOTES = {
    "C15": ("Outcomes of calls in histories, nested calls and threads (including every single line-level preemption point of pairs of "
            "calls) are compared by the trace specification with the outcome of the same call alone in a fresh process. Preemption is "
            "explored at line granularity of /repo/iso8583 and not inside C code."),
    "C20": "Equality of observations before and after JSON, pickle (all protocols), copy and deepcopy, judged in the trace specification.",
    "C18": "The shipped tables are compared entry by entry with the documented tables in spec/Starter.tla, every field is exercised at its boundaries.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 harness/check.py %s" % i,
        "thorough_cmd": "python3 harness/check.py %s thorough" % i,
        "technique": "TLA+ specification checked with TLC; trace validation of recorded executions of the real code and replay of model behaviours",
        "level": "model_checking",
        "level_note": NOTES.get(i, DEFAULT),
    })
m = {"version": 1, "setup_cmd": "bash harness/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "TLA+ with TLC. No hooks in /repo: the public API is the linearization point. Defects repaired: see KNOWN_FINDINGS.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
