#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
L1 = "Real library code over a simulated disk"
checks = {}
def c(i, technique, note):
    checks[i] = {"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": f"{T}; {technique}", "level": "exploration", "level_note": note}
exec(open(os.path.join(here, "tools", "checks.py")).read())
na = [
 {"property": "C19", "reason": "Storing a name is a pure function of the name: no I/O, time, scheduling, randomness or second party takes part, so there is nothing for a simulator to schedule or fail. (Names of all kinds do appear in the workloads of C01, C09, C12, C14 and C17.)"},
 {"property": "C20", "reason": "Encoding and decoding a fixed-layout structure is a pure function of its fields: there is no schedule, fault or history for it to depend on. (The stored bytes of these structures are compared with an independent reference encoder in C02 and C03.)"},
]
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": list(checks.values()), "not_applicable": na,
           "notes": "No hooks in /repo: the library is generic over its streams, providers and callbacks, and the two programs are run whole under a system-call simulator. Replay a violation with: build/release/simcheck replay <file>."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
