#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C30": "A pure function of the argument, the environment's variables and a directory listing: no schedule, clock, fault, I/O order or second party for a simulator to vary.",
 "C31": "A pure function of the sequence of assignments made in one scope by one thread: nothing in it depends on schedule, time, I/O or faults.",
 "C33": "A pure function of the set of command names in a pipeline: no schedule, time, fault or I/O enters.",
}
NOTE = {
 "default": "Seeded random search over scenarios, schedules and faults of the real pieshell code on a simulated operating system; every run is exactly repeatable from its seed. It samples, so a clean result is evidence and no proof. Trusts the simulated kernel's model of Linux and the stub programs.",
}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "/opt/venv/bin/python sim/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "/opt/venv/bin/python sim/check.py %s --tier thorough" % p["id"],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and faults of the real code on a simulated kernel, against a reference model",
        "level": "exploration",
        "level_note": NOTE.get(p["id"], NOTE["default"]),
    })
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from sim import check, pool; check.prepare(pool.REPO)'",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the simulator replaces the system-call surface from outside. Replay a violation with: /opt/venv/bin/python sim/replay.py FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
