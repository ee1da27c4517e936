#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = ["C%02d" % i for i in range(1, 25)]
NOTE = ("Seeded search over schedules, faults and workloads of the real code against a reference model; evidence over the "
        "explored runs, not a proof. Trusts the simulator (sim/rt), the rayon-core stand-in where pools are used, and the "
        "model in the scenario. Interleavings are sequentially consistent.")
NA = {}
NOTES = {"C23": " C23 quantifies over programs: it is sampled by pairs of programs, one that must not be possible and its nearest "
                "lawful neighbour. The compiler only filters out what it refuses; the verdict on what it accepts is the simulated runs'."}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in DONE:
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule search over the instrumented real code)",
            "level": "exploration",
            "level_note": NOTE + NOTES.get(i, ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
m["notes"] = ("No hooks in /repo: the seam is the compiler's memory-access instrumentation plus interposed OS calls. "
              "fix: commits in /repo are listed in known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
