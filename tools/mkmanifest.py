#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for p in ids:
    if p in conf:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: seeded search over schedules, message timings and faults of N simulated MPI processes running the real code; " + conf[p].get("oracle", "oracle: independent reference model"),
                       "level": "exploration", "level_note": conf[p]["rule"]})
m = {"version": 1, "setup_cmd": "python3 build.py setup", "hooks": {"guard": "none", "enable": "no hooks: the MPI library, libc and process boundaries are the seams"},
     "checks": checks, "not_applicable": [{"property": p, "reason": na.get(p, "check not built yet")} for p in ids if p not in conf],
     "notes": "See DESIGN.md. Every check builds from /repo's working tree into /verif/build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
