#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/scenarios.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.scenarios import SCEN
NA = {
    "P30": "which file a path selects and what a Range request returns is a pure function of the path and the document root: no schedule, clock, fault or history decides it, so simulation adds nothing over a table of inputs",
    "P31": "accepting or rejecting a configuration is a pure function of its text: there is no concurrency, time, I/O fault or history for a simulator to decide",
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SCEN:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": SCEN[i].get("technique", "deterministic simulation with fault injection: seeded search over schedules, inputs and faults, checked against a reference model"),
            "level": "exploration",
            "level_note": SCEN[i].get("note", "The real code runs in a simulator that decides every interleaving, delay and fault from a seed. Held on every execution explored, not proved for all of them. " +
                "Trusted: the simulator's network and disk models, the reference model of the oracle. Not simulated: parallel execution on several processors, QUIC, kernel TCP details."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: the scenario that would decide it is not built")})
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "hooks": {"guard": "build overlay (go build -overlay) and the faketime build tag; nothing in /repo is changed", "enable": "check.py builds /repo's working tree with sim/build.py's overlay: patched copies of standard library and storage files, and the harness as /repo/proxy/verifsim", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "A replay file is run with: python3 check.py replay FILE. DESIGN.md explains the machinery; KNOWN_FINDINGS lists repaired defects."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
