#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rules import RULES
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C90": "a pure function of a token and its data: no schedule, time, I/O or fault for a simulation to decide, and no server code uses it",
}
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
na = []
for p in props:
    if p in RULES:
        checks.append({
            "property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection (seeded schedule, network, disk, clock and fault search over the real server; reference model as oracle)",
            "level": "exploration",
            "level_note": "Seeded sampling of inputs, schedules and faults over the real code at statement granularity; a quiet check is evidence, not proof. Trusts the simulated network, disk and clock, the two stubbed third-party modules and the reference model.",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump({
    "version": 1, "setup_cmd": "./check --build",
    "hooks": {"guard": "none: no hook is committed in /repo; every check instruments a copy of the sources through go's -overlay", "enable": "./check (builds with -overlay and -modfile outside /repo)", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Replay: ./check --replay FILE. Determinism: ./check --determinism. Known and repaired defects: known-findings.txt.",
}, open(HERE + "/MANIFEST.json", "w"), indent=1)
