#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
PURE = "not applicable to deterministic simulation: a pure function of its arguments, no concurrency, time, I/O, randomness or fault can influence it"
NA = {"N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE}
TODO = "machinery for this property is not built yet"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "deterministic simulation: seeded search over schedules" + (" and injected faults" if c.get("faults", True) else "") + " of the real code, invariants and history checks"),
            "level": "exploration",
            "level_note": c.get("note", "") + ("; " if c.get("note") else "") + "seeded random sampling of executions of the compiled code under a simulated scheduler, clock and disk; a clean batch is evidence, not proof"
                          + ("; assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all",
     "hooks": {"guard": "none", "enable": "no hooks: the simulator interposes at the compiler's instrumentation, libc and pthread interfaces; /repo's sources are compiled unmodified", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One simulator (dsim/), one orchestrator (check.py), scenarios per property (scenarios/). Replay: python3 check.py --replay replays/FILE.json. Fixed defects and known findings: known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
