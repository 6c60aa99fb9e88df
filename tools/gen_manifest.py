#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28".split()
NA = {
 "N01": "pure function of its operands: no schedule, clock, fault or interleaving for a simulation to vary",
 "N02": "pure function of the parsed query: no schedule, clock, fault or interleaving for a simulation to vary",
 "N03": "pure function of the source text: no schedule, clock, fault or interleaving for a simulation to vary",
 "N04": "pure function of the argument dictionary and declared type: no schedule, clock, fault or interleaving for a simulation to vary",
}
NOTE = "Seeded sampling of scenarios and schedules, not exhaustive: a clean search is evidence within the generated shapes. Trusted: the scheduler overlay on the Go runtime, the reference model and the host stand-ins in /verif/sim."
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "python3 ./check --build",
 "hooks": {"guard": "none: no hooks in /repo; scheduling, clock and randomness are intercepted by a toolchain overlay (go build -overlay) generated from /verif/sim/overlay", "enable": "./check builds with -overlay", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "All checks are one deterministic simulator (see DESIGN.md). known_findings.json lists findings and fixed defects.",
}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 ./check %s --tier quick" % i, "thorough_cmd": "python3 ./check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real code inside one simulated process" + ("; race-detector build as the per-run oracle" if i == "C20" else ""),
            "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
