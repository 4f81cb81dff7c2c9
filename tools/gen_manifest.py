#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of scenarios and the property texts."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import boot  # noqa: E402,F401
from dst.registry import PROPERTIES  # noqa: E402

NA = {
    "N01": "pure function of its input tensors: no schedule, time, I/O, fault or multi-party behaviour for a simulator to control",
    "N04": "pure function from a string to a network: no schedule, time, I/O or fault can reach it",
    "N05": "pure helper functions: no schedule, time, I/O or fault can reach them",
}
LEVEL_NOTE = (
    "seeded search over simulated runs (schedules, delays, faults, workloads) of the real code; every run is replayable"
    " from its recorded choices; not exhaustive"
)
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bash check.sh {i} quick",
                "thorough_cmd": f"bash check.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection ("
                + ", ".join(s["name"] for s in PROPERTIES[i]["scenarios"])
                + ")",
                "level": "exploration",
                "level_note": LEVEL_NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: scenario under construction")})
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "none",
        "enable": "no hooks: the simulator replaces ray, the clock, experiment trackers and file access from outside",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md; replay a violation with: bash replay.sh FILE; known findings in known_findings.json",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
