#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, build
V = build.VERIF
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "N01": "pure function of its input: no schedule, clock, I/O, network or fault for simulation to control",
 "N02": "pure function of its input: no schedule, clock, I/O, network or fault for simulation to control",
 "N03": "pure function of its input: no schedule, clock, I/O, network or fault for simulation to control",
 "N04": "pure function of its input: no schedule, clock, I/O, network or fault for simulation to control",
 "N05": "pure function of its input: no schedule, clock, I/O, network or fault for simulation to control",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code under a simulator, checked against an executable reference model"
NOTE = "Sampled, not exhaustive: holds on every execution explored by the seeded search; each run is exactly repeatable from its seed. Assumes:"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick", "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": c.get("level", "exploration"), "level_note": NOTE + " " + " ".join(registry.TARGET_INFO[c["target"]]["assumptions"] + c.get("assumptions", []))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet: planned with the same technique, see DESIGN.md")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
