"""Writes /verif/MANIFEST.json from registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {"P30": "a pure function of its input: encoding and decoding involve no schedule, time, I/O or second party for a simulated fault or interleaving to act on"}
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "One program, check.py, runs seeded simulations of the real code on a simulated cocotb GPI layer; see DESIGN.md. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({"property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, delays and faults (" +
                ", ".join(n for n, _ in c["quick"]) + " engine)",
            "level": "exploration",
            "level_note": c.get("note") or "sampled executions only: every run is one seeded schedule, workload and fault sequence, judged by an "
                "oracle written from the property; nothing is exhaustive"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
