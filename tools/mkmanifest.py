"""Writes /verif/MANIFEST.json from the list of implemented checks and properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "manifest_notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "sim", "props", pid.lower() + ".py")):
        n = NOTES["checks"].get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python sim/run.py check {pid} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python sim/run.py check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": n.get("technique", "deterministic simulation: seeded search over histories and faults, reference-model oracle"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "Seeded sampling of simulated runs of the real library; no enumeration, so absence of a violation is evidence, not proof."),
        })
    else:
        na.append({"property": pid, "reason": NOTES["na"].get(pid, "check under construction")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore tools/setup_check.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every source of nondeterminism already has a seam (keys, drift/diffusion callables, Brownian "
              "generator, ODE integrator, increments, tqdm stream and clock)."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
