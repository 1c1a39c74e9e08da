"""Writes MANIFEST.json from properties.jsonl and the monitors."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    id = json.loads(line)["id"]
    m = importlib.import_module(f"vp.props.{id.lower()}").Monitor
    checks.append({
        "property": id,
        "quick_cmd": f"python3 check.py --property {id} --tier quick",
        "thorough_cmd": f"python3 check.py --property {id} --tier thorough",
        "technique": "runtime monitoring: " + m.technique,
        "level": m.level,
        "level_note": ("Held on every execution observed: " + m.rule + ". Trusts the monitor's own oracle (vp/), the Python runtime and the "
                       "installed third-party libraries; says nothing about inputs the workload generator cannot produce."),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo are needed: the monitors watch the public API, audit events, executed lines, log records and stand-ins "
                    "for the HTTP and model libraries. Known findings and repaired defects: known_findings.jsonl."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
