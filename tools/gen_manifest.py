#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "bin"))
from registry import ENGINE, TECHNIQUE, NOTE, NOT_CLAIMED
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ENGINE:
        e = ENGINE[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECHNIQUE.get(i) or TECHNIQUE[e],
                       "level": "model_checking", "level_note": NOTE.get(i) or NOTE[e]})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED[i]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: every check drives public interfaces. The crates that cannot be built in this sandbox (their git dependency 'cfg' is absent) are built from their real sources in /repo through wrapper manifests in ws/ with stand-ins for the absent dependencies in shims/. See DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
