#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
COMMON = "Generated-input search: it shows the property on the cases counted in the evidence file, never its absence of exceptions. Trusted: the oracle in harness/props, rapid, the Go toolchain."
T = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    t = T.get(p['id'])
    if not t:
        na.append({"property": p['id'], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p['id'],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "technique": t['technique'],
        "level": "exploration",
        "level_note": t['note'] + " " + COMMON,
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use ckube's exported API and its programs. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
