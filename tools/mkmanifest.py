#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness decides."""
import json, os, re, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
src = ''.join(open(os.path.join(root, 'harness', f)).read() for f in sorted(os.listdir(os.path.join(root, 'harness'))) if f.endswith('.go'))
have = set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"', src))
# property -> (technique, level note)
T = json.load(open(os.path.join(root, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({"property": i, "reason": "no check yet"})
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses the exported API only. Replay a saved case with ./check.sh ID quick -replay FILE."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write("\n")
print(len(checks), 'checks', [n['property'] for n in na])
