#!/usr/bin/env python3
"""Writes MANIFEST.json; claimed properties are those `check.sh list` knows (tools/claimed.txt)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {}
for l in open(root + '/tools/claimed.txt'):
    l = l.strip()
    if l and not l.startswith('#'):
        k, tech, note = [x.strip() for x in l.split('|')]
        claimed[k] = (tech, note)
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. Every check builds harness/core or harness/bevy against /repo's working tree."}
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append({"property": i, "quick_cmd": f"bash check.sh {i} --tier quick",
            "thorough_cmd": f"bash check.sh {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: " + claimed[i][0], "level": "exploration", "level_note": claimed[i][1]})
    else:
        m['not_applicable'].append({"property": i, "reason": "check under construction"})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
