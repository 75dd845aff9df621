#!/usr/bin/env python3
"""Records what the last run of each check covered in tools/costs.json (from evidence/), for DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/tools/costs.json'
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f))
    k = e['coverage']
    if k['exhaustive'] and not e['violations']:
        c.setdefault(e['property'], {})[e['tier']] = dict(cases=k['cases'], states=k['states'], transitions=k['transitions'], executions=k['traces_validated_against_impl'], wall=e['wall_s'])
json.dump(c, open(p, 'w'), indent=0, sort_keys=True)
