#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='./run_check.sh %s quick' % i,
                           thorough_cmd='./run_check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='runtime monitoring: ' + t, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
