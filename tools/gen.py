#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/gen.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, CHECKS, NOT_CLAIMED, HOOKS, NOTES
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
if HOOKS:
    m['hooks'] = HOOKS
for c in CHECKS:
    assert c['property'] in ids, c
    c = dict(c)
    c.setdefault('quick_cmd', 'python3 checks/run.py %s quick' % c['property'])
    c.setdefault('thorough_cmd', 'python3 checks/run.py %s thorough' % c['property'])
    c.setdefault('level', 'model_checking')
    m['checks'].append(c)
claimed = {c['property'] for c in CHECKS}
for i in ids:
    if i not in claimed:
        m['not_applicable'].append({'property': i, 'reason': NOT_CLAIMED.get(i, 'check under construction; not claimed yet')})
m['notes'] = NOTES
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(CHECKS), 'checks')
