#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables."""
import json, os
from checks.table import CHECKS
from checks.props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
TECH = {'seq': 'model checking: exhaustive bounded exploration of the real code against a reference model',
        'sched': 'model checking: stateless exploration of all schedules, within the preemption bound of each suite, on the real code',
        'fork': 'model checking: exhaustive bounded exploration of the real code, one process per execution'}
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        if p['id'] in CHECKS:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    c = CHECKS.get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': c.get('technique', TECH['sched' if c.get('engine') == 'sched' else 'seq']), 'level': 'model_checking', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
assert set(CHECKS) <= {p['id'] for p in PROPS}
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
