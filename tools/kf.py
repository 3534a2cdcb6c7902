#!/usr/bin/env python3
"""tools/kf.py fixed PROP COMMIT 'what failed'   -- record a repaired defect in known_findings.json"""
import json, sys, os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
_, kind, prop, commit, what = sys.argv
assert kind == 'fixed'
d.append(dict(property=prop, status='fixed', commit=commit, what=f'fixed: property={prop} {commit} {what}'))
with open(P, 'w') as f:
    f.write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in d) + '\n]\n')
