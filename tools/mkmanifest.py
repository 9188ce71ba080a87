#!/usr/bin/env python3
"""writes MANIFEST.json from py/families.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'py'))
from families import PLAN, NOTE
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = ('TLA+ specification evaluated by TLC: behaviours generated from it (tlc -simulate / enumeration) are replayed '
        'on the real library and the recorded traces are judged by TLC against the specification')
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=[],
         notes='See DESIGN.md. All checks: bin/check.py ID quick|thorough; bin/check.py replay FILE re-runs a counterexample.')
for p in props:
    i = p['id']
    if i in PLAN:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 bin/check.py {i} quick',
                                thorough_cmd=f'python3 bin/check.py {i} thorough',
                                technique=TECH, level='model_checking', level_note=NOTE.get(i, NOTE['*'])))
    else:
        m['not_applicable'].append(dict(property=i, reason='specification and driver for this part are still being written'))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
