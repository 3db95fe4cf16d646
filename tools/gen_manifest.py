"""Writes MANIFEST.json: every property with a module in mc/props is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = {}
p = os.path.join(V, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
TECH = ('bounded-exhaustive stateless/explicit-state exploration of the real code '
        '(every configuration within the stated alphabets / every operation history up to the stated depth) '
        'in lock step with an independent reference model')
checks, na = [], []
for d in props:
    i = d['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check.sh check %s quick' % i,
                       'thorough_cmd': './check.sh check %s thorough' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTES.get(i, 'Exhaustive within the alphabets and depths listed in DESIGN.md; '
                                                  'values outside the alphabets are not covered.')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: every check observes the public API of the library imported from /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
