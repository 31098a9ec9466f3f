#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
REASONS = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': REASONS.get(i, 'the check for this property is not finished yet')})
        continue
    m = __import__(i.lower())
    checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring: real marcel sessions under generated '
                   'workloads, observed output judged by an independent reference oracle'),
                   'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', 'Holds for every execution observed; workloads are random and seeded, not exhaustive. '
                   'Trusts: ' + '; '.join(m.ASSUMPTIONS))})
out = {'version': 1, 'setup_cmd': 'python3 run.py SETUP', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks: everything is observed from outside (stdout, stderr, file system, process table, stand-in executables) or by calling the public '
                'entry points of the code in /repo, which is Python and is imported from the working tree as it is.'}
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(out, json.load(open('/root/.vp/MANIFEST.schema.json')))
for line in props:
    pass
print(len(checks), 'claimed', len(na), 'not')
