#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = 'contracts on the real functions, obligations from SSA of the working tree discharged by z3'
CHECKS = json.load(open(os.path.join(V, 'tools', 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p)
    if c is None or 'reason' in c:
        na.append({'property': p, 'reason': (c or {}).get('reason', 'no check built yet')})
        continue
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': c.get('technique', PROOF), 'level': c['level'],
                   'level_note': c['note']})
    if 'theorems' in c:
        checks[-1]['theorems'] = c['theorems']
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: harnesses are injected with go build -overlay', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check exports SSA from /repo as it is and re-proves all obligations; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
import sys
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(checks), 'checks', len(na), 'n/a')
except ImportError:
    pass
