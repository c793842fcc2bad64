#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, meta.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from checks import CHECKS
import meta
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        NA.setdefault(i, 'no check built yet')
        continue
    cfgs = sorted({c for h in CHECKS[i]['harness'] for c in h['cfgs']})
    checks.append({
        'property': i,
        'quick_cmd': 'python3 vf.py check ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 vf.py check ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': meta.technique(i),
        'level': 'exploration',
        'level_note': 'Generated-input search, not a proof: a violation needing an input the generators do not reach within the counts in the evidence is missed. '
                      'Build configurations %s (checks.py). Trusts: %s.' % (', '.join(cfgs), '; '.join(meta.assumptions(i)))})
m = {'version': 1, 'setup_cmd': 'python3 vf.py setup', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo. Every check compiles the harness in harness/ together with the sources in /repo and drives it with generated cases (vf.py). Replay a failure with python3 vf.py replay FILE.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', sorted(NA))
