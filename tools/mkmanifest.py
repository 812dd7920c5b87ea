#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and check/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'check'))
from props import PROPS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check/check.py ' + i,
        'thorough_cmd': 'python3 check/check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p.get('technique', 'contracts on the extracted source discharged by Verus'),
        'level': p.get('level', 'proof'),
        'level_note': NOTES[i],
    })
na = [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3 check/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface and the source text', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
