#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/catalog.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
import catalog
checks = []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p not in catalog.P:
        continue
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py {p} quick',
        'thorough_cmd': f'python3 check.py {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': catalog.TECHNIQUE,
        'level': 'model_checking',
        'level_note': 'Every value of the symbolic inputs within the bounds: ' + catalog.P[p]['bounds'] + '. ' + catalog.TRUST,
    })
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': [], 'notes': catalog.NOTES}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
