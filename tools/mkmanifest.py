#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import SPECS
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in SPECS:
        m, n = SPECS[i]
        s = getattr(importlib.import_module('checks.' + m), n)
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick',
                       'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': s.get('technique', 'static analysis: abstract interpretation of the source (provenance/effect '
                                                       'domain with path partitioning)'),
                       'level': 'other', 'level_note': s['rule'][:600]})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check under construction')} for p in props if p['id'] not in SPECS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
