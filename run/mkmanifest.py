#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS, level_of, LEVEL_NOTE, TECHNIQUE, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'python3 run/setup.py',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        m['checks'].append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 run/check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run/check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECHNIQUE(i), 'level': level_of(i),
            'level_note': LEVEL_NOTE(i)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE[i]})
m['notes'] = ('No hooks in /repo: the library is header-only and generic, so allocator, '
              'element types, user callables and iterators are the seams. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
