#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries in doc/entries.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from entries import PROPERTIES, CLAIMED, NOT_APPLICABLE
top = os.path.dirname(here)
seen = set()
with open(os.path.join(top, 'properties.jsonl'), 'w') as fh:
    for p in PROPERTIES:
        assert p['id'] not in seen and len(p['title']) <= 80, p['id']
        seen.add(p['id'])
        for f in p['anchors']['files']:
            assert os.path.exists('/repo/' + f), f
        fh.write(json.dumps(p) + '\n')
assert set(CLAIMED) | set(NOT_APPLICABLE) == seen, set(CLAIMED) ^ (seen - set(NOT_APPLICABLE))
m = {'version': 1, 'setup_cmd': 'python3 lib/export.py', 'checks': [], 'not_applicable': []}
for k, (technique, note) in CLAIMED.items():
    m['checks'].append({'property': k, 'quick_cmd': './check %s quick' % k, 'thorough_cmd': './check %s thorough' % k,
                        'technique': technique, 'level': 'other', 'level_note': note})
for k, why in NOT_APPLICABLE.items():
    m['not_applicable'].append({'property': k, 'reason': why})
with open(os.path.join(top, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
