#!/usr/bin/env python3
"""Writes MANIFEST.json from analysis/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
import registry  # noqa: E402

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    r = registry.PROPS.get(p['id'])
    if r:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py --property %s' % p['id'],
            'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p['id'],
            'technique': r['technique'], 'level': 'other',
            'level_note': r.get('note', registry.NOTE)})
    else:
        na.append({'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'cargo +nightly build --offline --manifest-path driver/Cargo.toml',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
