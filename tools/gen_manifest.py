#!/usr/bin/env python3
"""regenerate MANIFEST.json from checks/*.py"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    fn = os.path.join(HERE, 'checks', p.lower() + '.py')
    if os.path.exists(fn):
        m = importlib.import_module('checks.' + p.lower())
        checks.append({
            'property': p,
            'quick_cmd': 'bash run.sh %s quick' % p,
            'thorough_cmd': 'bash run.sh %s thorough' % p,
            'technique': 'symbolic execution of the real code (path exploration decided by z3), counterexamples replayed',
            'level': m.LEVEL,
            'level_note': 'exhaustive within: %s. Outside: %s' % (m.BOUNDS, m.OUTSIDE),
        })
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
