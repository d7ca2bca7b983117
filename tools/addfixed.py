#!/usr/bin/env python3
"""addfixed.py PROP COMMIT TEXT: record a repaired defect"""
import json, os, sys
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(fn))
k['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(k, open(fn, 'w'), indent=1)
