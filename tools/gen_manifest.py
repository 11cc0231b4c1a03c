#!/usr/bin/env python3
"""Writes MANIFEST.json from sym/suites.py and properties.jsonl (run with python3-vt from /verif)."""
import json, sys
sys.path.insert(0, '.')
from sym.suites import SUITES
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {}
try: NA = json.load(open('tools/not_applicable.json'))
except OSError: pass
checks = []; na = []
for p in props:
    i = p['id']
    if i in SUITES:
        s = SUITES[i]
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt -m sym.check %s quick' % i, 'thorough_cmd': 'python3-vt -m sym.check %s thorough' % i,
            'technique': s.get('technique', 'symbolic execution of the compiled LLVM IR with z3 as decision procedure, counterexamples replayed natively'),
            'level': s['level'],
            'level_note': 'Bounded: %s. Outside: %s' % (s['bounds'], s.get('outside') or 'larger sizes than the bounds; see DESIGN.md.')})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m sym.setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the harness crate uses the existing internal-tests and capi features.'}, open('MANIFEST.json', 'w'), indent=1)
