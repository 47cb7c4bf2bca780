#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harnesses', i.lower() + '.py')):
        chars = i == 'C25'
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
          'evidence_file': 'evidence/%s.json' % i,
          'technique': 'symbolic execution of the current source with z3 (cvc5 cross-check), counterexamples replayed on the real code',
          'level': 'other',
          'level_note': 'Bounded symbolic verification: every feasible path of the harness is executed with symbolic numbers and each assertion is decided by the solver for all values within the stated bounds (see harnesses/%s.py BOUNDS, OUTSIDE). Trusted: the executor in symex/, z3, exact reals instead of floats, the mathematical definitions of numpy/scipy functions; every path has a witness replayed on the real interpreter and compared with the encoding.' % i.lower()})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks load the unmodified source of /repo/pyodrx', 'source_commits': []},
  'checks': checks, 'not_applicable': na, 'notes': 'All checks: see DESIGN.md.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
