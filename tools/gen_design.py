#!/usr/bin/env python3-vt
"""Rewrites the generated part of DESIGN.md (the per-property tables) from the harness modules, planted bugs and results."""
import importlib, sys, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out = []
for p in props:
    pid = p['id']; m = importlib.import_module('harnesses.' + pid.lower())
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('* code executed symbolically: ' + '; '.join(m.FUNCTIONS))
    out.append('* harnesses: ' + '; '.join('`%s`%s (%s)' % (h.__name__, ' [thorough only]' if getattr(h, 'thorough_only', False) else '', ' '.join((h.__doc__ or '').split())) for h in m.HARNESSES))
    out.append('* bounds: ' + m.BOUNDS + ('; thorough: ' + m.BOUNDS_THOROUGH if getattr(m, 'BOUNDS_THOROUGH', '') else ''))
    if getattr(m, 'ORACLE', ''): out.append('* oracle: ' + m.ORACLE)
    if getattr(m, 'OUTSIDE', ''): out.append('* outside: ' + m.OUTSIDE)
    if getattr(m, 'ASSUMPTIONS', None): out.append('* assumptions: ' + '; '.join(m.ASSUMPTIONS))
    ev = V + '/evidence/%s.json' % pid
    out.append('')
out.append('## Planted bugs and what reports them\n')
out.append('| planted bug | needs | reported by |\n|---|---|---|')
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        r = res.get(s)
        out.append('| %s | %s | %s |' % (s, m['needs'].replace('|', '/'), ', '.join(r) if r else ('**missed**' if r == [] else '(not run)')))
t = open(V + '/DESIGN.md').read()
A, B = '<!-- generated: tools/gen_design.py -->', '<!-- end of generated part -->'
i, j = t.index(A), t.index(B)
open(V + '/DESIGN.md', 'w').write(t[:i] + A + '\n\n' + '\n'.join(out) + '\n\n' + t[j:])
