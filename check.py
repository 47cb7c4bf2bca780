#!/usr/bin/env python3-vt
"""check.py PROPERTY  - decide one property by symbolic execution of the current /repo source.

exit 0: held on everything explored (what the solver or the budget left open is printed as INCOMPLETE and
in the evidence); exit 1: VIOLATION line; exit 2: the check itself is broken (engine error, nothing asserted,
encoding and real code disagree, without a counterexample that the real code does not show)."""
import sys, os, json, time, re, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from symex import runner

VERIF = os.path.dirname(os.path.abspath(__file__))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    only = [a[7:] for a in sys.argv[2:] if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    mod = pid.lower()
    m = runner.load_harnesses(mod)
    opts = dict(seed=seed, tier=tier, ms=8000 if not thorough else 60000, path_s=30 if not thorough else 180,
                total_s=getattr(m, 'QUICK_S', 420) if not thorough else getattr(m, 'THOROUGH_S', 840),
                witness_all=False, wmod=1, chunk=25, only=only, cross=8 if not thorough else 2)
    opts.update(getattr(m, 'OPTS', {}))
    t0 = time.time()
    fns, res, left, inputs, stop = runner.explore_all(mod, opts)
    t_explore = time.time() - t0
    tot = {}; stats = {}; samples = []; problems = []; incomplete = []; jobs = []; meta = []
    per = {}
    for f in fns:
        p = per[f] = dict(paths=0, infeasible=0, checks=0, discharged=0, unsupported=0, budget=0, exceptions=0, unexplored=left[f])
        for r in res[f]:
            for k, v in r.get('stats', {}).items(): stats[k] = stats.get(k, 0) + v
            st = r['status']
            if st == 'infeasible': p['infeasible'] += 1; continue
            p['paths'] += 1; p['checks'] += r['nchecks']; p['discharged'] += r['discharged']
            if st == 'unsupported':
                p['unsupported'] += 1; d = p.setdefault('unsupported_because', {}); d[r['err'][:120]] = d.get(r['err'][:120], 0) + 1
            elif st == 'budget': p['budget'] += 1
            elif st == 'exception': p['exceptions'] += 1
            elif st == 'engine': problems.append('%s: engine error: %s' % (f, r['err']))
            cand = r['cands']
            for c in cand[:8]:
                jobs.append((f, c)); meta.append(('cand', f, r))
            if (r['violated'] or r['unknown']) and not cand:
                incomplete.append('%s: %s without usable inputs: %s' % (f, 'counterexample' if r['violated'] else 'solver gave no answer', (r['violated'] + r['unknown'])[:3]))
            if r['witness'] is not None:
                jobs.append((f, r['witness'])); meta.append(('wit', f, r))
        if p['unexplored'] and stop != 'violations': incomplete.append('%s: %d path prefixes left unexplored (%s)' % (f, p['unexplored'], stop))
        if p['unsupported']: incomplete.append('%s: %d paths sampled only, not decided: %s' % (f, p['unsupported'], list(p['unsupported_because'].items())[:3]))
        if p['budget']: incomplete.append('%s: %d paths over budget: %s' % (f, p['budget'], [r['err'] for r in res[f] if r['status'] == 'budget'][:2]))
        if p['paths'] == 0 or p['checks'] == 0:
            problems.append('%s: no assertion reached (vacuous)' % f)
    # keep the replay batch bounded, candidates first
    rank = {k: i for i, k in enumerate(sorted(range(len(jobs)), key=lambda k: hashlib.md5(('%d%r' % (seed, jobs[k])).encode()).hexdigest()))}
    nth = {}; place = {}
    for k in sorted(rank, key=rank.get):
        f = jobs[k][0]; nth[f] = nth.get(f, 0) + 1; place[k] = nth[f]      # harnesses take turns
    order = sorted(range(len(jobs)), key=lambda k: (meta[k][0] != 'cand', place[k] if meta[k][0] != 'cand' else rank[k]))
    lim = 400 if not thorough else 3000
    lim = getattr(m, 'REPLAYS', lim)
    ncand = sum(1 for x in meta if x[0] == 'cand')
    order = order[:max(lim, min(ncand, 600))]
    jobs = [jobs[k] for k in order]; meta = [meta[k] for k in order]
    t1 = time.time()
    out = runner.replay(mod, jobs, tier)
    t_replay = time.time() - t1
    viol = []; wit_ok = 0; wit_bad = []; unrepro = {}
    reproduced = set()
    hit = set()
    for (f, a), mt, o in zip(jobs, meta, out):
        if o.get('skipped'): continue
        bad = bool(o['fails'] or o['error'])
        if bad: viol.append((f, a, o)); reproduced.add(id(mt[2])); continue
        if mt[0] == 'cand':
            unrepro.setdefault(id(mt[2]), (f, mt[2], a)); continue
        if not o['assume']: wit_bad.append((f, a, 'assumption fails on replay')); continue
        if o['nchecks']: hit.add(f)
        # compare the observed values
        ok = True
        if mt[2].get('obs') is not None:
            so, co = mt[2]['obs'], o['obs']
            if [x[0] for x in so] != [x[0] for x in co]: ok = False; why = 'different observations %r / %r' % ([x[0] for x in so][:12], [x[0] for x in co][:12])
            else:
                for (l, x), (_, y) in zip(so, co):
                    if not close(x, y): ok = False; why = '%s: encoding %r, real %r' % (l, x, y); break
        if ok: wit_ok += 1
        else: wit_bad.append((f, a, why))
    known = json.load(open(os.path.join(VERIF, 'known_findings.json'))) if os.path.exists(os.path.join(VERIF, 'known_findings.json')) else {'findings': []}
    kf = [k for k in known['findings'] if k['property'] == pid]
    def match(f, o):
        labels = o['fails'] + (['error ' + o['error']] if o['error'] else [])
        for k in kf:
            if k['harness'] == f and all(re.search(k['label'], l) for l in labels): return k
        return None
    new = []; seen_k = {}
    for f, a, o in viol:
        k = match(f, o)
        if k is None: new.append((f, a, o))
        else: seen_k[k['id']] = k
    for k in kf:
        if k['id'] in seen_k: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for i, (f, r, a) in unrepro.items():
        if i in reproduced: continue
        if r['status'] in ('unsupported', 'budget'): continue
        incomplete.append('%s: counterexample does not reproduce on the real code: %s at %s' % (f, (r['violated'] + r['unknown'])[:3], json.dumps(a)[:400]))
    nwit = sum(1 for x in meta if x[0] == 'wit')
    for f, a, why in wit_bad: (problems if len(wit_bad) >= 3 and len(wit_bad) > 0.02*nwit else incomplete).append('%s: encoding disagrees with the real code at %s: %s' % (f, json.dumps(a)[:300], why))
    for f in fns:
        if f not in hit and per[f]['checks'] and not any(v[0] == f for v in viol):
            problems.append('%s: no witness reached the assertions on the real code' % f)
    if any('does not reproduce' in x for x in incomplete):
        # the code uses something the encoding does not have: not decided, but no alarm either (all replays on the real code passed)
        lost = [x for x in problems if 'engine error' not in x]
        problems = [x for x in problems if 'engine error' in x]; incomplete += lost
    nchecks = sum(p['checks'] for p in per.values()); ndis = sum(p['discharged'] for p in per.values())
    npaths = sum(p['paths'] for p in per.values())
    reduced = sum(p['unsupported'] for p in per.values())
    for f in fns:
        w = [j for j, mt in zip(jobs, meta) if j[0] == f and mt[0] == 'wit']
        if w: samples.append({'harness': f, 'path_witness_replayed_on_real_code': w[0][1]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the current pyodrx source (%s): every feasible path of each harness within the stated bounds was executed with symbolic inputs; on each path the solver (z3, cvc5 as second opinion) decided path-condition AND NOT assertions. unsat = holds for all inputs of the path. Each path has a witness replayed on the real code; encoding and real code were compared on the observed values.' % runner.ROOT,
            'functions_encoded': sorted(getattr(m, 'FUNCTIONS', [])),
            'bounds': getattr(m, 'BOUNDS', ''), 'bounds_thorough': getattr(m, 'BOUNDS_THOROUGH', ''),
            'outside_of_the_claim': getattr(m, 'OUTSIDE', ''),
            'harnesses': {f: dict(per[f], doc=(getattr(runner_fn(m, f), '__doc__', '') or '').strip()) for f in fns},
            'paths': npaths, 'assertions': nchecks, 'assertions_discharged': ndis,
            'paths_with_reduced_coverage_sampled_only': reduced,
            'solver': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in stats.items()},
            'replays_on_real_code': len(jobs), 'witnesses_agreeing_with_encoding': wit_ok, 'counterexamples_reproduced': len(viol),
            'explore_s': round(t_explore, 2), 'replay_s': round(t_replay, 2), 'samples': samples[:20],
            'known_findings_seen': sorted(seen_k),
            'incomplete': incomplete[:40], 'problems': problems[:20]},
        'assumptions': getattr(m, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    rp = os.path.join(evdir, 'replays', pid + '.json')
    if new:
        os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
        best = {}
        for f, a, o in new: best.setdefault((f, tuple(o['fails'][:1]), (o['error'] or '')[:40]), (f, a))
        json.dump({'mod': mod, 'root': runner.ROOT, 'tier': tier, 'jobs': list(best.values())[:12]}, open(os.path.join(VERIF, rp), 'w'), indent=1)
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
    print('%s %s: %d harnesses, %d paths, %d/%d assertions discharged, %d queries (%.1fs solver), %d replays, %.1fs' % (
        pid, tier, len(fns), npaths, ndis, nchecks, stats.get('queries', 0), stats.get('solver_s', 0.0), len(jobs), time.time() - t0))
    if new:
        shown = set()
        for f, a, o in new:
            key = (f, tuple(o['fails'][:1]), o['error'])
            if key in shown: continue
            shown.add(key)
            if len(shown) > 6: break
            print('  %s: %s %s' % (f, o['fails'][:3], o['error'] or ''))
            print('     inputs %s' % json.dumps(a)[:500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if stop == 'violations': print('  INCOMPLETE: exploration ended at suspected violations, none of which the real code shows')
    for p in incomplete[:15]: print('  INCOMPLETE: ' + p)
    if problems:
        for p in problems[:15]: print('  NO ANSWER: ' + p)
        sys.exit(2)
    sys.exit(0)

def runner_fn(m, name): return [f for f in m.HARNESSES if f.__name__ == name][0]

def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool): return x == y
    def n(v):
        if isinstance(v, (int, float)): return float(v)
        try: return float(v)
        except (TypeError, ValueError): return None
    a, b = n(x), n(y)
    if a is None or b is None: return x is None or x == y
    return abs(a - b) <= 1e-5*(1 + abs(a) + abs(b))

COMMON_ASSUMPTIONS = [
    'numbers are exact reals in the encoding; floating-point rounding is outside the claim (replays use the real floats, tolerance 1e-6)',
    'numpy/math elementary functions, scipy fresnel and quad behave as their mathematical definitions (quad: exact integral); every path witness is replayed on the real libraries',
    'trigonometric values are constrained by sin^2+cos^2=1 and the addition theorems only (over-approximation: unsat is sound)',
    'print has no effect; the xml.etree element API is executed as is',
]

if __name__ == '__main__': main()
