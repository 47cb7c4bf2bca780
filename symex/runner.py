"""Explores harnesses in parallel, discharges their checks, replays on the real code."""
import os, sys, time, json, random, signal, traceback, importlib, subprocess, multiprocessing as mp, zlib, io, contextlib
from fractions import Fraction
from . import core, values, shims, explore, symenv
from .core import f_and, f_not, RestartPath, PathInfeasible, BudgetExceeded, Unsupported, EngineSignal
from .explore import Harness, Ctx, Query, Stats, solve, cvc5_check, NPOOL
from .env import Stop
from .values import SymReal, SymStr, T0, decode

ROOT = os.environ.get('PYODRX_ROOT', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = os.environ.get('PYODRX_PYTHON', '/opt/venv/bin/python')
DISCHARGE_MS = 8000

LOADER = None
def loader(opts={}):
    global LOADER
    if LOADER is None: LOADER = shims.Loader(ROOT, opts.get('tiny_zero', False), opts.get('symchars', False))
    return LOADER

def load_harnesses(modname):
    if VERIF not in sys.path: sys.path.insert(0, VERIF)
    return importlib.import_module('harnesses.' + modname)

# ------------------------------------------------------------------ one path
def detok(v, num):
    """observation -> plain value under a numeric assignment"""
    if isinstance(v, SymReal): return num.poly(v.p)
    if isinstance(v, str) and T0 in v:
        out = ''
        for part in decode(v):
            if isinstance(part, str): out += part
            else:
                e = core.TABLE.tokens[part]
                if e[0] != 'num' or e[2]: return None
                x = num.poly(e[1].p)
                out += str(int(round(x))) if e[1].isint else repr(x)
        return out
    if isinstance(v, Fraction): return float(v)
    if isinstance(v, (int, float, str, type(None))): return v
    return str(v)

def assignment(ctx, num):
    return {'inputs': {n: (int(round(num.v[n])) if ctx.h.inputs[n]['kind'] == 'int' else num.v[n]) for n in ctx.h.inputs if n in ctx.used and n in num.v},
            'choices': dict(ctx.choices)}

LATE = 'no end within the time of a path'
def _alarm(*a): raise BudgetExceeded(LATE)

def run_path(h, prefix, opts, want_witness):
    stats = Stats()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(opts['path_s'] + 15)
    try: return run_path_(h, prefix, opts, want_witness, stats)
    except BudgetExceeded as e:
        return {'dec': prefix, 'alts': [], 'status': 'budget', 'err': str(e), 'choices': {}, 'cands': [], 'witness': None, 'nchecks': 0, 'discharged': 0, 'unknown': [], 'violated': [], 'stats': dict(stats)}
    finally: signal.alarm(0)

def run_path_(h, prefix, opts, want_witness, stats):
    core.set_table(h.table)
    ctx = Ctx(h, prefix, stats)
    ctx.deadline = time.time() + opts['path_s']
    core.set_ctx(ctx)
    status, err = 'ok', None
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            P = loader(opts).load()
            env = symenv.SymEnv(ctx, P, h.tier)
            env.fresh = loader(opts).load
            h.fn(env)
    except RestartPath:
        return {'status': 'restart', 'units': dict(h.table.units)}
    except Stop: pass
    except PathInfeasible: status = 'infeasible'
    except BudgetExceeded as e: status, err = 'budget', str(e)
    except Unsupported as e: status, err = 'unsupported', str(e)
    except RecursionError as e: status, err = 'exception', 'RecursionError'
    except Exception as e:
        status, err = 'exception', '%s: %s' % (type(e).__name__, e)
        tb = traceback.format_exc()
        if os.environ.get('SYMEX_DEBUG'): sys.stderr.write(tb)
    res = {'dec': ctx.dec, 'alts': ctx.alts, 'status': status, 'err': err, 'choices': dict(ctx.choices), 'cands': [], 'witness': None,
           'nchecks': 0, 'discharged': 0, 'unknown': [], 'violated': []}
    if status == 'exception': res['trace'] = tb[-1500:] if err != 'RecursionError' else err
    if status in ('infeasible',):
        res['stats'] = dict(stats); return res
    signal.alarm(150)
    try: finish(ctx, res, opts, want_witness)
    except RestartPath: return {'status': 'restart', 'units': dict(h.table.units)}
    except (BudgetExceeded, Unsupported, PathInfeasible) as e:
        if res['status'] == 'ok': res['status'] = 'budget'; res['err'] = 'while discharging: %s' % e
    res['stats'] = dict(stats)
    return res

def candidates(ctx, goal, n=4):
    """inputs that satisfy the path and (if given) falsify the goal, by evaluation"""
    out = []
    for i in ctx.alive:
        num = ctx.num(i)
        try:
            if not all(num.form(f) is not False for f in ctx.path): continue
            if goal is not None:
                v = num.form(goal)
                if v is True: continue
        except (ArithmeticError, KeyError, ValueError, OverflowError): continue
        out.append(assignment(ctx, num))
        if len(out) >= n: break
    return out

def sampled(ctx, checks):
    """labels of the checks that one of the first samples on the path clearly falsifies"""
    bad = set(); n = 0
    for i in ctx.alive:
        num = ctx.num(i)
        try:
            if not all(num.form(f) is not False for f in ctx.path): continue
        except (ArithmeticError, KeyError, ValueError, OverflowError): continue
        for label, f in checks:
            try:
                if label not in bad and num.form(f) is False: bad.add(label)
            except (ArithmeticError, KeyError, ValueError, OverflowError): pass
        n += 1
        if n == 2 or bad: break
    return bad

def finish(ctx, res, opts, want_witness):
    stats = ctx.stats
    ctx.deadline = time.time() + 120
    checks = ctx.checks
    res['nchecks'] = len(checks)
    def candidate_search(fs, q, r, s):
        c = candidates(ctx, f_and(fs))
        if not c and r == 'sat':
            ctx.path.append(f_not(f_and(fs)))
            i = ctx.add_model(s, q.need)
            ctx.path.pop()
            if i is not None: c = [assignment(ctx, ctx.num(i))]
            if not c:
                # unrepaired model: keep as a last resort
                try: c = [assignment(ctx, core.Num(ctx.values_from(s.model(), q.need)))]
                except Exception: pass
        return c
    def decide(fs, ms):
        g = f_not(f_and(fs))
        # a violating sample makes the query pointless
        if f_and(fs) is False:
            q = Query(ctx); zs = q.build([True], full=True)
            r, s = solve(zs, ms, stats)
            return r, q, s
        q = Query(ctx); zs = q.build([g])
        r, s = solve(zs, ms, stats)
        if r == 'unknown':
            r2 = cvc5_check(zs, ms, stats)
            if r2 == 'unsat': return 'unsat', q, None
        elif r == 'unsat' and opts.get('cross') and stats.get('cross', 0) < 1 and zlib.crc32(repr(ctx.dec).encode()) % opts['cross'] == 0:
            stats.add('cross')
            r2 = cvc5_check(zs, min(ms, 3000), stats)
            stats.add('cross_agree' if r2 == 'unsat' else ('cross_disagree' if r2 == 'sat' else 'cross_unknown'))
        if r == 'sat' and len(q.need) and len(zs) < 10**9:
            full = Query(ctx); zf = full.build([g], full=True)
            if len(zf) != len(zs):
                r2, s2 = solve(zf, ms, stats)
                if r2 != 'unknown': return r2, full, s2
        return r, q, s
    if res['status'] == 'exception':
        c = candidates(ctx, None)
        q = Query(ctx); zs = q.build([True], full=True)
        r, s = solve(zs, opts['ms'], stats)
        if r == 'unsat': res['status'] = 'infeasible'; return
        if not c and r == 'sat':
            i = ctx.add_model(s, q.need)
            if i is not None: c = [assignment(ctx, ctx.num(i))]
            else:
                try: c = [assignment(ctx, core.Num(ctx.values_from(s.model(), q.need)))]
                except Exception: pass
        if not c and r == 'unknown' and ctx.uncertain:
            if cvc5_check(zs, opts['ms'], stats) == 'unsat': res['status'] = 'infeasible'; return
        res['cands'] = c; res['violated'] = ['unexpected ' + (res['err'] or '')]
        return
    if res['status'] in ('unsupported', 'budget'):
        res['cands'] = candidates(ctx, None, 6); return
    if checks:
        allf = [f for _, f in checks]
        bad = sampled(ctx, checks)
        r = 'sat'
        if not bad: r, q, s = decide(allf, opts['ms'])
        if r == 'unsat': res['discharged'] = len(checks)
        else:
            # what a sample falsifies needs little of the solver
            for label, f in [c for c in checks if c[0] in bad] + [c for c in checks if c[0] not in bad]:
                r, q, s = decide([f], 1500 if label in bad else opts['ms'])
                if r == 'unsat': res['discharged'] += 1; continue
                c = candidate_search([f], q, r, s)
                res['cands'] += c
                (res['violated'] if r == 'sat' else res['unknown']).append(label)
                if len(res['cands']) > 24: break
            if ctx.uncertain and (res['violated'] or res['unknown']):
                q = Query(ctx); zs = q.build([True], full=True)
                if solve(zs, 2*opts['ms'], stats)[0] == 'unsat' or cvc5_check(zs, opts['ms'], stats) == 'unsat':
                    res['status'] = 'infeasible'; res['violated'] = []; res['unknown'] = []; res['cands'] = []; return
    if want_witness:
        w = candidates(ctx, None, 1)
        if not w and not ctx.used: w = [{'inputs': {}, 'choices': dict(ctx.choices)}]
        if not w:
            q = Query(ctx); zs = q.build([True], full=True)
            r, s = solve(zs, opts['ms'], stats)
            if r == 'unsat': res['status'] = 'infeasible'; res['discharged'] = 0; res['nchecks'] = 0; return
            if r == 'sat':
                i = ctx.add_model(s, q.need)
                if i is not None:
                    ctx.alive.append(i); w = [assignment(ctx, ctx.num(i))]
        if w:
            res['witness'] = w[0]
            try:
                num = core.Num(dict(w[0]['inputs']))
                res['obs'] = [(l, detok(v, num)) for l, v in ctx.obs]
            except (ArithmeticError, KeyError, ValueError, OverflowError, Unsupported): res['obs'] = None

# ------------------------------------------------------------------ worker
_H = {}
def worker(task):
    """explore the subtree of each prefix, up to a budget of paths; returns results and leftover prefixes"""
    mod, fname, prefixes, opts, units, budget, skip, number = task
    if explore.BEAT is not None: explore.BEAT[4] = number
    key = (mod, fname)
    h = _H.get(key)
    if h is None or any(h.table.units.get(k) != v for k, v in units.items()):
        m = load_harnesses(mod)
        fn = [f for f in m.HARNESSES if f.__name__ == fname][0]
        h = _H[key] = Harness(fn, opts['seed'], opts['tier'])
        h.table.units = dict(units)
    stack = list(prefixes); out = []; t0 = time.time()
    n = 0
    while stack:
        if n >= budget[0] or time.time() - t0 > budget[1]: break
        pre = stack.pop()
        tp = time.time()
        if os.environ.get("SYMEX_SLOW"): import faulthandler; faulthandler.dump_traceback_later(12, file=open("/tmp/slow.%d" % os.getpid(), "a"))
        path = zlib.crc32(repr(pre).encode()); explore.beat(path, skip.get(path, ()))
        want = opts['witness_all'] or zlib.crc32(repr((fname, pre)).encode()) % opts['wmod'] == 0
        try: r = run_path(h, pre, opts, want)
        except Exception as e:
            r = {'status': 'engine', 'err': traceback.format_exc()[-1500:], 'alts': [], 'stats': {}, 'cands': [], 'violated': [], 'unknown': [], 'nchecks': 0, 'discharged': 0, 'witness': None}
        if r['status'] == 'restart':
            return {'mod': mod, 'fname': fname, 'restart': r['units']}
        stack += r.pop('alts')
        if os.environ.get('SYMEX_SLOW') and time.time() - tp > 2: sys.stderr.write('SLOW %.1f %s %s %s\n' % (time.time() - tp, r['status'], r.get('choices'), r['stats'].get('solver_s')))
        out.append(r); n += 1
        if len(h.table.atoms) > 60000:
            h.reset_table()
    return {'mod': mod, 'fname': fname, 'results': out, 'left': stack, 'inputs': dict(h.inputs)}

def start_beat(beats, lock):
    with lock:
        for b in beats:
            if not b[0]: b[0] = os.getpid(); explore.BEAT = b; return

def end_hung(beats, ended, pend, frontier, epoch):
    """end workers whose query is far over its time limit, and redo their task without that query"""
    for b in beats:
        if not (b[0] and 0 < b[3] < time.time()): continue
        pid, path, nth, number = int(b[0]), int(b[1]), int(b[2]), int(b[4])
        task = [p for p in pend if p[3] == number]
        os.kill(pid, signal.SIGKILL)
        b[3] = b[0] = 0
        if not task: continue
        p = task[0]; pend.remove(p)
        if p[1] != epoch[p[0]]: continue
        s = ended.setdefault(p[0], {}).setdefault(path, set())
        s.add(nth)
        if len(s) > 3: s.add('all')
        frontier.append((p[0], p[2]))

def explore_all(mod, opts, log=lambda *a: None):
    m = load_harnesses(mod)
    fns = [f.__name__ for f in m.HARNESSES if opts['tier'] == 'thorough' or not getattr(f, 'thorough_only', False)]
    if opts.get('only'): fns = [f for f in fns if f in opts['only']]
    res = {f: [] for f in fns}; units = {f: {} for f in fns}; inputs = {}
    epoch = {f: 0 for f in fns}
    frontier = [(f, [[]]) for f in fns]
    t_end = time.time() + opts['total_s']
    ctxm = mp.get_context('fork')
    nproc = opts.get('nproc') or min(8, os.cpu_count() or 1)
    left = {f: 0 for f in fns}
    loader(opts)
    stop_early = False
    beats = [ctxm.Array('d', 5, lock=False) for _ in range(nproc)]; ended = {}; tasks = 1
    with ctxm.Pool(nproc, start_beat, (beats, ctxm.Lock())) as pool:
        pend = []
        while frontier or pend:
            while frontier and len(pend) < nproc*2:
                f, pre = frontier.pop()
                b = (opts['chunk'], 4.0 if len(frontier) + len(pend) > nproc else 1.0)
                pend.append((f, epoch[f], pre, tasks, pool.apply_async(worker, ((mod, f, pre, opts, units[f], b, ended.get(f, {}), tasks),))))
                tasks += 1
            done = [p for p in pend if p[4].ready()]
            if not done:
                end_hung(beats, ended, pend, frontier, epoch)
                time.sleep(0.01)
                if time.time() > t_end:
                    stop_early = True; break
                continue
            for p in done:
                pend.remove(p)
                f, ep, pre, _, ar = p
                try: r = ar.get()
                except Exception as e:
                    r = {'results': [{'status': 'engine', 'err': 'worker: %r' % e, 'stats': {}, 'cands': [], 'violated': [], 'unknown': [], 'nchecks': 0, 'discharged': 0, 'witness': None}], 'left': [], 'inputs': {}}
                if ep != epoch[f]: continue
                if 'restart' in r:
                    epoch[f] += 1
                    for k, v in r['restart'].items():
                        o = units[f].get(k, 1)
                        units[f][k] = o*v//__import__('math').gcd(o, v)
                    if epoch[f] > 40 or any(v > (96 if u != core.PIN else 400) for u, v in units[f].items()):
                        res[f] = [{'status': 'engine', 'err': 'angle units diverge %r' % units[f], 'stats': {}, 'cands': [], 'violated': [], 'unknown': [], 'nchecks': 0, 'discharged': 0, 'witness': None}]
                        frontier = [x for x in frontier if x[0] != f]; epoch[f] += 1
                        continue
                    res[f] = []
                    frontier = [x for x in frontier if x[0] != f] + [(f, [[]])]
                    continue
                res[f] += r['results']; inputs.setdefault(f, {}).update(r['inputs'])
                l = r['left']
                # hand out leftovers in small groups
                k = max(1, len(l)//(2*nproc))
                for i in range(0, len(l), k): frontier.append((f, l[i:i+k]))
            if time.time() > t_end: stop_early = True; break
            nv = sum(1 for f in fns for x in res[f] if x['cands'] and x['status'] not in ('unsupported', 'budget'))
            if nv > opts.get('max_viol', 60): stop_early = 'violations'; break
            if sum(1 for f in fns for x in res[f] if x.get('err') == LATE) > 8: stop_early = 'paths without end'; break
        for f, pre in frontier: left[f] += len(pre)
        for p in pend: left[p[0]] += len(p[2])
        pool.terminate()
    return fns, res, left, inputs, stop_early

# ------------------------------------------------------------------ replay
def replay(mod, jobs, tier, timeout=420):
    """jobs: [(fname, assignment)] -> results from the real code in the project's environment"""
    if not jobs: return []
    inp = json.dumps({'mod': mod, 'root': ROOT, 'tier': tier, 'jobs': jobs})
    p = subprocess.run([REALPY, '-B', os.path.join(VERIF, 'symex', 'replay.py'), '--batch'], input=inp, capture_output=True, text=True, timeout=timeout, cwd='/tmp')
    i = p.stdout.rfind('\n@@RESULT ')
    if i < 0: raise RuntimeError('replay failed: %s %s' % (p.stdout[-500:], p.stderr[-2000:]))
    return json.loads(p.stdout[i+10:])
