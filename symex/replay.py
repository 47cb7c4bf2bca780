"""Runs harnesses on the real pyodrx with concrete inputs (project interpreter, no solver).

    python replay.py --batch < jobs.json      used by the checks
    python replay.py FILE.json                re-runs a reported violation
"""
import sys, os, json, io, contextlib, importlib, copy, signal, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def fresh(root):
    for k in [k for k in sys.modules if k == 'pyodrx' or k.startswith('pyodrx.')]: del sys.modules[k]
    return importlib.import_module('pyodrx')

class Late(BaseException): pass
def late(*a): raise Late()

def main():
    if sys.argv[1] == '--batch': spec = json.load(sys.stdin)
    else:
        spec = json.load(open(sys.argv[1]))
    root = os.environ.get('PYODRX_ROOT', spec.get('root', '/repo'))
    sys.path.insert(0, root)
    # env.py and the harnesses are imported without the solver side of the package
    import types
    pkg = types.ModuleType('symex'); pkg.__path__ = [os.path.join(HERE, 'symex')]
    sys.modules['symex'] = pkg
    sys.path.insert(0, HERE)
    from symex import env
    mod = importlib.import_module('harnesses.' + spec['mod'])
    by = {f.__name__: f for f in mod.HARNESSES}
    out = []; hangs = 0; t0 = time.time()
    signal.signal(signal.SIGALRM, late)
    for fname, a in spec['jobs']:
        if hangs >= 2 or sys.argv[1] == '--batch' and time.time() - t0 > 240:
            out.append({'error': None, 'assume': False, 'fails': [], 'obs': [], 'nchecks': 0, 'skipped': True}); continue
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            P = fresh(root)
            signal.alarm(60)
            try: r = env.run_concrete(by[fname], P, a['inputs'], a['choices'], spec.get('tier', 'quick'))
            except Late:
                hangs += 1
                r = {'error': 'no end within 60 s', 'assume': True, 'fails': [], 'obs': [], 'nchecks': 0}
            finally: signal.alarm(0)
        out.append(r)
    if sys.argv[1] == '--batch': sys.stdout.write('\n@@RESULT ' + json.dumps(out))
    else:
        bad = 0
        for (fname, a), r in zip(spec['jobs'], out):
            print(fname, json.dumps(a))
            print('  failed checks:', r['fails'], ' error:', r['error'])
            if r.get('trace'): print(r['trace'])
            bad |= bool(r['fails'] or r['error'])
        sys.exit(1 if bad else 0)
main()
