#!/usr/bin/env python3
"""plant.py SPEC.py [id...]  builds /verif/seeded/<id>/ from SPEC's SEEDS = {id: dict(property, file, edits=[(old, new)], needs, breaks, demo)}
and confirms in a scratch copy: the patch applies, builds, the stable tests pass, the demonstration passes without it and fails with it."""
import sys, os, json, subprocess, shutil, tempfile, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1]); lib = spec.get('LIB', '')
want = sys.argv[2:]
base = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', 'pyodrx/geometry.py'], capture_output=True, text=True).stdout
def run(demo, repo):
    p = subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=280, env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
    return p.returncode, (p.stdout + p.stderr)[-600:]
for sid, s in spec['SEEDS'].items():
    if want and sid not in want: continue
    d = tempfile.mkdtemp(dir='/tmp'); repo = d + '/repo'; dest = d + '/seed'; os.makedirs(dest)
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        f = s.get('file')
        edits = [(e if len(e) == 3 else (f,) + tuple(e)) for e in s['edits']]
        bad = None
        for path, old, new in edits:
            p = os.path.join(repo, 'pyodrx', path + '.py'); t = open(p).read()
            if t.count(old) != 1: bad = 'edit matches %d times: %r' % (t.count(old), old[:60]); break
            # changed lines have to be lines of the original repository
            open(p, 'w').write(t.replace(old, new))
        if bad: print(sid, 'BAD', bad); continue
        diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        orig = {x: subprocess.run(['git', '-C', repo, 'show', 'b7b4fd0:pyodrx/%s.py' % x], capture_output=True, text=True).stdout.split('\n') for x, _, _ in edits}
        minus = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        allo = [l for v in orig.values() for l in v]
        if minus and not any(l in allo for l in minus if l.strip()): print(sid, 'BAD changes only lines of fix commits'); continue
        mine = [l for l in minus if l not in allo]
        open(dest + '/patch.diff', 'w').write(diff)
        open(dest + '/demo.py', 'w').write(lib + s['demo'])
        open(dest + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository; fails when the property is broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dest + '/meta.json', 'w'), indent=1)
        rc0, o0 = run(dest, '/repo'); rc1, o1 = run(dest, repo)
        p = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60'], cwd=repo, capture_output=True, text=True, env=dict(os.environ, OPENBLAS_NUM_THREADS='1'))
        ok = '114 passed' in p.stdout
        if rc0 != 0 or rc1 == 0 or not ok: print(sid, 'BAD unchanged rc', rc0, o0 if rc0 else '', 'patched rc', rc1, '' if rc1 else 'demo does not fail', 'tests', ok, '' if ok else p.stdout[-400:]); continue
        t = os.path.join(VERIF, 'seeded', sid)
        if os.path.exists(t): shutil.rmtree(t)
        shutil.copytree(dest, t)
        print(sid, 'planted', ('(note: also touches own lines %r)' % mine) if mine else '', '|', o1.strip().split('\n')[-1][:120], flush=True)
    finally: shutil.rmtree(d)
