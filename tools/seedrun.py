#!/usr/bin/env python3
"""seedrun.py [id...]  runs each planted bug's own check on a scratch copy with the patch (PYODRX_ROOT); --all runs every check"""
import sys, os, json, subprocess, shutil, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(VERIF + '/seeded'))
for sid in ids:
    meta = json.load(open(VERIF + '/seeded/%s/meta.json' % sid))
    d = tempfile.mkdtemp(dir='/tmp'); repo = d + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'apply', VERIF + '/seeded/%s/patch.diff' % sid], check=True)
        cs = [meta['property']] if '--all' not in sys.argv else ['C%02d' % i for i in range(1, 40)]
        for c in cs:
            if not os.path.exists(VERIF + '/harnesses/%s.py' % c.lower()): continue
            t = time.time()
            p = subprocess.run(['python3-vt', '-B', VERIF + '/check.py', c], cwd='/tmp', capture_output=True, text=True, env=dict(os.environ, PYODRX_ROOT=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=d))
            print('%-28s %s %s rc=%d %.0fs %s' % (sid, c, 'CAUGHT' if p.returncode == 1 else 'missed', p.returncode, time.time() - t, '' if p.returncode == 1 else ' | '.join(p.stdout.strip().split('\n')[-3:])[:400]), flush=True)
    finally: shutil.rmtree(d)
