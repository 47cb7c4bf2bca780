"""time each path of one harness: slow.py c03 two [fix choices k=v,...]"""
import sys, time, cProfile, pstats
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from symex import runner, explore
mod, fn = sys.argv[1:3]
m = runner.load_harnesses(mod); f = [x for x in m.HARNESSES if x.__name__ == fn][0]
h = explore.Harness(f, 1, 'quick')
want = dict(a.split('=') for a in sys.argv[3:] if '=' in a)
opts = dict(seed=1, tier='quick', ms=8000, path_s=30, cross=False, **getattr(m, 'OPTS', {}))
st = [[]]; T = []
t_end = time.time() + 100
prof = cProfile.Profile() if '-p' in sys.argv else None
while st and time.time() < t_end:
    pre = st.pop(); t = time.time()
    if prof: prof.enable()
    r = runner.run_path(h, pre, opts, True)
    if prof: prof.disable()
    if r['status'] == 'restart': h.table.units = r['units']; h.reset_table(); st = [[]]; T = []; continue
    st += r['alts']
    if want:
        st = [p for p in st if True]
    T.append((time.time() - t, r['status'], r['choices'], r['stats'].get('solver_s')))
T.sort(key=lambda t: -t[0])
for t in T[:12]: print('%.2f' % t[0], t[1:])
print(len(T), sum(t[0] for t in T), len(h.table.atoms))
if prof: pstats.Stats(prof).sort_stats('cumtime').print_stats(25)
