"""C02: reverse traversal is the inverse of forward traversal, whatever was computed before."""
from .lib import *

FUNCTIONS = ['geometry.Line/Arc/Spiral/ParamPoly3.get_end_data/get_start_data/get_element', 'geometry.EulerSpiral', 'geometry.ParamPoly3._integrand']
BOUNDS = 'one geometry object, up to 2 (thorough 3) earlier forward/backward computations at arbitrary poses; parameter ranges as in C01'
OUTSIDE = 'contradictory parameters and polynomials with vanishing end derivative, as in C01'
THOROUGH_S = 840

def _emit(env, g):
    e = g.get_element()
    return [(c, e.get(c)) for c in sorted(e.keys())]

def _roundtrip(env, kind):
    g = make_geom(env, kind, '1'); ref = make_geom(env, kind, '1')
    n = env.choice('history', range(0, 4 if env.thorough else 3))
    for i in range(n):
        x, y, h = pose(env, 'p%d' % i)
        if env.bool('back%d' % i): g.get_start_data(x, y, h)
        else: g.get_end_data(x, y, h)
    x, y, h = pose(env)
    fx, fy, fh, fL = ref.get_end_data(x, y, h)
    if env.bool('forward'):
        ex, ey, eh, L = g.get_end_data(x, y, h)
        env.check('forward result does not depend on history', env.and_(env.eq(ex, fx), env.eq(ey, fy), env.eq_angle(eh, fh), env.eq(L, fL)))
    sx, sy, sh, sL = g.get_start_data(fx, fy, fh + env.pi)
    env.check('start x recovered', env.eq(sx, x)); env.check('start y recovered', env.eq(sy, y))
    env.check('start heading recovered, turned by pi', env.eq_angle(sh, h + env.pi))
    env.check('length equal both ways', env.eq(sL, fL))
    env.observe('sx', sx); env.observe('sh', sh); env.observe('L', sL)
    ex, ey, eh, L = g.get_end_data(x, y, h)
    env.check('later forward result unchanged', env.and_(env.eq(ex, fx), env.eq(ey, fy), env.eq_angle(eh, fh), env.eq(L, fL)))
    a, b = _emit(env, ref), _emit(env, g)
    env.check('same emitted attribute names', [k for k, _ in a] == [k for k, _ in b])
    for (k, v), (_, w) in zip(a, b):
        env.check('emitted %s unchanged' % k, env.eq(env.num(v), env.num(w)) if env.is_num(v) else v == w)

def _mk(kind, doc):
    def f(env): _roundtrip(env, kind)
    f.__name__ = kind; f.__doc__ = doc
    return f
HARNESSES = [_mk(k, d) for k, d in (('line', 'line'), ('arc_len', 'arc by length'), ('arc_ang', 'arc by angle'), ('spiral', 'spiral by length'),
    ('spiral0', 'spiral starting or ending straight'), ('spiral_cdot', 'spiral by cdot'), ('spiral_const', 'spiral of constant curvature'),
    ('poly', 'normalized paramPoly3'), ('poly_len', 'normalized paramPoly3 with a length'), ('poly_arc', 'arcLength paramPoly3'))]

def spiral_ang(env):
    """spiral by angle"""
    _roundtrip(env, 'spiral_ang')
HARNESSES.append(spiral_ang)
