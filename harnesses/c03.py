"""C03: a plan view laid out from its start is a continuous chain."""
from .lib import *

FUNCTIONS = ['geometry.PlanView (all methods)', 'geometry._Geometry', 'geometry.Line/Arc/Spiral/ParamPoly3.get_end_data/get_element/get_attributes', 'geometry.EulerSpiral']
BOUNDS = 'up to 3 geometries (4 in thorough runs, lines/arcs/spirals) of any kinds with symbolic parameters (ranges as in C01) and symbolic start pose; both signs of curvature for up to 2 geometries, fixed alternating signs beyond; one chain of 12 geometries; chains of 1 or 2 geometries laid out up to three times'
BOUNDS_THOROUGH = 'up to 4 geometries'
KINDS = ['line', 'arc_len', 'arc_ang', 'spiral', 'spiral_ang', 'poly', 'poly_arc']
THOROUGH_S = 840

def start(env, moved=False):
    how = env.choice('start', ['constructor', 'set_start_point', 'default'] + (['moved', 'moved back'] if moved else []))
    if how == 'default': return env.P.PlanView(), (0, 0, 0)
    p = pose(env)
    if how == 'constructor': return env.P.PlanView(*p), p
    if how == 'moved': pv = env.P.PlanView(*pose(env, 'old')); pv.set_start_point(*p); return pv, p
    if how == 'moved back': pv = env.P.PlanView(*p); pv.set_start_point(); return pv, (0, 0, 0)
    pv = env.P.PlanView(); pv.set_start_point(*p)
    return pv, p

def check_chain(env, pv, elem, geoms, p0, heads=None):
    ps = pieces(env, elem)
    env.require('as many geometries emitted as added', len(ps) == len(geoms))
    tot = 0
    for i, (p, (g, twin)) in enumerate(zip(ps, geoms)):
        env.check('geometry %d keeps its place and shape' % i, same_shape(env, p, twin.get_element()))
        env.check('s %d' % i, env.eq(p.s, tot))
        L = twin.get_end_data(0, 0, 0)[3]
        env.check('length %d' % i, env.eq(p.L, L))
        tot = tot + L
        env.observe('x', p.x); env.observe('h', p.h); env.observe('s', p.s)
    env.check('starts at the start point', env.and_(env.eq(ps[0].x, p0[0]), env.eq(ps[0].y, p0[1])))
    env.check('start heading', env.eq_angle(ps[0].h, heads[0] if heads else p0[2]))
    for i in range(1, len(ps)):
        if heads is None: join(env, ps[i-1], ps[i], 'joint %d' % i)
        else:
            x, y, h = ps[i-1].end()
            env.check('joint %d' % i, env.and_(env.eq(ps[i].x, x), env.eq(ps[i].y, y)))
            env.check('heading %d as given' % i, env.eq_angle(ps[i].h, heads[i]))
    env.check('total length', env.eq(pv.get_total_length(), tot))
    x, y, h = ps[-1].end()
    ex, ey, eh = pv.get_end_point()
    env.check('reported end point', env.and_(env.eq(ex, x), env.eq(ey, y)))
    env.check('reported end heading', same_dir(env, h, eh))
    return ps

def pair(env, kind, tag): return make_geom(env, kind, tag), make_geom(env, kind, tag)

def _chain(env, n, kinds):
    pv, p0 = start(env, n < 3)
    geoms = [pair(env, env.choice('kind%d' % i, kinds), str(i)) for i in range(n)]
    for g, _ in geoms: pv.add_geometry(g)
    pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), geoms, p0)
    sx, sy, sh = pv.get_start_point()
    env.check('reported start point', env.and_(env.eq(sx, p0[0]), env.eq(sy, p0[1]), env.eq_angle(sh, p0[2])))

def one(env):
    """one geometry"""
    _chain(env, 1, KINDS)
def two(env):
    """two geometries, all kinds and curvature signs"""
    _chain(env, 2, KINDS)
def three(env):
    """three geometries"""
    fixed_signs(env)
    _chain(env, 3, ['line', 'arc_len', 'arc_ang', 'spiral'] if not env.thorough else KINDS[:4] + ['poly'])
def three_poly(env):
    """three geometries around a polynomial"""
    fixed_signs(env)
    pv, p0 = start(env)
    k = env.choice('where', [0, 1, 2])
    geoms = [pair(env, 'poly' if i == k else env.choice('kind', ['line', 'arc_len']), str(i)) for i in range(3)]
    for g, _ in geoms: pv.add_geometry(g)
    pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), geoms, p0)
def four(env):
    """four geometries"""
    fixed_signs(env)
    _chain(env, 4, ['line', 'arc_len', 'spiral'])
four.thorough_only = True
def shared_object(env):
    """the same geometry object added twice"""
    pv, p0 = start(env)
    kind = env.choice('kind0', KINDS[:4])
    g, twin = pair(env, kind, '0')
    pv.add_geometry(g); pv.add_geometry(g)
    pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), [(g, twin), (g, twin)], p0)
def given_headings(env):
    """explicit headings for all geometries"""
    fixed_signs(env)
    n = env.choice('n', [1, 2, 3])
    pv, p0 = start(env)
    geoms, heads = [], []
    for i in range(n):
        geoms.append(pair(env, env.choice('kind%d' % i, ['line', 'arc_len', 'spiral']), str(i)))
        heads.append(env.real('hd%d' % i, -100, 100))
        pv.add_geometry(geoms[i][0], heads[i])
    for _ in range(env.choice('times', [1, 2])): pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), geoms, p0, heads)

def many(env):
    """twelve geometries"""
    fixed_signs(env)
    p0 = pose(env); pv = env.P.PlanView(*p0)
    geoms = [pair(env, {4: 'arc_ang', 9: 'arc_len'}.get(i, 'line'), str(i)) for i in range(12)]
    heads = [env.real('hd%d' % (i % 5), -100, 100) for i in range(12)] if env.bool('headings') else None
    for i, (g, _) in enumerate(geoms): pv.add_geometry(g, *([heads[i]] if heads else []))
    pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), geoms, p0, heads)

def relaid(env):
    """laid out again: in the same place, in another one, from the other side, with a further geometry"""
    P = env.P
    fixed_signs(env)
    pv, p0 = start(env)
    geoms = [pair(env, k, str(i)) for i, k in enumerate(env.choice('kinds', [('line', 'arc_len'), ('arc_ang',), ('spiral',), ('line',)]))]
    for g, _ in geoms: pv.add_geometry(g)
    pv.adjust_geometries(env.bool('first_from_end'))
    if env.bool('asked'): pv.get_element(); pv.get_total_length(); pv.get_end_point()
    what = env.choice('then', ['again', 'longer', 'moved', 'moved longer', 'moved back'])
    if 'moved' in what:
        p0 = pose(env, 'new') if what != 'moved back' else (0, 0, 0)
        pv.set_start_point(*(p0 if what != 'moved back' else ()))
    if 'longer' in what: geoms.append(pair(env, 'line', 'last')); pv.add_geometry(geoms[-1][0])
    for _ in range(env.choice('times', [1, 2])): pv.adjust_geometries()
    check_chain(env, pv, pv.get_element(), geoms, p0)

HARNESSES = [one, two, three, three_poly, four, shared_object, given_headings, many, relaid]
