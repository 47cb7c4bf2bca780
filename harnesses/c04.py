"""C04: a plan view placed by its end is the same continuous chain."""
from .lib import *
from .c03 import check_chain, pair, KINDS

FUNCTIONS = ['geometry.PlanView.adjust_geometries(from_end)/get_start_point/get_end_point/get_total_length/get_element', 'geometry._Geometry.get_start_data/set_s', 'geometry.Line/Arc/Spiral/ParamPoly3.get_start_data', 'opendrive.Road.get_end_point/get_attributes', 'opendrive.OpenDrive.adjust_startpoints/adjust_road_wrt_neighbour']
BOUNDS = 'up to 3 geometries (4 in thorough runs), symbolic parameters (ranges as in C01) and end pose; both curvature signs for up to 2 geometries; one chain of 11 geometries; chains of 1 or 2 geometries placed up to three times'
THOROUGH_S = 840

def _place(env, n, kinds, net):
    P = env.P
    x, y, h = pose(env)
    pv = P.PlanView()
    geoms = [pair(env, env.choice('kind%d' % i, kinds), str(i)) for i in range(n)]
    for g, _ in geoms: pv.add_geometry(g)
    road = P.Road(1, pv, P.Lanes())
    if net:
        # placed by the network from a successor whose start pose is given
        pv2 = P.PlanView(x, y, h); pv2.add_geometry(P.Line(10))
        r2 = P.Road(2, pv2, P.Lanes())
        road.add_successor(P.ElementType.road, 2, P.ContactPoint.start)
        od = P.OpenDrive('n'); od.add_road(road); od.add_road(r2)
        od.adjust_startpoints()
    else:
        pv.set_start_point(x, y, h + env.pi)
        pv.adjust_geometries(True)
    e = road.get_element().find('planView')
    sp = pv.get_start_point()
    ps = check_chain(env, pv, e, geoms, sp)
    ex, ey, eh = ps[-1].end()
    env.check('chain ends in the given point', env.and_(env.eq(ex, x), env.eq(ey, y)))
    env.check('chain ends with the given heading', same_dir(env, eh, h))
    rx, ry, rh = road.get_end_point()
    env.check('road end point', env.and_(env.eq(rx, x), env.eq(ry, y), env.eq_angle(rh, h)))
    env.check('road length', env.eq(env.num(road.get_element().get('length')), pv.get_total_length()))

def one(env):
    """one geometry"""
    _place(env, 1, KINDS, env.bool('network'))
def two(env):
    """two geometries, all kinds and signs"""
    _place(env, 2, KINDS, False)
def two_network(env):
    """two geometries, placed by a successor road"""
    fixed_signs(env)
    _place(env, 2, KINDS[:5], True)
def three(env):
    """three geometries"""
    fixed_signs(env)
    _place(env, 3, ['line', 'arc_len', 'arc_ang', 'spiral'] if not env.thorough else KINDS[:4] + ['poly'], False)
def four(env):
    """four geometries"""
    fixed_signs(env)
    _place(env, 4, ['line', 'arc_ang', 'spiral'], False)
four.thorough_only = True

def many(env):
    """eleven geometries"""
    fixed_signs(env)
    P = env.P
    x, y, h = pose(env)
    pv = P.PlanView()
    geoms = [pair(env, {3: 'arc_ang'}.get(i, 'line'), str(i)) for i in range(11)]
    for g, _ in geoms: pv.add_geometry(g)
    pv.set_start_point(x, y, h + env.pi)
    pv.adjust_geometries(True)
    ps = check_chain(env, pv, pv.get_element(), geoms, pv.get_start_point())
    ex, ey, eh = ps[-1].end()
    env.check('chain ends in the given point', env.and_(env.eq(ex, x), env.eq(ey, y)))
    env.check('chain ends with the given heading', same_dir(env, eh, h))

def relaid(env):
    """placed by its end again: in the same place, in another one, after it was laid out from its start, with a further geometry"""
    P = env.P
    fixed_signs(env)
    p = pose(env); pv = P.PlanView()
    geoms = [pair(env, k, str(i)) for i, k in enumerate(env.choice('kinds', [('line', 'arc_len'), ('arc_ang',), ('spiral',)]))]
    for g, _ in geoms: pv.add_geometry(g)
    pv.set_start_point(p[0], p[1], p[2] + env.pi)
    pv.adjust_geometries(env.bool('first_from_end'))
    if env.bool('asked'): pv.get_element(); pv.get_total_length(); pv.get_start_point()
    what = env.choice('then', ['again', 'longer', 'moved', 'moved longer'])
    if 'moved' in what: p = pose(env, 'new'); pv.set_start_point(p[0], p[1], p[2] + env.pi)
    if 'longer' in what: geoms.append(pair(env, 'line', 'last')); pv.add_geometry(geoms[-1][0])
    for _ in range(env.choice('times', [1, 2])): pv.adjust_geometries(True)
    ps = check_chain(env, pv, pv.get_element(), geoms, pv.get_start_point())
    ex, ey, eh = ps[-1].end()
    env.check('chain ends in the given point', env.and_(env.eq(ex, p[0]), env.eq(ey, p[1])))
    env.check('chain ends with the given heading', same_dir(env, eh, p[2]))

HARNESSES = [one, two, two_network, three, four, many, relaid]
