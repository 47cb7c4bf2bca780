"""C01: computed end pose = end of the emitted curve."""
from .lib import *

FUNCTIONS = ['geometry.Line/Arc/Spiral/ParamPoly3 (__init__, get_end_data, get_attributes, get_element)', 'geometry.EulerSpiral.createFromLengthAndCurvature/calc', 'geometry.ParamPoly3._integrand', 'geometry._Geometry', 'geometry.PlanView.add_geometry/adjust_geometries/get_element/get_end_point/get_total_length']
BOUNDS = 'one geometry; |x|,|y| <= 10 000 000, |heading| <= 100; line length 0..50000; arc |curvature| 0.0000001..10 (given by its angle: 0.000001..10), length 0.0001..1000 or angle 0.00001..20 (sign of the curvature); spiral |start curvature| <= 1, |curvature rate| 0.000001..1 or 0, length 0.0001..5000 (some kinds 0.01..5000), curvature changing by at most 20; polynomial coefficients |.| <= 20 (aU and aV 500), arcLength range 0.01..50'
OUTSIDE = 'arcs whose angle and curvature have opposite signs and spirals whose cdot contradicts the curvatures (contradictory input); polynomials with vanishing end derivative'

def _place(env, g):
    x, y, h = pose(env)
    pv = env.P.PlanView(x, y, h)
    pv.add_geometry(g)
    pv.adjust_geometries()
    ps = pieces(env, pv.get_element())
    env.require('one geometry emitted', len(ps) == 1)
    p = ps[0]
    env.check('starts at the start pose', env.and_(env.eq(p.x, x), env.eq(p.y, y), env.eq_angle(p.h, h)))
    for nm, (ex, ey, eh, L) in (('computed', g.get_end_data(x, y, h)), ('reported', pv.get_end_point() + (pv.get_total_length(),))):
        ox, oy, oh = p.end()
        env.check(nm + ' end x', env.eq(ex, ox)); env.check(nm + ' end y', env.eq(ey, oy))
        env.check(nm + ' end heading', same_dir(env, oh, eh))
        env.check(nm + ' length', env.eq(L, p.L))
    tl = p.true_length()
    if tl is not None: env.check('emitted length is the arc length of the curve', env.eq(p.L, tl))
    env.check('length is not negative', p.L >= 0)
    env.observe('x', ex); env.observe('y', ey); env.observe('h', eh); env.observe('L', p.L)
    return p, x, y, h, ex, ey

def line(env):
    """line"""
    g = make_geom(env, 'line', '1')
    p, x, y, h, ex, ey = _place(env, g)
    env.check('shape', p.kind == 'line'); env.check('length as given', env.eq(p.L, env.real('l_L1', 0, 50000)))
    env.check_curve('line', x, y, ex, ey, env.real('l_L1', 0, 50000), lambda t: h)

def arc_length(env):
    """arc given by its length"""
    g = make_geom(env, 'arc_len', '1')
    p, x, y, h, ex, ey = _place(env, g)
    k = p.attr('curvature'); L = env.real('r_L1', 0.0001, 1000)
    env.check('length as given', env.eq(p.L, L))
    k0 = env.real('r_k1', 0.0000001, 10)
    env.check('curvature as given', env.eq(k, -k0 if env.bool('neg_r_k1') else k0))
    env.check_curve('arc', x, y, ex, ey, L, lambda t: h + k*t)

def arc_angle(env):
    """arc given by its angle: turns by exactly that angle"""
    g = make_geom(env, 'arc_ang', '1')
    p, x, y, h, ex, ey = _place(env, g)
    k = p.attr('curvature'); a = env.real('q_a1', 0.00001, 20)
    sg = -1 if env.bool('neg_q_k1') else 1
    env.check('curvature as given', env.eq(k, sg*env.real('q_k1', 0.000001, 10)))
    env.check('angle as given', env.eq(k*p.L, sg*a))
    env.check_curve('arc', x, y, ex, ey, a, lambda t: h + sg*t, lambda t: sg/k)

def spiral(env):
    """spiral given by its length"""
    g = make_geom(env, 'spiral', '1')
    p, x, y, h, ex, ey = _place(env, g)
    ks = p.attr('curvStart'); L = env.real('s_L1', 0.0001, 5000)
    g0 = env.real('s_g1', 0.000001, 1)
    if env.bool('neg_s_g1'): g0 = -g0
    env.check('curvatures as given', env.and_(env.eq(ks, env.real('s_ks1', -1, 1)), env.eq(p.attr('curvEnd'), env.real('s_ks1', -1, 1) + g0*L)))
    env.check('length as given', env.eq(p.L, L))
    env.check_curve('spiral', x, y, ex, ey, L, lambda t: h + ks*t + g0*t*t/2)

def spiral_straight_end(env):
    """spiral starting or ending straight"""
    _place(env, make_geom(env, 'spiral0', '1'))

def spiral_cdot(env):
    """spiral given by its curvature change: realised"""
    p = _place(env, make_geom(env, 'spiral_cdot', '1'))[0]
    g = env.real('c_g1', 0.000001, 1); L = env.real('c_L1', 0.01, 5000)
    env.check('length follows from cdot', env.eq(p.L, L))
    env.check('cdot realised', env.eq((p.attr('curvEnd') - p.attr('curvStart')), (-g if env.bool('neg_c_g1') else g)*p.L))

def spiral_angle(env):
    """spiral given by its angle: heading changes by exactly that angle"""
    P = env.P
    ks, ke = env.real('ks1', 0, 1), env.real('ke1', 0, 1)
    if env.bool('swap0'): ks = 0
    elif env.bool('end0'): ke = 0
    env.assume(ks + ke > 0.001)
    env.assume(env.or_(ke - ks > 0.001, ks - ke > 0.001))
    a = env.real('a1', 0.01, 3)
    sg = -1 if env.bool('right') else 1
    g = P.Spiral(sg*ks, sg*ke, angle=a if env.bool('posangle') else sg*a)
    x, y, h = pose(env)
    pv = P.PlanView(x, y, h); pv.add_geometry(g); pv.adjust_geometries()
    p = pieces(env, pv.get_element())[0]
    env.check('curvatures as given', env.and_(env.eq(p.attr('curvStart'), sg*ks), env.eq(p.attr('curvEnd'), sg*ke)))
    env.check('emitted curve turns by the angle', env.eq((p.attr('curvStart') + p.attr('curvEnd'))*p.L, 2*sg*a))
    env.check('reported heading turns by the angle', env.eq(pv.get_end_point()[2] - h, sg*a))
    env.observe('L', p.L)

def spiral_constant(env):
    """spiral with equal curvatures (also zero) is an arc or a line"""
    _place(env, make_geom(env, 'spiral_const', '1'))

def poly_normalized(env):
    """paramPoly3 over p in [0,1]"""
    _place(env, make_geom(env, 'poly', '1'))

def poly_given_length(env):
    """paramPoly3 over p in [0,1] that was also given a length"""
    _place(env, make_geom(env, 'poly_len', '1'))

def poly_arclength(env):
    """paramPoly3 over arc length"""
    p = _place(env, make_geom(env, 'poly_arc', '1'))[0]
    env.check('length as given', env.eq(p.L, env.real('p_L1', 0.01, 500)))

HARNESSES = [line, arc_length, arc_angle, spiral, spiral_straight_end, spiral_cdot, spiral_angle, spiral_constant, poly_normalized, poly_given_length, poly_arclength]
