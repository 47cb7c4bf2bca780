"""C20: road generators."""
from .net import *

FUNCTIONS = ['generators.create_road/create_straight_road/create_cloth_arc_cloth/standard_lane', 'opendrive.Road.get_element', 'geometry.PlanView', 'geometry.Spiral/Arc/Line/ParamPoly3', 'lane.LaneSection/Lane/RoadMark']
BOUNDS = '0..3 lanes per side, symbolic lane width, road id, junction id, lengths up to 100000, widths up to 1000, curvatures 0.001..10 of either sign, arc and spiral angles 0.01..3; create_road with single geometries of every kind and lists of up to 3 pieces; up to 12 lanes per side and 12 geometries in one list'
OUTSIDE = 'arc or spiral angles of 0; arc curvature and angles of contradicting sign'

def road_part(env, e, rid, jn):
    env.check('id', env.shows(e.get('id'), rid)); env.check('junction', env.shows(e.get('junction'), jn))

def lane_part(env, e, nl, nr, width):
    """(left lanes, center, right lanes) from the center outwards"""
    secs = children(env, e.find('lanes'), 'laneSection', 1)
    env.check('the lane section starts at 0', env.shows(secs[0].get('s'), 0))
    out = []
    for side, n, sign in (('left', nl, 1), ('center', 1, 0), ('right', nr, -1)):
        box = secs[0].find(side); ls = list(box) if box is not None else []
        env.require('%d %s lanes' % (n, side), len(ls) == n)
        for k, l in enumerate(ls):
            env.check('lane id', l.get('id') == str(sign*(k + 1)))
            if side == 'center': continue
            env.check('driving lane', l.get('type') == 'driving')
            w = children(env, l, 'width', 1)[0]
            env.check('width', env.shows(w.get('a'), width))
            env.check('constant width', env.and_(*[env.shows(w.get(c), 0) for c in ('b', 'c', 'd', 'sOffset')]))
        out.append(ls)
    return out

def mark(env, l): return children(env, l, 'roadMark', 1)[0]

def adjusted(env, road):
    od = env.P.OpenDrive('n'); od.add_road(road); od.adjust_roads_and_lanes()
    return od.get_element().find('road')

def general(env):
    """create_road: lanes, marks and geometries"""
    P = env.P
    fixed_signs(env)
    kinds = env.choice('kinds', [('line',), ('arc_ang',), ('poly',), ['line'], ['line', 'arc_len', 'spiral'], ['arc_ang', 'spiral_ang', 'line'], ['poly_arc', 'line', 'arc_ang']])
    gs = [make_geom(env, k, str(i)) for i, k in enumerate(kinds)]
    given = [g.get_element() for g in gs]
    rid, jn, w = env.int('id', 0, 99999), env.int('junction', 0, 99999), env.real('width', 0.1, 1000)
    kw = {}; nl = nr = 1; m = None; rt = -1
    if env.bool('lanes'): nl, nr = env.choice('nl', [0, 1, 2, 3]), env.choice('nr', [0, 1, 3] if not env.thorough else range(5)); kw.update(left_lanes=nl, right_lanes=nr)
    if env.bool('junction_given'): rt = jn; kw['road_type'] = jn
    if env.bool('mark'): m = P.RoadMark(P.RoadMarkType.solid_broken, env.real('mw', 0.1, 1), color=P.RoadMarkColor.yellow); kw['center_road_mark'] = m
    if env.bool('width_given'): kw['lane_width'] = w
    else: w = 3
    r = P.create_road(gs if isinstance(kinds, list) else gs[0], rid, **kw)
    e = adjusted(env, r)
    road_part(env, e, rid, rt)
    left, center, right = lane_part(env, e, nl, nr, w)
    for side in (left, right):
        for k, l in enumerate(side):
            env.check('outermost solid, others broken', mark(env, l).get('type') == ('solid' if k == len(side) - 1 else 'broken'))
    c = mark(env, center[0])
    env.check('center mark', c.get('type') == ('solid broken' if m else 'solid') and (not m or c.get('color') == 'yellow'))
    if m: env.check('width of the center mark', env.shows(c.get('width'), env.real('mw', 0.1, 1)))
    ps = pieces(env, e.find('planView'))
    env.require('all geometries', len(ps) == len(gs))
    for p, g in zip(ps, given): env.check('geometry in order', same_shape(env, p, g))
    env.check('at the origin', env.and_(env.eq(ps[0].x, 0), env.eq(ps[0].y, 0), env.eq_angle(ps[0].h, 0)))
    env.observe('id', e.get('id')); env.observe('L', e.get('length'))

def straight(env):
    """create_straight_road"""
    P = env.P
    rid, jn, w, L = env.int('id', 0, 99999), env.int('junction', 0, 99999), env.real('width', 0.1, 1000), env.real('L', 0.1, 100000)
    n = env.choice('n', [1, 0, 2, 3]); kw = {}
    if env.bool('length'): kw['length'] = L
    else: L = 100
    if env.bool('junction_given'): kw['junction'] = jn
    else: jn = -1
    if n != 1: kw['n_lanes'] = n
    if env.bool('width_given'): kw['lane_offset'] = w
    else: w = 3
    e = adjusted(env, P.create_straight_road(rid, **kw))
    road_part(env, e, rid, jn); lane_part(env, e, n, n, w)
    ps = pieces(env, e.find('planView'))
    env.require('one line', len(ps) == 1 and ps[0].kind == 'line')
    env.check('its length', env.and_(env.eq(ps[0].L, L), env.eq(env.num(e.get('length')), L)))
    env.observe('L', e.get('length'))

def curve(env):
    """create_cloth_arc_cloth"""
    P = env.P
    rid, jn, w = env.int('id', 0, 99999), env.int('junction', -1, 99999), env.real('width', 0.1, 1000)
    k, aa, ca = env.real('k', 0.001, 10), env.real('arc_angle', 0.01, 3), env.real('cloth_angle', 0.01, 3)
    way = env.choice('turn', ['left', 'right', 'right with negative curvature'])
    sg = 1 if way == 'left' else -1
    if way == 'right with negative curvature': k = -k
    n = env.choice('n', [1, 0, 2, 3]); kw = {}
    if env.bool('junction_given'): kw['junction'] = jn
    else: jn = 1
    cs = 0
    if env.bool('start_given'): cs = env.real('cs', -0.0005, 0.0005); kw['cloth_start'] = -cs if way == 'right with negative curvature' else cs
    if n != 1: kw['n_lanes'] = n
    if env.bool('width_given'): kw['lane_offset'] = w
    else: w = 3
    r = P.create_cloth_arc_cloth(k, sg*aa, sg*ca, rid, **kw)
    e = adjusted(env, r)
    road_part(env, e, rid, jn); lane_part(env, e, n, n, w)
    ps = pieces(env, e.find('planView'))
    env.require('spiral, arc, spiral', [p.kind for p in ps] == ['spiral', 'arc', 'spiral'])
    a, b, c = ps
    kk = b.attr('curvature')
    env.check('curvature', env.eq(kk, sg*abs(k)))
    env.check('curvatures match at the joints', env.and_(env.eq(a.attr('curvEnd'), kk), env.eq(c.attr('curvStart'), kk)))
    env.check('starts and ends straight', env.and_(env.eq(a.attr('curvStart'), sg*cs), env.eq(c.attr('curvEnd'), sg*cs)))
    for p, want in ((a, ca), (c, ca)): env.check('spiral turns by its angle', env.eq((p.attr('curvStart') + p.attr('curvEnd'))/2*p.L, sg*want))
    env.check('arc turns by its angle', env.eq(kk*b.L, sg*aa))
    env.check('lengths are positive', env.and_(a.L > 0, b.L > 0, c.L > 0))
    env.observe('L', b.L)

def many(env):
    """twelve lanes per side, twelve geometries"""
    P = env.P
    fixed_signs(env)
    rid, w = env.int('id', 0, 99999), env.real('width', 0.1, 1000)
    how = env.choice('how', ['create_road', 'create_straight_road', 'create_cloth_arc_cloth'])
    nl = nr = 12
    if how == 'create_road':
        nl, nr = env.choice('lanes', [(12, 12), (11, 4), (0, 12), (10, 1)])
        gs = [make_geom(env, {3: 'arc_ang', 8: 'arc_len'}.get(i, 'line'), str(i)) for i in range(12)]
        given = [g.get_element() for g in gs]
        e = adjusted(env, P.create_road(gs, rid, nl, nr, lane_width=w))
        ps = pieces(env, e.find('planView'))
        env.require('all geometries', len(ps) == 12)
        for p, g in zip(ps, given): env.check('geometry in order', same_shape(env, p, g))
    elif how == 'create_straight_road': e = adjusted(env, P.create_straight_road(rid, n_lanes=12, lane_offset=w))
    else: e = adjusted(env, P.create_cloth_arc_cloth(0.1, 1, 0.5, rid, n_lanes=12, lane_offset=w))
    road_part(env, e, rid, 1 if how == 'create_cloth_arc_cloth' else -1)
    left, center, right = lane_part(env, e, nl, nr, w)
    if how == 'create_road':
        for side in (left, right):
            for k, l in enumerate(side): env.check('outermost solid, others broken', mark(env, l).get('type') == ('solid' if k == len(side) - 1 else 'broken'))
    env.observe('id', e.get('id'))

HARNESSES = [general, straight, curve, many]
