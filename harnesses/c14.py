"""C14: roadside objects."""
from .net import *

FUNCTIONS = ['opendrive.Road.add_object_roadside/add_object/get_element', 'signals_objects.Object.repeat/get_attributes/get_element', 'geometry.PlanView.get_total_length/adjust_geometries', 'lane.LaneSection/Lane']
BOUNDS = 'roads of 1 or 2 geometries laid out from their start or end, 1 or 2 lane sections with symbolic s, 0..2 lanes per side with symbolic widths; symbolic lengths up to 100000, sOffset up to 50000, tOffset up to 500, repeat distance up to 50000 (also 0); every side; one or two calls with the same prototype; prototypes with and without own id, size and height; one road of four lines with eleven lane sections, up to 11 lanes per side'
BOUNDS_THOROUGH = '3 lane sections, 0..3 lanes per side'
OUTSIDE = 'lane widths that vary along the lane (b, c, d not 0), lanes behind their section; prototypes that were added to a road or repeated before'

def layout(env):
    P = env.P
    way = env.choice('layout', ['start', 'end', 'start2'])
    pv = P.PlanView()
    L = env.real('L0', 0.1, 100000); pv.add_geometry(P.Line(L)); tot = L
    if way != 'start':
        L2 = env.real('L1', 0.1, 100000); pv.add_geometry(P.Arc(env.real('k', 0.001, 1), length=L2)); tot = tot + L2
    pv.set_start_point(env.real('x'), env.real('y'), env.real('h', -4, 4))
    if way == 'end': pv.adjust_geometries(True)
    else: pv.adjust_geometries()
    return pv, tot

def wide_lanes(env, top):
    P = env.P
    l = P.Lanes(); spec = []
    n = env.choice('nsec', [1, 2] if not env.thorough else [1, 2, 3])
    for i in range(n):
        s = env.real('s%d' % i, 0, 100000) if i else 0
        sec = P.LaneSection(s, P.Lane(a=env.real('wc', 0, 5))); w = [0, 0]
        for side, add in enumerate((sec.add_left_lane, sec.add_right_lane)):
            c = env.choice('n%d_%d' % (side, i), range(top + 1)) if i == 0 else 1 + side
            for k in range(c):
                a = env.real('w%d_%d_%d' % (side, i, k), 0, 10); add(P.Lane(lane_type(env, i + 2*k + side), a=a)); w[side] = w[side] + a
        l.add_lanesection(sec); spec.append((s, w[0], w[1]))
    return l, spec

def prototype(env):
    P = env.P
    how = env.choice('prototype', ['plain', 'full', 'round'])
    if how == 'plain': return P.Object(0, 0, Type=P.ObjectType.pole), {'type': 'pole', 'zOffset': 0}
    z = env.real('z')
    if how == 'round':
        r = env.real('radius', 0.1, 500)
        return P.Object(env.real('ps'), env.real('pt'), Type=P.ObjectType.tree, radius=r, zOffset=z, name='n'), {'type': 'tree', 'radius': r, 'zOffset': z, 'name': 'n'}
    w, l, h = env.real('pw', 0.1, 500), env.real('pl', 0.1, 500), env.real('ph', 0.1, 500)
    return (P.Object(env.real('ps'), env.real('pt'), Type=P.ObjectType.railing, id=env.choice('pid', ['7', None]), width=w, length=l, height=h, zOffset=z, orientation=P.Orientation.positive),
            {'type': 'railing', 'width': w, 'length': l, 'height': h, 'zOffset': z, 'orientation': '+'})

def snapshot(e): return (e.tag, sorted(e.items()), [snapshot(c) for c in e])

def roadside(env):
    """the objects of one or two calls"""
    P = env.P
    pv, tot = layout(env)
    l, spec = wide_lanes(env, 2 if not env.thorough else 3)
    road = P.Road(1, pv, l)
    pro, given = prototype(env)
    before = snapshot(pro.get_element())
    calls = []
    for c in range(2 if env.bool('twice') else 1):
        so = env.real('so%d' % c, 0, 50000) if env.bool('given%d' % c) else None
        to = env.real('to%d' % c, -500, 500) if so is not None else None
        d = env.real('d%d' % c, 0, 50000)
        side = env.choice('side%d' % c, ['both', 'left', 'right', None]) if c == 0 else 'left'
        kw = {}
        if so is not None: kw = dict(sOffset=so, tOffset=to)
        if side is not None: kw['side'] = getattr(P.RoadSide, side)
        road.add_object_roadside(pro, d, **kw)
        calls.append((so or 0 if so is None else so, 0 if to is None else to, d, side or 'both'))
    want = []
    for so, to, d, side in calls:
        mine = []
        for s, wl, wr in spec:
            if side != 'right': mine.append((s + so, wl + to, env.pi, d))
            if side != 'left': mine.append((s + so, -(wr + to), 0, d))
        want.append(mine)
    e = road.get_element()
    flat = [w for m in want for w in m]
    objs = list(children(env, e, 'objects', 1)[0]) if flat else []
    env.require('one object per section and side', len(objs) == len(flat) and all(o.tag == 'object' for o in objs))
    ids = [o.get('id') for o in objs]
    env.check('ids differ', len(set(ids)) == len(ids))
    for o, (s, t, h, d) in zip(objs, flat):
        env.check('s', env.eq(env.num(o.get('s')), s)); env.check('t', env.eq(env.num(o.get('t')), t))
        env.check('heading', env.eq_angle(env.num(o.get('hdg')), h))
        for k, v in given.items(): env.check('%s of the prototype' % k, env.shows(o.get(k), v))
        r = children(env, o, 'repeat', 1)[0]
        env.check('repeat distance', env.eq(env.num(r.get('distance')), d))
        env.check('repeat starts at the object', env.eq(env.num(r.get('s')), s))
        env.check('repeat reaches the end of the road', env.eq(env.num(r.get('s')) + env.num(r.get('length')), tot))
        env.check('repeat stays at the edge', env.and_(env.eq(env.num(r.get('tStart')), t), env.eq(env.num(r.get('tEnd')), t)))
    env.check('prototype unchanged', snapshot(pro.get_element()) == before)
    pro.repeat(1, 2)
    env.check('copies are independent of the prototype', all(len(o) == 1 for o in (road.get_element().find('objects') or [])))
    env.check('road length', env.eq(env.num(e.get('length')), tot))
    if objs: env.observe('s', objs[0].get('s')); env.observe('t', objs[-1].get('t'))

def unadjusted(env):
    """a road that was not adjusted"""
    P = env.P
    pv = P.PlanView(*(pose(env) if env.bool('pinned') else ())); pv.add_geometry(P.Line(env.real('L', 0.1, 100000)))
    l, spec = wide_lanes(env, 1)
    road = P.Road(1, pv, l); pro, given = prototype(env)
    other = env.bool('has_object')
    if other: road.add_object(P.Object(1, 1))
    before = snapshot(pro.get_element())
    r = env.raises(road.add_object_roadside, pro, env.real('d', 0, 50000), side=getattr(P.RoadSide, env.choice('side', ['both', 'left', 'right'])))
    env.check('RoadsAndLanesNotAdjusted is raised', r == 'RoadsAndLanesNotAdjusted')
    pv.set_start_point(0, 0, 0) if not env.bool('keep') else None
    od = P.OpenDrive('n'); od.add_road(road); od.adjust_roads_and_lanes()
    objs = list(road.get_element().iter('object'))
    env.check('nothing was added', len(objs) == (1 if other else 0))
    env.check('prototype unchanged', snapshot(pro.get_element()) == before)

def many(env):
    """eleven lane sections, up to eleven lanes"""
    P = env.P
    pv = P.PlanView(); tot = 0
    for i in range(4): L = env.real('L%d' % i, 0.1, 100000); pv.add_geometry(P.Line(L)); tot = tot + L
    pv.adjust_geometries()
    l = P.Lanes(); want = []
    sides = env.choice('side', ['both', 'left', 'right']); d = env.real('d', 0, 50000); so, to = env.real('so', 0, 50000), env.real('to', -500, 500)
    for i in range(11):
        s = env.real('s%d' % i, 0, 100000); sec = P.LaneSection(s, P.Lane(a=env.real('wc', 0, 5))); w = [0, 0]
        for side, add in enumerate((sec.add_left_lane, sec.add_right_lane)):
            for k in range(11 if i == 3 else 1 + (i + side) % 2):
                a = env.real('w%d' % (k % 4), 0, 10); add(P.Lane(lane_type(env, i + 2*k + side), a=a)); w[side] = w[side] + a
        l.add_lanesection(sec)
        if sides != 'right': want.append((s + so, w[0] + to, env.pi))
        if sides != 'left': want.append((s + so, -(w[1] + to), 0))
    road = P.Road(1, pv, l)
    road.add_object_roadside(P.Object(0, 0), d, so, to, getattr(P.RoadSide, sides))
    objs = list(road.get_element().find('objects'))
    env.require('one object per section and side', len(objs) == len(want))
    env.check('ids differ', len(set(o.get('id') for o in objs)) == len(objs))
    for o, (s, t, h) in zip(objs, want):
        r = children(env, o, 'repeat', 1)[0]
        env.check('s', env.eq(env.num(o.get('s')), s)); env.check('t', env.eq(env.num(o.get('t')), t)); env.check('heading', env.eq_angle(env.num(o.get('hdg')), h))
        env.check('repeat', env.and_(env.eq(env.num(r.get('distance')), d), env.eq(env.num(r.get('s')), s), env.eq(env.num(r.get('s')) + env.num(r.get('length')), tot),
                                     env.eq(env.num(r.get('tStart')), t), env.eq(env.num(r.get('tEnd')), t)))
    env.observe('s', objs[-1].get('s'))

HARNESSES = [roadside, unadjusted, many]
