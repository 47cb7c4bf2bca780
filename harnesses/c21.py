"""C21: create_junction_roads."""
from .net import *

FUNCTIONS = ['generators.create_junction_roads/get_lanes_offset/create_straight_road/create_cloth_arc_cloth/create_junction', 'geometry.EulerSpiral.calc', 'geometry.Spiral/Arc/Line/PlanView', 'opendrive.Road.add_predecessor/add_successor', 'opendrive.OpenDrive.adjust_roads_and_lanes']
BOUNDS = 'turns: 2..3 roads (1, 2 or 6 lanes per side, symbolic width) with symbolic increasing angles (2..3 in any order: right up to full turns), or 2..4 roads in the documented directions, symbolic radius 1..50000, start number and junction id, thirds or quarters as spirals (further: also a radius up to 2000 with turns up to full turns), roads with one or two lane sections; crossing: the 3-way T in its three positions, the 120 degree and the 4-way crossing, symbolic radius 1..20, road lengths 1..100 and spiral part 0.02..0.48 of the turn; a star of six roads with given angles (15 connecting roads)'
BOUNDS_THOROUGH = 'turns: up to 4 roads with symbolic angles'
ASSUMPTIONS = ['constants smaller than 1e-8 (the start curvature 1e-9 of the spirals) are read as 0; witnesses run with the real value']
OUTSIDE = 'roads without lanes; angles between two roads closer than 0.05 to straight on (other than exactly straight on) or to a U-turn'
OPTS = {'tiny_zero': True}

def incoming(env, n, names, longest=100):
    """n straight roads with equal lanes"""
    P = env.P
    lanes = env.choice('lanes', [1, 2, 6]); w = env.real('width', 0.1, 1000)
    return [P.create_straight_road(names[i], length=env.real('L%d' % i, 1, longest), n_lanes=lanes, lane_offset=w) for i in range(n)], lanes, w

def more_sections(env, roads, n, w):
    """further lane sections, with other lanes, at the ends away from the junction"""
    P = env.P
    for k, r in enumerate(roads):
        sec = P.LaneSection(0 if k == 0 else 0.5, P.Lane())
        for i in range(n + 1): sec.add_left_lane(P.Lane(a=w + 1)); sec.add_right_lane(P.Lane(a=w + 1))
        if k == 0: r.lanes.lanesections[0].s = 0.5; r.lanes.lanesections.insert(0, sec)
        else: r.lanes.add_lanesection(sec)

def road_turn(ps):
    t = 0
    for p in ps:
        if p.kind == 'arc': t = t + p.attr('curvature')*p.L
        elif p.kind == 'spiral': t = t + (p.attr('curvStart') + p.attr('curvEnd'))/2*p.L
    return t

def links_of(e): return [(l.tag, l.get('elementType'), l.get('elementId'), l.get('contactPoint')) for l in (e.find('link') if e.find('link') is not None else [])]

def turns(env):
    """number, ids, lanes, links and turn of the connecting roads"""
    P = env.P
    layout = env.choice('layout', ['two', 'three', 'right angle', 'T', '120', '4-way'] + (['four'] if env.thorough else []))
    if layout in ('two', 'three', 'four'):
        n = {'two': 2, 'three': 3, 'four': 4}[layout]
        angles = [env.choice('first', [0, env.real('angle0', -1, 1)])]
        for i in range(1, n):
            a = env.real('angle%d' % i, -1, 7)
            for b in angles:
                d = a - b
                env.assume(d > 0.0005); env.assume(d < 6.2826)
                env.assume(env.or_(d - env.pi > 0.0005, d - env.pi < -0.0005))
            if i > 1: env.assume(a - angles[-1] > 0)
            angles.append(a)
    else: angles = {'right angle': [0, env.pi/2], 'T': [0, env.pi/2, 3*env.pi/2], '120': [0, 2*env.pi/3, 4*env.pi/3], '4-way': [0, env.pi/2, env.pi, 3*env.pi/2]}[layout]
    n = len(angles)
    names = list(range(n)) if not env.bool('text_ids') else ['a', 'b', 'c', 'd'][:n]
    roads, lanes, w = incoming(env, n, names, 100000)
    if names[0] == 'a': more_sections(env, roads, lanes, w)
    rad, jn, start = env.real('r', 1, 50000), env.int('junction', 0, 99999), env.int('startnum', 10, 99999)
    sp, ap = 1/3, 1/3
    kw = {}
    if env.bool('junction_given'): kw['junction'] = jn
    else: jn = 1
    if env.bool('startnum_given'): kw['startnum'] = start
    else: start = 100
    if env.bool('parts_given'): kw['spiral_part'], kw['arc_part'] = sp, ap = 0.25, 0.5
    out = P.create_junction_roads(roads, angles, rad, **kw)
    env.require('one connecting road per pair', len(out) == n*(n - 1)//2)
    k = 0
    for i in range(n - 1):
        for j in range(i + 1, n):
            c = out[k]; name = 'road %d to %d: ' % (i, j)
            c.planview.adjust_geometries()
            e = c.get_element()
            env.check(name + 'id', env.shows(e.get('id'), start + k)); env.check(name + 'junction', env.shows(e.get('junction'), jn))
            ls = links_of(e)
            env.check(name + 'links', ls == [('predecessor', 'road', str(names[i]), 'end' if i == 0 else 'start'), ('successor', 'road', str(names[j]), 'start')])
            secs = children(env, e.find('lanes'), 'laneSection', 1)
            for side in ('left', 'right'):
                box = secs[0].find(side); es = list(box) if box is not None else []
                env.require(name + 'as many %s lanes' % side, len(es) == lanes)
                for l in es: env.check(name + 'lane width', env.shows(children(env, l, 'width', 1)[0].get('a'), w))
            ps = pieces(env, e.find('planView'))
            for p in ps:
                if p.kind != 'line': env.check(name + 'lengths are positive', p.L > 0)
            want = angles[j] - angles[i] - env.pi
            env.check(name + 'turn', env.eq(road_turn(ps), want*(2*sp + ap)))
            for p in ps:
                if p.kind == 'arc': env.check(name + 'radius', env.eq(abs(p.attr('curvature'))*rad, 1))
            k += 1
    for i, r in enumerate(roads):
        r.planview.adjust_geometries()
        ls = links_of(r.get_element())
        env.require('road %d has one link' % i, len(ls) == 1)
        tag, kind, to, contact = ls[0]
        env.check('road %d is linked to the junction' % i, env.and_(tag == ('successor' if i == 0 else 'predecessor'), kind == 'junction', env.shows(to, jn), contact is None))
    env.observe('n', len(out))

def unsorted(env):
    """angles in any order: the turn is right up to full turns"""
    P = env.P
    n = env.choice('n', [2, 3]); angles = []
    for i in range(n):
        a = env.real('angle%d' % i, -4, 10)
        for b in angles:
            env.assume(env.or_(a - b > 0.0005, a - b < -0.0005))
            for m in (-2, -1, 1, 2): env.assume(env.or_(a - b - m*env.pi > 0.0005, a - b - m*env.pi < -0.0005))
            env.assume(a - b < 6.2826); env.assume(a - b > -6.2826)
        angles.append(a)
    roads, lanes, w = incoming(env, n, range(n))
    out = P.create_junction_roads(roads, angles, env.real('r', 1, 2000))
    env.require('one connecting road per pair', len(out) == n*(n - 1)//2)
    k = 0
    for i in range(n - 1):
        for j in range(i + 1, n):
            out[k].planview.adjust_geometries()
            ps = pieces(env, out[k].get_element().find('planView')); k += 1
            for p in ps: env.check('lengths are positive', p.L > 0)
            d = road_turn(ps) - (angles[j] - angles[i] - env.pi)
            env.check('road %d to %d: turn' % (i, j), env.or_(*[env.eq(d, 2*m*env.pi) for m in (0, 1, -1)]))
    env.observe('n', len(out))

LAYOUTS = {'T right': (0, 1, 2), 'T': (0, 1, 3), 'T left': (0, 2, 3), '4-way': (0, 1, 2, 3)}
def crossing(env, layout):
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    angles = [0, 2*env.pi/3, 4*env.pi/3] if layout == '120' else [q*env.pi/2 for q in LAYOUTS[layout]]
    n = len(angles)
    roads, lanes, w = incoming(env, n, range(n))
    rad = env.real('r', 1, 20)
    kw = {}
    part = env.real('spiral_part', 0.02, 0.48)
    if env.bool('parts_given'): kw['spiral_part'], kw['arc_part'] = env.choice('parts', [(0.25, 0.5), (part, 1 - 2*part)])
    jr = P.create_junction_roads(roads, angles, rad, **kw)
    od = P.OpenDrive('n')
    all_roads = roads + jr if env.choice('order', ['roads first', 'connecting roads last']) == 'roads first' else [roads[0]] + jr + roads[1:]
    for r in all_roads: od.add_road(r)
    od.add_junction(P.create_junction(jr, 1, roads))
    od.adjust_roads_and_lanes()
    els = od.get_element().findall('road')
    at = {id(r): Placed(env, e) for r, e in zip(all_roads, els)}
    k = 0
    for i in range(n - 1):
        for j in range(i + 1, n):
            c = at[id(jr[k])]; k += 1
            meet(env, 'road %d to %d leaves its first road' % (i, j), c, S, at[id(roads[i])], E if i == 0 else S)
            meet(env, 'road %d to %d arrives at its second road' % (i, j), c, E, at[id(roads[j])], S)
            # the roads point away from each other as requested
            ha = at[id(roads[i])].end()[2] + env.pi if i == 0 else at[id(roads[i])].start()[2]
            env.check('angle between road %d and %d' % (i, j), env.eq_angle(at[id(roads[j])].start()[2] - ha, angles[j] - angles[i]))
    env.check('the network hangs at its first road', env.and_(*[env.eq(v, 0) for v in at[id(roads[0])].start()]))

def crossing_right_angles(env):
    """the documented crossings with right angles close"""
    crossing(env, env.choice('layout', sorted(LAYOUTS)))

def crossing_120(env):
    """the documented three-way crossing with equal angles closes"""
    crossing(env, '120')

def unequal(env):
    """different numbers of lanes are reported"""
    P = env.P
    n = env.choice('n', [2, 3])
    counts = [env.choice('lanes%d' % i, [1, 2, 3]) for i in range(n)]
    roads = [P.create_straight_road(i, length=env.real('L', 1, 100000), n_lanes=c, lane_offset=env.real('width', 0.1, 1000)) for i, c in enumerate(counts)]
    if env.bool('sections'): more_sections(env, roads, 1, 3)
    r = env.raises(P.create_junction_roads, roads, [0, env.pi/2, env.pi][:n], env.real('r', 1, 50000))
    env.check('lane count error exactly when the roads differ', r == (None if len(set(counts)) == 1 else 'NotSameAmountOfLanesError'))

def star(env):
    """six roads in a star"""
    P = env.P
    n = 6; angles = [0, 0.5, 1.3, 2.4, 3.9, 5.6]
    names = [i + env.int('first_number', 0, 50000) for i in range(n)]
    roads, lanes, w = incoming(env, n, names)
    rad, jn, start = env.real('r', 1, 50000), env.int('junction', 0, 99999), env.int('startnum', 60000, 99999)
    out = P.create_junction_roads(roads, angles, rad, junction=jn, startnum=start)
    env.require('one connecting road per pair', len(out) == n*(n - 1)//2)
    k = 0
    for i in range(n - 1):
        for j in range(i + 1, n):
            c = out[k]; name = 'road %d to %d: ' % (i, j)
            c.planview.adjust_geometries(); e = c.get_element()
            env.check(name + 'id', env.shows(e.get('id'), start + k)); env.check(name + 'junction', env.shows(e.get('junction'), jn))
            ls = links_of(e)
            env.require(name + 'two links', [(a, b, d) for a, b, c_, d in ls] == [('predecessor', 'road', 'end' if i == 0 else 'start'), ('successor', 'road', 'start')])
            env.check(name + 'links', env.and_(env.shows(ls[0][2], names[i]), env.shows(ls[1][2], names[j])))
            env.check(name + 'turn', env.eq(road_turn(pieces(env, e.find('planView'))), angles[j] - angles[i] - env.pi))
            k += 1
    for i, r in enumerate(roads):
        r.planview.adjust_geometries(); ls = links_of(r.get_element())
        env.require('road %d has one link' % i, len(ls) == 1)
        env.check('road %d is linked to the junction' % i, env.and_(ls[0][0] == ('successor' if i == 0 else 'predecessor'), ls[0][1] == 'junction', env.shows(ls[0][2], jn)))
    env.observe('n', len(out))

HARNESSES = [turns, unsorted, crossing_right_angles, crossing_120, unequal, star]
