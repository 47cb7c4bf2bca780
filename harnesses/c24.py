"""C24: adjusting again."""
from itertools import permutations
from .net import *
from .c23 import same_tree, frozen

FUNCTIONS = ['opendrive.OpenDrive.adjust_roads_and_lanes/adjust_startpoints/adjust_road_wrt_neighbour/add_road/get_element', 'geometry.PlanView.adjust_geometries/get_element/get_total_length/get_end_point', 'links.create_lane_links and helpers', 'lane.Lane.add_link']
BOUNDS = 'chains of 2 or 3 roads, a connecting road between two roads (any contact ends, lane offsets -40..40) and pinned single roads, adjusted 2 or 3 times; a further road (following, preceding, connecting, or pinned apart) added between two adjustments, its links declared before or after the first one; roads of 1 or 2 geometries and 1 or 2 lane sections; both adjust_roads_and_lanes and adjust_startpoints; a street of 12 roads adjusted 2 to 4 times; a street of 8 roads (also with a connecting road) extended and adjusted in 3 to 7 steps, five ways'
BOUNDS_THOROUGH = 'every order of addition'
OUTSIDE = 'header date'

def make(env, shape):
    """(roads by name in building order, {name: spec}) of one network"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    counts = ((1, 2), (2, 1))
    rd = {}
    if shape == 'pinned':
        for n, i in (('A', 1), ('B', 2)):
            sp = RoadSpec(n, (('line', 'arc_len'), ('spiral',))[i - 1], counts=counts); sp.pin = pose(env, n); rd[n] = build_road(env, sp, i)
    elif shape in ('chain2', 'chain3'):
        names = 'ABC'[:int(shape[-1])]
        cs = [((1, 2), (2, 1)), ((2, 1), (0, 1)), ((0, 1),)]
        pin = env.choice('pin', [None] + list(names))
        for i, n in enumerate(names):
            sp = RoadSpec(n, (('arc_ang',), ('line', 'arc_len'), ('spiral',))[i], counts=cs[i])
            if pin == n: sp.pin = pose(env, n)
            rd[n] = build_road(env, sp, i + 1)
        for a, b in zip(names, names[1:]):
            rd[a].add_successor(R, rd[b].id, S); rd[b].add_predecessor(R, rd[a].id, E)
    else:
        ca, cb = env.choice('contacts', [(E, S), (S, E), (E, E), (S, S)])
        pin = env.choice('pin', [None, 'A', 'K', 'B'])
        for i, (n, c) in enumerate((('A', counts), ('K', ((1, 1),)), ('B', ((2, 1), (1, 2))))):
            sp = RoadSpec(n, (('line',), ('arc_len', 'line'), ('arc_ang',))[i], counts=c)
            if pin == n: sp.pin = pose(env, n)
            rd[n] = build_road(env, sp, i + 1, road_type=9 if n == 'K' else -1)
        for n, c in (('A', ca), ('B', cb)): (rd[n].add_successor if c is E else rd[n].add_predecessor)(J, 9)
        rd['K'].add_predecessor(R, 1, ca, env.int('off1', -40, 40) if ca is E else 0); rd['K'].add_successor(R, 3, cb, env.int('off2', -40, 40) if cb is S else 0)
    return rd

def at_pose(env, a, b): return env.eq(a[0], b[0]), env.eq(a[1], b[1]), env.eq_angle(a[2], b[2])

def adjust(env, od, how):
    if how == 'both': od.adjust_roads_and_lanes()
    else: od.adjust_startpoints()

def again(env):
    """adjusting a second and third time changes nothing"""
    P = env.P
    shape = env.choice('shape', ['pinned', 'chain2', 'chain3', 'connecting'])
    rd = make(env, shape)
    od = P.OpenDrive('n')
    names = sorted(rd); perms = list(permutations(names))
    order = env.choice('order', perms if env.thorough or len(perms) <= 2 else [perms[0], perms[-1], perms[2]])
    for n in order: od.add_road(rd[n])
    how = env.choice('how', ['both', 'startpoints'])
    adjust(env, od, how)
    first = frozen(od.get_element())
    ends = [(rd[n].planview.get_start_point(), rd[n].get_end_point()) for n in order]
    for k in range(env.choice('times', [1, 2])):
        adjust(env, od, how)
        same_tree(env, frozen(od.get_element()), first, 'after adjusting again')
    for n, (s, e) in zip(order, ends):
        for x, y in list(zip(rd[n].planview.get_start_point(), s)) + list(zip(rd[n].get_end_point(), e)): env.check('reported points of %s stay' % n, env.eq(x, y))
    env.check('all roads adjusted', all(rd[n].planview.adjusted for n in order))
    env.observe('x', first.find('road').find('planView')[0].get('x'))

def late(env):
    """a road added after adjusting is placed, the others stay"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    kind = env.choice('new', ['following', 'preceding', 'connecting', 'apart'])
    pinned_old = env.bool('pinned')
    declared = env.bool('declared_before') if kind in ('following', 'preceding') else False
    def network(steps):
        a = RoadSpec('A', ('line', 'arc_ang'), counts=((1, 2), (2, 1)))
        if pinned_old: a.pin = pose(env, 'p')
        A = build_road(env, a, 1)
        B = build_road(env, RoadSpec('B', ('arc_len',), counts=((2, 1),)), 2)
        od = P.OpenDrive('n')
        def declare():
            if kind == 'following': B.add_successor(R, 7, S)
            elif kind == 'preceding': A.add_predecessor(R, 7, E)
            elif kind == 'connecting': B.add_successor(J, 9)
        A.add_successor(R, 2, S); B.add_predecessor(R, 1, E)
        if declared: declare()
        od.add_road(A); od.add_road(B)
        snap = None
        if steps:
            od.adjust_roads_and_lanes()
            if steps == 2: od.adjust_roads_and_lanes()
            snap = frozen(od.get_element())
        n = RoadSpec('N', ('line', 'arc_len'), counts=((2, 1), (1, 2)) if kind in ('following',) else ((1, 1), (1, 2)))
        if kind == 'apart': n.pin = pose(env, 'q')
        N = build_road(env, n, 7, road_type=9 if kind == 'connecting' else -1)
        if not declared: declare()
        if kind == 'following': N.add_predecessor(R, 2, E)
        elif kind == 'preceding': N.add_successor(R, 1, S)
        elif kind == 'connecting': N.add_predecessor(R, 2, E, lane_offset=env.int('off', -40, 40))
        od.add_road(N)
        od.adjust_roads_and_lanes()
        return od, snap
    od, snap = network(env.choice('adjusted_times', [1, 2]))
    got = od.get_element()
    if kind != 'apart' or pinned_old:
        once, _ = network(0)
        same_tree(env, got, once.get_element(), 'as adjusted only once')
    else:
        x, y, h = Placed(env, got.findall('road')[2], 2).start()
        env.check('the new road is at its place', env.and_(*at_pose(env, (x, y, h), pose(env, 'q'))))
    for o, g in zip(snap.findall('road'), got.findall('road')):
        same_tree(env, g.find('planView'), o.find('planView'), 'plan view of the old road'); env.check('length of the old road', env.eq(env.num(g.get('length')), env.num(o.get('length'))))
        for so, sg in zip(lane_map(env, o), lane_map(env, g)):
            for k in so:
                old, new = lane_links(env, so[k]), lane_links(env, sg[k])
                env.check('lane links of the old road stay', all(x in new for x in old)); env.check('no duplicate lane links', len(set(new)) == len(new))
    env.observe('x', got.findall('road')[2].find('planView')[0].get('x'))

def street(env):
    """twelve roads in a row"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R = P.ElementType.road
    n = 12; first = env.int('first_number', 0, 50000); pin = env.choice('pin', [None, 3])
    half = range(12); order = env.choice('order', ['up', 'down'])
    def network(steps):
        rd = []
        for i in range(n):
            sp = RoadSpec('R%d' % i, counts=((1, 2), (2, 1), (1, 2)) if i % 3 else ((1, 2),))
            if i == pin: sp.pin = pose(env, 'p')
            rd.append(build_road(env, sp, first + i))
        for i in range(n - 1): rd[i].add_successor(R, first + i + 1, S); rd[i + 1].add_predecessor(R, first + i, E)
        od = P.OpenDrive('n')
        for i in (half if order == 'up' else reversed(half)): od.add_road(rd[i])
        for _ in range(steps + 1): od.adjust_roads_and_lanes()
        return od.get_element()
    got = network(env.choice('times', [1, 3]))
    same_tree(env, got, network(0), 'as adjusted only once')
    env.observe('x', got.findall('road')[5].find('planView')[0].get('x'))

GROWTH = [((3, 4, 5), (2, 6), (1, 7, 0)), ((0, 1, 2, 3), (4,), (5, 6, 7)), ((5, 7, 6), (4, 3, 2, 1), (0,)), ((4, 3), (5, 2), (1, 6), (0, 7)), ((2,), (3,), (1,), (4, 0), (5,), (6,), (7,))]
def grown(env):
    """a street of eight roads with a connecting road, extended and adjusted bit by bit"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    first = env.int('first_number', 0, 50000); batches = env.choice('batches', GROWTH)
    pin = env.bool('pinned'); cr = env.choice('connecting', [None, 1, 6]); how = env.choice('between', ['both', 'twice', 'startpoints'])
    def network(steps):
        rd = []
        for i in range(8):
            sp = RoadSpec('R%d' % i, (('line',), ('arc_len',))[i % 2], counts=((1, 2), (2, 1), (1, 2)) if i % 3 and i != cr else ((1, 2),))
            if pin and i == batches[0][-1]: sp.pin = pose(env, 'p')
            rd.append(build_road(env, sp, first + i, 40 if i == cr else -1))
        od = P.OpenDrive('n'); have = set()
        for k, b in enumerate(batches):
            for i in b:
                od.add_road(rd[i]); have.add(i)
                for a in (i - 1, i):
                    if a in have and a + 1 in have:
                        if a == cr: rd[a].add_successor(R, first + a + 1, S); rd[a + 1].add_predecessor(J, 40)
                        elif a + 1 == cr: rd[a].add_successor(J, 40); rd[a + 1].add_predecessor(R, first + a, E)
                        else: rd[a].add_successor(R, first + a + 1, S); rd[a + 1].add_predecessor(R, first + a, E)
            if steps and k < len(batches) - 1:
                for _ in range(2 if how == 'twice' else 1): adjust(env, od, 'both' if how == 'twice' else how)
        od.adjust_roads_and_lanes()
        return od.get_element()
    got, once = network(True), network(False)
    for x in (got, once):
        for l in x.iter('lane'):
            for k in l.findall('link'): k[:] = sorted(k, key=lambda c: c.tag)
    same_tree(env, got, once, 'as adjusted only once')
    env.observe('x', got.findall('road')[5].find('planView')[0].get('x'))

HARNESSES = [again, late, street, grown]
