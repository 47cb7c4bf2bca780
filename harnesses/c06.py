"""C06: every road is placed exactly once or the network is reported as undefined."""
from itertools import permutations
from .net import *

FUNCTIONS = ['opendrive.OpenDrive.add_road/adjust_roads_and_lanes/adjust_startpoints/adjust_road_wrt_neighbour/get_element', 'opendrive.Road', 'geometry.PlanView', 'links.create_lane_links and helpers']
BOUNDS = 'up to 3 roads in chains, rings and disconnected groups with any subset pinned, in every order of addition; a connecting road between two roads (also with a further road, a second connecting road) with any subset pinned; road ids and junction id symbolic integers 0..99999 (road ids different, the junction id free), as numbers, text or words; two connecting roads side by side with two roads behind (6 choices of pinned roads, 28 orders of addition; thorough 144); a connecting road whose other end leads into a junction with symbolic id, next to two other roads, in every order; twelve roads in one to three rows, with 7 choices of pinned roads and 4 orders of addition'
BOUNDS_THOROUGH = '4 roads in chains and groups'
OUTSIDE = 'links declared on one side only or naming roads that are not in the network; road links that contradict pinned positions are placed but need not meet'
THOROUGH_S = 840

def adjust_and_check(env, roads, specs, order, expect, pinned, adjust=None):
    P = env.P
    od = P.OpenDrive('n')
    for i in order: od.add_road(roads[i])
    r = env.raises(adjust(od) if adjust else od.adjust_roads_and_lanes)
    if not expect:
        env.check('UndefinedRoadNetwork is raised', r == 'UndefinedRoadNetwork'); return None
    env.require('adjusting succeeds (%s)' % r, r is None)
    els = od.get_element().findall('road')
    env.require('all roads in the document', len(els) == len(roads))
    pl = [None]*len(roads)
    for k, i in enumerate(order):
        pl[i] = Placed(env, els[k], len(specs[i].kinds))
        env.check('id', env.shows(els[k].get('id'), roads[i].id))
        tot = 0
        for p in pl[i].ps:
            env.check('s', env.eq(p.s, tot)); tot = tot + p.L
        env.check('length', env.eq(env.num(els[k].get('length')), tot))
        if i in pinned:
            x, y, h = pinned[i]; sx, sy, sh = pl[i].start()
            env.check('pinned road keeps its start', env.and_(env.eq(sx, x), env.eq(sy, y), env.eq_angle(sh, h)))
        env.observe('x', pl[i].ps[0].x)
    return pl

def idents(env, names, junction=False):
    """different symbolic ids, as numbers or text, and a junction id"""
    text = env.choice('text_ids', [False, True, 'words'])
    if text == 'words': return WORDS[:len(names)] if env.bool('junction word') else WORDS[2:2 + len(names)], env.choice('junction', ['1', 1, 'main street'])
    ids = [env.int('id_' + n, 0, 99999) for n in names]
    for i in range(len(ids)):
        for j in range(i): env.assume(env.not_(ids[i] == ids[j]))
    j = env.int('id_junction', 0, 99999)
    if junction == 'own': pass
    if text: ids = [str(i) for i in ids]
    if env.bool('text_junction'): j = str(j)
    return ids, j

def junction_ids(env):
    """ids never matter: a connecting road between two roads, symbolic ids"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    sp = [RoadSpec('A'), RoadSpec('K'), RoadSpec('B')]
    pin = env.choice('pin', [None, 0, 1, 2])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    ids, j = idents(env, 'AKB')
    roads = [build_road(env, sp[0], ids[0]), build_road(env, sp[1], ids[1], road_type=env.choice('road_type', [1, 0])), build_road(env, sp[2], ids[2])]
    roads[0].add_successor(P.ElementType.junction, j)
    roads[2].add_predecessor(P.ElementType.junction, j)
    lk = [str(i) for i in ids] if env.bool('links_as_text') else ids
    roads[1].add_predecessor(P.ElementType.road, lk[0], E)
    roads[1].add_successor(P.ElementType.road, lk[2], S)
    adjust_and_check(env, roads, sp, env.choice('order', list(permutations(range(3)))), True, {pin: sp[pin].pin} if pin is not None else {})

def chain_ids(env):
    """ids never matter: three linked roads, the first and last ending in a junction, symbolic ids"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    sp = [RoadSpec('A'), RoadSpec('B', ('line', 'line')), RoadSpec('C')]
    pin = env.choice('pin', [None, 1])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    ids, j = idents(env, 'ABC')
    roads = [build_road(env, s, i) for s, i in zip(sp, ids)]
    for a, b in ((0, 1), (1, 2)):
        roads[a].add_successor(P.ElementType.road, ids[b], S); roads[b].add_predecessor(P.ElementType.road, ids[a], E)
    roads[0].add_predecessor(P.ElementType.junction, j)
    if env.bool('both_ends'): roads[2].add_successor(P.ElementType.junction, j)
    adjust_and_check(env, roads, sp, env.choice('order', [(0, 1, 2), (2, 1, 0), (1, 2, 0)]), True, {pin: sp[pin].pin} if pin is not None else {})

def _groups(env, n):
    """n roads in a row, some links missing or leading into an empty junction, some pinned"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    sp = [RoadSpec('ABCD'[i]) for i in range(n)]
    pins = {}
    for i in range(n):
        if env.bool('pin%d' % i): pins[i] = sp[i].pin = pose(env, 'p%d' % i)
    roads = [build_road(env, s, i) for i, s in enumerate(sp)]
    comp = list(range(n)); back = env.bool('reversed')
    for i in range(n - 1):
        link = env.choice('link%d' % i, ['road', 'none', 'junction'])
        if link == 'road':
            if back: roads[i].add_predecessor(P.ElementType.road, i + 1, E); roads[i+1].add_successor(P.ElementType.road, i, S)
            else: roads[i].add_successor(P.ElementType.road, i + 1, S); roads[i+1].add_predecessor(P.ElementType.road, i, E)
            comp[i+1] = comp[i]
        elif link == 'junction':
            (roads[i].add_predecessor if back else roads[i].add_successor)(P.ElementType.junction, i + 1)
    order = env.choice('order', list(permutations(range(n))))
    if pins: ok = set(comp) == set(comp[i] for i in pins)
    else: ok = len(set(comp)) == 1
    adjust_and_check(env, roads, sp, order, ok, pins)

def groups2(env):
    """two roads, linked or not"""
    _groups(env, 2)
def groups3(env):
    """three roads, linked or not"""
    _groups(env, 3)
def groups4(env):
    """four roads, linked or not"""
    _groups(env, 4)
groups4.thorough_only = True

def ring(env):
    """two or three roads in a ring"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    n = env.choice('n', [2, 3])
    sp = [RoadSpec('ABC'[i], ('arc_ang',)) for i in range(n)]
    pins = {}
    for i in range(n):
        if env.bool('pin%d' % i): pins[i] = sp[i].pin = pose(env, 'p%d' % i)
    roads = [build_road(env, s, 7 + i) for i, s in enumerate(sp)]
    for i in range(n):
        k = (i + 1) % n
        roads[i].add_successor(P.ElementType.road, 7 + k, S); roads[k].add_predecessor(P.ElementType.road, 7 + i, E)
    adjust_and_check(env, roads, sp, env.choice('order', list(permutations(range(n)))), True, pins)

def connecting(env):
    """roads and connecting roads, any subset pinned, one road apart or not"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    names = 'ABCKM'
    sp = [RoadSpec(n) for n in names]
    pins = {}
    for i in range(5):
        if env.bool('pin' + names[i]): pins[i] = sp[i].pin = pose(env, 'p' + names[i])
    roads = [build_road(env, s, 11 + i, road_type=12 if i > 2 else -1) for i, s in enumerate(sp)]
    A, B, C, K, M = roads
    ca, cb = env.choice('contacts', [(E, S), (S, E), (E, E), (S, S)])
    (A.add_successor if ca is E else A.add_predecessor)(P.ElementType.junction, 12)
    (B.add_successor if cb is E else B.add_predecessor)(P.ElementType.junction, 12)
    K.add_predecessor(P.ElementType.road, 11, ca); K.add_successor(P.ElementType.road, 12, cb)
    # the second connecting road leads from A to C or (forming a group of its own) from C nowhere else
    apart = env.bool('apart')
    C.add_predecessor(P.ElementType.junction, 12)
    if apart:
        M.add_successor(P.ElementType.road, 13, S)
        comp = [0, 0, 1, 0, 1]
    else:
        M.add_predecessor(P.ElementType.road, 11, ca); M.add_successor(P.ElementType.road, 13, S)
        comp = [0]*5
    orders = list(permutations(range(5)))
    order = env.choice('order', orders[::5] if env.thorough else [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (3, 4, 0, 1, 2), (2, 0, 3, 1, 4)])
    if pins: ok = set(comp) == set(comp[i] for i in pins)
    else: ok = len(set(comp)) == 1
    adjust_and_check(env, roads, sp, order, ok, pins)

def parallel(env):
    """connecting roads side by side between two roads, further roads behind"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    names = 'ABKMFG'
    sp = [RoadSpec(n) for n in names]
    back = env.bool('leading_back')
    pins = {}
    for i in env.choice('pins', [(), (0,), (2,), (5,), (0, 5), (1, 3)]): pins[i] = sp[i].pin = pose(env, 'p' + names[i])
    roads = [build_road(env, s, 21 + i, road_type=30 if i in (2, 3) else -1) for i, s in enumerate(sp)]
    A, B, K, M, F, G = roads
    A.add_successor(P.ElementType.junction, 30); B.add_predecessor(P.ElementType.junction, 30)
    K.add_predecessor(P.ElementType.road, 21, E); K.add_successor(P.ElementType.road, 22, S)
    if back: M.add_predecessor(P.ElementType.road, 22, S); M.add_successor(P.ElementType.road, 21, E)
    else: M.add_predecessor(P.ElementType.road, 21, E); M.add_successor(P.ElementType.road, 22, S)
    for a, b in ((1, 4), (4, 5)): roads[a].add_successor(P.ElementType.road, 21 + b, S); roads[b].add_predecessor(P.ElementType.road, 21 + a, E)
    orders = list(permutations(range(6)))
    adjust_and_check(env, roads, sp, env.choice('order', orders[::5] if env.thorough else orders[::29] + [(4, 5, 2, 3, 0, 1), (5, 4, 2, 3, 0, 1), (5, 4, 3, 2, 1, 0)]), True, pins)

def junctions_apart(env):
    """a connecting road whose other end leads into a junction: junction ids are no road ids"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    sp = [RoadSpec(n) for n in 'AKCD']
    pins = {}
    for i in env.choice('pins', [(2,), (0, 2), (1, 3), (0, 1, 2)]): pins[i] = sp[i].pin = pose(env, 'p%d' % i)
    text = env.bool('text'); jn = env.int('junction', 0, 99999)
    roads = [build_road(env, s, 1 + i, road_type=7 if i == 1 else -1) for i, s in enumerate(sp)]
    A, K, C, D = roads
    if text: jn = str(jn)
    ca = env.choice('contact', [E, S])
    (A.add_successor if ca is E else A.add_predecessor)(J, 7)
    if env.bool('ends'): K.add_predecessor(R, 1, ca); K.add_successor(J, jn)
    else: K.add_successor(R, 1, ca); K.add_predecessor(J, jn)
    C.add_successor(R, 4, S); D.add_predecessor(R, 3, E)
    comp = [0, 0, 1, 1]
    pl = adjust_and_check(env, roads, sp, env.choice('order', list(permutations(range(4)))), set(comp) == set(comp[i] for i in pins), pins)
    if pl is not None:
        if not {2, 3} <= set(pins): meet(env, 'the roads apart', pl[3], S, pl[2], E)
        if not {0, 1} <= set(pins):
            ck = S if K.predecessor.element_type is R else E
            meet(env, 'the connecting road', pl[1], ck, pl[0], ca)

def street(env):
    """twelve roads in up to three rows"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    n = 12
    sp = [RoadSpec('R%d' % i) for i in range(n)]
    pins = {}
    for i in env.choice('pins', [(), (0,), (6,), (11,), (2, 10), (0, 5, 9), (1, 4, 7, 11)]): pins[i] = sp[i].pin = pose(env, 'p%d' % i)
    cuts = env.choice('cuts', [(), (3,), (8,), (4, 8), (10,)])
    first = env.int('first_number', 0, 50000)
    roads = [build_road(env, s, i + first) for i, s in enumerate(sp)]
    comp = []
    for i in range(n):
        comp.append(i if i == 0 or i - 1 in cuts else comp[-1])
        if i and i - 1 not in cuts:
            roads[i-1].add_successor(P.ElementType.road, i + first, S); roads[i].add_predecessor(P.ElementType.road, i - 1 + first, E)
        elif i: roads[i-1].add_successor(P.ElementType.junction, i)
    if pins: ok = set(comp) == set(comp[i] for i in pins)
    else: ok = len(set(comp)) == 1
    adjust_and_check(env, roads, sp, env.choice('order', SPREAD(n)), ok, pins)

HARNESSES = [junction_ids, chain_ids, groups2, groups3, groups4, ring, connecting, parallel, junctions_apart, street]
