"""C05: linked roads meet."""
from itertools import permutations
from .net import *

FUNCTIONS = ['opendrive.OpenDrive.add_road/adjust_startpoints/adjust_road_wrt_neighbour/adjust_roads_and_lanes/get_element', 'opendrive.Road.add_successor/add_predecessor/get_element', 'geometry.PlanView (all methods)', 'geometry.Line/Arc/Spiral/ParamPoly3 placement', 'links._Link']
BOUNDS = 'chains of 2 and 3 directly linked roads in every orientation, order of addition and choice of pinned road, their free ends unlinked or leading into junctions; one connecting road between two roads with every combination of contact ends, order and pinned road; two connecting roads one after the other in every orientation; junctions of 3 roads with 2 connecting roads and a following road in 24 orders of addition; symbolic geometry parameters, pinned poses and lane offsets (integers -40..40); a street of 12 roads and a junction of 22 roads with 7 connecting roads, each in four orders of addition; roads linked to either end of a road with given headings'
BOUNDS_THOROUGH = 'chains of 4 roads; all 120 orders of the junction'
OUTSIDE = 'road links forming a cycle; given headings in a road that is placed after another'
THOROUGH_S = 840

def _chain(env, n, kinds, lanes=False):
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    names = 'ABCD'[:n]
    sp = [RoadSpec(names[i], kinds[i]) for i in range(n)]
    pin = env.choice('pin', [None] + list(range(n)))
    if pin is not None: sp[pin].pin = pose(env, 'p')
    rev = [env.bool('rev%d' % i) for i in range(n)]
    ids = [3, 10, 4, 7][:n]
    roads = [build_road(env, s, i) for s, i in zip(sp, ids)]
    order = env.choice('order', list(permutations(range(n))))
    # the ends of the row may lead into junctions, named before or after the other links
    free = env.choice('free ends', ['none', 'first', 'last']) if n == 2 else ['none', 'first', 'last'][(2*order[0] + order[1]) % 3]
    def ends():
        for r, turned in ((roads[0], rev[0]), (roads[-1], not rev[-1])): (r.add_successor if turned else r.add_predecessor)(P.ElementType.junction, ids[1])
    if free == 'first': ends()
    edges = []
    for i in range(n - 1):
        ca = S if rev[i] else E; cb = E if rev[i+1] else S
        edges.append((i, ca, i+1, cb))
        for r, c, o, oc in ((roads[i], ca, i+1, cb), (roads[i+1], cb, i, ca)):
            (r.add_successor if c is E else r.add_predecessor)(P.ElementType.road, ids[o], oc)
    if free == 'last': ends()
    od = P.OpenDrive('n')
    for i in order: od.add_road(roads[i])
    od.adjust_startpoints()
    el = road_elements(env, od.get_element())
    pl = [Placed(env, el[str(ids[i])], len(kinds[i])) for i in range(n)]
    for i, ca, j, cb in edges: meet(env, 'contact %s-%s' % (names[i], names[j]), pl[i], ca, pl[j], cb)
    first = pin if pin is not None else order[0]
    x, y, h = sp[first].pin or (0, 0, 0)
    sx, sy, sh = pl[first].start()
    env.check('reference road keeps its start', env.and_(env.eq(sx, x), env.eq(sy, y), env.eq_angle(sh, h)))

def chain2(env):
    """two linked roads, four kinds of geometry"""
    k = env.choice('kinds', [(('line',), ('arc_len',)), (('arc_ang', 'line'), ('spiral',)), (('spiral', 'line'), ('line', 'arc_len'))])
    _chain(env, 2, k)
def chain3(env):
    """three linked roads"""
    _chain(env, 3, (('arc_ang',), ('line',), ('arc_len',)) if not env.thorough else (('arc_ang', 'line'), ('arc_len', 'line'), ('spiral',)))
def chain4(env):
    """four linked roads"""
    _chain(env, 4, (('line',), ('arc_ang',), ('line',), ('arc_len',)))
chain4.thorough_only = True

def connecting(env):
    """one connecting road between two roads, any contacts, with lane offsets"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    A, K, B = RoadSpec('A', ('arc_ang',)), RoadSpec('K', ('line', 'arc_len')), RoadSpec('B', ('line',))
    sp = [A, K, B]
    pin = env.choice('pin', [None, 0, 1, 2])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    ca, cb = env.choice('ca', [E, S]), env.choice('cb', [S, E])
    no = env.int('offset_pred', -40, 40)
    ns = env.int('offset_suc', -40, 40)
    ids = [1, 100, 2]
    roads = [build_road(env, A, 1), build_road(env, K, 100, road_type=5), build_road(env, B, 2)]
    junction = env.choice('junction_id', [5, 2, 100])
    for r, c in ((roads[0], ca), (roads[2], cb)):
        (r.add_successor if c is E else r.add_predecessor)(P.ElementType.junction, junction)
    order = env.choice('order', list(permutations(range(3))))
    if order[0] != 2: roads[1].add_predecessor(P.ElementType.road, 1, ca, no)
    roads[1].add_successor(P.ElementType.road, 2, cb, ns)
    if order[0] == 2: roads[1].add_predecessor(P.ElementType.road, 1, ca, no)
    if order[1] == 1:
        for r, c in ((roads[0], ca), (roads[2], cb)): (r.add_predecessor if c is E else r.add_successor)(P.ElementType.junction, 100)
    od = P.OpenDrive('n')
    for i in order: od.add_road(roads[i])
    od.adjust_startpoints()
    el = road_elements(env, od.get_element())
    a, k, b = [Placed(env, el[str(i)], len(s.kinds)) for i, s in zip(ids, sp)]
    meet(env, 'predecessor contact', k, S, a, ca, no if ca is E else -no)
    meet(env, 'successor contact', k, E, b, cb, ns if cb is S else -ns)

def junction(env):
    """three roads, two connecting roads, a following road"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    sp = dict(A=RoadSpec('A', ('line',)), B=RoadSpec('B', ('arc_ang',)), C=RoadSpec('C', ('line',)), D=RoadSpec('D', ('line',)), K=RoadSpec('K', ('arc_len',)), M=RoadSpec('M', ('line',)))
    pin = env.choice('pin', [None, 'A', 'B', 'M', 'D'])
    if pin: sp[pin].pin = pose(env, 'p')
    ids = dict(A=1, B=2, C=3, D=4, K=100, M=101)
    rd = {n: build_road(env, s, ids[n], road_type=9 if n in 'KM' else -1) for n, s in sp.items()}
    rd['A'].add_successor(P.ElementType.junction, 9)
    for n in 'BC': rd[n].add_predecessor(P.ElementType.junction, 9)
    rd['B'].add_successor(P.ElementType.road, 4, S); rd['D'].add_predecessor(P.ElementType.road, 2, E)
    n1 = env.int('offset_pred', -40, 40); n2 = env.int('offset_suc', -40, 40)
    rd['K'].add_predecessor(P.ElementType.road, 1, E); rd['K'].add_successor(P.ElementType.road, 2, S, n2)
    rd['M'].add_predecessor(P.ElementType.road, 1, E, n1); rd['M'].add_successor(P.ElementType.road, 3, S)
    od = P.OpenDrive('n')
    perms = list(permutations('ABCKM'))
    if not env.thorough: perms = perms[::5]
    order = env.choice('order', perms)
    where = env.choice('where_D', [0, 5])
    for n in order[:where] + ('D',) + order[where:]: od.add_road(rd[n])
    od.adjust_startpoints()
    el = road_elements(env, od.get_element())
    p = {n: Placed(env, el[str(ids[n])], 1) for n in ids}
    meet(env, 'K after A', p['K'], S, p['A'], E); meet(env, 'K before B', p['K'], E, p['B'], S, n2)
    meet(env, 'M after A', p['M'], S, p['A'], E, n1); meet(env, 'M before C', p['M'], E, p['C'], S)
    meet(env, 'B before D', p['D'], S, p['B'], E)

def connecting_chain(env):
    """two connecting roads one after the other between two roads"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    sp = dict(A=RoadSpec('A', ('arc_ang',)), K=RoadSpec('K', ('arc_len',)), M=RoadSpec('M', ('line',)), B=RoadSpec('B', ('line',)))
    pin = env.choice('pin', [None, 'A', 'K', 'M', 'B'])
    if pin: sp[pin].pin = pose(env, 'p')
    ids = dict(A=1, K=100, M=101, B=2)
    rd = {n: build_road(env, s, ids[n], road_type=9 if n in 'KM' else -1) for n, s in sp.items()}
    ca, cb = env.choice('ca', [E, S]), env.choice('cb', [S, E])
    km, mk = env.choice('contact', [(E, S), (E, E), (S, S), (S, E)])     # the ends of K and M that meet
    rd['A'].add_successor(J, 9) if ca is E else rd['A'].add_predecessor(J, 9)
    rd['B'].add_successor(J, 9) if cb is E else rd['B'].add_predecessor(J, 9)
    oa, ob = env.int('offset_a', -40, 40), env.int('offset_b', -40, 40)
    def link(n, at, *a): getattr(rd[n], 'add_successor' if at is E else 'add_predecessor')(R, *a)
    other = {S: E, E: S}
    link('K', other[km], 1, ca, oa); link('K', km, 101, mk); link('M', mk, 100, km); link('M', other[mk], 2, cb, ob)
    od = P.OpenDrive('n')
    for n in env.choice('order', ['AKMB', 'BMKA', 'MAKB', 'KBMA'] if not env.thorough else list(permutations('AKMB'))): od.add_road(rd[n])
    od.adjust_startpoints()
    el = road_elements(env, od.get_element())
    p = {n: Placed(env, el[str(ids[n])], 1) for n in ids}
    meet(env, 'K and A', p['K'], other[km], p['A'], ca, oa if other[km] is not ca else -oa)
    meet(env, 'K and M', p['K'], km, p['M'], mk)
    meet(env, 'M and B', p['M'], other[mk], p['B'], cb, ob if other[mk] is not cb else -ob)

def street(env):
    """twelve roads in a row, some the other way round"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    n = 12
    sp = [RoadSpec('R%d' % i) for i in range(n)]
    pin = env.choice('pin', [None, 0, 7])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    turned = env.choice('turned', [(), (1, 2, 6, 11), (0, 3, 10)])
    ids = env.choice('ids', [list(range(1, n + 1)), [14, 2, 30, 1, 9, 10, 12, 100, 3, 21, 20, 11]])
    roads = [build_road(env, s, i) for s, i in zip(sp, ids)]
    edges = []
    for i in range(n - 1):
        ca = S if i in turned else E; cb = E if i + 1 in turned else S
        edges.append((i, ca, i + 1, cb))
        for r, c, o, oc in ((roads[i], ca, i + 1, cb), (roads[i + 1], cb, i, ca)):
            (r.add_successor if c is E else r.add_predecessor)(P.ElementType.road, ids[o], oc)
    od = P.OpenDrive('n')
    order = env.choice('order', SPREAD(n))
    for i in order: od.add_road(roads[i])
    od.adjust_startpoints()
    els = od.get_element().findall('road')
    env.require('every road once', len(els) == n)
    pl = [None]*n
    for k, i in enumerate(order): pl[i] = Placed(env, els[k], 1)
    for i, ca, j, cb in edges: meet(env, 'contact %d-%d' % (i, j), pl[i], ca, pl[j], cb)
    first = pin if pin is not None else order[0]
    x, y, h = sp[first].pin or (0, 0, 0)
    sx, sy, sh = pl[first].start()
    env.check('reference road keeps its start', env.and_(env.eq(sx, x), env.eq(sy, y), env.eq_angle(sh, h)))

def hub(env):
    """a road, seven connecting roads and seven roads they lead to, each followed by another one"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    m = 7
    first = env.int('first_number', 1, 50000)
    sp = [RoadSpec('A')] + [RoadSpec('K%d' % i, ('arc_ang',)) for i in range(m)] + [RoadSpec('B%d' % i) for i in range(m)] + [RoadSpec('C%d' % i) for i in range(m)]
    pin = env.choice('pin', [None, 0, 3, 10, 20])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    n = len(sp)
    K, B, C = range(1, m + 1), range(m + 1, 2*m + 1), range(2*m + 1, 3*m + 1)
    rd = [build_road(env, s, i + first, road_type=3 if i in K else -1) for i, s in enumerate(sp)]
    rd[0].add_successor(J, 3)
    off = [env.int('offset%d' % i, -40, 40) for i in range(m)]
    for k, b, c, o in zip(K, B, C, off):
        rd[b].add_predecessor(J, 3); rd[b].add_successor(R, c + first, S); rd[c].add_predecessor(R, b + first, E)
        rd[k].add_predecessor(R, first, E, o); rd[k].add_successor(R, b + first, S)
    od = P.OpenDrive('n')
    order = env.choice('order', SPREAD(n))
    for i in order: od.add_road(rd[i])
    od.adjust_startpoints()
    els = od.get_element().findall('road')
    pl = [None]*n
    for k, i in enumerate(order): pl[i] = Placed(env, els[k], 1)
    for k, b, c, o in zip(K, B, C, off):
        meet(env, 'connecting road %d starts' % k, pl[k], S, pl[0], E, o)
        meet(env, 'connecting road %d ends' % k, pl[k], E, pl[b], S)
        meet(env, 'road after %d' % b, pl[c], S, pl[b], E)

def headings(env):
    """roads linked to either end of a road whose geometries have given headings"""
    P = env.P; R = P.ElementType.road; S, E = P.ContactPoint.start, P.ContactPoint.end
    kinds = env.choice('kinds', [('line',), ('line', 'line'), ('arc_len', 'line')])
    pv = P.PlanView(*pose(env, 'p')) if env.bool('pinned') else P.PlanView()
    for i, k in enumerate(kinds): pv.add_geometry(make_geom(env, k, 'A%d' % i), env.real('hd%d' % i, -7, 7))
    a = P.Road(3, pv, lanes(env, (1, 1)))
    cs, ce = env.choice('at_start', [None, S, E]), env.choice('at_end', [None, S, E])
    od = P.OpenDrive('n'); od.add_road(a); edges = []
    for mine, c, i in ((S, cs, 7), (E, ce, 12)):
        if c is None: continue
        b = build_road(env, RoadSpec('B%d' % i, ('arc_len',)), i)
        (a.add_successor if mine is E else a.add_predecessor)(R, i, c); (b.add_successor if c is E else b.add_predecessor)(R, 3, mine)
        od.add_road(b); edges.append((i, c, mine))
    od.adjust_roads_and_lanes()
    el = road_elements(env, od.get_element()); pl = Placed(env, el['3'], len(kinds))
    for i, c, mine in edges: meet(env, 'contact %d' % i, pl, mine, Placed(env, el[str(i)], 1), c)
    for i in range(len(kinds)): env.check('given heading %d' % i, env.eq_angle(pl.ps[i].h, env.real('hd%d' % i, -7, 7)))

HARNESSES = [chain2, chain3, chain4, connecting, junction, connecting_chain, street, hub, headings]
