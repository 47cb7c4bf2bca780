"""C29: the layout does not depend on names, order of construction or the coordinate frame"""
from itertools import permutations
from .net import *
FUNCTIONS = ['opendrive.OpenDrive.add_road/add_junction/adjust_startpoints/adjust_road_wrt_neighbour/adjust_roads_and_lanes/get_element', 'opendrive.Road.add_predecessor/add_successor/add_neighbor', 'links.create_lane_links/are_roads_consecutive/_create_links_roads/_create_links_connecting_road/_get_related_lanesection', 'generators.create_road/create_junction/create_junction_roads', 'geometry.PlanView/Line/Arc/Spiral']
BOUNDS = 'a tree of 5 roads (two connecting roads with lane offsets, a direct successor, neighbours), a chain of 3 roads with reversed contacts, two connecting roads in a row, a connecting road back to its road, a generated T crossing, a ring of four roads that does not close; renamed to different symbolic ids 0..99999 (numbers or texts or words, in roads and links alike or not, roads and junction may share numbers), all orders of addition of the chain and 8 of the tree, links declared in another order, every road pinned in turn, moved by a symbolic translation (up to 1 000 000) and rotation (up to 7), lengths up to 50000 (crossing 50); a street of 12 roads'
OPTS = {'tiny_zero': True}

def parameters(env, kind):
    w = 3 if kind == 'tree' else env.real('w', 0.5, 5)
    return dict(w=w, l=env.real('l', 1, 50 if kind == 'crossing' else 50000), k=env.real('k', 0.01, 1), a=env.real('a', 0.1, 3), g=env.real('g', 0.001, 0.1), m=env.real('m', 1, 30), r=env.real('r', 1, 20))

NAMES = {'chain': 'ABC', 'tree': 'ABCKM', 'crossing': 'ABCXYZ', 'row': 'ABKM', 'turn': 'ABK'}
def build(env, kind, p, ids, order, swap=False, pin=None, pose=None):
    """{name: emitted road}, {name: emitted junction}"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    geo = {'A': [('line',), ('arc',)], 'B': [('spiral',)], 'C': [('line',)], 'K': [('arc',)], 'M': [('line',), ('spiral',)]}
    def g(n): return {'line': lambda: P.Line(p['l']), 'arc': lambda: P.Arc(p['k'], angle=p['a']), 'spiral': lambda: P.Spiral(0, p['g'], length=p['m'])}[n]()
    js = []; lid = getattr(ids, 'links', ids)
    at = lambda n: (pose or (0, 0, 0)) if n == pin else None
    if kind == 'crossing':
        length = lambda n: p['l'] if n == 'B' else p['m']
        rd = {n: pinned_at(env, P.create_straight_road(ids[n], length=length(n), lane_offset=p['w']), [P.Line(length(n))], at(n)) for n in 'ABC'}
        arms = [rd[n] for n in 'ABC']
        jr = P.create_junction_roads(arms, [0, env.pi/2, env.pi], p['r'], junction=ids['J'], startnum=ids['X'])
        rd.update(zip('XYZ', jr))
        js.append(P.create_junction(jr, ids['J'], arms))
    else:
        jn = ids['J']
        counts = {'A': (1, 2), 'B': (1, 2), 'C': (2, 1)} if kind == 'chain' else {'A': (0, 4), 'B': (0, 2), 'C': (0, 4), 'K': (0, 2), 'M': (0, 1)} if kind == 'tree' else {n: (1, 1) for n in 'ABKM'}
        rd = {}
        for n in NAMES[kind]:
            gs = [g(k) for k, in geo[n]]; rt = jn if n in 'KM' else -1
            rd[n] = pinned_at(env, P.create_road(gs, ids[n], *counts[n], road_type=rt, lane_width=p['w']), gs, at(n), rt)
        calls = []
        if kind == 'chain':
            calls = [('A', 'successor', 'B', S), ('B', 'predecessor', 'A', E), ('B', 'successor', 'C', E), ('C', 'successor', 'B', E)]
        elif kind == 'row':      # connecting roads in a row, the second one against the first
            calls = [('A', 'successor', 'J', None), ('K', 'predecessor', 'A', E), ('K', 'successor', 'M', E), ('M', 'successor', 'K', E), ('M', 'predecessor', 'B', S), ('B', 'predecessor', 'J', None)]
        elif kind == 'turn':     # a connecting road back to its road
            calls = [('A', 'successor', 'J', None), ('K', 'predecessor', 'A', E), ('K', 'successor', 'A', E), ('B', 'successor', 'A', S), ('A', 'predecessor', 'B', E)]
        else:
            calls = [('A', 'successor', 'J', None), ('K', 'predecessor', 'A', E), ('K', 'successor', 'B', S, -1), ('M', 'predecessor', 'A', E, -2), ('M', 'successor', 'C', S, -3),
                     ('C', 'predecessor', 'J', None), ('B', 'predecessor', 'J', None)]
        for c in (calls[::-1] if swap else calls):
            getattr(rd[c[0]], 'add_' + c[1])(J if c[2] == 'J' else R, lid[c[2]], c[3], *c[4:])
        rd['A'].add_neighbor(R, lid['C' if 'C' in rd else 'B'], P.Direction.opposite)
        if kind in ('tree', 'turn'):
            cons, normal = [rd[n] for n in 'KM' if n in rd], [rd[n] for n in 'ABC' if n in rd]
            js.append(P.create_junction(cons, jn, normal[::-1] if swap else normal))
    od = P.OpenDrive('n')
    for n in order: od.add_road(rd[n])
    for j in js: od.add_junction(j)
    od.adjust_roads_and_lanes()
    root = od.get_element()
    rs = root.findall('road')
    env.require('every road once', len(rs) == len(order))
    return dict(zip(order, rs)), root.findall('junction')

REFS = {('road', 'id'): 'road', ('road', 'junction'): 'junction', ('junction', 'id'): 'junction', ('connection', 'incomingRoad'): 'road', ('connection', 'connectingRoad'): 'road'}
def same(env, a, b, names, frame, path, parent=''):
    """b is a, renamed (names: [(text in a, id in b)]) and moved by frame"""
    env.require(path + ': same tag', a.tag == b.tag)
    env.require(path + ': same attributes', sorted(a.keys()) == sorted(b.keys()))
    for k in sorted(a.keys()):
        u, v = a.get(k), b.get(k); label = '%s: %s' % (path, k)
        ref = REFS.get((a.tag, k))
        if (a.tag, k) == ('road', 'id'): ref = 'road'
        if k == 'elementId': ref = 'junction' if a.get('elementType') == 'junction' else 'road'
        if ref and not (ref == 'junction' and u == '-1'):
            want = names[ref].get(u)
            env.check(label, want is not None and env.shows(v, want)); continue
        if env.is_num(u) and env.is_num(v):
            x, y = env.num(u), env.num(v)
            if a.tag == 'geometry' and k == 'hdg': env.check(label, env.eq_angle(x + frame[2], y)); continue
            if a.tag == 'geometry' and k in 'xy':
                px, py = env.num(a.get('x')), env.num(a.get('y')); c, s = env.cos(frame[2]), env.sin(frame[2])
                x = frame[0] + px*c - py*s if k == 'x' else frame[1] + px*s + py*c
            env.check(label, env.eq(x, y))
        else: env.check(label, u == v)
    ka, kb = list(a), list(b)
    if a.tag == 'link': ka, kb = [sorted(z, key=lambda e: e.tag) for z in (ka, kb)]
    env.require(path + ': as many children', len(ka) == len(kb))
    for x, y in zip(ka, kb): same(env, x, y, names, frame, path + '/' + x.tag, a.tag)

BASE = {'A': 1, 'B': 2, 'C': 3, 'K': 4, 'M': 5, 'X': 100, 'Y': 101, 'Z': 102, 'J': 50}
def compare(env, kind, one, two, names, frame=(0, 0, 0)):
    (ra, ja), (rb, jb) = one, two
    for n in NAMES[kind]: same(env, ra[n], rb[n], names, frame, 'road ' + n)
    env.require('as many junctions', len(ja) == len(jb))
    for x, y in zip(ja, jb): same(env, x, y, names, frame, 'junction')
    env.observe('x', ra['A'].find('planView')[0].get('x'))
def table(kind, ids): return {'road': {str(BASE[n]): ids[n] for n in NAMES[kind]}, 'junction': {str(BASE['J']): ids['J']}}

def street(env):
    """a street of twelve roads, some turned around: other ids, another order, another position"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R = P.ElementType.road
    n = 12; turned = env.choice('turned', [(), (2, 3, 7, 11)]); pin = env.choice('pin', [0, 8])
    L = [env.real('l%d' % i, 1, 50000) for i in range(n)]; k = env.real('k', 0.01, 1)
    def make(first, order, at):
        rd = []
        for i in range(n):
            g = P.Arc(k, length=L[i]) if i % 4 == 1 else P.Line(L[i])
            rd.append(pinned_at(env, P.create_road(g, first + i, 2 if turned else 1, 2), [P.Arc(k, length=L[i]) if i % 4 == 1 else P.Line(L[i])], at if i == pin else None))
        for i in range(n - 1):
            ca = S if i in turned else E; cb = E if i + 1 in turned else S
            (rd[i].add_successor if ca is E else rd[i].add_predecessor)(R, first + i + 1, cb); (rd[i + 1].add_successor if cb is E else rd[i + 1].add_predecessor)(R, first + i, ca)
        od = P.OpenDrive('n')
        for i in order: od.add_road(rd[i])
        od.adjust_roads_and_lanes()
        els = od.get_element().findall('road')
        env.require('every road once', len(els) == n)
        return dict(zip(order, els))
    what = env.choice('what', ['renamed', 'reordered', 'moved'])
    f = (env.real('X', -1000000, 1000000), env.real('Y', -1000000, 1000000), env.real('H', -7, 7)) if what == 'moved' else (0, 0, 0)
    first = env.int('first_number', 0, 2000) if what == 'renamed' else 1
    order = env.choice('order', SPREAD(n)[1:]) if what == 'reordered' else range(n)
    one = make(1, range(n), (0, 0, 0)); two = make(first, order, f)
    for i in range(n): same(env, one[i], two[i], {'road': {str(j + 1): first + j for j in range(n)}, 'junction': {}}, f, 'road %d' % i)
    env.observe('x', two[3].find('planView')[0].get('x'))

def renamed(env):
    """other ids"""
    kind = env.choice('network', ['chain', 'tree', 'crossing', 'row', 'turn'])
    p = parameters(env, kind); ns = NAMES[kind]
    ids = {n: env.int('id_' + n, 0, 99999) for n in ns}; ids['J'] = env.int('id_J', 0, 99999)
    if kind == 'crossing': ids['Y'], ids['Z'] = ids['X'] + 1, ids['X'] + 2
    for i, n in enumerate(ns):
        for m in ns[:i]:
            if n + m not in ('YX', 'ZX', 'ZY'): env.assume(env.not_(ids[n] == ids[m]))
    if kind != 'crossing': ids = as_given(env.choice('forms', FORMS), ids)
    pin = env.choice('pin', [None, 'B'])
    one = build(env, kind, p, BASE, ns, pin=pin); two = build(env, kind, p, ids, ns, pin=pin)
    compare(env, kind, one, two, table(kind, ids))

def ring(env):
    """roads in a ring that does not close: which of them closes it does not depend on their ids"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R = P.ElementType.road
    n = 4; order = env.choice('order', [(0, 1, 2, 3), (0, 2, 1, 3), (1, 0, 3, 2), (3, 1, 0, 2)]); pin = env.choice('pin', [None, 2])
    L = [env.real('l%d' % i, 1, 50000) for i in range(n)]; k = env.real('k', 0.01, 1)
    ids = {i: env.int('id%d' % i, 0, 99999) for i in range(n)}
    for i in range(n):
        for j in range(i): env.assume(env.not_(ids[i] == ids[j]))
    ids = as_given(env.choice('forms', FORMS), ids)
    def make(ids):
        lid = getattr(ids, 'links', ids)
        rd = []
        for i in range(n):
            g = lambda: P.Arc(k, length=L[i]) if i == 1 else P.Line(L[i])
            rd.append(pinned_at(env, P.create_road(g(), ids[i], 1, 2), [g()], (1, 2, 3) if i == pin else None))
        for i in range(n):
            rd[i].add_successor(R, lid[(i + 1) % n], S); rd[i].add_predecessor(R, lid[i - 1 if i else n - 1], E)
        od = P.OpenDrive('n')
        for i in order: od.add_road(rd[i])
        od.adjust_roads_and_lanes()
        els = od.get_element().findall('road')
        env.require('every road once', len(els) == n)
        return dict(zip(order, els))
    one = make({i: i + 1 for i in range(n)}); two = make(ids)
    for i in range(n): same(env, one[i], two[i], {'road': {str(j + 1): ids[j] for j in range(n)}, 'junction': {}}, (0, 0, 0), 'road %d' % i)
    env.observe('x', two[3].find('planView')[0].get('x'))

def reordered(env):
    """other order of roads and links, a road pinned (otherwise the first road added is)"""
    kind = env.choice('network', ['chain', 'tree', 'crossing', 'row', 'turn'])
    p = parameters(env, kind); ns = NAMES[kind]
    pin = env.choice('pin', list('ABC') if 'C' in ns or kind == 'crossing' else list(ns))
    some = {'chain': list(permutations(ns)), 'tree': [ns[::-1], 'KABCM', 'MKCBA', 'CMBKA', 'BKMAC', 'KMABC', 'ACKBM', 'BACMK'], 'crossing': [ns[::-1], 'XAYBZC', 'CZBYAX', 'BCAZXY'], 'row': ['KMAB', 'MKBA', 'BMAK', 'AMKB', 'MABK'], 'turn': list(permutations(ns))}[kind]
    if env.thorough and kind == 'tree': some = list(permutations(ns))
    order = env.choice('order', some)
    one = build(env, kind, p, BASE, ns, pin=pin); two = build(env, kind, p, BASE, order, env.bool('swap'), pin=pin)
    compare(env, kind, one, two, table(kind, BASE))

def moved(env):
    """another position"""
    kind = env.choice('network', ['chain', 'tree', 'crossing', 'row', 'turn'])
    p = parameters(env, kind); ns = NAMES[kind]
    pin = env.choice('pin', 'ABC' if kind == 'crossing' else ns)
    f = (env.real('X', -1000000, 1000000), env.real('Y', -1000000, 1000000), env.real('H', -7, 7))
    one = build(env, kind, p, BASE, ns, pin=pin); two = build(env, kind, p, BASE, ns, pin=pin, pose=f)
    compare(env, kind, one, two, table(kind, BASE), f)

HARNESSES = [renamed, ring, reordered, moved, street]
