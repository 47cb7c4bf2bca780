"""C09: lane links of connecting roads."""
from itertools import permutations
from .net import *

FUNCTIONS = ['opendrive.OpenDrive.add_road/adjust_roads_and_lanes', 'opendrive.Road.add_successor/add_predecessor', 'links.create_lane_links/_create_links_connecting_road/_get_related_lanesection', 'lane.Lane.add_link/get_element', 'links._Links/_Link']
BOUNDS = 'one connecting road with 1 or 2 lane sections (0..2 lanes per side, sections different) between two roads (also with only one of the two links), every combination of contact ends, every order of addition, either link named first; two connecting roads with a common incoming road and a further linked road; one connecting road from a road back to the same one, every combination of ends; two connecting roads one after the other (all four ways to meet, named by both or by one of them, with lane offsets) between two roads; road, connecting road and junction ids symbolic integers 0..99999 (roads different, junction free), as numbers or texts or words, in roads and links alike or not; lane offsets symbolic integers -40..40; a connecting road whose other end leads into a junction with symbolic id; a road with 8 connecting roads to 8 other roads, up to 11 lanes per side'
BOUNDS_THOROUGH = '0..3 lanes per side, up to 3 lane sections'

def distinct_ids(env, names):
    ids = {n: env.int('id_' + n, 0, 99999) for n in names}
    ns = list(names)
    for i in range(len(ns)):
        for j in range(i): env.assume(env.not_(ids[ns[i]] == ids[ns[j]]))
    jn = env.int('id_junction', 0, 99999)
    form = env.choice('forms', FORMS)
    return as_given(form, ids), jn if form[0] == 'n' else str(jn)

def pinned(env, i):
    pv = env.P.PlanView(10*i, i, 0); pv.add_geometry(env.P.Line(1)); return pv

def road(env, k, id, counts, road_type=-1): return env.P.Road(id, pinned(env, k), lanes(env, *counts, tag=k), road_type=road_type)

def join_roads(env, K, roads, ids, jn, pred=None, suc=None, swap=False):
    """pred, suc: (road name, contact, lane offset); swap: the successor is named first"""
    P = env.P; ids = getattr(ids, 'links', ids)
    if swap and suc: K.add_successor(P.ElementType.road, ids[suc[0]], suc[1], suc[2])
    if pred: K.add_predecessor(P.ElementType.road, ids[pred[0]], pred[1], pred[2])
    if suc and not swap: K.add_successor(P.ElementType.road, ids[suc[0]], suc[1], suc[2])
    for x in (pred, suc):
        if x is None: continue
        r = roads[x[0]]
        if r.road_type != -1: continue      # connecting roads know each other
        if x[1] is P.ContactPoint.end:
            if r.successor is None: r.add_successor(P.ElementType.junction, jn)
        elif r.predecessor is None: r.add_predecessor(P.ElementType.junction, jn)

def expected(env, counts, pred=None, suc=None):
    """{(section, lane): {kind: lane of the neighbouring road}}"""
    P = env.P; ex = {}
    def put(sec, kind, sign, off):
        nl, nr = counts[sec]
        for k in list(range(1, nl + 1)) + list(range(-nr, 0)): ex.setdefault((sec, k), {})[kind] = sign*(k + off)
    if pred: put(0, 'predecessor', 1 if pred[1] is P.ContactPoint.end else -1, pred[2])
    if suc: put(len(counts) - 1, 'successor', 1 if suc[1] is P.ContactPoint.start else -1, suc[2])
    return ex

def section_counts(env, top):
    n = env.choice('nsec', [1, 2] if not env.thorough else [1, 2, 3])
    return tuple((env.choice('nl%d' % i, range(top + 1)), env.choice('nr%d' % i, range(top + 1))) if i == 0 else ((1, 2), (2, 0))[i - 1] for i in range(n))

def single(env):
    """one connecting road between two roads"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKB')
    counts = section_counts(env, 2 if not env.thorough else 3)
    which = env.choice('links', ['both', 'pred', 'suc'])
    pred = suc = None
    if which != 'suc': pred = ('A', env.choice('ca', [E, S]), env.int('offset_pred', -40, 40) if env.bool('off_pred') else 0)
    if which != 'pred': suc = ('B', env.choice('cb', [S, E]), env.int('offset_suc', -40, 40) if env.bool('off_suc') else 0)
    rd = {'A': road(env, 0, ids['A'], ((1, 2), (2, 1))), 'B': road(env, 1, ids['B'], ((2, 1), (1, 2)))}
    rd['K'] = road(env, 2, ids['K'], counts, road_type=env.choice('road_type', [7, 0]))
    order = env.choice('order', list(permutations('AKB')) if len(counts) == 1 and counts[0] == (1, 2) else [('A', 'K', 'B'), ('B', 'K', 'A'), ('A', 'B', 'K')])
    join_roads(env, rd['K'], rd, ids, jn, pred, suc, swap=order[0] == 'B' or order == ('A', 'B', 'K'))
    od = P.OpenDrive('n')
    for n in order: od.add_road(rd[n])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    check_links(env, 'connecting road', els['K'], counts, expected(env, counts, pred, suc))
    check_links(env, 'road A', els['A'], ((1, 2), (2, 1)), {})
    check_links(env, 'road B', els['B'], ((2, 1), (1, 2)), {})
    env.observe('n', counts[0][0])

def several(env):
    """two connecting roads from road A to B and C; C is followed by D"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKBMCD') if env.thorough else ({n: i for n, i in zip('AKBMCD', env.choice('ids', [(1, 2, 3, 4, 5, 6), (11, 1, 2, 0, 10, 20)]))}, env.choice('jn', [1, 3, 50]))
    ca, cb, cc = env.choice('ca', [E, S]), env.choice('cb', [S, E]), S
    pK, sK = ('A', ca, env.int('offset1', -40, 40)), ('B', cb, env.int('offset2', -40, 40))
    pM, sM = ('A', ca, 0), ('C', E, env.int('offset3', -40, 40))
    if env.bool('towards_A'): pM, sM = ('C', E, env.int('offset3', -40, 40)), ('A', ca, 0)
    counts = {'A': ((2, 1),), 'B': ((1, 1),), 'C': ((1, 2), (2, 2)), 'D': ((1, 1), (1, 2)), 'K': ((1, 1), (2, 1)), 'M': ((2, 1),)}
    rd = {n: road(env, i, ids[n], counts[n], road_type=(jn if isinstance(jn, int) else 7) if n in 'KM' else -1) for i, n in enumerate('ABCDKM')}
    join_roads(env, rd['K'], rd, ids, jn, pK, sK); join_roads(env, rd['M'], rd, ids, jn, pM, sM)
    # D leads into C
    rd['D'].add_successor(P.ElementType.road, ids['C'], S); rd['C'].add_predecessor(P.ElementType.road, ids['D'], E)
    od = P.OpenDrive('n')
    order = env.choice('order', [('A', 'B', 'C', 'D', 'K', 'M'), ('M', 'K', 'D', 'C', 'B', 'A'), ('K', 'A', 'M', 'C', 'B', 'D'), ('D', 'M', 'B', 'K', 'A', 'C')])
    for n in order: od.add_road(rd[n])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    ex = {'A': {}, 'B': {}, 'K': expected(env, counts['K'], pK, sK), 'M': expected(env, counts['M'], pM, sM),
          'C': {(0, k): {'predecessor': k} for k in (1, -1, -2)}, 'D': {(1, k): {'successor': k} for k in (1, -1, -2)}}
    for n in 'ABCDKM': check_links(env, 'road ' + n, els[n], counts[n], ex[n])

def turning(env):
    """a connecting road that leads back to the road it comes from"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKB')
    counts = section_counts(env, 1)
    pred = ('A', env.choice('ca', [E, S]), env.int('offset_pred', -40, 40)); suc = ('A', env.choice('cb', [S, E]), env.int('offset_suc', -40, 40))
    rd = {'A': road(env, 0, ids['A'], ((1, 2), (2, 1))), 'B': road(env, 1, ids['B'], ((2, 1),)), 'K': road(env, 2, ids['K'], counts, road_type=7)}
    join_roads(env, rd['K'], rd, ids, jn, pred, suc, swap=env.bool('successor first'))
    od = P.OpenDrive('n')
    order = env.choice('order', [('A', 'K', 'B'), ('K', 'B', 'A')])
    for n in order: od.add_road(rd[n])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    check_links(env, 'connecting road', els['K'], counts, expected(env, counts, pred, suc))
    check_links(env, 'road A', els['A'], ((1, 2), (2, 1)), {})

def chain(env):
    """connecting roads one after the other"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R = P.ElementType.road
    ids, jn = distinct_ids(env, 'AKMB')
    ck = section_counts(env, 1); cm = ((2, 1), (0, 1))[:env.choice('sections of M', [1, 2])]
    km, mk = env.choice('contact', [(E, S), (E, E), (S, S), (S, E)])     # the ends of K and M that meet
    rd = {'A': road(env, 0, ids['A'], ((1, 2),)), 'B': road(env, 1, ids['B'], ((2, 1),)), 'K': road(env, 2, ids['K'], ck, road_type=7), 'M': road(env, 3, ids['M'], cm, road_type=7)}
    o1, o2 = env.int('offset1', -40, 40), env.int('offset2', -40, 40)
    def ends(own, to_road, to_other):      # (pred, suc) of a connecting road that meets the other one at its end own
        return (to_road, to_other) if own is E else (to_other, to_road)
    named = env.choice('named by', ['both', 'K', 'M'])
    toM = ('M', mk, env.int('offset3', -40, 40)) if named != 'M' else None
    toK = ('K', km, env.int('offset4', -40, 40)) if named != 'K' else None
    pK, sK = ends(km, ('A', E, o1), toM); pM, sM = ends(mk, ('B', S, o2), toK)
    for n, p, s in (('K', pK, sK), ('M', pM, sM)): join_roads(env, rd[n], rd, ids, jn, p, s)
    od = P.OpenDrive('n')
    order = env.choice('order', [('A', 'K', 'M', 'B'), ('M', 'B', 'K', 'A')])
    for n in order: od.add_road(rd[n])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    for n, c, p, s in (('K', ck, pK, sK), ('M', cm, pM, sM)): check_links(env, 'connecting road ' + n, els[n], c, expected(env, c, p, s))
    for n in 'AB': check_links(env, 'road ' + n, els[n], (((1, 2),) if n == 'A' else ((2, 1),)), {})

def into_junction(env):
    """the other end of a connecting road leads into a junction, whose id is no road id"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    text = env.bool('text'); jn = env.int('junction', 0, 99999)
    if text: jn = str(jn)
    counts = env.choice('counts', [((1, 2),), ((1, 1), (2, 1))])
    end = ('A', env.choice('ca', [E, S]), env.int('offset', -40, 40))
    pred, suc = (end, None) if env.bool('first') else (None, end)
    other = env.choice('B', ['road', 'connecting road'])
    rd = {'A': road(env, 0, 1, ((1, 2), (2, 1))), 'B': road(env, 1, 3, ((2, 1),), road_type=-1 if other == 'road' else 6), 'K': road(env, 2, 2, counts, road_type=5)}
    join_roads(env, rd['K'], rd, {'A': 1}, 5, pred, suc)
    add = rd['K'].add_successor if pred else rd['K'].add_predecessor
    cp = env.choice('contact', [None, S, E]); add(P.ElementType.junction, jn, cp, env.int('offset2', -40, 40))
    if other != 'road': rd['B'].add_predecessor(P.ElementType.junction, jn); rd['B'].add_successor(P.ElementType.junction, 2)
    od = P.OpenDrive('n')
    order = env.choice('order', list(permutations('AKB')))
    for n in order: od.add_road(rd[n])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    check_links(env, 'connecting road', els['K'], counts, expected(env, counts, pred, suc))
    check_links(env, 'road A', els['A'], ((1, 2), (2, 1)), {}); check_links(env, 'road B', els['B'], ((2, 1),), {})

def star(env, m):
    """road 0, m connecting roads to m other roads; returns (roads, kinds, pred and suc of each connecting road, counts)"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    first = env.int('first_number', 0, 50000); cb = env.choice('cb', [S, E]); ca = env.choice('ca', [E, S])
    names = ['A'] + ['K%d' % i for i in range(m)] + ['B%d' % i for i in range(m)]
    ids = {x: i + first for i, x in enumerate(names)}
    counts = {'A': ((11, 11),)}; rd = {}; ends = {}
    for i in range(m):
        counts['K%d' % i] = (((11, 10), (2, 1)) if i == 0 else ((1, 1), (1, 2)) if i % 2 else ((1, 0),)); counts['B%d' % i] = ((11, 2),)
        ends['K%d' % i] = (('A', ca, env.int('o%d' % i, -40, 40)), ('B%d' % i, cb, env.int('q%d' % (i % 3), -40, 40)))
        if i % 3 == 2: ends['K%d' % i] = ends['K%d' % i][::-1]
    for k, x in enumerate(names): rd[x] = road(env, k, ids[x], counts[x], road_type=5 if x[0] == 'K' else -1)
    for x in ends: join_roads(env, rd[x], rd, ids, 5, *ends[x])
    return names, ids, rd, ends, counts

def hub(env):
    """eight connecting roads at one road, up to eleven lanes"""
    P = env.P
    names, ids, rd, ends, counts = star(env, 8)
    od = P.OpenDrive('n')
    order = [names[i] for i in env.choice('order', SPREAD(len(names)))]
    for x in order: od.add_road(rd[x])
    od.adjust_roads_and_lanes()
    els = dict(zip(order, od.get_element().findall('road')))
    for x in names: check_links(env, 'road ' + x, els[x], counts[x], expected(env, counts[x], *ends[x]) if x in ends else {})

HARNESSES = [single, several, turning, chain, into_junction, hub]
