"""C08: lane links of consecutive roads."""
from itertools import permutations
from .net import *

FUNCTIONS = ['opendrive.OpenDrive.adjust_roads_and_lanes', 'links.create_lane_links/are_roads_consecutive/_create_links_roads/_get_related_lanesection', 'lane.Lane.add_link/get_element', 'lane.LaneSection', 'links._Links/_Link']
BOUNDS = 'two linked roads with 1 or 2 lane sections each and 0..2 lanes per side in every section, plus an unlinked road; chains of three roads and rings of two and three; both orders of addition, road ids different symbolic integers 0..99999, as numbers or texts or words, in roads and links alike or not; two roads some of whose lanes the user linked already; a row of 12 roads with up to 11 lanes per side'
BOUNDS_THOROUGH = '0..3 lanes per side, up to 3 sections'

def link(env, a, b, names=None):
    P = env.P
    na, nb = names or (a.id, b.id)
    a.add_successor(P.ElementType.road, nb, P.ContactPoint.start)
    b.add_predecessor(P.ElementType.road, na, P.ContactPoint.end)

def counts_of(env, tag, top):
    """lane counts of the sections of a road: the section at the contact is chosen, others differ"""
    n = env.choice('nsec' + tag, [1, 2] if not env.thorough else [1, 2, 3])
    c = (env.choice('nl' + tag, range(top + 1)), env.choice('nr' + tag, range(top + 1)))
    other = [(1, 2), (2, 1)]
    return c, [other[i % 2] for i in range(n - 1)]

def pair(env):
    """two linked roads and one apart"""
    P = env.P
    top = 2 if not env.thorough else 3
    ca, oa = counts_of(env, 'A', top); cb, ob = counts_of(env, 'B', top)
    counts = [tuple(oa + [ca]), tuple([cb] + ob), (cb,)]
    rd = [build_road(env, RoadSpec('ABC'[i], counts=counts[i]), 5 + i) for i in range(2)]
    rd.append(build_road(env, RoadSpec('C', counts=counts[2]), 20))
    rd[2].planview = P.PlanView(0, 0, 0); rd[2].planview.add_geometry(P.Line(1))
    p0 = P.PlanView(1, 1, 0); p0.add_geometry(P.Line(1)); rd[0].planview = p0
    link(env, rd[0], rd[1])
    od = P.OpenDrive('n')
    order = env.choice('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0)])
    for i in order: od.add_road(rd[i])
    r = env.raises(od.adjust_roads_and_lanes)
    if ca != cb:
        env.check('different lane counts raise NotSameAmountOfLanesError', r == 'NotSameAmountOfLanesError'); return
    env.require('adjusting succeeds', r is None)
    els = road_elements(env, od.get_element())
    exA = {}; exB = {}
    for i in list(range(1, ca[0] + 1)) + list(range(-ca[1], 0)):
        exA[(len(counts[0]) - 1, i)] = {'successor': i}; exB[(0, i)] = {'predecessor': i}
    check_links(env, 'first road', els['5'], counts[0], exA)
    check_links(env, 'second road', els['6'], counts[1], exB)
    check_links(env, 'road apart', els['20'], counts[2], {})
    env.observe('n', len(exA))

def several(env):
    """chains and rings of roads, each with two lane sections"""
    P = env.P
    n = env.choice('n', [2, 3]); ring = env.bool('ring')
    ids = [env.int('id%d' % i, 0, 99999) for i in range(n)]
    for i in range(n):
        for j in range(i): env.assume(env.not_(ids[i] == ids[j]))
    ids = as_given(env.choice('forms', FORMS), dict(enumerate(ids)))
    # counts at the contacts agree, the sections of a road differ
    contact = [(1, 2), (2, 0), (2, 1)]
    counts = []
    for i in range(n):
        counts.append((contact[i - 1] if ring or i > 0 else (1, 1), contact[i] if i < n - 1 or ring else (0, 3)))
    if ring and n == 2: counts = [(contact[1], contact[0]), (contact[0], contact[1])]
    if ring and n == 3: counts = [(contact[2], contact[0]), (contact[0], contact[1]), (contact[1], contact[2])]
    rd = [build_road(env, RoadSpec('ABC'[i], counts=counts[i]), ids[i]) for i in range(n)]
    edges = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if ring else [])
    for a, b in edges: link(env, rd[a], rd[b], (ids.links[a], ids.links[b]))
    od = P.OpenDrive('n')
    order = env.choice('order', list(permutations(range(n))))
    for i in order: od.add_road(rd[i])
    od.adjust_roads_and_lanes()
    els = od.get_element().findall('road')
    for k, i in enumerate(order):
        ex = {}
        for sec, kind in ((0, 'predecessor'), (1, 'successor')):
            if not any((b if sec == 0 else a) == i for a, b in edges): continue
            nl, nr = counts[i][sec]
            for l in list(range(1, nl + 1)) + list(range(-nr, 0)): ex[(sec, l)] = {kind: l}
        check_links(env, 'road %d' % i, els[k], counts[i], ex)

def not_linked(env):
    """roads that do not name each other end to start get no lane links"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    how = env.choice('how', ['junction', 'other road', 'neighbor', 'second names', 'first names', 'third names'])
    rd = [build_road(env, RoadSpec('ABC'[i], counts=((1, 2),)), 5 + i) for i in range(3)]
    for i, r in enumerate(rd):
        pv = P.PlanView(i, 0, 0); pv.add_geometry(P.Line(1)); r.planview = pv
    if how == 'junction':
        rd[0].add_successor(P.ElementType.junction, 6); rd[1].add_predecessor(P.ElementType.junction, 5)
    elif how == 'second names':
        rd[0].add_successor(P.ElementType.junction, 6); rd[1].add_predecessor(P.ElementType.road, 5, P.ContactPoint.end)
    elif how == 'first names':
        rd[0].add_successor(P.ElementType.road, 6, P.ContactPoint.start); rd[1].add_predecessor(P.ElementType.junction, 5)
    elif how == 'third names':
        link(env, rd[0], rd[1]); rd[2].add_predecessor(P.ElementType.road, 5, P.ContactPoint.end)
    elif how == 'neighbor':
        rd[0].add_neighbor(P.ElementType.road, 6, P.Direction.same); rd[1].add_neighbor(P.ElementType.road, 5, P.Direction.same)
    else:
        link(env, rd[0], rd[2])
        rd[1].add_predecessor(P.ElementType.junction, 5)
    od = P.OpenDrive('n')
    for i in env.choice('order', list(permutations(range(3)))): od.add_road(rd[i])
    od.adjust_roads_and_lanes()
    els = road_elements(env, od.get_element())
    l = [1, -1, -2]
    check_links(env, 'first road', els['5'], ((1, 2),), {(0, i): {'successor': i} for i in l} if how in ('other road', 'third names') else {})
    check_links(env, 'second road', els['6'], ((1, 2),), {(0, i): {'predecessor': i} for i in l} if how == 'third names' else {})
    check_links(env, 'third road', els['7'], ((1, 2),), {(0, i): {'predecessor': i} for i in l} if how == 'other road' else {})

def linked_before(env):
    """lanes that the user linked by hand, as the adjustment would"""
    P = env.P
    nl, nr = env.choice('counts', [(1, 2), (2, 1), (0, 2)])
    counts = [((1, 1), (nl, nr)), ((nl, nr),)]
    rd = [build_road(env, RoadSpec('AB'[i], counts=counts[i]), 5 + i) for i in range(2)]
    link(env, rd[0], rd[1])
    a, b = rd[0].lanes.lanesections[-1], rd[1].lanes.lanesections[0]
    linker = P.LaneLinker()
    for la, lb in zip(a.leftlanes + a.rightlanes, b.leftlanes + b.rightlanes):
        how = env.choice('lane %d' % la.lane_id, ['not', 'both', 'successor', 'predecessor', 'linker'])
        if how in ('both', 'successor'): la.add_link('successor', lb.lane_id)
        if how in ('both', 'predecessor'): lb.add_link('predecessor', str(la.lane_id))
        if how == 'linker': linker.add_link(la, lb)
    P.Lanes().add_lanesection(section(env, 1, 1), linker)
    od = P.OpenDrive('n')
    for i in env.choice('order', [(0, 1), (1, 0)]): od.add_road(rd[i])
    od.adjust_roads_and_lanes()
    els = road_elements(env, od.get_element())
    ids = list(range(1, nl + 1)) + list(range(-nr, 0))
    check_links(env, 'first road', els['5'], counts[0], {(1, i): {'successor': i} for i in ids})
    check_links(env, 'second road', els['6'], counts[1], {(0, i): {'predecessor': i} for i in ids})

def street(env):
    """twelve roads in a row with up to eleven lanes"""
    P = env.P
    n = 12; first = env.int('first_number', 0, 50000)
    def c(i): return ((1, 11), (2, 1), (0, 3), (11, 2))[i % 4]
    counts = [(c(i), (1, 2), c(i + 1)) if i % 2 else (c(i), c(i + 1)) for i in range(n)]
    rd = [build_road(env, RoadSpec('R%d' % i, counts=counts[i]), i + first) for i in range(n)]
    for i in range(n - 1): link(env, rd[i], rd[i + 1])
    od = P.OpenDrive('n')
    order = env.choice('order', SPREAD(n))
    for i in order: od.add_road(rd[i])
    od.adjust_roads_and_lanes()
    els = od.get_element().findall('road')
    for k, i in enumerate(order):
        ex = {}
        for sec, kind, there in ((0, 'predecessor', i > 0), (len(counts[i]) - 1, 'successor', i < n - 1)):
            if not there: continue
            nl, nr = counts[i][sec]
            for l in list(range(1, nl + 1)) + list(range(-nr, 0)): ex.setdefault((sec, l), {})[kind] = l
        check_links(env, 'road %d' % i, els[k], counts[i], ex)

HARNESSES = [pair, several, not_linked, linked_before, street]
