"""C30: what is rejected leaves nothing behind."""
from .net import *
from .c23 import same_tree, frozen

FUNCTIONS = ['opendrive.Road.add_successor/add_predecessor/add_neighbor/add_object_roadside', 'opendrive.OpenDrive.adjust_roads_and_lanes/adjust_startpoints', 'links.create_lane_links/_create_links_roads/_create_links_connecting_road', 'generators.create_junction_roads/get_lanes_offset/create_junction', 'geometry.PlanView.set_start_point/adjust_geometries']
BOUNDS = 'rejected calls at any of 4 places of the life of two linked roads (excess successors, predecessors, neighbours, directionless neighbours, roadside objects before adjusting); chains of 2 and 3 roads and a connecting road with lanes missing on either side of either road, adjusted once or twice in vain before the lanes are added; two groups of roads, the second pinned or linked after 1 or 2 vain adjustments, any of the roads of the first group pinned or none; junctions of 2..4 roads with missing lanes or an occupied road end; symbolic parameters throughout'
OUTSIDE = 'ids given out to objects of a rejected call; what adjusting places before it finds roads it cannot place stays placed'
OPTS = {'tiny_zero': True}

def rejected(env, expected, fn, *a, **k):
    r = env.raises(fn, *a, **k)
    env.require('%s is raised' % expected, r == expected)

def calls(env):
    """the document with rejected calls is the one without"""
    S, E = env.P.ContactPoint.start, env.P.ContactPoint.end
    fixed_signs(env)
    what = env.choice('what', ['successor', 'predecessor', 'neighbor', 'undirected', 'roadside'])
    at = env.choice('at', [1, 2, 3, 4])
    again = env.choice('times', [1, 2])
    eid = env.int('eid', 0, 99999)
    def build(bad):
        P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
        def road(i, pin=None):
            pv = P.PlanView(*pin) if pin else P.PlanView()
            pv.add_geometry(P.Line(env.real('l%d' % i, 1, 50000))); pv.add_geometry(P.Arc(env.real('k%d' % i, 0.01, 1), length=env.real('a%d' % i, 1, 9000)))
            return P.Road(i, pv, lanes(env, (1, 2)))
        A, B = road(1), road(2, (env.real('x'), env.real('y'), env.real('h', -3, 3)) if env.bool('pinned') else None)
        od = P.OpenDrive('n')
        def wrong(stage):
            if not bad or stage != at: return
            for r in (A, B):
                for k in range(again):
                    if what == 'roadside':
                        if stage < 4: rejected(env, 'RoadsAndLanesNotAdjusted', r.add_object_roadside, P.Object(0, 0, Type=P.ObjectType.pole), env.real('d', 1, 9000))
                    elif what == 'undirected': rejected(env, 'ValueError', r.add_neighbor, R, eid, None)
                    elif what == 'neighbor':
                        if stage > 1: rejected(env, 'ValueError', r.add_neighbor, J, eid, P.Direction.opposite)
                    elif stage > 1: rejected(env, 'ValueError', getattr(r, 'add_' + what), R, eid, E, env.int('off', -40, 40))
        wrong(1)
        for r, ps in ((A, 'predecessor'), (B, 'successor')): getattr(r, 'add_' + ps)(J, 8 if r is A else 9)
        A.add_successor(R, 2, S); B.add_predecessor(R, 1, E)
        for r, o in ((A, 2), (B, 1)): r.add_neighbor(R, o, P.Direction.same); r.add_neighbor(R, 7, P.Direction.opposite)
        wrong(2)
        od.add_road(A); od.add_road(B)
        wrong(3)
        od.adjust_roads_and_lanes()
        wrong(4)
        od.adjust_roads_and_lanes()
        return od.get_element()
    same_tree(env, build(True), build(False), 'document')
    env.observe('x', env.num(build(True).findall('road')[1].find('planView')[0].get('x')))

def add_lanes(env, road, k, nl, nr, tag):
    sec = road.lanes.lanesections[k]
    for i in range(nl): sec.add_left_lane(env.P.Lane(type_of(env, 'left', len(sec.leftlanes), tag), a=3))
    for i in range(nr): sec.add_right_lane(env.P.Lane(type_of(env, 'right', len(sec.rightlanes), tag), a=3))

def lane_counts(env):
    """lanes added after a lane count error make the network whole"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    names = env.choice('roads', ['AB', 'ABC'])
    short = env.choice('short', list(names)); miss = env.choice('missing', [(1, 0), (0, 1), (1, 1), (2, 1)])
    order = env.choice('order', [names, names[::-1]])
    contact = env.choice('contact', [(E, S), (S, E)])
    vain = env.choice('vain', [1, 2])
    full = (2, 1)
    def build(late):
        od = P.OpenDrive('n'); rd = {}
        want = dict.fromkeys(names, full)
        for i, n in enumerate(names):
            c = want[n]
            if late and n == short: c = tuple(max(0, a - b) for a, b in zip(c, miss))
            rd[n] = build_road(env, RoadSpec(n, (('line',), ('arc_len',), ('line', 'arc_len'))[i], counts=(c,)), i + 1)
        def link(a, ca, b, cb):
            (rd[a].add_successor if ca is E else rd[a].add_predecessor)(R, rd[b].id, cb)
            (rd[b].add_successor if cb is E else rd[b].add_predecessor)(R, rd[a].id, ca)
        link('A', contact[0], 'B', contact[1])
        if 'C' in names: link('B', S if contact[1] is E else E, 'C', E if contact[1] is E else S)
        for n in order: od.add_road(rd[n])
        if late:
            for k in range(vain): rejected(env, 'NotSameAmountOfLanesError', od.adjust_roads_and_lanes)
            c = want[short]; have = tuple(max(0, a - b) for a, b in zip(c, miss))
            add_lanes(env, rd[short], 0, c[0] - have[0], c[1] - have[1], short)
        od.adjust_roads_and_lanes()
        return od.get_element()
    a, b = build(True), build(False)
    same_links(env, a, b)
    env.observe('x', env.num(a.findall('road')[1].find('planView')[0].get('x')))

def same_links(env, a, b):
    """equal documents, the links of one lane in any order"""
    for x in (a, b):
        for l in x.iter('lane'):
            for k in l.findall('link'): k[:] = sorted(k, key=lambda c: c.tag)
    same_tree(env, a, b, 'document')

def undefined(env):
    """roads that could not be placed are, once they are connected or pinned"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    pin = env.choice('pin', [None, 'A', 'B'])
    first = env.choice('first', ['A', 'B'])
    vain = env.choice('vain', [1, 2])
    how = env.choice('how', ['pin C', 'pin D', 'link', 'link back'])
    jn = env.bool('connecting') if how == 'link' else False
    where = pose(env, 'w')
    def build(late):
        od = P.OpenDrive('n'); rd = {}
        for i, n in enumerate('ABCD'):
            sp = RoadSpec(n, (('line',), ('arc_len',), ('line', 'arc_len'), ('line',))[i])
            if n == pin: sp.pin = pose(env, 'p')
            if not late and pin is None and n == first: sp.pin = (0, 0, 0)
            rd[n] = build_road(env, sp, i + 1, 5 if n == 'C' and jn else -1)
        def link(a, b): rd[a].add_successor(R, rd[b].id, S); rd[b].add_predecessor(R, rd[a].id, E)
        link('A', 'B'); link('C', 'D')
        for n in [first] + [n for n in 'DBCA' if n != first]: od.add_road(rd[n])
        def complete():
            if how.startswith('pin'): pv = rd[how[-1]].planview; pv.set_start_point(*where); pv.adjust_geometries()
            elif how == 'link': link('B', 'C')
            else: link('D', 'A')
        if late:
            for k in range(vain): rejected(env, 'UndefinedRoadNetwork', od.adjust_roads_and_lanes)
        complete()
        od.adjust_roads_and_lanes()
        return od.get_element()
    same_links(env, build(True), build(False))

def junction_roads(env):
    """junction roads can be made after a rejected attempt"""
    P = env.P
    n = env.choice('n', [2, 3, 4]); angles = [0, env.pi/2, env.pi, 3*env.pi/2]
    angles = {2: [angles[0], angles[1]], 3: angles[:3], 4: angles}[n]
    bad = env.choice('bad', list(range(n))); why = env.choice('why', ['lanes', 'occupied'])
    r = env.real('r', 1, 20); w = env.real('w', 1, 500)
    def build(late):
        roads = []
        for i in range(n):
            k = 1 if late and why == 'lanes' and i == bad else 2
            roads.append(P.create_straight_road(i + 1, length=env.real('l%d' % i, 1, 50), n_lanes=k, lane_offset=w))
        if late:
            given = roads
            if why == 'occupied':
                other = P.create_straight_road(70, n_lanes=2, lane_offset=w)
                (other.add_successor if bad == 0 else other.add_predecessor)(P.ElementType.road, 71, P.ContactPoint.start)
                given = roads[:bad] + [other] + roads[bad+1:]
            before = [frozen(link_part(x)) for x in given]
            rejected(env, 'NotSameAmountOfLanesError' if why == 'lanes' else 'ValueError', P.create_junction_roads, given, angles, r, 9)
            for x, b in zip(given, before): same_tree(env, link_part(x), b, 'links of a given road')
            if why == 'lanes':
                sec = roads[bad].lanes.lanesections[0]; sec.add_right_lane(P.standard_lane(w)); sec.add_left_lane(P.standard_lane(w))
        jr = P.create_junction_roads(roads, angles, r, 9)
        od = P.OpenDrive('n')
        for x in roads + jr: od.add_road(x)
        od.add_junction(P.create_junction(jr, 9, roads))
        od.adjust_roads_and_lanes()
        return od.get_element()
    same_tree(env, build(True), build(False), 'document')

def link_part(road): return road.links.get_element()

HARNESSES = [calls, lane_counts, undefined, junction_roads]
