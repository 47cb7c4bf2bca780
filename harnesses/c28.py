"""C28: the document is consistent: every reference leads somewhere and linked lanes meet"""
from .net import *
FUNCTIONS = ['opendrive.OpenDrive.adjust_roads_and_lanes/adjust_road_wrt_neighbour/get_element', 'links.create_lane_links/_create_links_roads/_create_links_connecting_road/_get_related_lanesection', 'generators.create_road/create_straight_road/create_cloth_arc_cloth/create_junction_roads/create_junction', 'geometry.PlanView/Line/Arc/Spiral', 'lane.Lanes/LaneSection/Lane', 'links.Junction/Connection']
BOUNDS = 'two roads that follow each other; one or two connecting roads between two or three roads, every combination of contact ends, lanes on one or both sides, lane offsets 0, 2 or -2 that keep the lanes on their side, every choice of pinned road, the roads with one or two lane sections; a connecting road of one or two lane sections linked at one end only; a split and a merge with three lane sections; two junctions in a row (exit and entry of a highway, 9 roads); two connecting roads in a row; generated crossings with 2 to 4 arms at right angles (1 or 2 lanes per side); symbolic geometry parameters, poses and lane widths 0.5..10 (3 m where there is a lane offset); a street of 12 roads, up to two of them connecting roads, up to 11 lanes per side'
BOUNDS_THOROUGH = 'the 120 degree crossing; all offsets -2..2'
OUTSIDE = 'lane offsets with lanes of another width than 3 m, or that move lanes across the reference line; lanes joined by the user with a LaneLinker'
OPTS = {'tiny_zero': True}

class Doc(object):
    """the emitted document"""
    def __init__(self, env, root):
        self.env = env; self.roads = {}; self.junctions = {}
        for r in root.findall('road'):
            env.require('road ids are unique', r.get('id') not in self.roads); self.roads[r.get('id')] = r
        for j in root.findall('junction'):
            env.require('junction ids are unique', j.get('id') not in self.junctions); self.junctions[j.get('id')] = j
        self.placed = {i: Placed(env, r) for i, r in self.roads.items()}
        self.secs = {i: lane_map(env, r) for i, r in self.roads.items()}
    def links(self, rid):
        return {l.tag: l for l in self.roads[rid].find('link')} if self.roads[rid].find('link') is not None else {}
    def lane(self, rid, contact, lid): return self.secs[rid][-1 if contact == 'end' else 0].get(lid)
    def sections(self, rid): return children(self.env, self.roads[rid].find('lanes'), 'laneSection')
    def width(self, rid, contact, l):
        """width of a lane at the end of its road"""
        env = self.env; n = env.num
        w = children(env, l, 'width', 1)[0]
        a, b, c, d = [n(w.get(k)) for k in 'abcd']
        if contact == 'start': return a
        ds = n(self.roads[rid].get('length')) - n(self.sections(rid)[-1].get('s'))
        return a + b*ds + c*ds*ds + d*ds*ds*ds
    def center(self, rid, contact, lid):
        """distance of the middle of a lane from the reference line"""
        i = int(lid); sg = 1 if i > 0 else -1; t = 0
        for k in range(1, abs(i) + 1):
            w = self.width(rid, contact, self.lane(rid, contact, str(sg*k))); t = t + (w if k < abs(i) else w/2)
        return sg*t
    def middle(self, rid, contact, lid):
        env = self.env
        x, y, h = self.placed[rid].at(env.P.ContactPoint.end if contact == 'end' else env.P.ContactPoint.start)
        t = self.center(rid, contact, lid)
        return x - t*env.sin(h), y + t*env.cos(h)
    def same_place(self, label, a, b):
        """a, b: (road, contact, lane)"""
        env = self.env
        for r, c, l in (a, b): env.require(label + ': the lane exists', self.lane(r, c, l) is not None and l != '0')
        (xa, ya), (xb, yb) = self.middle(*a), self.middle(*b)
        env.check(label + ': the lanes meet', env.and_(env.eq(xa, xb), env.eq(ya, yb)))
        # vehicles arrive at one of the two and leave at the other
        arrive = lambda r, c, l: (int(l) < 0) == (c == 'end')
        env.check(label + ': the directions of travel fit', arrive(*a) != arrive(*b))

def consistent(env, root, linked=()):
    """the checks; linked: (road id, contact) whose lanes have to be linked"""
    d = Doc(env, root)
    END = {'successor': 'end', 'predecessor': 'start'}
    for rid, r in d.roads.items():
        ls = d.links(rid)
        jn = r.get('junction')
        env.check('the junction of road %s exists' % rid, jn == '-1' or jn in d.junctions)
        for kind, own in END.items():
            lane_to = {}
            for lid, l in d.secs[rid][0 if own == 'start' else -1].items():
                to = [c.get('id') for f in l.findall('link') for c in f.findall(kind)]
                env.check('at most one %s of lane %s of road %s' % (kind, lid, rid), len(to) <= 1)
                if to: lane_to[lid] = to[0]
            l = ls.get(kind)
            if l is None:
                env.check('no %s, no lanes linked there' % kind, not lane_to or len(d.secs[rid]) > 1); continue
            if l.get('elementType') == 'junction':
                env.require('the %s of road %s exists' % (kind, rid), l.get('elementId') in d.junctions)
                cons = [c for c in d.junctions[l.get('elementId')].findall('connection') if c.get('incomingRoad') == rid]
                env.check('the junction knows road %s' % rid, len(cons) > 0)
                continue
            other, oc = l.get('elementId'), l.get('contactPoint')
            env.require('the %s of road %s exists' % (kind, rid), other in d.roads and oc in ('start', 'end'))
            for lid, to in lane_to.items(): d.same_place('lane %s of road %s and its %s' % (lid, rid, kind), (rid, own, lid), (other, oc, to))
            back = d.links(other).get('successor' if oc == 'end' else 'predecessor')
            env.require('road %s is linked back' % other, back is not None)
            if back.get('elementType') == 'road':
                env.check('to the same contact', back.get('elementId') == rid and back.get('contactPoint') == own)
                for lid, to in lane_to.items():
                    ol = d.lane(other, oc, to)
                    env.check('lane %s is linked back' % to, [c.get('id') for f in ol.findall('link') for c in f.findall('successor' if oc == 'end' else 'predecessor')] == [lid])
            else: env.check('back by way of the junction', back.get('elementId') == jn)
            if (rid, own) in linked or jn != '-1': env.check('all lanes of road %s are linked' % rid, sorted(lane_to) == sorted(i for i in d.secs[rid][0 if own == 'start' else -1] if i != '0'))
    for jid, j in d.junctions.items():
        ids = [c.get('id') for c in j.findall('connection')]
        env.check('connection ids are unique', len(set(ids)) == len(ids))
        for c in j.findall('connection'):
            inc, con, cp = c.get('incomingRoad'), c.get('connectingRoad'), c.get('contactPoint')
            env.require('the roads of the connection exist', inc in d.roads and con in d.roads and cp in ('start', 'end'))
            env.check('the connecting road belongs to the junction', d.roads[con].get('junction') == jid)
            l = d.links(con).get('successor' if cp == 'end' else 'predecessor')
            env.require('the connecting road is linked to the incoming road', l is not None and l.get('elementType') == 'road' and l.get('elementId') == inc)
            pairs = [(k.get('from'), k.get('to')) for k in c.findall('laneLink')]
            env.check('every lane once', sorted(b for a, b in pairs) == sorted(i for i in d.secs[con][0 if cp == 'start' else -1] if i != '0'))
            for a, b in pairs: d.same_place('lane link of road %s to road %s' % (inc, con), (inc, l.get('contactPoint'), a), (con, cp, b))
    return d

def roads_in_a_row(env):
    """two roads, one follows the other"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    w = env.real('w', 0.5, 10); nl, nr = env.choice('counts', [(1, 1), (2, 1), (0, 3), (2, 0)])
    ids = env.choice('ids', [(1, 2), (5, 0)])
    pin = env.choice('pin', [None, 0, 1]); r = []
    for k, (n, ks) in enumerate((('A', ('line', 'arc_len')), ('B', ('arc_ang',)))):
        gs = [make_geom(env, g, n + str(i)) for i, g in enumerate(ks)]
        r.append(pinned_at(env, P.create_road(gs, ids[k], nl, nr, lane_width=w), gs, pose(env, 'p') if k == pin else None))
    r[0].add_successor(P.ElementType.road, ids[1], S); r[1].add_predecessor(P.ElementType.road, ids[0], E)
    od = P.OpenDrive('n')
    for k in env.choice('order', [(0, 1), (1, 0)]): od.add_road(r[k])
    od.adjust_roads_and_lanes()
    consistent(env, od.get_element(), [(str(ids[0]), 'end'), (str(ids[1]), 'start')])

def connecting(env):
    """a junction with one or two connecting roads"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    side = env.choice('lanes', ['both', 'right', 'left'])
    if side == 'both': (nl, nr), off = env.choice('counts', [(1, 1), (2, 2)]), (0, 0)
    else:
        n = env.choice('counts', [1, 2]); nl, nr = (n, 0) if side == 'left' else (0, n)
        sg = 1 if side == 'left' else -1
        off = [sg*env.choice(k, [0, 1, 2] if env.thorough else [0, 2]) for k in ('offset_pred', 'offset_suc')]
    w = 3 if off != (0, 0) else env.real('w', 0.5, 10)
    ca, cb = env.choice('ca', [E, S]), env.choice('cb', [S, E])
    pin = env.choice('pin', [None, 0, 1, 2])
    def one(k, g, i, nl, nr, rt=-1): return pinned_at(env, P.create_road(g, i, nl, nr, road_type=rt, lane_width=w), [g], pose(env, 'p') if k == pin else None, rt)
    A = one(0, make_geom(env, 'arc_ang', 'A1'), 1, 4, 4)
    B = one(1, P.Line(env.real('LB', 1, 100000)), 2, 4, 4)
    more = env.choice('more sections', [None, 'A', 'B', 'AB'] if env.thorough else [None, 'AB'])
    for r, n in ((A, 'A'), (B, 'B')):
        if more and n in more:
            sec = P.LaneSection(1, P.Lane(a=2))
            for i in range(4): sec.add_left_lane(P.Lane(lane_type(env, i), a=w)); sec.add_right_lane(P.Lane(lane_type(env, i + 5), a=w))
            r.lanes.add_lanesection(sec)
    K = one(2, make_geom(env, 'arc_len', 'K0'), 10, nl, nr, 7)
    for r, c in ((A, ca), (B, cb)): (r.add_successor if c is E else r.add_predecessor)(P.ElementType.junction, 7)
    K.add_predecessor(P.ElementType.road, 1, ca, off[0]); K.add_successor(P.ElementType.road, 2, cb, off[1])
    roads, cons = [A, B, K], [K]
    if env.bool('two'):
        # a second connecting road from B to C
        C = P.create_road(P.Line(20), 3, 2, 2, lane_width=w); M = P.create_road(P.Arc(0.01, length=env.real('LM', 1, 50000)), 11, 1, 1, road_type=7, lane_width=w)
        C.add_predecessor(P.ElementType.junction, 7)
        M.add_predecessor(P.ElementType.road, 2, cb); M.add_successor(P.ElementType.road, 3, S)
        roads += [C, M]; cons += [M]
    od = P.OpenDrive('n')
    for r in (roads if env.choice('order', [0, 1]) == 0 else roads[::-1]): od.add_road(r)
    od.add_junction(P.create_junction(cons, 7, [r for r in roads if r not in cons]))
    od.adjust_roads_and_lanes()
    consistent(env, od.get_element())

def dead_end(env):
    """a connecting road of one or two lane sections that is linked at one end only, with a junction made by hand"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    at_start = env.bool('at_start'); ca = env.choice('ca', [E, S])
    nl, nr = env.choice('counts', [(1, 1), (2, 0), (0, 2), (1, 2)])
    off = 0 if nl and nr else env.choice('offset', [0, 1 if nl else -1])
    w = env.real('w', 0.5, 10) if off == 0 else 3
    geoms = [P.Line(60), make_geom(env, 'spiral', 'K')]; pinned = env.bool('pinned')
    A = pinned_at(env, P.create_road([P.Line(env.real('LA', 1, 100000))], 1, 3, 3, lane_width=w), [], None)
    K = pinned_at(env, P.create_road(geoms, 10, nl, nr, road_type=7, lane_width=w), geoms, pose(env, 'p') if pinned else None, 7)
    if env.bool('two_sections'):
        sec = P.LaneSection(env.real('s', 1, 50000), P.Lane(a=2))
        for i in range(nl): sec.add_left_lane(P.Lane(lane_type(env, 2*i), a=w))
        for i in range(nr): sec.add_right_lane(P.Lane(lane_type(env, i), a=w))
        K.lanes.add_lanesection(sec)
    (A.add_successor if ca is E else A.add_predecessor)(P.ElementType.junction, 7)
    (K.add_predecessor if at_start else K.add_successor)(P.ElementType.road, 1, ca, off)
    con = P.Connection(1, 10, S if at_start else E)
    flip = 1 if (ca is E) == at_start else -1
    for k in [i for i in range(-nr, nl + 1) if i]: con.add_lanelink(flip*(k + off), k)
    jn = P.Junction('j', 7); jn.add_connection(con)
    od = P.OpenDrive('n')
    for r in ([A, K] if env.bool('order') else [K, A]): od.add_road(r)
    od.add_junction(jn); od.adjust_roads_and_lanes()
    consistent(env, od.get_element())

def sections(env, P, s1, s2, counts, grow):
    """three lane sections on the right side, the outermost lane of the middle one grows or shrinks"""
    ls = P.Lanes(); linker = P.LaneLinker(); secs = []
    for k, (s, n) in enumerate(zip((0, s1, s2), counts)):
        sec = P.LaneSection(s, P.Lane(a=2)); row = []
        for i in range(n):
            l = P.Lane(a=3) if k != 1 or i < n - 1 else (P.Lane(a=0, b=3/(s2 - s1)) if grow else P.Lane(a=3, b=-3/(s2 - s1)))
            sec.add_right_lane(l); row.append(l)
        secs.append((sec, row))
    for (_, a), (_, b) in zip(secs, secs[1:]):
        for p, q in zip(a, b): linker.add_link(p, q)
    for sec, _ in secs: ls.add_lanesection(sec, linker)
    return ls

def split_and_merge(env):
    """a road whose lanes widen or end, at a junction with lane offsets"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    s1 = env.real('s1', 1, 100000); s2 = s1 + env.real('ds', 1, 50000); L = s2 + env.real('ds2', 1, 50000)
    split = env.bool('split')
    pv = P.PlanView(); pv.add_geometry(P.Line(L))
    R = P.Road(0, pv, sections(env, P, s1, s2, (2, 3, 3) if split else (3, 3, 2), split))
    one, two = [P.create_road(P.Line(100), i, 0, n) for i, n in ((1, 2), (2, 1))]
    K1 = P.create_road(make_geom(env, 'spiral', 'K1'), 3, 0, 2, road_type=1); K2 = P.create_road(make_geom(env, 'arc_len', 'K2'), 4, 0, 1, road_type=1)
    if split:
        R.add_successor(P.ElementType.junction, 1); one.add_predecessor(P.ElementType.junction, 1); two.add_predecessor(P.ElementType.junction, 1)
        for K, r, off in ((K1, 1, 0), (K2, 2, -2)): K.add_predecessor(P.ElementType.road, 0, E, off); K.add_successor(P.ElementType.road, r, S)
    else:
        R.add_predecessor(P.ElementType.junction, 1); one.add_successor(P.ElementType.junction, 1); two.add_successor(P.ElementType.junction, 1)
        for K, r, off in ((K1, 1, 0), (K2, 2, -2)): K.add_predecessor(P.ElementType.road, r, E); K.add_successor(P.ElementType.road, 0, S, lane_offset=off)
    od = P.OpenDrive('n')
    for r in (R, one, two, K1, K2): od.add_road(r)
    if env.bool('junction_first'): od.add_junction(P.create_junction([K1, K2], 1, [R, one, two])); od.adjust_roads_and_lanes()
    else: od.adjust_roads_and_lanes(); od.add_junction(P.create_junction([K1, K2], 1, [R, one, two]))
    consistent(env, od.get_element())

def crossing(env):
    """generated crossings"""
    P = env.P
    layout = env.choice('layout', ['corner', 'T', 'T left', 'T right', '4-way'] + (['120'] if env.thorough else []))
    q = {'corner': (0, 1), 'T right': (0, 1, 2), 'T': (0, 1, 3), 'T left': (0, 2, 3), '4-way': (0, 1, 2, 3), '120': (0, 4/3, 8/3)}[layout]
    n = env.choice('lanes', [1, 2]); w = env.real('width', 0.1, 1000)
    jn, start = env.choice('numbers', [(1, 100), (0, 4)])
    roads = [P.create_straight_road(i, length=env.real('L%d' % i, 1, 100), n_lanes=n, lane_offset=w) for i in range(len(q))]
    jr = P.create_junction_roads(roads, [k*env.pi/2 for k in q], env.real('r', 1, 20), junction=jn, startnum=start)
    od = P.OpenDrive('n')
    for r in roads + jr: od.add_road(r)
    od.add_junction(P.create_junction(jr, jn, roads))
    od.adjust_roads_and_lanes()
    consistent(env, od.get_element())

def highway(env):
    """two junctions in a row: an exit and an entry of a highway"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    pin = env.choice('pin', [None, 1, 4, 7, 8] if env.thorough else [None, 4, 8]); at = pose(env, 'p') if pin is not None else None
    def road(i, kinds, nl, nr, rt=-1):
        gs = [make_geom(env, k, '%d%d' % (i, n)) if k != 'line' else P.Line(env.real('L%d' % i, 1, 100000)) for n, k in enumerate(kinds)]
        return pinned_at(env, P.create_road(gs, ids[i], nl, nr, road_type=rt), gs, at if i == pin else None, rt)
    ids, (j1, j2), first = env.choice('ids', [(tuple(range(9)), (1, 2), False), ((7, 4, 1, 8, 5, 2, 9, 6, 3), (20, 4), True), (tuple(range(8, -1, -1)), (5, 0), True)])
    r = [road(0, ('spiral', 'arc_len'), 3, 4), road(1, ('line', 'arc_ang'), 3, 3), road(2, ('line',), 0, 1), road(3, ('arc_len',), 3, 3, j1), road(4, ('spiral',), 0, 1, j1),
         road(5, ('arc_len',), 2, 3), road(6, ('line',), 2, 3, j2), road(7, ('arc_ang',), 1, 0, j2), road(8, ('line',), 1, 0)]
    r[0].add_successor(J, j1); r[1].add_predecessor(J, j1); r[1].add_successor(J, j2); r[2].add_predecessor(J, j1); r[5].add_predecessor(J, j2); r[8].add_predecessor(J, j2)
    for c, a, b, off in ((3, 0, 1, 0), (4, 0, 2, -3), (6, 1, 5, 0), (7, 1, 8, 2)):
        r[c].add_predecessor(R, ids[a], E, off); r[c].add_successor(R, ids[b], S)
    make = lambda: [P.create_junction(r[3:5], j1, r[0:3]), P.create_junction(r[6:8], j2, [r[x] for x in (8, 1, 5)])]
    js = make() if first else None
    od = P.OpenDrive('n')
    for x in env.choice('order', [r, r[::-1], r[4:] + r[:4]]): od.add_road(x)
    od.adjust_roads_and_lanes()
    for x in js or make(): od.add_junction(x)
    consistent(env, od.get_element())

def row(env):
    """two connecting roads in a row"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    fixed_signs(env)
    w = env.real('w', 0.5, 10)
    od = P.OpenDrive('n')
    n = env.choice('lanes', [(1, 1), (2, 1), (0, 2)])
    A, K, M, B = [P.create_road(make_geom(env, k, k), i, *n, road_type=t, lane_width=w) for k, i, t in (('line', 1, -1), ('arc_len', 2, 7), ('spiral', 3, 7), ('arc_ang', 4, -1))]
    A.add_successor(J, 7); B.add_predecessor(J, 7)
    K.add_predecessor(R, 1, E); K.add_successor(R, 3, S); M.add_predecessor(R, 2, E); M.add_successor(R, 4, S)
    for x in env.choice('order', [(A, K, M, B), (B, M, K, A), (M, A, B, K)]): od.add_road(x)
    od.adjust_roads_and_lanes()
    jn = P.Junction('j', 7)
    for inc, con, cp in ((1, 2, S), (4, 3, E)):
        c = P.Connection(inc, con, cp)
        for k in range(-n[1], n[0] + 1):
            if k: c.add_lanelink(k, k)
        jn.add_connection(c)
    od.add_junction(jn)
    consistent(env, od.get_element(), [('2', 'end'), ('3', 'start')])

def street(env):
    """twelve roads in a row, two of them connecting roads, generated crossing of eleven lanes per side at the end"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    n = 12; first = env.int('first_number', 0, 50000); w = env.real('width', 0.5, 10); lanes_ = env.choice('lanes', [1, 11])
    con = env.choice('connecting', [(), (3, 9), (10,)])
    rd = [P.create_road(P.Line(env.real('l%d' % i, 1, 50000)), first + i, lanes_, lanes_, road_type=500 if i in con else -1, lane_width=w) for i in range(n)]
    for i in range(n - 1):
        if i + 1 in con: rd[i].add_successor(J, 500)
        else: rd[i].add_successor(R, first + i + 1, S)
        if i in con: rd[i + 1].add_predecessor(J, 500)
        else: rd[i + 1].add_predecessor(R, first + i, E)
    od = P.OpenDrive('n')
    if con: od.add_junction(P.create_junction([rd[i] for i in con], 500, rd))
    for i in env.choice('order', SPREAD(n)): od.add_road(rd[i])
    od.adjust_roads_and_lanes()
    consistent(env, od.get_element(), [(str(first + i), 'end') for i in range(n - 1)])

HARNESSES = [roads_in_a_row, connecting, dead_end, split_and_merge, crossing, highway, row, street]
