"""C26: networks of one program do not influence each other."""
from .net import *
from .c23 import same_tree, frozen

FUNCTIONS = ['opendrive.OpenDrive/Road (all methods)', 'generators.create_road/create_straight_road/create_cloth_arc_cloth/create_junction_roads/create_junction', 'links.LaneLinker/Junction/Connection/create_lane_links', 'lane.Lanes/LaneSection/Lane/RoadMark/RoadLine', 'geometry (all classes)', 'signals_objects.Signal/Object']
BOUNDS = 'two networks out of 4 kinds (chain with late pinned road, generated junction, connecting road with lane offset and objects, single road of generated parts), all with the same ids and names but different symbolic parameters (lengths up to 50000, crossing 50), the second built completely at any of 4 stages of the first; 15 kinds of later changes to one of two roads made the same way; 9 kinds of list arguments changed by the caller after the call'
OUTSIDE = 'ids of objects and signals (deliberately unique in the whole program, C12); objects handed to both networks by the caller'
OPTS = {'tiny_zero': True}

IDS = (('object', 'id'), ('signal', 'id'))

# ---- networks, built in 4 stages; t tells their parameters apart
def chain(env, t):
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R = P.ElementType.road
    od = P.OpenDrive('net')
    A = P.create_road([P.Line(env.real('la' + t, 1, 50000)), P.Arc(env.real('ka' + t, 0.01, 1), length=env.real('lb' + t, 1, 9000))], 1, 1, 2, lane_width=env.real('w' + t, 1, 500))
    B = P.create_road(P.Spiral(0, env.real('kb' + t, 0.01, 0.1), length=env.real('lc' + t, 1, 50000)), 2, 1, 2)
    yield
    A.add_successor(R, 2, S); B.add_predecessor(R, 1, E)
    od.add_road(A); od.add_road(B)
    yield
    C = P.create_road(P.Line(env.real('ld' + t, 1, 50000)), 3, 1, 2); C.planview.set_start_point(env.real('x' + t), env.real('y' + t), env.real('h' + t, -3, 3))
    od.add_road(C)
    B.add_successor(R, 3, S); C.add_predecessor(R, 2, E); B.add_neighbor(R, 3, P.Direction.same)
    yield
    od.adjust_roads_and_lanes()
    yield od

def junction(env, t):
    P = env.P
    w = env.real('w' + t, 1, 500)
    roads = [P.create_straight_road(i, length=env.real('l%d' % i + t, 1, 50), lane_offset=w) for i in (1, 2, 3)]
    yield
    jr = P.create_junction_roads(roads, [0, env.pi/2, env.pi], env.real('r' + t, 1, 20), 9)
    yield
    j = P.create_junction(jr, 9, roads)
    od = P.OpenDrive('net')
    for r in roads + jr: od.add_road(r)
    od.add_junction(j)
    yield
    od.adjust_roads_and_lanes()
    yield od

def connecting(env, t):
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end; R, J = P.ElementType.road, P.ElementType.junction
    od = P.OpenDrive('net')
    def plain(i, nl, nr, jn=-1):
        pv = P.PlanView(); pv.add_geometry(P.Line(env.real('l%d' % i + t, 1, 50000)))
        ls = P.Lanes(); s = P.LaneSection(0, P.Lane()); ls.add_lanesection(s)
        for k in range(nl): s.add_left_lane(P.Lane(a=env.real('w' + t, 1, 500)))
        for k in range(nr): s.add_right_lane(P.Lane(a=3, soffset=env.real('so' + t)))
        return P.Road(i, pv, ls, road_type=jn)
    A, K, B = plain(1, 1, 2), plain(2, 1, 1, 9), plain(3, 2, 1)
    yield
    o = P.Object(env.real('os' + t), 1, Type=P.ObjectType.pole, name='pole'); o.repeat(env.real('rl' + t, 1, 9000), 1)
    A.add_object(o); A.add_signal([P.Signal(1, env.real('st' + t), 'de', '274', value=50, unit='km/h')])
    A.add_successor(J, 9); B.add_predecessor(J, 9)
    K.add_predecessor(R, 1, E, lane_offset=env.int('off' + t, -40, 40)); K.add_successor(R, 3, S)
    yield
    j = P.Junction('j', 9); c = P.Connection(1, 2, S); c.add_lanelink(-1, env.int('lane' + t, -99, 99)); j.add_connection(c); j.add_connection(P.Connection(3, 2, E))
    for r in (A, K, B): od.add_road(r)
    od.add_junction(j)
    yield
    od.adjust_roads_and_lanes()
    B.add_object_roadside(P.Object(0, 0, height=env.real('oh' + t, 1, 2)), env.real('d' + t, 1, 9000))
    yield od

def single(env, t):
    P = env.P
    r = P.create_cloth_arc_cloth(env.real('k' + t, 0.01, 1), env.real('aa' + t, 0.1, 2), env.real('ca' + t, 0.1, 2), 1, junction=-1)
    yield
    a, b = P.Lane(a=env.real('w' + t, 1, 500)), P.Lane()
    a.add_roadmark(P.RoadMark(P.RoadMarkType.broken, length=env.real('ml' + t, 1, 500)))
    yield
    s = P.LaneSection(env.real('s' + t, 1, 500), P.Lane()); s.add_right_lane(a); s.add_left_lane(b)
    f = r.lanes.lanesections[0]
    ll = P.LaneLinker(); ll.add_link(f.rightlanes[0], a); ll.add_link(f.leftlanes[0], b)
    r.lanes.add_lanesection(s, ll)
    yield
    od = P.OpenDrive('net'); od.add_road(r); od.adjust_roads_and_lanes()
    yield od

KINDS = [chain, junction, connecting, single]

def finish(g):
    od = None
    for x in g: od = x or od
    return od

def networks(env):
    """a network is the same whether or not another one was built in between"""
    one = env.choice('one', [0, 1, 2, 3]); two = env.choice('two', [0, 1, 2, 3]); stage = env.choice('stage', [1, 2, 3, 4])
    alone = env.apart(lambda: frozen(finish(KINDS[one](env, 'a')).get_element()))
    seen = env.apart(lambda: frozen(finish(KINDS[two](env, 'b')).get_element()))
    g = KINDS[one](env, 'a'); od = None; other = None
    for k in range(4):
        od = next(g) or od
        if k + 1 == stage: other = finish(KINDS[two](env, 'b')); same_tree(env, frozen(other.get_element()), seen, 'the other network', IDS)
    same_tree(env, frozen(od.get_element()), alone, 'with another network in between', IDS)
    same_tree(env, frozen(other.get_element()), seen, 'the other network afterwards', IDS)
    same_tree(env, frozen(finish(KINDS[two](env, 'b')).get_element()), seen, 'the other network built again', IDS)
    same_tree(env, frozen(od.get_element()), alone, 'afterwards', IDS)
    env.observe('x', alone.find('road').get('length'))

CHANGES = ['left lane', 'lane link', 'road mark', 'section', 'geometry', 'start', 'object', 'signal', 'successor', 'predecessor', 'neighbor', 'adjust', 'type', 'junction', 'connection']
def change(env, road, j, c, what, t):
    P = env.P
    sec = road.lanes.lanesections[0]
    if what == 'left lane': sec.add_left_lane(P.Lane(a=env.real('cw' + t, 1, 500)))
    elif what == 'lane link':
        for l in sec.leftlanes + sec.rightlanes + [sec.centerlane]: l.add_link('successor', env.int('cl' + t, -99, 99)); l.add_link('predecessor', 1)
    elif what == 'road mark':
        for l in sec.leftlanes + sec.rightlanes + [sec.centerlane]: l.add_roadmark(P.RoadMark(P.RoadMarkType.curb, env.real('cm' + t, 0.1, 1)))
    elif what == 'section': road.lanes.add_lanesection(P.LaneSection(env.real('cs' + t, 1, 500), P.Lane()))
    elif what == 'geometry': road.planview.add_geometry(P.Line(env.real('cg' + t, 1, 500)))
    elif what == 'start': road.planview.set_start_point(env.real('cx' + t), 2, 1)
    elif what == 'object': road.add_object([P.Object(env.real('co' + t), 1)])
    elif what == 'signal': road.add_signal(P.Signal(env.real('co' + t), 1, 'de', '1'))
    elif what == 'successor': road.add_successor(P.ElementType.road, env.int('ci' + t, 0, 99999), P.ContactPoint.start, 1)
    elif what == 'predecessor': road.add_predecessor(P.ElementType.road, env.int('ci' + t, 0, 99999), P.ContactPoint.start, 1)
    elif what == 'neighbor': road.add_neighbor(P.ElementType.road, env.int('ci' + t, 0, 99999), P.Direction.same)
    elif what == 'adjust': road.planview.adjust_geometries()
    elif what == 'type': sec.leftlanes[0].lane_type = P.LaneType.stop; sec.leftlanes[0].a = env.real('cw' + t, 1, 500)
    elif what == 'junction': j.add_connection(P.Connection(env.int('ci' + t, 0, 99999), 1, P.ContactPoint.end))
    elif what == 'connection': c.add_lanelink(env.int('cl' + t, -99, 99), 1)

def make(env, how, t):
    """(road, junction, connection) with equal parameters whatever t"""
    P = env.P
    if how == 'general': r = P.create_road(P.Line(env.real('L', 1, 50000)), 1)
    elif how == 'straight': r = P.create_straight_road(1, env.real('L', 1, 50000))
    elif how == 'curve': r = P.create_cloth_arc_cloth(env.real('k', 0.01, 1), env.real('aa', 0.1, 2), env.real('ca', 0.1, 2), 1)
    else:
        pv = P.PlanView(); pv.add_geometry(P.Arc(env.real('k', 0.01, 1), length=env.real('L', 1, 50000)))
        ls = P.Lanes(); s = P.LaneSection(0, P.standard_lane()); s.add_left_lane(P.standard_lane()); s.add_right_lane(P.Lane()); ls.add_lanesection(s)
        r = P.Road(1, pv, ls)
    c = P.Connection(1, 2, P.ContactPoint.start); j = P.Junction('j', 3); j.add_connection(c)
    return r, j, c

def document(env, road, j):
    od = env.P.OpenDrive('n'); od.add_road(road); od.add_junction(j)
    od.adjust_roads_and_lanes()
    return frozen(od.get_element())

def changed(env):
    """changes to a road do not reach another one made the same way, before or after"""
    how = env.choice('how', ['general', 'straight', 'curve', 'parts'])
    quiet = env.apart(lambda: document(env, *make(env, how, 'a')[:2]))
    a = make(env, how, 'a'); b = make(env, how, 'b')
    for i, n in enumerate(['first change', 'second change']):
        what = env.choice(n, CHANGES if i == 0 else [None, 'lane link', 'geometry', 'left lane'])
        if what: env.raises(change, env, a[0], a[1], a[2], what, str(i))
    d = document(env, b[0], b[1])
    same_tree(env, d, quiet, 'the other road', IDS)
    c = make(env, how, 'c')
    same_tree(env, document(env, c[0], c[1]), quiet, 'a road made later', IDS)
    env.observe('L', d.find('road').get('length'))

ARGUMENTS = ['geometries', 'objects', 'signals', 'roads', 'angles', 'junction roads', 'roads of the junction', 'lane linkers', 'prototype']
def arguments(env):
    """lists given by the caller stay as they are, and changing them later has no effect"""
    P = env.P
    what = env.choice('argument', ARGUMENTS)
    w = env.real('w', 1, 500)
    def lines(): return [P.Line(env.real('l%d' % i, 1, 50000)) for i in range(3)]
    def incoming(): return [P.create_straight_road(i, length=env.real('l%d' % i, 1, 50)) for i in (1, 2, 3)]
    ang = [0, env.pi/2, env.pi]
    def one(road):
        od = P.OpenDrive('n'); od.add_road(road)
        od.adjust_roads_and_lanes()
        return od
    if what == 'geometries':
        a = lines(); r = P.create_road(a, 1); od = one(r)
    elif what in ('objects', 'signals'):
        r = P.create_road(P.Line(w), 1); before = env.bool('has one')
        make = (lambda i: P.Object(env.real('l%d' % i, 1, 50000), 1)) if what == 'objects' else (lambda i: P.Signal(env.real('l%d' % i, 1, 50000), 1, 'de', '1'))
        add = r.add_object if what == 'objects' else r.add_signal
        if before: add(make(0))
        a = [make(1), make(2)]; add(a); od = one(r)
        env.check('all added', len(list(r.get_element().iter(what[:-1]))) == (3 if before else 2))
    elif what in ('roads', 'angles', 'junction roads', 'roads of the junction'):
        rs = incoming(); js = P.create_junction_roads(rs, ang, w); j = P.create_junction(js, 1, rs)
        a = {'roads': rs, 'angles': ang, 'junction roads': js, 'roads of the junction': rs}[what]
        od = P.OpenDrive('n')
        for r in rs + js: od.add_road(r)
        od.add_junction(j); od.adjust_roads_and_lanes()
        env.check('the roads are as many', len(rs) == 3 and len(js) == 3 and len(ang) == 3)
    elif what == 'lane linkers':
        r = P.create_road(P.Line(w), 1); s = P.LaneSection(env.real('s', 1, 500), P.Lane()); l = P.Lane(); s.add_left_lane(l)
        ll = P.LaneLinker(); ll.add_link(r.lanes.lanesections[0].leftlanes[0], l); a = [ll]
        r.lanes.add_lanesection(s, a); od = one(r)
    else:
        r = P.create_road(P.Line(w), 1); od = one(r); p = P.Object(0, 0, height=env.real('h', 1, 2)); a = [p]
        r.add_object_roadside(p, env.real('d', 1, 500)); seen = frozen(od.get_element())
        p.height = 7; p.name = 'x'; p.repeat(1, 1); p.id = 'other'
    if what != 'prototype': seen = frozen(od.get_element())
    kept = list(a)
    how = env.choice('then', ['clear', 'append', 'reverse'])
    if how == 'clear': del a[:]
    elif how == 'append': a.append(a[0])
    else: a.reverse()
    same_tree(env, frozen(od.get_element()), seen, 'after the caller changed the %s' % what)
    od.adjust_roads_and_lanes()
    same_tree(env, frozen(od.get_element()), seen, 'after the caller changed the %s and adjusted' % what)
    env.observe('L', seen.find('road').get('length'))

HARNESSES = [networks, changed, arguments]
