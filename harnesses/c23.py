"""C23: asking for the document does not change it."""
from .net import *

FUNCTIONS = ['get_element/get_attributes of OpenDrive, _Header, Road, PlanView, _Geometry, Line, Arc, Spiral, ParamPoly3, Lanes, LaneSection, Lane, RoadMark, RoadLine, Signal, Object, Junction, Connection, _Links, _Link', 'geometry.PlanView.get_start_point/get_end_point/get_total_length', 'opendrive.OpenDrive.adjust_roads_and_lanes', 'opendrive.Road.get_end_point']
BOUNDS = 'every class with get_element, with symbolic values; networks of two linked roads and a connecting road with a junction, marks, signals and objects, any of 12 kinds of queries made (once or twice) before the roads are linked, between two stages of building, before adjusting, after adjusting and after extending everything, compared with the same network built without queries'
OUTSIDE = 'header date'

def same_tree(env, a, b, label, ignore=()):
    """equal elements up to the numeric value of texts"""
    if a.tag != b.tag or sorted(a.keys()) != sorted(b.keys()) or len(a) != len(b):
        env.check('%s: same structure of %s' % (label, a.tag), False); return
    fs = []
    for k in a.keys():
        if (a.tag, k) == ('header', 'date') or (a.tag, k) in ignore: continue
        x, y = a.get(k), b.get(k)
        if env.is_num(x) and env.is_num(y): fs.append(env.same(env.num(x), env.num(y)))
        else: fs.append(x == y)
    env.check('%s: %s' % (label, a.tag), env.and_(*fs) if fs else True)
    for c, d in zip(a, b): same_tree(env, c, d, label, ignore)

def frozen(e):
    """a copy of an element, so that later changes to it are seen"""
    c = type(e)(e.tag, dict(e.attrib))
    for x in e: c.append(frozen(x))
    return c

def ask(env, net, what):
    """one kind of query; the answer is thrown away"""
    od, roads, j = net[:3]
    if what == 'document': env.raises(od.get_element)
    elif what == 'roads':
        for r in roads: env.raises(r.get_element)
    elif what == 'road attributes':
        for r in roads: env.raises(r.get_attributes)
    elif what == 'plan view':
        for r in roads: env.raises(r.planview.get_element)
    elif what == 'lanes':
        for r in roads:
            r.lanes.get_element()
            for s in r.lanes.lanesections:
                s.get_attributes(); s.get_element()
                for l in s.leftlanes + s.rightlanes + [s.centerlane]: l.get_attributes(); l.get_element()
    elif what == 'a road': env.raises(roads[0].get_element)
    elif what == 'a lane section':
        s = roads[3].lanes.lanesections[0]; s.get_attributes(); s.get_element()
    elif what == 'geometries':
        for g in net[3]: g.get_element(); g.get_attributes() if hasattr(g, 'get_attributes') else None
    elif what == 'junction':
        j.get_attributes(); j.get_element()
        for c in j.connections: c.get_attributes(); c.get_element()
    elif what == 'points':
        for r in roads: env.raises(r.planview.get_start_point); env.raises(r.planview.get_end_point); env.raises(r.get_end_point); env.raises(r.planview.get_total_length)
    elif what == 'things':
        for r in roads:
            for o in r.signals + r.objects: env.raises(o.get_attributes); env.raises(o.get_element)
    elif what == 'links':
        for r in roads:
            r.links.get_element()
            for l in r.links.links: l.get_attributes(); l.get_element()

QUERIES = ['document', 'roads', 'a road', 'a lane section', 'road attributes', 'plan view', 'geometries', 'lanes', 'junction', 'points', 'things', 'links']

def build(env, stage):
    """roads A -> K -> B (K a connecting road) with C before A; stage(net, name) is called in between"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    R, J = P.ElementType.road, P.ElementType.junction
    geoms = []
    def plan(tag, kinds, *p):
        pv = P.PlanView(*p)
        for i, k in enumerate(kinds): g = make_geom(env, k, '%s%d' % (tag, i)); geoms.append(g); pv.add_geometry(g)
        return pv
    def secs(*counts):
        ls = P.Lanes()
        for i, (nl, nr) in enumerate(counts):
            c = P.Lane(); c.add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.2, length=env.real('mark', 1, 500)))
            s = P.LaneSection(i*7, c)
            for k in range(nl): s.add_left_lane(P.Lane(a=env.real('w', 1, 500)))
            for k in range(nr): s.add_right_lane(P.Lane(a=3, b=env.real('wb', -1, 1)))
            ls.add_lanesection(s)
        return ls
    fixed_signs(env)
    A = P.Road(1, plan('A', env.choice('kindsA', [('line', 'arc_ang'), ('spiral',)])), secs((2, 2), (2, 1)))
    K = P.Road(5, plan('K', ('arc_len',)), secs((1, 1)), road_type=9)
    B = P.Road(2, plan('B', ('line',)), secs((1, 1)))
    C = P.Road(3, plan('C', ('line',)), secs((2, 2)), name='c')
    roads = [A, K, B, C]
    od = P.OpenDrive('net'); j = P.Junction('j', 9)
    net = (od, roads, j, geoms)
    for r in roads[:2]: od.add_road(r)
    od.add_junction(j)
    stage(net, 'unlinked')
    C.add_successor(R, 1, S); A.add_predecessor(R, 3, E)
    A.add_successor(J, 9); B.add_predecessor(J, 9)
    K.add_predecessor(R, 1, E, lane_offset=env.int('off', -40, 40)); K.add_successor(R, 2, S)
    c = P.Connection(1, 5, S); c.add_lanelink(-1, env.int('lane', -99, 99)); j.add_connection(c)
    stage(net, 'building')
    for r in roads[2:]: od.add_road(r)
    o = P.Object(1, env.real('ot', -500, 500), Type=P.ObjectType.pole, id='77'); o.repeat(env.real('rep', 1, 9000), 2)
    A.add_object(o)
    A.add_signal(P.Signal(1, 2, 'de', '274', value=env.real('value', 1, 9000), unit='km/h', id='88'))
    j.add_connection(P.Connection(2, 5, E))
    stage(net, 'built')
    od.adjust_roads_and_lanes()
    stage(net, 'adjusted')
    # more of everything
    last = j.connections[-1]; last.add_lanelink(1, env.int('lane2', -99, 99)); j.add_connection(P.Connection(2, 6, S)); od.add_junction(P.Junction('j2', 10))
    o.repeat(env.real('rep2', 1, 9000), 2); A.add_object(P.Object(5, 6, id='78')); A.add_signal(P.Signal(3, 4, 'de', '206', id='89')); B.add_signal(P.Signal(3, 4, 'de', '206', id='90'))
    s = B.lanes.lanesections[0]; l = P.Lane(a=env.real('w2', 1, 500)); s.add_left_lane(l); l.add_link('successor', 3); l.add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.1)); s.leftlanes[0].add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.3))
    B.lanes.add_lanesection(P.LaneSection(env.real('s2', 1, 9000), P.Lane())); B.add_neighbor(R, 1, P.Direction.same)
    D = P.Road(4, plan('D', ('line',)), secs((1, 1))); D.add_predecessor(R, 2, E); B.add_successor(R, 4, S); B.lanes.lanesections[1].add_left_lane(P.Lane(a=3)); B.lanes.lanesections[1].add_right_lane(P.Lane(a=3)); od.add_road(D)
    stage(net, 'extended')
    od.adjust_roads_and_lanes()
    return net[:3]

IDS = (('object', 'id'), ('signal', 'id'))
def network(env):
    """a network asked at any stage equals one that was never asked"""
    when = env.choice('when', ['unlinked', 'building', 'built', 'adjusted', 'extended']); what = env.choice('what', QUERIES); n = env.choice('times', [1, 2])
    def stage(net, s):
        if s == when:
            for i in range(n): ask(env, net, what)
    quiet = frozen(build(env, lambda net, s: None)[0].get_element())
    od, roads, j = build(env, stage)
    same_tree(env, od.get_element(), quiet, 'after asking for %s while %s' % (what, when), IDS)
    env.observe('x', quiet.findall('road')[0].find('planView')[0].get('x'))

def repeated(env):
    """the same content every time"""
    before = []
    def stage(net, s):
        if s == 'built':
            # what can be asked before adjusting does not change either
            od, roads, j = net[:3]
            for x in [r.lanes for r in roads] + [r.links for r in roads] + [j] + roads[0].objects + roads[0].signals:
                same_tree(env, frozen(x.get_element()), x.get_element(), 'twice before adjusting')
    od, roads, j = build(env, stage)
    first = frozen(od.get_element()); second = frozen(od.get_element()); third = od.get_element()
    same_tree(env, first, second, 'second document'); same_tree(env, first, third, 'third document')
    for k, r in enumerate(roads):
        e = [x for x in first.findall('road')][[r.id for r in (od.roads[q] for q in od.roads)].index(r.id)]
        same_tree(env, e, r.get_element(), 'road alone'); same_tree(env, e.find('planView'), r.planview.get_element(), 'plan view alone'); same_tree(env, e.find('lanes'), r.lanes.get_element(), 'lanes alone')
    same_tree(env, first.find('junction'), j.get_element(), 'junction alone')
    same_tree(env, first, od.get_element(), 'document after its parts')
    env.observe('x', first.findall('road')[0].find('planView')[0].get('x'))

def parts(env):
    """every element class on its own"""
    P = env.P
    which = env.choice('part', ['line', 'arc_len', 'arc_ang', 'spiral', 'spiral_ang', 'poly', 'poly_arc', 'mark', 'line mark', 'signal', 'object', 'round object', 'link', 'connection', 'junction', 'lane', 'section', 'header'])
    def make():
        if which == 'mark': return P.RoadMark(P.RoadMarkType.solid_broken, env.real('w', 0.1, 1), soffset=env.real('so'))
        if which == 'line mark': return P.RoadMark(P.RoadMarkType.solid, None, space=env.real('sp', 0.1, 500), toffset=env.real('to', 0.1, 500))
        if which == 'signal': return P.Signal(env.real('s'), env.real('t'), 'us', '1', id='5', name=env.text('n'), height=env.real('h'), value=env.real('v'), unit='m')
        if which == 'object':
            o = P.Object(env.real('s'), env.real('t'), id='5', width=env.real('w', 0.1, 1)); o.repeat(env.real('rl', 1, 2), 1); o.repeat(env.real('rl', 1, 2), 0, sStart=env.real('ss')); return o
        if which == 'round object': return P.Object(env.real('s'), env.real('t'), id='5', radius=env.real('r', 0.1, 1), height=env.real('h', 0.1, 1))
        if which == 'link':
            r = P.Road(1, P.PlanView(), P.Lanes()); r.add_successor(P.ElementType.road, env.int('i', 0, 99999), P.ContactPoint.end); r.add_neighbor(P.ElementType.road, 2, P.Direction.same); return r.links
        if which in ('connection', 'junction'):
            c = P.Connection(env.int('i', 0, 99999), 3, P.ContactPoint.end, id=4); c.add_lanelink(env.int('a', -99, 99), 1); c.add_lanelink(-1, 2)
            if which == 'connection': return c
            j = P.Junction(env.text('n'), env.int('j', 0, 99999)); j.add_connection(c); j.add_connection(P.Connection(1, 2, P.ContactPoint.start)); return j
        if which in ('lane', 'section'):
            s = P.LaneSection(env.real('s'), P.Lane()); l = P.Lane(a=env.real('a'), soffset=env.real('so')); s.add_left_lane(P.Lane()); s.add_right_lane(l)
            l.add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.3)); l.add_link('successor', env.int('i', -5, 5)); return l if which == 'lane' else s
        if which == 'header': return P.OpenDrive(env.text('n'))
        return make_geom(env, which, '0')
    a, b = make(), make()
    e = frozen(a.get_element())
    if hasattr(a, 'get_attributes'):
        d = dict(a.get_attributes()); d2 = a.get_attributes()
        env.check('same attributes', env.and_(sorted(d) == sorted(d2), *[d[k] == d2[k] for k in d if k in d2]))
    same_tree(env, e, frozen(a.get_element()), 'second time'); same_tree(env, e, a.get_element(), 'third time')
    same_tree(env, e, b.get_element(), 'first time of an equal one')
    if hasattr(a, 'get_end_data'):
        (x, y, h, l), (x2, y2, h2, l2) = a.get_end_data(0, 0, 0), b.get_end_data(0, 0, 0)
        env.check('the geometry asked for its element ends where the other ends', env.and_(env.same(x, x2), env.same(y, y2), env.same(h, h2), env.same(l, l2)))
    env.observe('n', len(e))

HARNESSES = [network, repeated, parts]
