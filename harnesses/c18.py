"""C18: road links."""
from .net import *

FUNCTIONS = ['opendrive.Road.__init__/add_successor/add_predecessor/add_neighbor/get_attributes/get_element', 'links._Links.add_link/get_element/get_*', 'links._Link.__init__/get_attributes/get_element']
BOUNDS = 'every sequence of up to 4 link additions (successor, predecessor, neighbor, neighbor without direction) with symbolic element ids 0..99999 as numbers or text, either element type, both contact points or none; symbolic road id, junction number and lane offset; road name and rule given or not; a row of three roads, any of them refusing further links, laid out and its lanes linked'
BOUNDS_THOROUGH = '6 additions'
OUTSIDE = 'traffic rule values (the code writes the given value)'

def a_road(env):
    P = env.P
    pv = P.PlanView(0, 0, 0); L = env.real('L', 0.1, 100000); pv.add_geometry(P.Line(L)); pv.adjust_geometries()
    l = P.Lanes(); l.add_lanesection(P.LaneSection(0, P.Lane()))
    rid, jn = env.int('road_id', 0, 99999), env.int('junction', -1, 99999)
    kw = {'name': env.text('name')} if env.bool('named') else {}
    if env.bool('text_id'): rid = str(rid); kw['rule'] = env.text('rule')
    if env.bool('junction_given'): kw['road_type'] = jn
    else: jn = -1
    return P.Road(rid, pv, l, **kw), rid, jn, L, (kw.get('name'), kw.get('rule'))

def shown(env, e, accepted, rid, jn, L, name):
    env.check('road id', env.shows(e.get('id'), rid)); env.check('junction', env.shows(e.get('junction'), jn)); env.check('length', env.eq(env.num(e.get('length')), L))
    env.check('name', e.get('name') == name[0]); env.check('rule', e.get('rule') == name[1])
    le = children(env, e, 'link', 1)[0]
    env.require('accepted links in order', [c.tag for c in le] == [a[0] for a in accepted])
    for c, (kind, et, eid, last) in zip(le, accepted):
        env.check('%s id' % kind, env.shows(c.get('elementId'), eid)); env.check('%s type' % kind, c.get('elementType') == et)
        if kind == 'neighbor': env.check('direction', c.get('direction') == last); env.check('no contact point', c.get('contactPoint') is None)
        else: env.check('contact point of %s' % kind, c.get('contactPoint') == last); env.check('no direction', c.get('direction') is None)
        env.check('nothing else', set(c.keys()) <= {'elementId', 'elementType', 'contactPoint', 'direction'})

def answers(env, links, accepted):
    """the links answer what was set"""
    for kind in ('successor', 'predecessor'):
        a = [x for x in accepted if x[0] == kind]
        i, t, c = (getattr(links, 'get_%s_%s' % (kind, q))() for q in ('id', 'type', 'contact_point'))
        if not a: env.check('no %s is reported' % kind, i is None and t is None and c is None)
        else:
            env.check('%s id reported' % kind, i is not None and env.shows(str(i), a[0][2]))
            env.check('%s type reported' % kind, t is getattr(env.P.ElementType, a[0][1])); env.check('%s contact reported' % kind, c is (getattr(env.P.ContactPoint, a[0][3]) if a[0][3] else None))

def sequence(env):
    """any order of additions"""
    P = env.P
    road, rid, jn, L, name = a_road(env)
    accepted = []
    n = 4 if not env.thorough else 6
    text = env.bool('text_elements')
    for i in range(n):
        op = env.choice('op%d' % i, ['successor', 'predecessor', 'neighbor', 'undirected'])
        eid = env.int('e%d' % i, 0, 99999)
        if text: eid = [str(eid), ' x', '007', 'Ab  c ', '1.0'][(i + len(op)) % 5]
        et = [P.ElementType.road, P.ElementType.junction][(i + len(op)) % 2]
        if op == 'neighbor':
            d = [P.Direction.same, P.Direction.opposite][i % 2]
            r = env.raises(road.add_neighbor, et, eid, d); last = d.name
        elif op == 'undirected':
            r = env.raises(road.add_neighbor, et, eid, None)
            env.check('a neighbor without direction raises ValueError', r == 'ValueError'); continue
        else:
            cp = [P.ContactPoint.start, P.ContactPoint.end, None][(i + len(accepted)) % 3]
            add = getattr(road, 'add_' + op)
            if cp is None: r = env.raises(add, et, eid)
            else: r = env.raises(add, et, eid, cp, env.int('o%d' % i, -40, 40))
            last = cp.name if cp else None
        limit = 2 if op == 'neighbor' else 1
        full = sum(1 for a in accepted if a[0] == op) >= limit
        if full: env.check('a further %s raises ValueError' % op, r == 'ValueError')
        else:
            env.require('a %s is accepted (%s)' % (op, r), r is None); accepted.append((op, et.name, eid, last))
    shown(env, road.get_element(), accepted, rid, jn, L, name)
    answers(env, road.links, accepted)
    env.observe('n', len(accepted)); env.observe('id', road.get_element().get('id'))

def values(env):
    """all element types, contact points and directions"""
    P = env.P
    road, rid, jn, L, name = a_road(env)
    acc = []
    for op in env.choice('order', [('successor', 'predecessor'), ('predecessor', 'successor')]):
        et = env.choice('type_' + op, list(P.ElementType)); cp = env.choice('contact_' + op, [None] + list(P.ContactPoint))
        eid = env.int('e_' + op, 0, 99999)
        getattr(road, 'add_' + op)(et, eid, cp); acc.append((op, et.name, eid, cp.name if cp else None))
    if env.bool('neighbor'):
        for k in range(2):
            d = env.choice('direction%d' % k, list(P.Direction)); et = env.choice('type_n%d' % k, list(P.ElementType)) if k == 0 else P.ElementType.road; eid = env.int('n%d' % k, 0, 99)
            road.add_neighbor(et, eid, d); acc.append(('neighbor', et.name, eid, d.name))
    shown(env, road.get_element(), acc, rid, jn, L, name); answers(env, road.links, acc)
    env.observe('id', road.get_element().get('id'))

def words(env):
    """element types, contact points and directions under their own words"""
    P = env.P
    (et, w), (cp, c), (d, x) = (word(env, k) for k in ('ElementType', 'ContactPoint', 'Direction'))
    road = a_road(env)[0]
    for op in ('successor', 'predecessor'): getattr(road, 'add_' + op)(et, env.int('e', 0, 99999), cp)
    road.add_neighbor(et, 3, d)
    for l in road.get_element().find('link'):
        env.check('element type', l.get('elementType') == w)
        if l.tag == 'neighbor': env.check('direction', l.get('direction') == x)
        else: env.check('contact point', l.get('contactPoint') == c)

def still(env):
    """rejected links change nothing about where the roads lie and how their lanes lead"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    fixed_signs(env)
    sp = [RoadSpec(n) for n in 'ABC']
    pin = env.choice('pin', [None, 0, 1, 2])
    if pin is not None: sp[pin].pin = pose(env, 'p')
    roads = [build_road(env, s, 4 + i) for i, s in enumerate(sp)]
    what = env.choice('rejected', ['successor', 'predecessor', 'both', 'third neighbor', 'undirected'])
    where = env.choice('at', [0, 1, 2]); other = env.choice('other', [4, 5, 6, 9]); junction = env.bool('naming a junction')
    et = P.ElementType.junction if junction else P.ElementType.road; cp = env.choice('contact', [S, E, None]); off = env.int('offset', -40, 40)
    for i, r in enumerate(roads):
        if i < 2: r.add_successor(P.ElementType.road, 5 + i, S)
        else: r.add_successor(P.ElementType.junction, 12)
        if i: r.add_predecessor(P.ElementType.road, 3 + i, E)
        else: r.add_predecessor(P.ElementType.junction, 13)
        if i == where:
            calls = [(k, (et, other, cp, off)) for k in ('successor', 'predecessor') if what in (k, 'both')]
            if what == 'undirected': calls = [('neighbor', (et, other, None))]
            if what == 'third neighbor':
                for k in range(2): r.add_neighbor(P.ElementType.road, 20 + k, P.Direction.same)
                calls = [('neighbor', (et, other, P.Direction.opposite))]
            for k, a in calls: env.check('rejected %s' % k, env.raises(getattr(r, 'add_' + k), *a) == 'ValueError')
    od = P.OpenDrive('n')
    for k in env.choice('order', [(0, 1, 2), (2, 1, 0), (1, 0, 2)]): od.add_road(roads[k])
    env.require('adjusting succeeds', env.raises(od.adjust_roads_and_lanes) is None)
    els = road_elements(env, od.get_element()); pl = [Placed(env, els[str(4 + i)], 1) for i in range(3)]
    for i in range(2): meet(env, 'road %d meets the next' % i, pl[i+1], S, pl[i], E)
    for i in range(3):
        exp = {(0, l): dict([('successor', l)]*(i < 2) + [('predecessor', l)]*(i > 0)) for l in (1, -1)}
        check_links(env, 'road %d' % i, els[str(4 + i)], [(1, 1)], exp)

HARNESSES = [sequence, values, words, still]
