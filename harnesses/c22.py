"""C22: the document."""
from .net import *

FUNCTIONS = ['opendrive.OpenDrive.__init__/add_road/add_junction/adjust_roads_and_lanes/get_element', 'opendrive._Header', 'opendrive.Road.get_element/get_attributes/add_object/add_signal', 'links.Junction/Connection.get_element', 'geometry.PlanView.get_total_length/get_element', 'lane.Lanes.get_element']
BOUNDS = 'up to 3 roads (lines only: 6, thorough 9; different symbolic ids, numbers or text, added once or twice) and up to 2 junctions (symbolic ids, possibly equal to road ids) added in every interleaving, before or after adjusting; one or two geometries per road with symbolic parameters; with or without links, signals and objects; symbolic network, road and junction names, also with blanks inside and around; a road of up to 12 geometries with as many signals and objects, laid out from either side, and a junction of 12 connections'
OUTSIDE = 'different roads with the same id'

def check_road(env, e, rid, kinds, given, nlinks, nsig, nobj, jn=-1):
    env.check('road id', env.shows(e.get('id'), rid)); env.check('junction of the road', env.shows(e.get('junction'), jn))
    want = ['link', 'planView', 'lanes'] + (['signals'] if nsig else []) + (['objects'] if nobj else [])
    env.require('sections of the road %s' % want, [c.tag for c in e] == want)
    env.check('links', len(list(e[0])) == nlinks)
    ps = pieces(env, e[1])
    env.require('geometries', len(ps) == len(given))
    tot = 0
    for p, g in zip(ps, given): env.check('geometry', same_shape(env, p, g)); tot = tot + p.L
    env.check('length is the sum of the geometry lengths', env.eq(env.num(e.get('length')), tot))
    env.check('one lane section', len(children(env, e[2], 'laneSection')) == 1)
    if nsig: env.check('signals', [c.tag for c in e.find('signals')] == ['signal']*nsig)
    if nobj: env.check('objects', [c.tag for c in e.find('objects')] == ['object']*nobj)

def check_header(env, root, name):
    env.require('the root is OpenDRIVE with a header first', root.tag == 'OpenDRIVE' and len(root) > 0 and root[0].tag == 'header')
    h = root[0]
    env.check('one header', len(root.findall('header')) == 1)
    env.check('name', h.get('name') == name); env.check('version', h.get('revMajor') == '1' and h.get('revMinor') == '5')

def check_junction(env, e, name, jid, cons):
    env.check('junction id', env.shows(e.get('id'), jid)); env.check('junction name', e.get('name') == name)
    env.require('connections', [c.tag for c in e] == ['connection']*len(cons))
    for c, x in zip(e, cons): env.check('incoming road', env.shows(c.get('incomingRoad'), x))

def order(env):
    """roads and junctions in the order added"""
    P = env.P
    fixed_signs(env)
    n = env.choice('roads', [1, 2, 3]); m = env.choice('junctions', [0, 1, 2])
    ids = [env.int('id%d' % i, 0, 99999) for i in range(n)]
    for i in range(n):
        for j in range(i): env.assume(env.not_(ids[i] == ids[j]))
    form = env.choice('form_of_ids', ['numbers', 'texts', 'words', 'other words'])
    if form == 'texts': ids = [str(i) for i in ids]
    elif form != 'numbers': ids = (['x', 'x ', 'X'] if form == 'words' else ['1', '01', ' 1'])[:n]
    name = env.text('network')
    od = P.OpenDrive(name)
    roads = []; given = []
    for i in range(n):
        kinds = [('line',), ('arc_len', 'line'), ('spiral',)][i]
        pv = P.PlanView(env.real('x%d' % i, -1000000, 1000000), 0, 0)
        gs = [make_geom(env, k, '%d%d' % (i, j)) for j, k in enumerate(kinds)]
        given.append([g.get_element() for g in gs])
        for g in gs: pv.add_geometry(g)
        roads.append(P.Road(ids[i], pv, lanes(env, (1, 1))))
    js = []
    for k in range(m):
        jid = env.int('junction%d' % k, 0, 99999); j = P.Junction('j%d' % k, jid); js.append((j, jid))
    # interleaving: junctions come before road number `at`
    at = [env.choice('at%d' % k, range(n + 1)) for k in range(m)] if m else []
    perm = env.choice('perm', [list(range(n)), list(range(n))[::-1]])
    early = env.bool('adjusted_early') if n > 1 else False
    jorder = []
    for pos in range(n + 1):
        for k in range(m):
            if at[k] == pos: od.add_junction(js[k][0]); jorder.append(k)
        if pos < n:
            od.add_road(roads[perm[pos]])
            if early and pos == 0: od.adjust_roads_and_lanes()
    again = env.choice('again', [None] + list(range(n)))
    if again is not None: od.add_road(roads[perm[again]])
    od.adjust_roads_and_lanes()
    root = od.get_element()
    check_header(env, root, name)
    env.require('roads then junctions', [c.tag for c in root] == ['header'] + ['road']*n + ['junction']*m)
    for e, i in zip(root.findall('road'), perm): check_road(env, e, ids[i], None, given[i], 0, 0, 0)
    for e, k in zip(root.findall('junction'), jorder): check_junction(env, e, 'j%d' % k, js[k][1], [])
    env.observe('first', root[1].get('id'))

def content(env):
    """sections of a road and of a junction"""
    P = env.P
    fixed_signs(env)
    ids = [env.int('id%d' % i, 0, 99999) for i in range(2)]
    env.assume(env.not_(ids[0] == ids[1]))
    jn = env.int('jn', 0, 99999)
    rt = env.choice('connecting', [False, True])
    kinds = env.choice('kinds', [('line',), ('poly', 'arc_ang'), ('spiral', 'line', 'arc_len')])
    gs = [make_geom(env, k, str(i)) for i, k in enumerate(kinds)]
    given = [g.get_element() for g in gs]
    pv = P.PlanView(1, 2, 3)
    for g in gs: pv.add_geometry(g)
    rd = [P.Road(ids[0], pv, lanes(env, (1, 1)), road_type=jn if rt else -1)]
    pv = P.PlanView(0, 0, 0); pv.add_geometry(P.Line(5)); rd.append(P.Road(ids[1], pv, lanes(env, (1, 1)))); line = P.Line(5).get_element()
    nl = 0
    links = env.choice('links', [(), ('successor',), ('predecessor', 'neighbor', 'successor')])
    for l in links:
        if l == 'neighbor': rd[0].add_neighbor(P.ElementType.road, ids[1], P.Direction.same)
        else: getattr(rd[0], 'add_' + l)(P.ElementType.junction, jn)
    nsig, nobj = env.choice('signals', [0, 1, 2]), env.choice('objects', [0, 1, 2])
    def things():
        sig = [P.Signal(s=1, t=2, zOffset=0, country='de', Type='274', subtype='1') for i in range(nsig)]
        obj = [P.Object(s=1, t=2, Type=P.ObjectType.tree) for i in range(nobj)]
        if nsig == 2 and env.bool('list'): rd[0].add_signal(sig)
        else:
            for s in sig: rd[0].add_signal(s)
        if nobj == 2 and env.bool('list'): rd[0].add_object(obj)
        else:
            for o in obj: rd[0].add_object(o)
    late = env.bool('late')
    if not late: things()
    od = P.OpenDrive('n')
    for r in rd: od.add_road(r)
    jname = env.text('junction'); j = P.Junction(jname, jn)
    ncon = env.choice('connections', [0, 2])
    cons = [env.int('in%d' % i, 0, 99999) for i in range(ncon)]
    for c in cons: j.add_connection(P.Connection(c, ids[0], P.ContactPoint.start))
    od.add_junction(j)
    od.adjust_roads_and_lanes()
    if late: things()
    root = od.get_element()
    check_header(env, root, 'n')
    env.require('roads then junctions', [c.tag for c in root] == ['header', 'road', 'road', 'junction'])
    check_road(env, root[1], ids[0], kinds, given, len(links), nsig, nobj, jn if rt else -1)
    check_road(env, root[2], ids[1], None, [line], 0, 0, 0)
    check_junction(env, root[3], jname, jn, cons)
    env.observe('L', root[1].get('length'))

def many(env):
    """larger networks: the order of addition decides, not the ids"""
    P = env.P
    n = env.choice('roads', [4, 6, 9] if env.thorough else [4, 6]); m = env.choice('junctions', [0, 1, 3])
    ids = [env.int('id%d' % i, 0, 99999) for i in range(n)]
    for i in range(n):
        for j in range(i): env.assume(env.not_(ids[i] == ids[j]))
    jids = [env.int('junction%d' % k, 0, 99999) for k in range(m)]
    od = P.OpenDrive('n')
    Ls = [env.real('L%d' % i, 1, 50000) for i in range(n)]
    names = [None if i % 3 == 0 else env.text('road') if i == 1 else 'road %d' % i for i in range(n)]
    for i in range(n):
        pv = P.PlanView(10*i, 5*i, 0); pv.add_geometry(P.Line(Ls[i]))
        r = P.Road(ids[i], pv, lanes(env, (1, 1)), road_type=jids[0] if m and i == 2 else -1, name=names[i], rule=[None, 'RHT', 'LHT', 'LHT'][i % 4])
        od.add_road(r)
        if i < m: od.add_junction(P.Junction('j%d' % i, jids[i]))
    adj = env.bool('adjusted')
    if adj: od.adjust_roads_and_lanes()
    root = od.get_element()
    check_header(env, root, 'n')
    env.require('roads then junctions', [c.tag for c in root] == ['header'] + ['road']*n + ['junction']*m)
    for i, e in enumerate(root.findall('road')):
        env.check('road id', env.shows(e.get('id'), ids[i])); env.check('road name', e.get('name') == names[i] if names[i] is not None else e.get('name') is None); env.check('rule', e.get('rule') == [None, 'RHT', 'LHT', 'LHT'][i % 4])
        env.check('junction of the road', env.shows(e.get('junction'), jids[0] if m and i == 2 else -1))
        if adj: env.check('length', env.eq(env.num(e.get('length')), Ls[i]))
    for k, e in enumerate(root.findall('junction')): check_junction(env, e, 'j%d' % k, jids[k], [])

def long(env):
    """twelve geometries, signals, objects and connections"""
    P = env.P
    fixed_signs(env)
    n = env.choice('n', [12, 9]); rid, jn = env.int('id', 0, 99), env.int('jn', 0, 99999)
    gs = [make_geom(env, {3: 'arc_ang', 8: 'arc_len'}.get(i, 'line'), str(i)) for i in range(n)]
    given = [g.get_element() for g in gs]
    end = env.bool('from_end')
    a, b = P.PlanView(0, 0, 0), P.PlanView()
    a.add_geometry(P.Line(5)); line = P.Line(5).get_element()
    for g in gs: b.add_geometry(g)
    ra, rb = P.Road(100, a, lanes(env, (1, 1))), P.Road(rid, b, lanes(env, (1, 1)))
    if end: rb.add_successor(P.ElementType.road, 100, P.ContactPoint.start); ra.add_predecessor(P.ElementType.road, rid, P.ContactPoint.end)
    else: rb.add_predecessor(P.ElementType.road, 100, P.ContactPoint.end); ra.add_successor(P.ElementType.road, rid, P.ContactPoint.start)
    for i in range(n):
        rb.add_signal(P.Signal(s=1, t=2, zOffset=0, country='de', Type='274', subtype='1')); rb.add_object(P.Object(s=1, t=2, Type=P.ObjectType.tree))
    j = P.Junction('my junction', jn)
    cons = [env.int('in%d' % i, 0, 99999) for i in range(n)]
    for c in cons: j.add_connection(P.Connection(c, rid, P.ContactPoint.start))
    od = P.OpenDrive('n')
    for r in (ra, rb) if env.bool('first') else (rb, ra): od.add_road(r)
    od.add_junction(j); od.adjust_roads_and_lanes()
    root = od.get_element(); els = root.findall('road')
    if root[1].get('id') != '100': els = els[::-1]
    check_road(env, els[0], 100, None, [line], 1, 0, 0); check_road(env, els[1], rid, None, given, 1, n, n)
    check_junction(env, root[3], 'my junction', jn, cons)

HARNESSES = [order, content, many, long]
