"""C31: the public helpers answer as documented."""
from .c09 import *

FUNCTIONS = ['generators.standard_lane/get_road_by_id/get_lanes_offset', 'links.are_roads_consecutive/create_lane_links', 'links._Link', 'opendrive.Road.add_successor/add_predecessor/get_end_point', 'geometry.PlanView.get_end_point', 'enumerations (ContactPoint)']
BOUNDS = 'lane widths symbolic reals 0..500; up to 12 roads with symbolic ids 0..99999 as numbers or texts or words in any position, wanted ids alike or not; two roads with no, road or junction links, element ids symbolic 0..99999, asked in both orders; up to 3 lane sections with 1..4 left and 0..3 right lanes; plan views of 1..3 geometries, all parameters and start poses symbolic; create_lane_links for every pair of four roads (in a row, a ring, with one or two connecting roads, apart), in either order, once or three times, with and without adjusting afterwards'
OUTSIDE = 'roads that share an id; get_lanes_offset over roads without left lanes; get_end_point before adjusting; given headings of a road placed after another'

def standard(env):
    """a lane with its width and mark"""
    P = env.P; kw = {}
    w = env.real('w', 0, 500)
    if env.bool('offset'): kw['offset'] = w
    if env.bool('mark'): kw['rm'] = P.RoadMark(P.RoadMarkType.curb, env.real('mw', 0.01, 5), color=P.RoadMarkColor.blue)
    again = env.bool('again')
    l = P.standard_lane(**kw)
    if again:                  # a lane of its own every time
        other = P.standard_lane(env.real('w2', 0, 500), P.RoadMark(P.RoadMarkType.grass, 1))
        env.check('a new lane', other is not l)
    lane = P.standard_lane(**kw) if again else l
    twin = P.standard_lane(**kw)
    if again: twin.add_roadmark(P.RoadMark(P.RoadMarkType.grass, 1)); l.add_roadmark(P.RoadMark(P.RoadMarkType.grass, 1))
    sec = P.LaneSection(0, P.Lane()); sec.add_left_lane(lane); sec.add_right_lane(twin)
    e = sec.get_element().find('left')[0]
    env.check('lanes of their own', env.and_(twin is not lane, e.get('id') == '1', sec.get_element().find('right')[0].get('id') == '-1'))
    env.check('driving', e.get('type') == 'driving')
    ws = children(env, e, 'width', 1)
    env.check('width', env.shows(ws[0].get('a'), w if 'offset' in kw else 3))
    env.check('constant', env.and_(*[env.shows(ws[0].get(k), 0) for k in ('b', 'c', 'd', 'sOffset')]))
    m = children(env, e, 'roadMark', 1)[0]
    if 'rm' in kw: env.check('given mark', env.and_(m.get('type') == 'curb', m.get('color') == 'blue', env.shows(m.get('width'), env.real('mw', 0.01, 5))))
    else: env.check('broken mark', env.and_(m.get('type') == 'broken', env.shows(m.get('width'), 0.2)))
    env.observe('a', ws[0].get('a'))

def plain(env, id, road_type=-1, counts=((1, 1),)):
    """a road of one line"""
    pv = env.P.PlanView(); pv.add_geometry(env.P.Line(10))
    return env.P.Road(id, pv, lanes(env, *counts), road_type=road_type)

def by_id(env):
    """the road with the id, or None"""
    P = env.P
    n = env.choice('n', [0, 1, 3, 12]); form = env.choice('form', FORMS)
    if form[0] == 'w':
        ids = [WORDS[i % 8] + ('' if i < 8 else 'y%d' % i) for i in range(n)]
        if form != 'words': ids = ids[::-1]
        wanted = ids
    else:
        vs = [env.int('id%d' % i, 0, 99999) for i in range(n)] if n < 12 else [env.int('id0', 0, 99999) + k for k in (0, 10, 1, 100, 2, 1000, 3, 11, 4, 12, 5, 20)]
        for i in range(n if n < 12 else 0):
            for k in range(i): env.assume(env.not_(vs[i] == vs[k]))
        ids, wanted = [[v if f == 'n' else str(v) for v in vs] for f in form]
    roads = [plain(env, v, road_type=-1 if i % 2 else 4) for i, v in enumerate(ids)]
    before = list(roads)
    for i in range(n): env.check('road %d' % i, P.get_road_by_id(roads, wanted[i]) is before[i])
    if form[0] == 'w': other = ' '
    else:
        o = env.int('other', 0, 199999)
        for v in vs: env.assume(env.not_(v == o))
        other = o if form[1] == 'n' else str(o)
    env.check('none', P.get_road_by_id(roads, other) is None)
    env.check('the list stays', len(roads) == n and all(a is b for a, b in zip(roads, before)))

def consecutive(env):
    """True exactly for roads that follow each other"""
    P = env.P; R, J = P.ElementType.road, P.ElementType.junction
    form = env.choice('form', ['nn', 'tt', 'nt', 'tn'])
    put = lambda v, f: v if f == 'n' else str(v)
    a, b = env.int('a', 0, 99999), env.int('b', 0, 99999)
    env.assume(env.not_(a == b))
    ra, rb = plain(env, put(a, form[0])), plain(env, put(b, form[0]))
    given = {}
    for name, add, own in (('as', ra.add_successor, b), ('bp', rb.add_predecessor, a), ('ap', ra.add_predecessor, b), ('bs', rb.add_successor, a)):
        first = name in ('as', 'bp')
        kind = env.choice('kind_' + name, ['road', 'junction', None] if first else ['road', None])
        if kind is None: continue
        if first:
            v = env.int('to_' + name, 0, 99999)
            if form != 'nn': env.assume(v == own) if env.bool('right_' + name) else env.assume(env.not_(v == own))
        else: v = own
        if kind == 'road': add(R, put(v, form[1]), P.ContactPoint.start if env.bool('c_' + name) else P.ContactPoint.end) if first else add(R, put(v, form[1]), P.ContactPoint.start)
        else: add(J, put(v, form[1]))
        given[name] = (kind, v)
    def follows(suc, pre, x, y):
        """successor (of x) is y, predecessor (of y) is x"""
        if suc not in given or pre not in given or given[suc][0] != 'road' or given[pre][0] != 'road': return False
        return bool(env.and_(given[suc][1] == y, given[pre][1] == x))
    for k in range(2):
        env.check('a then b', P.are_roads_consecutive(ra, rb) is follows('as', 'bp', a, b))
        env.check('b then a', P.are_roads_consecutive(rb, ra) is follows('bs', 'ap', b, a))
    env.check('not itself', P.are_roads_consecutive(ra, ra) is False)

def lanes_offset(env):
    """left lanes and their width at the end in question"""
    P = env.P; E = P.ContactPoint.end
    w = {}
    def build(name, counts):
        ls = P.Lanes()
        for i, (nl, nr) in enumerate(counts):
            sec = P.LaneSection(10*i, P.Lane())
            w[name, i] = env.real('w%s%d' % (name, i), 0.1, 500)
            for k in range(nl): sec.add_left_lane(P.Lane(type_of(env, 'left', k), a=w[name, i]))
            for k in range(nr): sec.add_right_lane(P.Lane(type_of(env, 'right', k), a=w[name, i]))
            ls.add_lanesection(sec)
        pv = P.PlanView(); pv.add_geometry(P.Line(30))
        return P.Road(env.int('id' + name, 0, 99999), pv, ls)
    ca = env.choice('counts_a', [((1, 1),), ((2, 1), (1, 2)), ((1, 0), (4, 3), (2, 2)), ((1, 1), (1, 1), (1, 1)), ((3, 0), (3, 0))])
    cb = env.choice('counts_b', [((1, 1),), ((1, 2), (2, 1)), ((2, 2), (1, 0)), ((2, 1), (5, 5)), ((3, 0), (1, 1)), ((1, 0), (2, 2)), ((4, 3),)])
    end = env.bool('end')
    ra, rb = build('a', ca), build('b', cb)
    i = len(ca) - 1 if end else 0
    for k in range(2):
        at = E if end else P.ContactPoint.start
        if ca[i] != cb[0]: env.check('rejected', env.raises(P.get_lanes_offset, ra, rb, at) == 'NotSameAmountOfLanesError')
        else:
            n, o = P.get_lanes_offset(ra, rb, at)
            env.check('number', n == ca[i][0]); env.check('width', env.same(o, w['a', i]))

def end_point(env):
    """the ends of the road in the document"""
    P = env.P; R = P.ElementType.road; S, E = P.ContactPoint.start, P.ContactPoint.end
    kinds = env.choice('kinds', [('line',), ('arc_len',), ('spiral0',), ('line', 'arc_ang', 'line'), ('spiral0', 'arc_len')])
    how = env.choice('how', ['origin', 'given', 'headings', 'after', 'backwards', 'from start'])
    pv = P.PlanView(*pose(env)) if how == 'given' else P.PlanView()
    for i, k in enumerate(kinds):
        g = make_geom(env, k, 'g%d' % i)
        if how == 'headings': pv.add_geometry(g, env.real('hd%d' % i, -7, 7))
        else: pv.add_geometry(g)
    r = P.Road(5, pv, lanes(env, (1, 1)))
    od = P.OpenDrive('n')
    if how in ('after', 'backwards', 'from start'):
        pw = P.PlanView(*pose(env)); pw.add_geometry(P.Line(env.real('other', 0.1, 100)))
        o = P.Road(6, pw, lanes(env, (1, 1)))
        if how == 'after': r.add_predecessor(R, 6, E); o.add_successor(R, 5, S)
        elif how == 'backwards': r.add_successor(R, 6, S); o.add_predecessor(R, 5, E)
        else: r.add_predecessor(R, 6, S); o.add_predecessor(R, 5, S)
        od.add_road(o)
    od.add_road(r); od.adjust_roads_and_lanes()
    pl = Placed(env, [e for e in od.get_element().findall('road') if e.get('id') == '5'][0])
    for label, of_road, (ex, ey, eh) in (('end', r.get_end_point(), pl.end()), ('end of the plan view', pv.get_end_point(), pl.end()), ('start of the plan view', pv.get_start_point(), pl.start())):
        x, y, h = of_road
        env.check(label + ' x', env.eq(x, ex)); env.check(label + ' y', env.eq(y, ey))
        env.check(label + ' heading', same_dir(env, eh, h))
        env.observe(label, x)

def linking(env):
    """lanes linked by hand, with create_lane_links"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'ABKM')
    kind = env.choice('kind', ['row', 'ring', 'connecting', 'two connecting', 'apart'])
    counts = {'A': ((1, 2), (2, 1)), 'B': ((2, 1), (1, 2)), 'K': ((2, 2), (1, 1)), 'M': ((1, 1),)}
    rd = {n: road(env, i, ids[n], counts[n], road_type=7 if n in 'KM' else -1) for i, n in enumerate('ABKM')}
    ex = {n: {} for n in 'ABKM'}
    def follow(a, b):
        rd[a].add_successor(P.ElementType.road, ids.links[b], S); rd[b].add_predecessor(P.ElementType.road, ids.links[a], E)
        for k in (2, 1, -1) if a == 'A' else (1, -1, -2):
            ex[a].setdefault((1, k), {})['successor'] = k; ex[b].setdefault((0, k), {})['predecessor'] = k
    if kind in ('row', 'ring'): follow('A', 'B')
    if kind == 'ring': follow('B', 'A')
    if kind in ('connecting', 'two connecting'):
        pred = ('A', env.choice('ca', [E, S]), env.int('offset_pred', -40, 40))
        suc = ('B', env.choice('cb', [S, E]), env.int('offset_suc', -40, 40)) if kind == 'connecting' else ('M', S, 0)
        join_roads(env, rd['K'], rd, ids, jn, pred, suc, swap=env.bool('successor first'))
        ex['K'] = expected(env, counts['K'], pred, suc)
        if kind == 'two connecting':
            rd['M'].add_predecessor(P.ElementType.road, ids.links['K'], E)
            ex['M'] = expected(env, counts['M'], ('K', E, 0))
    swap = env.bool('swap'); names = 'ABKM'
    for _ in range(env.choice('times', [1, 3])):
        for i, a in enumerate(names):
            for b in names[:i]: P.create_lane_links(rd[b], rd[a]) if swap else P.create_lane_links(rd[a], rd[b])
    how = env.choice('then', ['nothing', 'adjust'])
    if how == 'adjust':
        od = P.OpenDrive('n')
        for n in names: od.add_road(rd[n])
        od.adjust_roads_and_lanes()
    for n in names: check_links(env, 'road ' + n, rd[n].get_element(), counts[n], ex[n])

HARNESSES = [standard, by_id, consecutive, lanes_offset, end_point, linking]
