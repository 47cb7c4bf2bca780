"""building and reading road networks"""
from .lib import *

def type_of(env, side, i, tag=None):
    """lane types differ from lane to lane and from road to road"""
    k = 3 + sum(map(ord, str(tag))) if tag is not None else 1
    return lane_type(env, i + k if side == 'left' else 3*i + k + 9)

def section(env, nleft, nright, s=0, tag=None):
    P = env.P
    sec = P.LaneSection(s, P.Lane())
    for i in range(nleft): sec.add_left_lane(P.Lane(type_of(env, 'left', i, tag), a=3))
    for i in range(nright): sec.add_right_lane(P.Lane(type_of(env, 'right', i, tag), a=3))
    return sec

def lanes(env, *counts, tag=None):
    """Lanes with one section per (nleft, nright)"""
    l = env.P.Lanes()
    for i, (a, b) in enumerate(counts): l.add_lanesection(section(env, a, b, s=i*10, tag=tag))
    return l

class Ids(dict):
    """road ids by name; .links: what links call them"""
    links = None
FORMS = ['nn', 'tt', 'nt', 'tn', 'words', 'words back']
WORDS = ['1', '01', 'Main street', 'main street', '1 ', 'Main street ', 'x1', 'None']
def as_given(form, ids):
    """numeric ids as numbers (n) or texts (t): the roads' own ones, those in links; or words instead"""
    if form[0] == 'w':
        names = list(ids) if form == 'words' else list(ids)[::-1]
        r = Ids(zip(names, WORDS)); r.links = r
        return r
    own, links = [{k: v if f == 'n' else str(v) for k, v in ids.items()} for f in form]
    r = Ids(own); r.links = links
    return r

class RoadSpec(object):
    """a road to be built: geometry kinds, pinned start, junction number (None: normal road)"""
    def __init__(self, name, kinds=('line',), junction=None, counts=((1, 1),)):
        self.name, self.kinds, self.junction, self.counts = name, kinds, junction, counts
        self.pin = None; self.links = {}

def build_road(env, sp, id, road_type=-1):
    P = env.P
    if sp.pin is not None: pv = P.PlanView(*sp.pin)
    else: pv = P.PlanView()
    for i, k in enumerate(sp.kinds): pv.add_geometry(make_geom(env, k, '%s%d' % (sp.name, i)))
    return P.Road(id, pv, lanes(env, *sp.counts, tag=sp.name), road_type=road_type)

class Placed(object):
    """start and end of an emitted road"""
    def __init__(self, env, e, n=None):
        self.env = env
        self.ps = pieces(env, e.find('planView'))
        if n is not None: env.require('road %s has each geometry once' % e.get('id'), len(self.ps) == n)
    def start(self):
        p = self.ps[0]
        return p.x, p.y, p.h
    def end(self): return self.ps[-1].end()
    def at(self, contact):
        """position and the heading looking into the road's own direction of travel"""
        return self.end() if contact is self.env.P.ContactPoint.end else self.start()

def road_elements(env, root): return dict((r.get('id'), r) for r in root.findall('road'))

def meet(env, label, a, ca, b, cb, offset=0):
    """contact ca of road a lies `offset` lanes (3 m) to the left of contact cb of road b, headings fit"""
    xa, ya, ha = a.at(ca); xb, yb, hb = b.at(cb)
    if isinstance(hb, Dir) or isinstance(ha, Dir):
        if isinstance(hb, Dir): raise ValueError('reference end needs a heading')
        env.check(label + ' heading', same_dir(env, ha, hb, turned=(ca is cb)))
    else: env.check(label + ' heading', same_dir(env, ha, hb, turned=(ca is cb)))
    if isinstance(offset, int) and offset == 0: px, py = xb, yb
    else: px, py = xb - 3*offset*env.sin(hb), yb + 3*offset*env.cos(hb)
    env.check(label + ' position', env.and_(env.eq(xa, px), env.eq(ya, py)))
    env.observe(label, xa)

def lane_map(env, road_e):
    """[{lane id: lane element}] for every lane section of an emitted road"""
    out = []
    for sec in road_e.find('lanes').findall('laneSection'):
        d = {}
        for l in sec.iter('lane'):
            i = l.get('id')
            if i in d: env.fail('lane ids are unique in their section')
            d[i] = l
        out.append(d)
    return out

def lane_links(env, lane_e):
    """sorted [(kind, id text)] of an emitted lane"""
    ls = lane_e.findall('link')
    env.require('one link element per lane', len(ls) == 1)
    return sorted((c.tag, c.get('id')) for c in ls[0])

def check_links(env, label, road_e, counts, expect):
    """every lane of the road has exactly the expected links; expect: {(section, lane id): {kind: id}}"""
    secs = lane_map(env, road_e)
    env.require(label + ': lane sections', len(secs) == len(counts))
    for k, (sec, (nl, nr)) in enumerate(zip(secs, counts)):
        ids = [str(i) for i in range(nl, -nr - 1, -1)]
        env.require(label + ': lanes of section %d' % k, sorted(sec) == sorted(ids))
        for i in ids:
            want = expect.get((k, int(i)), {})
            got = lane_links(env, sec[i])
            env.check('%s: lane %s of section %d has %d links' % (label, i, k, len(want)), [g[0] for g in got] == sorted(want))
            for kind, ident in got:
                if kind in want: env.check('%s: %s of lane %s in section %d' % (label, kind, i, k), env.shows(ident, want[kind]))

def pinned_at(env, road, geoms, pose, road_type=-1):
    """the same road with a given start"""
    if pose is None: return road
    pv = env.P.PlanView(*pose)
    for g in geoms: pv.add_geometry(g)
    return env.P.Road(road.id, pv, road.lanes, road_type=road_type)

def SPREAD(n):
    """orders of addition of many roads"""
    return [tuple(range(n)), tuple(reversed(range(n))), tuple(range(0, n, 2)) + tuple(range(1, n, 2)), tuple(range(n // 2, n)) + tuple(range(n // 2 - 1, -1, -1))]
