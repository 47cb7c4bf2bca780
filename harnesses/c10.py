"""C10: create_junction agrees with the lane links of the connecting roads."""
from .c09 import *

FUNCTIONS = ['generators.create_junction/_create_junction_links/get_road_by_id', 'links.Junction.add_connection/get_element', 'links.Connection', 'links._get_related_lanesection', 'links.create_lane_links', 'opendrive.OpenDrive.adjust_roads_and_lanes']
BOUNDS = 'one or two connecting roads (1 or 2 lane sections, 0..2 lanes per side) between two or three roads (or from a road back to it), every combination of contact ends, the junction made before or after adjusting; road and connecting road ids symbolic different integers 0..99999, as numbers or texts or words, in roads and links alike or not; lane offsets symbolic integers -40..40; a junction of 8 connecting roads with 16 connections, up to 11 lanes per side'
OUTSIDE = 'connecting roads with only one link or linked to each other'

def check_connections(env, je, items, els):
    """items: [(name, id, counts, pred, suc)] with ids; els: adjusted connecting road elements"""
    P = env.P
    cons = children(env, je, 'connection', 2*len(items))
    env.check('only connections', len(list(je)) == len(cons))
    used = []
    for name, own_id, counts, pred, suc, ids, el in items:
        secs = lane_map(env, el)
        for contact, link, sec, kind in (('start', pred, 0, 'predecessor'), ('end', suc, -1, 'successor')):
            mine = [c for c in cons if c.get('contactPoint') == contact and bool(env.shows(c.get("connectingRoad"), own_id))]
            env.require('one connection of road %s at its %s' % (name, contact), len(mine) == 1)
            c = mine[0]; used.append(c)
            env.check('incoming road of %s at its %s' % (name, contact), env.shows(c.get('incomingRoad'), ids[link[0]]))
            k0 = 0 if sec == 0 else len(counts) - 1
            ex = expected(env, counts, pred, suc)
            want = {k: v[kind] for (s, k), v in ex.items() if s == k0 and kind in v}
            ll = children(env, c, 'laneLink', len(want))
            got = {}
            for l in ll: got[l.get('to')] = l.get('from')
            env.require('the lane links of %s at its %s lead to each of its lanes' % (name, contact), sorted(got) == sorted(str(k) for k in want))
            for k, v in want.items():
                env.check('lane link of %s at its %s to lane %d' % (name, contact, k), env.shows(got[str(k)], v))
                own = dict(lane_links(env, secs[sec][str(k)]))
                env.check('agrees with the link of the lane', kind in own and env.same(env.num(own[kind]), env.num(got[str(k)])))
    env.check('connections are different', all(a is not b for i, a in enumerate(used) for b in used[:i]))
    texts = [c.get('id') for c in cons]
    env.check('connection ids are different', len(set(texts)) == len(texts))

def single(env):
    """one connecting road"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKB')
    counts = section_counts(env, 2 if not env.thorough else 3)
    pred = ('A', env.choice('ca', [E, S]), env.int('offset_pred', -40, 40) if env.bool('off_pred') else 0)
    suc = ('B', env.choice('cb', [S, E]), env.int('offset_suc', -40, 40) if env.bool('off_suc') else 0)
    rd = {'A': road(env, 0, ids['A'], ((1, 2), (2, 1))), 'B': road(env, 1, ids['B'], ((2, 1), (1, 2)))}
    rd['K'] = road(env, 2, ids['K'], counts, road_type=7)
    join_roads(env, rd['K'], rd, ids, jn, pred, suc)
    od = P.OpenDrive('n')
    for n in 'AKB': od.add_road(rd[n])
    first = env.bool('junction_first')
    if first: j = P.create_junction([rd['K']], jn, [rd['A'], rd['B']])
    od.adjust_roads_and_lanes()
    if not first: j = P.create_junction([rd['K']], jn, [rd['B'], rd['A']])
    je = j.get_element()
    env.check('junction id', env.shows(je.get('id'), jn))
    check_connections(env, je, [('K', ids['K'], counts, pred, suc, ids, od.get_element().findall('road')[1])], None)
    env.observe('c', je[0].get('incomingRoad'))

def several(env):
    """two connecting roads that share a road"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKBMC') if env.thorough else ({n: i for n, i in zip('AKBMC', env.choice('ids', [(1, 2, 10, 3, 12), (11, 1, 2, 0, 10)]))}, env.choice('jn', [1, 3, 50]))
    ca, cb = env.choice('ca', [E, S]), env.choice('cb', [S, E])
    pK, sK = ('A', ca, env.int('offset1', -40, 40)), ('B', cb, env.int('offset2', -40, 40))
    pM, sM = ('A', ca, env.int('offset4', -40, 40)), ('C', env.choice('cc', [E, S]), env.int('offset3', -40, 40))
    if env.bool('towards_A'): pM, sM = sM, pM
    counts = {'A': ((2, 1),), 'B': ((1, 1),), 'C': ((1, 2), (2, 2)), 'K': ((1, 1), (2, 1)), 'M': ((2, 1),)}
    rd = {n: road(env, i, ids[n], counts[n], road_type=7 if n in 'KM' else -1) for i, n in enumerate('ABCKM')}
    join_roads(env, rd['K'], rd, ids, jn, pK, sK); join_roads(env, rd['M'], rd, ids, jn, pM, sM)
    od = P.OpenDrive('n')
    for n in 'ABCKM': od.add_road(rd[n])
    order = env.choice('order', [('K', 'M'), ('M', 'K')])
    first = env.bool('junction_first')
    mk = lambda: P.create_junction([rd[n] for n in order], jn, [rd[n] for n in env.choice('roads', ['ABC', 'CBA'])])
    if first: j = mk()
    od.adjust_roads_and_lanes()
    if not first: j = mk()
    els = dict(zip('ABCKM', od.get_element().findall('road')))
    check_connections(env, j.get_element(), [('K', ids['K'], counts['K'], pK, sK, ids, els['K']), ('M', ids['M'], counts['M'], pM, sM, ids, els['M'])], None)

def turning(env):
    """a connecting road that leads back to the road it comes from"""
    P = env.P; S, E = P.ContactPoint.start, P.ContactPoint.end
    ids, jn = distinct_ids(env, 'AKB')
    counts = section_counts(env, 1)
    pred = ('A', env.choice('ca', [E, S]), env.int('offset_pred', -40, 40)); suc = ('A', env.choice('cb', [S, E]), env.int('offset_suc', -40, 40))
    rd = {'A': road(env, 0, ids['A'], ((1, 2), (2, 1))), 'B': road(env, 1, ids['B'], ((2, 1),)), 'K': road(env, 2, ids['K'], counts, road_type=7)}
    join_roads(env, rd['K'], rd, ids, jn, pred, suc)
    od = P.OpenDrive('n')
    for n in 'AKB': od.add_road(rd[n])
    first = env.bool('junction_first')
    if first: j = P.create_junction([rd['K']], jn, [rd['B'], rd['A']])
    od.adjust_roads_and_lanes()
    if not first: j = P.create_junction([rd['K']], jn, [rd['A'], rd['B']])
    check_connections(env, j.get_element(), [('K', ids['K'], counts, pred, suc, ids, od.get_element().findall('road')[1])], None)

def hub(env):
    """eight connecting roads at one road, up to eleven lanes"""
    P = env.P
    names, ids, rd, ends, counts = star(env, 8)
    od = P.OpenDrive('n')
    order = [names[i] for i in env.choice('order', SPREAD(len(names)))]
    for x in order: od.add_road(rd[x])
    first = env.bool('junction_first')
    mk = lambda: P.create_junction([rd[x] for x in order if x in ends], 5, [rd[x] for x in (order if first else reversed(order)) if x not in ends])
    if first: j = mk()
    od.adjust_roads_and_lanes()
    if not first: j = mk()
    els = dict(zip(order, od.get_element().findall('road')))
    check_connections(env, j.get_element(), [(x, ids[x], counts[x]) + ends[x] + (ids, els[x]) for x in order if x in ends], els)

HARNESSES = [single, several, turning, hub]
