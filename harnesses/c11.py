"""C11: lane linkers."""
from .net import *

FUNCTIONS = ['links.LaneLinker.add_link', 'lane.Lanes.add_lanesection/get_element', 'lane.LaneSection', 'lane.Lane.add_link/get_element', 'links._Links/_Link/_lanelink']
BOUNDS = 'three lane sections with symbolic s and 1..2 lanes per side; 2 lane linkers with any distribution of up to 4 links (also lane splits and merges); every way of passing them, alone, in lists, repeatedly or not at all, with each of the sections; a road of eleven sections, two of them with 11 lanes per side'
BOUNDS_THOROUGH = '3 linkers'
OUTSIDE = 'the same pair of lanes linked more than once'

# pairs of (section, lane) that are linked, by name
PLANS = {
    'straight': [((0, 1), (1, 1)), ((0, -1), (1, -1)), ((1, 1), (2, 1)), ((1, -1), (2, -1))],
    'shifted': [((0, -1), (1, -2)), ((1, -2), (2, -1)), ((0, 1), (1, 1))],
    'split': [((0, -1), (1, -1)), ((0, -1), (1, -2)), ((1, -1), (2, -1)), ((1, -2), (2, -1))],
    'center': [((0, 0), (1, 0)), ((1, 2), (2, 1))],
    'few': [((1, -1), (2, -1))],
}

def linker(env):
    """links are applied once, in both directions"""
    P = env.P
    counts = [(1, 1), (2, 2), (1, 1)]
    secs = []; ss = []; byid = []
    for i, (nl, nr) in enumerate(counts):
        s = env.real('s%d' % i); ss.append(s)
        d = {0: P.Lane()}
        sec = P.LaneSection(s, d[0])
        for k in range(1, nl + 1): d[k] = P.Lane(lane_type(env, k + i), a=3); sec.add_left_lane(d[k])
        for k in range(1, nr + 1): d[-k] = P.Lane(lane_type(env, 3*k + i), a=3); sec.add_right_lane(d[-k])
        secs.append(sec); byid.append(d)
    plan = PLANS[env.choice('plan', sorted(PLANS))]
    nlk = 3 if env.thorough else 2
    lk = [P.LaneLinker() for _ in range(nlk)]
    where = []
    for i, ((a, la), (b, lb)) in enumerate(plan):
        w = env.choice('linker%d' % i, range(nlk))
        where.append(w)
        lk[w].add_link(byid[a][la], byid[b][lb])
    ways = [None, lambda: lk[0], lambda: [lk[0]], lambda: [lk[0], lk[1]], lambda: [lk[1], lk[0], lk[1]], lambda: lk[1], lambda: []]
    given = [(), (0,), (0,), (0, 1), (0, 1), (1,), ()]
    if env.thorough: ways.append(lambda: [lk[2], lk[1]]); given.append((1, 2))
    lanes = P.Lanes(); passed = set()
    for i, sec in enumerate(secs):
        w = env.choice('passed%d' % i, range(len(ways)))
        passed.update(given[w])
        if ways[w] is None: lanes.add_lanesection(sec)
        else: lanes.add_lanesection(sec, ways[w]())
    e = lanes.get_element()
    els = children(env, e, 'laneSection', 3)
    for i, el in enumerate(els):
        env.check('section %d in order' % i, env.shows(el.get('s'), ss[i]))
        want = {}
        for w, ((a, la), (b, lb)) in zip(where, plan):
            if w not in passed: continue
            if a == i: want.setdefault(la, []).append(('successor', str(lb)))
            if b == i: want.setdefault(lb, []).append(('predecessor', str(la)))
        got = {}
        for l in el.iter('lane'): got[l.get('id')] = lane_links(env, l)
        env.require('lanes of section %d' % i, sorted(got) == sorted(str(k) for k in byid[i]))
        for k in byid[i]:
            env.check('links of lane %d in section %d' % (k, i), got[str(k)] == sorted(want.get(k, [])))
    env.observe('s0', els[0].get('s'))

def late(env):
    """a linker used for one section and filled further before the next"""
    P = env.P
    secs = []
    for i in range(3):
        a, b = P.Lane(), P.Lane(); sec = P.LaneSection(env.real('s%d' % i), P.Lane())
        sec.add_left_lane(a); sec.add_right_lane(b); secs.append((sec, a, b))
    lk = P.LaneLinker(); lanes = P.Lanes()
    lk.add_link(secs[0][1], secs[1][1])
    how = env.choice('how', ['linker', 'new list', 'same list', 'twice'])
    kept = [lk, P.LaneLinker()]
    def given(): return {'linker': lk, 'new list': [lk], 'same list': kept, 'twice': [lk, lk]}[how]
    lanes.add_lanesection(secs[0][0], given())
    lk.add_link(secs[1][2], secs[2][2])
    early = env.bool('with_second')
    lanes.add_lanesection(secs[1][0], *([given()] if early else []))
    lk.add_link(secs[0][2], secs[1][2])
    lanes.add_lanesection(secs[2][0], lk if env.bool('alone') else given())
    want = [{1: [('successor', '1')], -1: [('successor', '-1')]}, {1: [('predecessor', '1')], -1: [('predecessor', '-1'), ('successor', '-1')]}, {-1: [('predecessor', '-1')]}]
    for i, el in enumerate(children(env, lanes.get_element(), 'laneSection', 3)):
        for l in el.iter('lane'): env.check('links', lane_links(env, l) == want[i].get(int(l.get('id')), []))
        env.observe('s', el.get('s'))

def many(env):
    """eleven sections of eleven lanes per side, one linker or one per section"""
    P = env.P
    m = 11; secs = []; per = env.choice('linkers', ['one', 'each', 'pairs'])
    for i in range(m):
        n = 11 if i in (4, 5) else 1
        sec = P.LaneSection(env.real('s%d' % i), P.Lane()); d = {}
        for k in range(1, n + 1): d[k] = P.Lane(a=1); sec.add_left_lane(d[k]); d[-k] = P.Lane(a=1); sec.add_right_lane(d[-k])
        secs.append((sec, d))
    want = [{} for _ in range(m)]; lk = [P.LaneLinker() for _ in range(m)]
    for i in range(m - 1):
        for k in secs[i][1]:
            to = k if i != 4 else (12 - k if k > 0 else -12 - k)
            if to not in secs[i + 1][1]: continue
            lk[0 if per == 'one' else i].add_link(secs[i][1][k], secs[i + 1][1][to])
            want[i].setdefault(k, []).append(('successor', str(to))); want[i + 1].setdefault(to, []).append(('predecessor', str(k)))
    lanes = P.Lanes()
    for i, (sec, d) in enumerate(secs):
        if per == 'one': lanes.add_lanesection(sec, lk[0])
        elif per == 'each': lanes.add_lanesection(sec, lk[i])
        else: lanes.add_lanesection(sec, [lk[max(i - 1, 0)], lk[i]])
    for i, el in enumerate(children(env, lanes.get_element(), 'laneSection', m)):
        env.check('section %d in order' % i, env.shows(el.get('s'), env.real('s%d' % i)))
        for l in el.iter('lane'): env.check('links of section %d' % i, lane_links(env, l) == sorted(want[i].get(int(l.get('id')), [])))

HARNESSES = [linker, late, many]
