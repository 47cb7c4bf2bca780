"""C13: connection ids in a junction."""
from .lib import *

FUNCTIONS = ['links.Junction.__init__/add_connection/get_attributes/get_element', 'links.Connection.__init__/_set_id/add_lanelink/get_attributes/get_element']
BOUNDS = 'every history of up to 5 connections, each with an explicit id (symbolic integer 0..99999, as number or text) or none; up to 2 lane links each with symbolic lane ids -99..99; symbolic road and junction ids; 14 connections, explicit ids (from a symbolic start) in five patterns, up to 12 lane links'
BOUNDS_THOROUGH = '6 connections'
OUTSIDE = 'explicit ids that are in use when the connection is added; a connection added to two junctions'

def history(env):
    """ids are unique, explicit ones kept"""
    P = env.P
    n = env.choice('n', [2, 5] if not env.thorough else [2, 6])
    text = env.choice('explicit_as', ['number', 'text', 'words'])
    jid = env.int('jid', -5, 99999)
    j = P.Junction(env.text('junction'), jid)
    env.check('an empty junction has no connections', len(list(j.get_element())) == 0)
    used = []; spec = []
    for i in range(n):
        v = None
        if env.bool('explicit%d' % i):
            v = env.int('c%d' % i, 0, 99999)
            if text == 'text': v = str(v)
            if text == 'words': v = ['x', '07', 'x ', 'X', '0.0', ' 1'][i]
        a, b = env.int('in%d' % i, 0, 99999), env.int('con%d' % i, 0, 99999)
        if text == 'words': a, b = ['Main  street ', '007', '1.0'][i % 3], [' x', 'X', '-0', ''][i % 4]
        cp = [P.ContactPoint.start, P.ContactPoint.end][i % 2]
        c = P.Connection(a, b, cp, v) if v is not None else P.Connection(a, b, cp)
        if v is not None: env.assume(env.and_(*[env.not_(str(v) == u) for u in used]))
        ll = []
        for k in range((i + 1) % 3):
            f, t = env.int('f%d_%d' % (i, k), -9, 9), env.int('t%d_%d' % (i, k), -9, 9)
            c.add_lanelink(f, t); ll.append((f, t))
        j.add_connection(c)
        t = c.get_element().get('id')
        if v is not None: env.check('the explicit id is emitted', env.shows(t, v))
        env.require('id %d is different from the earlier ones' % i, not any(u == t for u in used))
        used.append(t); spec.append((a, b, cp, ll, t))
    e = j.get_element()
    env.check('junction', e.tag == 'junction' and e.get('name') == env.text('junction')); env.check('junction id', env.shows(e.get('id'), jid))
    cs = children(env, e, 'connection', n)
    env.check('nothing else', len(list(e)) == n)
    for c, (a, b, cp, ll, t) in zip(cs, spec):
        env.check('id stays', c.get('id') == t)
        env.check('roads', env.and_(env.shows(c.get('incomingRoad'), a), env.shows(c.get('connectingRoad'), b)))
        env.check('contact point', c.get('contactPoint') == cp.name)
        ls = children(env, c, 'laneLink', len(ll))
        for l, (f, to) in zip(ls, ll): env.check('lane link in order', env.and_(env.shows(l.get('from'), f), env.shows(l.get('to'), to)))
    env.observe('id', cs[-1].get('id')); env.observe('in', cs[0].get('incomingRoad'))

def many(env):
    """fourteen connections"""
    P = env.P
    j = P.Junction(env.text('junction'), env.int('jid', 0, 99999)); used = []
    pattern = env.choice('pattern', ['none', 'third', 'first', 'last', 'some']); base = env.int('base', 0, 14)
    text = env.bool('text')
    for i in range(14):
        v = None
        if pattern == 'third' and i % 3 == 1 or pattern == 'first' and i < 3 or pattern == 'last' and i > 10 or pattern == 'some' and i in (2, 9): v = base + i
        if v is not None and any(bool(str(v) == u) for u in used): v = None
        c = P.Connection(i, 100 + i, P.ContactPoint.end, str(v) if text and v is not None else v)
        for k in range(12 if i == 3 else i % 2): c.add_lanelink(k - 6, -k)
        j.add_connection(c)
        t = c.get_element().get('id')
        if v is not None: env.check('the explicit id is emitted', env.shows(t, v))
        env.require('id %d is different from the earlier ones' % i, not any(u == t for u in used))
        used.append(t)
    for i, (c, t) in enumerate(zip(children(env, j.get_element(), 'connection', 14), used)):
        env.check('id stays', c.get('id') == t)
        env.check('in order', c.get('incomingRoad') == str(i) and c.get('connectingRoad') == str(100 + i) and c.get('contactPoint') == 'end')
        env.check('lane links in order', [(l.get('from'), l.get('to')) for l in c] == [(str(k - 6), str(-k)) for k in range(12 if i == 3 else i % 2)])
    env.observe('id', used[-1])

HARNESSES = [history, many]
