"""C15: objects emit what they were given."""
from .lib import *

FUNCTIONS = ['signals_objects.Object.__init__/repeat/get_attributes/get_element', 'signals_objects._SignalObjectBase.get_common_attributes', 'helpers.enum2str']
BOUNDS = 'all combinations of given/absent width, length, radius, height, valid length, pitch, roll, name, subtype; every orientation and dynamic value; types as enumeration (all of them) or text; names and subtypes also empty texts; up to 3 repeat calls with each optional value given or not (together and one by one), 17 repeat calls, all numeric values symbolic reals, zero included'
OUTSIDE = 'height written when neither the repeat nor the object has one (any number or nothing is accepted); tStart/tEnd etc. given as text'

ORI = {'positive': '+', 'negative': '-', 'none': 'none'}
OPTIONAL = ['widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd']
FALLBACK = {'sStart': ('s', 's'), 'tStart': ('tStart', 't'), 'tEnd': ('tEnd', 't'), 'heightStart': ('heightStart', 'height'), 'heightEnd': ('heightEnd', 'height'), 'zOffsetStart': ('zOffsetStart', 'zOffset'), 'zOffsetEnd': ('zOffsetEnd', 'zOffset')}

def absent_or_zero(env, e, name, v):
    """an angle of 0 may be left out"""
    if e.get(name) is None: return v is None or env.eq(v, 0)
    return False if v is None and not env.is_num(e.get(name)) else env.shows(e.get(name), 0 if v is None else v)

def _numbers(env, e):
    for n, v in e.items():
        if n in ('id', 'name', 'type', 'subtype', 'dynamic', 'orientation'): continue
        env.check('%s of %s is a number' % (n, e.tag), env.is_num(v))

def attributes(env):
    """every combination of optional values"""
    P = env.P
    s, t, z, hdg = env.real('s'), env.real('t'), env.real('z'), env.real('hdg')
    kw = {}
    size = env.choice('size', ['', 'w', 'l', 'wl', 'r', 'rw', 'rl', 'rwl'])
    for c, n in (('w', 'width'), ('l', 'length'), ('r', 'radius')):
        if c in size: kw[n] = env.real(n, 0)
    for n in ('height', 'validLength'):
        if env.bool('has_' + n): kw[n] = env.real(n)
    if env.bool('angles'): kw['pitch'] = env.real('pitch'); kw['roll'] = env.real('roll')
    names = env.choice('names', ['no', 'yes', 'empty'] if size in ('', 'r', 'wl') else ['no', 'yes'])
    if names == 'yes': kw['name'] = env.text('name'); kw['subtype'] = env.text('subtype')
    elif names == 'empty': kw['name'] = kw['subtype'] = ''
    if env.bool('place'): kw['zOffset'] = z; kw['hdg'] = hdg
    if 'r' not in size or size == 'r': ori = env.choice('orientation', sorted(ORI)); dyn = env.choice('dynamic', ['yes', 'no'])
    else: ori, dyn = 'negative', 'yes'
    kw['orientation'] = getattr(P.Orientation, ori); kw['dynamic'] = getattr(P.Dynamic, dyn)
    oid = env.choice('oid', ['x', None])
    o = P.Object(s, t, Type=P.ObjectType.tree, id=oid, **kw)
    e = o.get_element()
    check_object(env, e, dict(s=s, t=t, Type='tree', **kw), ori, dyn)
    env.check('no repeat', len(list(e)) == 0)
    if oid: env.check('id', e.get('id') == oid)
    env.observe('s', e.get('s'))

def check_object(env, e, kw, ori, dyn):
    env.check('tag', e.tag == 'object')
    _numbers(env, e)
    for n in ('s', 't'): env.check(n, env.shows(e.get(n), kw[n]))
    env.check('zOffset', env.shows(e.get('zOffset'), kw.get('zOffset', 0))); env.check('hdg', env.shows(e.get('hdg'), kw.get('hdg', 0)))
    env.check('type', e.get('type') == kw['Type']); env.check('orientation', e.get('orientation') == ORI[ori]); env.check('dynamic', e.get('dynamic') == dyn)
    for n in ('height', 'validLength'):
        env.check(n, env.shows(e.get(n), kw[n]) if n in kw else e.get(n) is None)
    for n in ('pitch', 'roll'): env.check(n, absent_or_zero(env, e, n, kw.get(n)))
    env.check('name', e.get('name') == kw.get('name'))
    if 'subtype' in kw: env.check('subtype', e.get('subtype') == kw['subtype'])
    if 'radius' in kw:
        env.check('radius', env.shows(e.get('radius'), kw['radius'])); env.check('radius excludes width and length', e.get('width') is None and e.get('length') is None)
    else:
        env.check('no radius', e.get('radius') is None)
        if 'width' in kw or 'length' in kw:
            for n in ('width', 'length'): env.check(n, env.shows(e.get(n), kw.get(n, 0)))
        else: env.check('no size', e.get('width') is None and e.get('length') is None)

def types(env):
    """types from the enumeration or as text"""
    P = env.P
    ty = env.choice('type', list(P.ObjectType) + ['own', '', None])
    if ty == 'own': v = want = env.text('type')
    elif ty == '': v = want = ''
    elif ty is None: v, want = None, 'none'
    else: v, want = ty, ty.name.replace('_', ' ')
    s = env.real('s')
    o = P.Object(s, 0, Type=v) if v is not None else P.Object(s, 0)
    e = o.get_element()
    env.check('type', e.get('type') == want); env.check('s', env.shows(e.get('s'), s))
    _numbers(env, e)

def repeats(env):
    """repeat entries in call order with their fallbacks"""
    P = env.P
    own = dict(s=env.real('s'), t=env.real('t'), zOffset=env.real('z'))
    kw = {}
    if env.bool('has_height'): kw['height'] = own['height'] = env.real('height')
    if env.bool('radius'): kw['radius'] = env.real('radius', 0)
    o = P.Object(own['s'], own['t'], zOffset=own['zOffset'], **kw)
    n = env.choice('n', [1, 3]); calls = []
    for i in range(n):
        names = sorted(FALLBACK) + OPTIONAL
        given = env.choice('given%d' % i, (['nothing', 'all', 'fallbacks'] + names) if i == 0 else ['nothing', 'all'])
        args = {x: env.real('%s_%d' % (x, i)) for x in names if given in (x, 'all') or given == 'fallbacks' and x in FALLBACK}
        L, d = env.real('length%d' % i), env.real('distance%d' % i)
        o.repeat(L, d, **args); calls.append((L, d, args))
    e = o.get_element(); _numbers(env, e)
    rs = children(env, e, 'repeat', n)
    for r, (L, d, args) in zip(rs, calls):
        _numbers(env, r)
        want = {'length': L, 'distance': d}
        for x in OPTIONAL:
            if x in args: want[x] = args[x]
        for x, (attr, mine) in FALLBACK.items():
            if x in args: want[attr] = args[x]
            elif mine in own: want[attr] = own[mine]
        for a, v in want.items(): env.check('repeat ' + a, env.shows(r.get(a), v))
        allowed = set(want) | {'heightStart', 'heightEnd'}
        env.check('nothing else', set(r.keys()) <= allowed)
    env.observe('l', rs[-1].get('length'))

def positional(env):
    """repeat arguments in their documented order"""
    P = env.P
    o = P.Object(env.real('s'), env.real('t'), height=env.real('height'))
    names = ['length', 'distance', 's', 'tStart', 'tEnd', 'heightStart', 'heightEnd', 'zOffsetStart', 'zOffsetEnd', 'widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd']
    v = [env.real('v_' + n) for n in names]
    o.repeat(*v)
    r = o.get_element()[0]
    for n, x in zip(names, v): env.check('repeat ' + n, env.shows(r.get(n), x))
    env.check('all', len(r.keys()) == len(names))

def words(env):
    """every object type under its own word"""
    t, w = word(env, 'ObjectType')
    e = env.P.Object(env.real('s'), env.real('t'), Type=t).get_element()
    env.check('type', e.get('type') == w); env.observe('s', e.get('s'))

def many(env):
    """an object repeated often"""
    P = env.P
    o = P.Object(env.real('s'), env.real('t'), height=env.real('height'))
    n = env.choice('n', [5, 9, 17]); every = env.choice('given', [1, 2, 3]); between = env.choice('emitted in between', [None, 4]); calls = []
    for i in range(n):
        L, d = env.real('length%d' % i), env.real('distance%d' % (i % 5)); args = {x: env.real('%s_%d' % (x, i % 3)) for x in ('sStart', 'tEnd', 'widthEnd')} if i % every == 0 else {}
        o.repeat(L, d, **args); calls.append((L, d, args))
        if between == i: o.get_element()
    rs = children(env, o.get_element(), 'repeat', n)
    for r, (L, d, args) in zip(rs, calls):
        for a, v in (('length', L), ('distance', d), ('s', args.get('sStart', o.s)), ('tStart', o.t), ('tEnd', args.get('tEnd', o.t)), ('heightStart', o.height)): env.check('repeat ' + a, env.shows(r.get(a), v))
        env.check('repeat widthEnd', env.shows(r.get('widthEnd'), args['widthEnd']) if args else r.get('widthEnd') is None)
    env.observe('l', rs[-1].get('length'))

HARNESSES = [attributes, types, repeats, positional, words, many]
