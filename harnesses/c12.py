"""C12: object and signal ids."""
from .lib import *

FUNCTIONS = ['signals_objects._SignalObjectBase._update_id/get_common_attributes', 'signals_objects.Signal', 'signals_objects.Object', 'opendrive.Road.add_object/add_signal/get_element']
BOUNDS = 'every history of up to 4 additions (objects or signals, one by one or two in a list, the second also to another road) with ids absent, a symbolic integer 0..99999 as number or as text, or a word, and up to 4 with any of 11 texts (leading zeros, blanks, signs, upper and lower case, empty); the emitted document after the history; 28 additions to two roads, explicit ids (from a symbolic start) in five patterns; lists of up to 14'
BOUNDS_THOROUGH = '5 additions, either road for each'
OUTSIDE = 'adding the same item twice; ids changed after the addition'
ASSUMPTIONS = ['one process adds the items in sequence (the id registry is shared by the process)']

def build(env, i, kind):
    P = env.P
    how = env.choice('id%d' % i, ['none', 'number', 'text', 'word'])
    v = None
    if how == 'number': v = env.int('n%d' % i, 0, 99999)
    elif how == 'text': v = str(env.int('n%d' % i, 0, 99999))
    elif how == 'word': v = 'x'
    s = env.real('s%d' % i)
    o = P.Object(s, 0, id=v) if kind == 'object' else P.Signal(s, 0, 'SE', '1', id=v)
    return o, v, s

def road(env, k):
    P = env.P
    pv = P.PlanView(0, 0, 0); pv.add_geometry(P.Line(100)); pv.adjust_geometries()
    l = P.Lanes(); l.add_lanesection(P.LaneSection(0, P.Lane()))
    return P.Road(k, pv, l)

def same_id(env, a, b): return str(a) == str(b)

def history(env, n):
    P = env.P
    rd = [road(env, 1), road(env, 2)]
    used = {'object': [], 'signal': []}          # emitted ids so far
    placed = {(r, k): [] for r in (0, 1) for k in used}
    i = 0
    while i < n:
        kind = env.choice('kind%d' % i, ['object', 'signal']); r = env.choice('road%d' % i, [0, 1]) if i == 1 or env.thorough and i else 0
        m = 2 if i + 1 < n and env.bool('list%d' % i) else 1
        its = [build(env, i + j, kind) for j in range(m)]
        add = rd[r].add_object if kind == 'object' else rd[r].add_signal
        add([o for o, v, s in its] if m == 2 or env.bool('single_list%d' % i) else its[0][0])
        for j, (o, v, s) in enumerate(its):
            e = o.get_element(); t = e.get('id')
            clash = any(bool(env.shows(u, t) if not isinstance(t, str) else t == u) for u in used[kind])
            env.require('id of %s %d is different from the earlier ones' % (kind, i + j), not clash)
            if v is not None and not any(str(v) == u for u in used[kind]):
                env.require('a free id is kept', str(v) == t)
            used[kind].append(t); placed[(r, kind)].append((t, s))
        i += m
    for r in (0, 1):
        re = rd[r].get_element()
        for kind, tag in (('signal', 'signals'), ('object', 'objects')):
            want = placed[(r, kind)]
            box = re.findall(tag)
            env.require('one %s element if needed' % tag, len(box) == (1 if want else 0))
            if not want: continue
            els = list(box[0])
            env.require('each %s once' % kind, len(els) == len(want) and all(x.tag == kind for x in els))
            for x, (t, s) in zip(els, want):
                env.check('%s in order with its id' % kind, env.and_(x.get('id') == t, env.shows(x.get('s'), s)))
    env.observe('id', used['object'][0] if used['object'] else used['signal'][0])

def short(env):
    """three additions"""
    history(env, 3)
def longer(env):
    """four additions of objects, ids absent, numbers or texts, one road"""
    _only(env, 4 if not env.thorough else 5)

def _only(env, n):
    """objects (or signals) on one road, one by one"""
    P = env.P; rd = road(env, 1)
    kind = env.choice('kind', ['object', 'signal'])
    used = []
    for i in range(n):
        how = env.choice('id%d' % i, ['none', 'number', 'text'])
        v = None
        if how != 'none':
            v = env.int('n%d' % i, 0, 99999)
            if how == 'text': v = str(v)
        o = P.Object(0, 0, id=v) if kind == 'object' else P.Signal(0, 0, 'SE', '1', id=v)
        (rd.add_object if kind == 'object' else rd.add_signal)(o)
        t = o.get_element().get('id')
        env.require('id %d is different from the earlier ones' % i, not any(u == t for u in used))
        if v is not None and not any(str(v) == u for u in used): env.require('a free id is kept', str(v) == t)
        used.append(t)
    els = list(rd.get_element().find(kind + 's'))
    env.check('emitted in order', len(els) == n and all(e.get('id') == t for e, t in zip(els, used)))
    env.observe('id', used[-1])

TEXTS = ['007', '7', ' 7', '7.0', '+7', '', 'Lamp', 'lamp', 'lamp 1', 'None', '-1']
def words(env):
    """ids that look alike"""
    P = env.P; rd = road(env, 1)
    kind = env.choice('kind', ['object', 'signal'])
    first = env.choice('first', TEXTS)
    ids = [first, env.choice('second', [x for x in TEXTS if x.strip()[:1].lower() == first.strip()[:1].lower() or x in ('007', '7')]), env.choice('third', [None, first]), env.int('n', -3, 9) if env.bool('number') else None]
    if env.bool('backwards'): ids.reverse()
    used = []
    for i, v in enumerate(ids):
        o = P.Object(0, 0, id=v) if kind == 'object' else P.Signal(0, 0, 'SE', '1', id=v)
        (rd.add_object if kind == 'object' else rd.add_signal)(o)
        t = o.get_element().get('id')
        env.require('id %d is different from the earlier ones' % i, not any(u == t for u in used))
        if v is not None and not any(str(v) == u for u in used): env.require('a free id is kept', str(v) == t)
        used.append(t)
    els = list(rd.get_element().find(kind + 's'))
    env.check('emitted in order', len(els) == len(ids) and all(e.get('id') == t for e, t in zip(els, used)))
    env.observe('id', used[-1])

def many(env):
    """fourteen objects and fourteen signals on two roads"""
    P = env.P; rd = [road(env, 1), road(env, 2)]
    pattern = env.choice('pattern', ['none', 'every third', 'first', 'last', 'taken'])
    base = env.int('base', 0, 12)
    for kind in ('object', 'signal'):
        used = []; where = ([], [])
        for i in range(14):
            v = None
            if pattern == 'every third' and i % 3 == 1 or pattern == 'first' and i < 3 or pattern == 'last' and i > 10: v = base + i
            if pattern == 'taken' and i in (5, 12): v = str(base)
            o = P.Object(i, 0, id=v) if kind == 'object' else P.Signal(i, 0, 'SE', '1', id=v)
            (rd[i % 2].add_object if kind == 'object' else rd[i % 2].add_signal)(o)
            t = o.get_element().get('id')
            env.require('id of %s %d is different from the earlier ones' % (kind, i), not any(u == t for u in used))
            if v is not None and not any(str(v) == u for u in used): env.require('a free id is kept', str(v) == t)
            used.append(t); where[i % 2].append(t)
        for r in (0, 1):
            els = list(rd[r].get_element().find(kind + 's'))
            env.check('emitted in order', len(els) == len(where[r]) and all(e.get('id') == t for e, t in zip(els, where[r])))
    env.observe('id', used[-1])

def lists(env):
    """fourteen of a kind in one list, after and before single ones"""
    P = env.P; r = road(env, 1); base = env.int('base', 0, 12)
    pattern = env.choice('pattern', ['none', 'every third', 'last']); kind = env.choice('kind', ['object', 'signal'])
    add = r.add_object if kind == 'object' else r.add_signal
    new = lambda i, v: P.Object(i, 0, id=v) if kind == 'object' else P.Signal(i, 0, 'SE', '1', id=v)
    n = env.choice('n', [5, 14]); first = env.choice('before', [None, base + 3, '0'])
    one, rest, last = new(0, first), [new(1 + i, base + 1 + i if pattern == 'every third' and i % 3 == 1 or pattern == 'last' and i > 10 else None) for i in range(n)], new(n + 1, None)
    given = [first] + [o.id for o in rest] + [None]
    add(one); add(list(rest)); add(last)
    els = list(r.get_element().find(kind + 's')); used = []
    env.require('all are emitted', len(els) == n + 2)
    for i, (e, v) in enumerate(zip(els, given)):
        env.check('in order', env.shows(e.get('s'), i)); t = e.get('id')
        env.require('id of %s %d is different from the earlier ones' % (kind, i), t is not None and t != 'None' and not any(u == t for u in used))
        if v is not None and not any(str(v) == u for u in used): env.require('a free id is kept', str(v) == t)
        used.append(t)
    env.observe('id', used[-1])

HARNESSES = [short, longer, words, many, lists]
