"""C07: lane numbering."""
from itertools import permutations
from .lib import *

FUNCTIONS = ['lane.Lanes.add_lanesection', 'lane.Lanes.get_element', 'lane.LaneSection.__init__/add_left_lane/add_right_lane/get_element/get_attributes', 'lane.Lane.__init__/get_attributes/get_element']
BOUNDS = 'every interleaving of up to 4 additions of left/right lanes in one section, 1 to 3 sections; section s, width coefficients a,b,c,d and sOffset arbitrary reals; every lane type; up to five steps (quick and thorough) of new section, new lane in any section, showing, in any order; a road of eleven sections with 12 lanes per side in one of them; up to 3 lanes of a given-up section taken into another one, in any order, on any side or as center lane'
ASSUMPTIONS = []
def _lane(env, tag, full=True):
    P = env.P
    lt = env.choice('type', [P.LaneType.driving, P.LaneType.mwyExit])
    v = [env.real('%s%s' % (k, tag)) for k in 'abcd'] + [env.real('so' + tag)]
    return P.Lane(lt, v[0], v[1], v[2], v[3], v[4]), (lt, v)

def numbering(env):
    """one section, all interleavings of left and right additions"""
    P = env.P
    n = env.choice('n', range(0, 6 if env.thorough else 5))
    center, cspec = _lane(env, 'c')
    s = env.real('s')
    sec = P.LaneSection(s, center)
    left, right = [], []
    for i in range(n):
        ln, spec = _lane(env, str(i))
        if env.bool('left%d' % i): sec.add_left_lane(ln); left.append(spec)
        else: sec.add_right_lane(ln); right.append(spec)
    lanes = P.Lanes(); lanes.add_lanesection(sec)
    e = lanes.get_element()
    check_section(env, children(env, e, 'laneSection', 1)[0], s, cspec, left, right)

def check_section(env, e, s, cspec, left, right):
    env.check('section s', env.shows(e.get('s'), s))
    env.check('sides in order', [c.tag for c in e] == (['left'] if left else []) + ['center'] + (['right'] if right else []))
    for side, specs, sign in (('left', left, 1), ('center', [cspec], 0), ('right', right, -1)):
        el = e.find(side)
        if el is None: continue
        ls = children(env, el, 'lane', len(specs))
        for k, (l, (lt, v)) in enumerate(zip(ls, specs)):
            env.check('%s lane id' % side, env.shows(l.get('id'), sign*(k + 1)))
            env.check('lane type', l.get('type') == lt.name.replace('_', ' '))
            w = children(env, l, 'width', 1)[0]
            for a, x in zip(('a', 'b', 'c', 'd', 'sOffset'), v):
                env.check('width ' + a, env.shows(w.get(a), x))
            env.observe('id', l.get('id')); env.observe('a', w.get('a'))

def sections(env):
    """several sections keep their order, s and lanes"""
    P = env.P
    n = env.choice('nsec', [1, 2, 3])
    lanes = P.Lanes(); spec = []
    for i in range(n):
        center, cs = _lane(env, 'c%d' % i)
        s = env.real('s%d' % i)
        sec = P.LaneSection(s, center)
        left, right = [], []
        for j in range(env.choice('nl%d' % i, [0, 2])):
            ln, sp = _lane(env, 'l%d_%d' % (i, j)); sec.add_left_lane(ln); left.append(sp)
        for j in range(env.choice('nr%d' % i, [0, 1])):
            ln, sp = _lane(env, 'r%d_%d' % (i, j)); sec.add_right_lane(ln); right.append(sp)
        lanes.add_lanesection(sec); spec.append((s, cs, left, right))
    e = lanes.get_element()
    for el, sp in zip(children(env, e, 'laneSection', n), spec): check_section(env, el, *sp)

def orphan(env):
    """a lane outside any section cannot be emitted"""
    ln, _ = _lane(env, 'o')
    env.check('ValueError', env.raises(ln.get_element) == 'ValueError')
    env.check('ValueError attributes', env.raises(ln.get_attributes) == 'ValueError')

TYPES = 'none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 special3 roadWorks tram rail entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit'.split()
def types(env):
    """every lane type, and the coefficients that are not given"""
    P = env.P
    name = env.choice('type', TYPES)
    lt = getattr(P.LaneType, name)
    keys = ['a', 'b', 'c', 'd', 'soffset']
    kw = {}
    which = env.choice('given', [None] + keys)
    if which: kw[which] = env.real(which)
    def one(): return P.Lane(lt, **kw) if env.bool('typed') else P.Lane(**kw)
    side = env.choice('side', ['left', 'center', 'right'])
    sec = P.LaneSection(0, one() if side == 'center' else P.Lane())
    if side == 'left': sec.add_left_lane(one())
    if side == 'right': sec.add_right_lane(one())
    l = children(env, sec.get_element().find(side), 'lane', 1)[0]
    env.check('type', l.get('type') == (name if env.bool('typed') else 'driving'))
    w = children(env, l, 'width', 1)[0]
    for k in keys: env.check('width ' + k, env.shows(w.get('sOffset' if k == 'soffset' else k), kw.get(k, 0)))
    env.observe('w', w.get('a'))

def history(env):
    """sections are filled and shown in any order"""
    P = env.P
    lanes = P.Lanes(); secs = []; spec = []
    for k in range(env.choice('steps', [2, 3, 4, 5])):
        what = env.choice('step%d' % k, ['section', 'left', 'right', 'show'] if secs else ['section', 'show'])
        if what == 'section':
            s = env.real('s%d' % k); center, cs = _lane(env, 'c%d' % k)
            secs.append(P.LaneSection(s, center)); spec.append((s, cs, [], [])); lanes.add_lanesection(secs[-1])
        elif what == 'show': lanes.get_element()
        else:
            i = env.choice('of%d' % k, range(len(secs)))
            v = env.real('a%d' % k); ln = P.Lane(P.LaneType.bus, v); sp = (P.LaneType.bus, [v, 0, 0, 0, 0])
            if what == 'left': secs[i].add_left_lane(ln); spec[i][2].append(sp)
            else: secs[i].add_right_lane(ln); spec[i][3].append(sp)
    for again in range(2):
        e = lanes.get_element()
        for el, sp in zip(children(env, e, 'laneSection', len(spec)), spec): check_section(env, el, *sp)

def words(env):
    """every lane type under its own word"""
    t, w = word(env, 'LaneType')
    sec = env.P.LaneSection(env.real('s', 0, 100000), env.P.Lane()); sec.add_left_lane(env.P.Lane(t, a=env.real('a')))
    l = sec.get_element().find('left').find('lane')
    env.check('lane type', l.get('type') == w); env.observe('a', l.find('width').get('a'))

def many(env):
    """twelve lanes per side, eleven sections"""
    P = env.P
    lanes = P.Lanes(); spec = []
    big = env.choice('big', [0, 5, 10])
    for i in range(11):
        v = [env.real('%s%d' % (k, i)) for k in 'abcde']; s = env.real('s%d' % i)
        cs = (P.LaneType.driving, v); left, right = [], []
        sec = P.LaneSection(s, P.Lane(P.LaneType.driving, *v))
        mix = env.choice('mix', ['lr', 'l then r', 'r then l', 'llr'])
        n = 12 if i == big else 1
        if mix == 'lr': seq = 'lr'*n
        elif mix == 'llr': seq = 'llr'*(n//2) + 'r'*(n//2)
        else: seq = ''.join(x*n for x in mix.split(' then '))
        for k, side in enumerate(seq):
            w = [env.real('w%d' % (k % 3)), 0, 0, 0, 0]; ln = P.Lane(P.LaneType.bus, *w); sp = (P.LaneType.bus, w)
            if side == 'l': sec.add_left_lane(ln); left.append(sp)
            else: sec.add_right_lane(ln); right.append(sp)
        lanes.add_lanesection(sec); spec.append((s, cs, left, right))
    for el, sp in zip(children(env, lanes.get_element(), 'laneSection', 11), spec): check_section(env, el, *sp)

def reused(env):
    """lanes taken into another section, in another order and on other sides"""
    P = env.P
    ls = [_lane(env, str(k)) for k in range(env.choice('n', [1, 2, 3]))]
    old = P.LaneSection(0, P.Lane())
    (old.add_left_lane if env.bool('old_left') else old.add_right_lane)(ls[0][0])
    for ln, sp in ls[1:]: (old.add_left_lane if env.bool('old_left2') else old.add_right_lane)(ln)
    if env.bool('shown'):
        l = P.Lanes(); l.add_lanesection(old); l.get_element()
    center, cs = _lane(env, 'c'); s = env.real('s')
    if env.bool('as_center'): center, cs = ls.pop(0)
    sec = P.LaneSection(s, center); left, right = [], []
    for k in env.choice('order', list(permutations(range(len(ls))))):
        ln, sp = ls[k]
        if env.bool('left%d' % k): sec.add_left_lane(ln); left.append(sp)
        else: sec.add_right_lane(ln); right.append(sp)
    lanes = P.Lanes(); lanes.add_lanesection(sec)
    check_section(env, children(env, lanes.get_element(), 'laneSection', 1)[0], s, cs, left, right)

HARNESSES = [numbering, sections, orphan, types, history, words, many, reused]
