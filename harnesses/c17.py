"""C17: road marks and road lines."""
from .lib import *

FUNCTIONS = ['lane.RoadMark.__init__/get_attributes/get_element', 'lane.RoadLine.__init__/get_attributes/get_element', 'lane.Lane.add_roadmark/get_element', 'helpers.enum2str']
BOUNDS = 'every road mark type, weight, color, lane change and rule; width, length, space, t offset given or not, all symbolic reals (negative and zero included; width not zero); s offset and height symbolic reals'
OUTSIDE = 'a width of 0 together with a line (the code replaces it by 0.2); line colors, which the code does not emit'

def check_mark(env, e, mt, kw):
    P = env.P
    sp = lambda x: x.name.replace('_', ' ')
    env.check('tag', e.tag == 'roadMark')
    env.check('type', e.get('type') == sp(mt))
    env.check('weight', e.get('weight') == sp(kw.get('marking_weight', P.RoadMarkWeight.standard)))
    env.check('color', e.get('color') == sp(kw.get('color', P.RoadMarkColor.standard)))
    env.check('sOffset', env.shows(e.get('sOffset'), kw.get('soffset', 0))); env.check('height', env.shows(e.get('height'), kw.get('height', 0.02)))
    if 'width' in kw: env.check('width', env.shows(e.get('width'), kw['width']))
    env.check('lane change', e.get('laneChange') == (sp(kw['laneChange']) if 'laneChange' in kw else None))
    needs = [n for n in ('length', 'space', 'toffset') if n in kw]
    line = 'rule' in kw or any([bool(env.not_(env.same(kw[n], 0))) for n in needs])
    ts = children(env, e, 'type', 1 if line else 0)
    env.check('nothing else', len(list(e)) == len(ts))
    if not line:
        if 'width' not in kw: env.check('no width', e.get('width') is None)
        return
    l = children(env, ts[0], 'line', 1)[0]
    env.check('name of the type', ts[0].get('name') == sp(mt))
    dl, ds = {'broken': (3, 3), 'solid': (3, 0)}.get(mt.name, (0, 0))
    def value(n, default):
        if n not in kw: return default
        return default if bool(env.same(kw[n], 0)) else kw[n]
    env.check('line length', env.shows(l.get('length'), value('length', dl))); env.check('line space', env.shows(l.get('space'), value('space', ds)))
    env.check('line tOffset', env.shows(l.get('tOffset'), value('toffset', 0))); env.check('line width', env.shows(l.get('width'), kw.get('width', 0.2)))
    env.check('type width', env.shows(ts[0].get('width'), kw.get('width', 0.2)))
    env.check('line sOffset', env.shows(l.get('sOffset'), kw.get('soffset', 0)))
    env.check('line rule', l.get('rule') == sp(kw.get('rule', P.MarkRule.none)))
    env.observe('length', l.get('length'))

def values(env):
    """given values and defaults"""
    P = env.P
    mt = env.choice('type', [P.RoadMarkType.broken, P.RoadMarkType.solid, P.RoadMarkType.botts_dots] if not env.thorough else list(P.RoadMarkType))
    kw = {}
    for n in ('length', 'space', 'toffset'):
        if env.bool('has_' + n): kw[n] = env.real(n, -100, 100)
    if env.bool('has_width'): kw['width'] = env.real('width', 0.001, 5)
    if env.bool('has_rule'): kw['rule'] = env.choice('rule', list(P.MarkRule))
    if env.bool('has_rest'): kw['soffset'] = env.real('soffset'); kw['height'] = env.real('height')
    e = P.RoadMark(mt, **kw).get_element()
    check_mark(env, e, mt, kw)
    env.observe('height', e.get('height'))

def enumerations(env):
    """types, weights, colors and lane changes; the mark on a lane"""
    P = env.P
    what = env.choice('what', ['type', 'color', 'laneChange'])
    mt = P.RoadMarkType.solid; kw = {}
    if what == 'type': mt = env.choice('type', list(P.RoadMarkType))
    elif what == 'color': kw['color'] = env.choice('color', list(P.RoadMarkColor)); kw['marking_weight'] = env.choice('weight', list(P.RoadMarkWeight))
    else: kw['laneChange'] = env.choice('laneChange', list(P.LaneChange))
    if env.bool('line'): kw['length'] = env.real('length', 0.1, 1000)
    if env.bool('rule'): kw['rule'] = P.MarkRule.caution
    kw['width'] = env.real('width', 0.001, 5)
    m = P.RoadMark(mt, **kw)
    l = P.Lane(); l.add_roadmark(m)
    sec = P.LaneSection(0, P.Lane()); sec.add_left_lane(l)
    le = sec.get_element().find('left').find('lane')
    check_mark(env, children(env, le, 'roadMark', 1)[0], mt, kw)
    env.check('the center lane has none', sec.get_element().find('center').find('lane').find('roadMark') is None)
    env.observe('width', le.find('roadMark').get('width'))

def positional(env):
    """arguments in their documented order"""
    P = env.P
    v = [env.real(n, 0.1, 500) for n in ('width', 'length', 'space', 'toffset', 'soffset')]
    m = P.RoadMark(P.RoadMarkType.edge, *(v + [P.MarkRule.no_passing, P.RoadMarkColor.red, P.RoadMarkWeight.bold, env.real('height'), P.LaneChange.both]))
    kw = dict(zip(('width', 'length', 'space', 'toffset', 'soffset'), v)); kw.update(rule=P.MarkRule.no_passing, color=P.RoadMarkColor.red, marking_weight=P.RoadMarkWeight.bold, height=env.real('height'), laneChange=P.LaneChange.both)
    check_mark(env, m.get_element(), P.RoadMarkType.edge, kw)

def line(env):
    """road lines on their own"""
    P = env.P
    kw = {}
    for n in ('width', 'length', 'space', 'toffset', 'soffset'):
        if env.bool('has_' + n): kw[n] = env.real(n)
    if env.bool('has_rule'): kw['rule'] = env.choice('rule', list(P.MarkRule))
    e = P.RoadLine(**kw).get_element()
    env.check('tag', e.tag == 'line')
    for n, a in (('width', 'width'), ('length', 'length'), ('space', 'space'), ('toffset', 'tOffset'), ('soffset', 'sOffset')):
        env.check(a, env.shows(e.get(a), kw.get(n, 0)))
    env.check('rule', e.get('rule') == (kw['rule'].name.replace('_', ' ') if 'rule' in kw else None))
    env.observe('width', e.get('width'))

def words(env):
    """every type, color, weight, lane change and rule under its own word"""
    P = env.P
    cls = env.choice('what', ['RoadMarkType', 'RoadMarkColor', 'RoadMarkWeight', 'LaneChange', 'MarkRule'])
    v, w = word(env, cls)
    mt = v if cls == 'RoadMarkType' else P.RoadMarkType.curb
    kw = {} if cls == 'RoadMarkType' else {{'RoadMarkColor': 'color', 'RoadMarkWeight': 'marking_weight', 'LaneChange': 'laneChange', 'MarkRule': 'rule'}[cls]: v}
    e = P.RoadMark(mt, width=env.real('width', 0.001, 5), length=env.real('length', 0.1, 500), **kw).get_element()
    if cls == 'MarkRule': e = children(env, children(env, e, 'type', 1)[0], 'line', 1)[0]
    if cls == 'RoadMarkType': env.check('name of the type', e.find('type').get('name') == w)
    env.check(cls, e.get({'RoadMarkType': 'type', 'RoadMarkColor': 'color', 'RoadMarkWeight': 'weight', 'LaneChange': 'laneChange', 'MarkRule': 'rule'}[cls]) == w)
    env.observe('width', e.get('width'))

def shared(env):
    """marks used for many lanes, and replaced"""
    P = env.P
    sec = P.LaneSection(0, P.Lane()); n = env.choice('lanes', [2, 12]); t = list(P.RoadMarkType)
    ms = [(t[i], dict(width=env.real('w%d' % i, 0.001, 500), soffset=env.real('o%d' % i))) for i in (2, 5, 7)]
    made = [P.RoadMark(m, **kw) for m, kw in ms]
    replaced = env.choice('replaced', [None, 0, n - 1]); shown = env.bool('shown before')
    want = []
    for i in range(n):
        l = P.Lane(); l.add_roadmark(made[i % 3]); want.append(i % 3)
        (sec.add_left_lane if i % 2 else sec.add_right_lane)(l)
        if i == replaced:
            if shown: sec.get_element()
            l.add_roadmark(made[(i + 1) % 3]); want[-1] = (i + 1) % 3
    e = sec.get_element()
    for side, f in (('left', 1), ('right', 0)):
        ls = children(env, e.find(side), 'lane', len(want[f::2]))
        for l in ls:
            k = want[f::2][abs(int(l.get('id'))) - 1]
            check_mark(env, children(env, l, 'roadMark', 1)[0], *ms[k])

HARNESSES = [values, enumerations, positional, line, words, shared]
