"""C19: under- and over-defined geometry."""
from .lib import *

FUNCTIONS = ['geometry.Spiral.__init__', 'geometry.Arc.__init__', 'geometry.ParamPoly3.__init__', 'geometry.PlanView.__init__/set_start_point/add_geometry/adjust_geometries', 'geometry.Spiral/Arc/ParamPoly3.get_end_data/get_element']
BOUNDS = 'every subset of the optional arguments (by keyword and by position); all values symbolic reals: curvatures -100..100, lengths 0..100000, angles -100..100, start poses unbounded, zero included everywhere'
OUTSIDE = 'a spiral given by an angle or a cdot that its curvatures contradict (start and end curvature cancelling, equal curvatures with a cdot): accepted or ZeroDivisionError, which the documentation leaves open'

def spiral(env):
    """exactly one of length, angle, cdot"""
    P = env.P
    ks, ke = env.real('ks', -100, 100), env.real('ke', -100, 100)
    v = dict(length=env.real('length', 0, 100000), angle=env.real('angle', -100, 100), cdot=env.real('cdot', -100, 100))
    given = [n for n in ('length', 'angle', 'cdot') if env.bool(n)]
    # not the contradictory ones
    if given == ['angle']: env.assume(env.not_(env.same(ks + ke, 0)))
    if given == ['cdot']: env.assume(env.not_(env.same(v['cdot'], 0))); env.assume(env.not_(env.same(ks, ke)))
    if env.bool('positional'): r = env.raises(P.Spiral, ks, ke, *[v[n] if n in given else None for n in ('length', 'angle', 'cdot')])
    else: r = env.raises(lambda: P.Spiral(ks, ke, **{n: v[n] for n in given}))
    if len(given) == 0: env.check('underdefined raises NotEnoughInputArguments', r == 'NotEnoughInputArguments')
    elif len(given) > 1: env.check('overdefined raises ToManyOptionalArguments', r == 'ToManyOptionalArguments')
    else: env.check('well defined is accepted', r is None)
    env.observe('r', r)

def arc(env):
    """exactly one of length and angle, curvature not zero"""
    P = env.P
    k = env.real('k', -100, 100)
    v = dict(length=env.real('length', 0, 100000), angle=env.real('angle', -100, 100))
    given = [n for n in ('length', 'angle') if env.bool(n)]
    if env.bool('positional'): r = env.raises(P.Arc, k, *[v[n] if n in given else None for n in ('length', 'angle')])
    else: r = env.raises(lambda: P.Arc(k, **{n: v[n] for n in given}))
    zero = env.same(k, 0)
    if bool(zero):
        ok = {0: ('NotEnoughInputArguments', 'ValueError'), 1: ('ValueError',), 2: ('ToManyOptionalArguments', 'ValueError')}[len(given)]
        env.check('zero curvature raises', r in ok)
    elif len(given) == 0: env.check('underdefined raises NotEnoughInputArguments', r == 'NotEnoughInputArguments')
    elif len(given) == 2: env.check('overdefined raises ToManyOptionalArguments', r == 'ToManyOptionalArguments')
    else: env.check('well defined is accepted', r is None)
    env.observe('r', r)

def poly(env):
    """arcLength needs a length"""
    P = env.P
    c = [env.real('c%d' % i, -100, 100) for i in range(8)]
    way = env.choice('prange', ['default', 'normalized', 'arcLength'])
    kw = {} if way == 'default' else {'prange': way}
    if env.bool('length'): kw['length'] = env.real('L', 0, 100000)
    r = env.raises(lambda: P.ParamPoly3(*c, **kw))
    if way == 'arcLength' and 'length' not in kw: env.check('no length raises ValueError', r == 'ValueError')
    else: env.check('well defined is accepted', r is None)
    env.observe('r', r)

def planview(env):
    """a full start pose or none"""
    P = env.P
    v = [env.real(n) for n in 'xyh']
    given = [env.bool('has_' + n) for n in 'xyh']
    box = []
    def make():
        if env.bool('positional'): box.append(P.PlanView(*[x if g else None for x, g in zip(v, given)]))
        else: box.append(P.PlanView(**{n: x for n, x, g in zip(('x_start', 'y_start', 'h_start'), v, given) if g}))
    r = env.raises(make)
    if any(given) and not all(given):
        env.check('a partial start pose raises NotEnoughInputArguments', r == 'NotEnoughInputArguments'); return
    env.require('accepted', r is None)
    pv = box[0]; pv.add_geometry(P.Line(env.real('L', 0.1, 100000))); pv.adjust_geometries()
    x, y, h = pv.get_start_point()
    w = v if all(given) else (0, 0, 0)
    env.check('starts at the given pose (default: the origin)', env.and_(env.eq(x, w[0]), env.eq(y, w[1]), env.eq_angle(h, w[2])))
    g = children(env, pv.get_element(), 'geometry', 1)[0]
    env.check('emitted', env.and_(env.eq(env.num(g.get('x')), w[0]), env.eq(env.num(g.get('y')), w[1])))
    env.observe('x', x)

def pinned(env):
    """a full start pose, also of zeros, pins the road"""
    P = env.P
    pose = [env.real(n, -4, 4) for n in 'xyh']
    roads = []
    first = P.PlanView(); second = P.PlanView(*pose)
    for i, pv in enumerate((first, second)):
        pv.add_geometry(P.Line(1)); l = P.Lanes(); l.add_lanesection(P.LaneSection(0, P.Lane())); roads.append(P.Road(i, pv, l))
    roads[0].add_successor(P.ElementType.road, 1, P.ContactPoint.start); roads[1].add_predecessor(P.ElementType.road, 0, P.ContactPoint.end)
    od = P.OpenDrive('n'); [od.add_road(r) for r in roads]; od.adjust_roads_and_lanes()
    x, y, h = second.get_start_point()
    env.check('the pinned road keeps its pose', env.and_(env.eq(x, pose[0]), env.eq(y, pose[1]), env.eq_angle(h, pose[2])))

HARNESSES = [spiral, arc, poly, planview, pinned]
