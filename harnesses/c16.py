"""C16: signals emit what they were given."""
from .c15 import absent_or_zero, ORI
from .lib import *

FUNCTIONS = ['signals_objects.Signal.__init__/get_attributes/get_element', 'signals_objects._SignalObjectBase.get_common_attributes', 'signals_objects.Dependency']
BOUNDS = 'all combinations of given/absent name, width, height, pitch, roll, heading offset, value, unit, subtype, zOffset, id; every orientation and dynamic value; numeric values symbolic reals, zero included; texts opaque or empty; dependencies with symbolic ids and types, numbers or texts'
OUTSIDE = 'a unit without a value; texts other than the opaque and the empty ones (the code only copies and upper-cases them)'

def empty(env):
    """texts that are given, but empty"""
    P = env.P
    s, t = env.real('s'), env.real('t')
    kw = {n: env.choice(n, ['', n]) for n in ('name', 'unit', 'subtype')}
    kw['value'] = env.choice('value', [0, env.real('v')])
    check(env, s, t, env.choice('country', ['', 'de']), env.choice('type', ['', '1']), kw, 'default', 'default')

def attributes(env):
    """every combination of optional values"""
    P = env.P
    s, t = env.real('s'), env.real('t'); kw = {}
    for n in ('width', 'height', 'zOffset'):
        if env.bool('has_' + n): kw[n] = env.real(n)
    for n in ('hOffset', 'pitch', 'roll'):
        if env.bool('has_' + n): kw[n] = env.real(n)
    if env.bool('has_name'): kw['name'] = env.text('name')
    sub = env.choice('subtype', ['none', 'text'])
    if sub != 'none': kw['subtype'] = env.text('subtype') if sub == 'text' else env.int('subtype_n', -1, 99)
    val = env.choice('value', ['none', 'number', 'zero', 'no unit'])
    if val != 'none': kw['value'] = 0 if val == 'zero' else env.real('value')
    if val in ('number', 'zero'): kw['unit'] = env.text('unit')
    check(env, s, t, env.text('country'), env.text('type'), kw, 'negative', 'yes')

def enumerations(env):
    """orientations, dynamic, country, numeric types"""
    P = env.P
    s, t = env.real('s'), env.real('t'); kw = {}
    ori = env.choice('orientation', sorted(ORI) + ['default']); dyn = env.choice('dynamic', ['yes', 'no', 'default'])
    country = env.choice('country', ['se', 'De', 'USA', 'own'])
    if country == 'own': country = env.text('country')
    ty = env.choice('type', ['274', 'number'])
    if ty == 'number': ty = env.int('type', 0, 999)
    if env.bool('sub_n'): kw['subtype'] = env.int('subtype_n', -1, 99)
    if env.bool('has_id'): kw['id'] = env.int('id', 0, 99999)
    check(env, s, t, country, ty, kw, ori, dyn)

def check(env, s, t, country, ty, kw, ori, dyn):
    P = env.P
    a = dict(kw)
    if ori != 'default': a['orientation'] = getattr(P.Orientation, ori)
    if dyn != 'default': a['dynamic'] = getattr(P.Dynamic, dyn)
    e = P.Signal(s, t, country, ty, **a).get_element()
    env.check('tag', e.tag == 'signal')
    env.check('s, t', env.and_(env.shows(e.get('s'), s), env.shows(e.get('t'), t)))
    env.check('country', e.get('country') == env.upper(country))
    env.check('type', env.shows(e.get('type'), ty))
    env.check('orientation', e.get('orientation') == ORI.get(ori, '+')); env.check('dynamic', e.get('dynamic') == (dyn if dyn != 'default' else 'no'))
    env.check('subtype', env.shows(e.get('subtype'), kw.get('subtype', '-1')))
    if 'zOffset' in kw: env.check('zOffset', env.shows(e.get('zOffset'), kw['zOffset']))
    else: env.check('zOffset', env.is_num(e.get('zOffset')))
    if 'id' in kw: env.check('id', env.shows(e.get('id'), kw['id']))
    for n in ('width', 'height'): env.check(n, env.shows(e.get(n), kw[n]) if n in kw else e.get(n) is None)
    for n in ('pitch', 'roll', 'hOffset'): env.check(n, absent_or_zero(env, e, n, kw.get(n)))
    env.check('name', e.get('name') == kw.get('name'))
    env.check('value', env.shows(e.get('value'), kw['value']) if 'value' in kw else e.get('value') is None)
    if 'value' in kw and 'unit' in kw: env.check('unit', e.get('unit') == kw['unit'])
    else: env.check('no unit', e.get('unit') is None)
    known = {'s', 't', 'id', 'subtype', 'dynamic', 'zOffset', 'pitch', 'roll', 'width', 'height', 'name', 'type', 'orientation', 'country', 'hOffset', 'value', 'unit'}
    env.check('nothing else', set(e.keys()) <= known)
    env.observe('s', e.get('s'))

def dependency(env):
    """a dependency names the signal it controls"""
    P = env.P
    i = env.choice('id', [env.int('n', 0, 99999), env.text('name'), '', ' 01', 0]); ty = env.choice('type', [env.text('kind'), '', ' x', env.int('k', -1, 99)])
    d = P.Dependency(i, ty)
    for k in range(env.choice('times', [1, 2])): e = d.get_element()
    env.check('tag', e.tag == 'dependency'); env.check('id', env.shows(e.get('id'), i)); env.check('type', env.shows(e.get('type'), ty))
    env.check('nothing else', set(e.keys()) == {'id', 'type'} and len(e) == 0)
    env.observe('id', e.get('id'))

HARNESSES = [attributes, enumerations, empty, dependency]
