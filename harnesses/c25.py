"""C25: written files parse back to the document"""
FUNCTIONS = ['opendrive.OpenDrive.write_xml/get_element', 'helpers.printToFile/prettyprint', 'all get_attributes/get_element that emit texts',
             'xml.etree.ElementTree (Element, tostring, ElementTree.write, escaping) and xml.dom.minidom (toprettyxml, writexml) of the project interpreter, from source']
BOUNDS = 'texts of up to 2 arbitrary XML 1.0 characters (any code point) as network, road, junction, object and signal names, ids, types, subtypes and units; pretty-printed or not; file name given or default; up to four files written in one program, roads added in between; prettyprint of the same documents, once and twice; default text encoding of the system utf-8, latin-1 or ascii'
BOUNDS_THOROUGH = 'texts of up to 3 characters'
OUTSIDE = 'characters XML 1.0 cannot represent (control characters, surrogates); the XML parser (expat) is a model, compared with the real one on every witness; writing errors of the operating system; line breaks and tabs inside attributes in what prettyprint prints (minidom of this Python prints them raw)'
ASSUMPTIONS = ['a conforming XML parser reads the file (model: line-end and attribute-value normalisation, character and predefined entity references)']
OPTS = {'symchars': True}
QUICK_S = 420

PLACES = ['network', 'road name', 'road id', 'junction name', 'object name', 'object id', 'object type', 'signal name', 'signal id', 'signal subtype', 'signal unit', 'signal type', 'road rule', 'object subtype', 'junction id', 'incoming road', 'neighbor id']
def network(env, place, text, rich=True):
    P = env.P
    def t(p, default): return text if p == place else default
    o = P.OpenDrive(t('network', 'net'))
    rid = 'R' + text if place == 'road id' else 1
    def road(i, name, jid=-1, rule=None):
        pv = P.PlanView(); pv.add_geometry(P.Line(10))
        lanes = P.Lanes(); sec = P.LaneSection(0, P.Lane()); sec.add_right_lane(P.Lane()); sec.add_left_lane(P.Lane()); lanes.add_lanesection(sec)
        return P.Road(i, pv, lanes, jid, name=name, rule=rule)
    r = road(rid, t('road name', 'road & <1>'), rule=t('road rule', 'LHT'))
    if rich:
        r.add_object(P.Object(1.5, 2, dynamic=P.Dynamic.no, orientation=P.Orientation.positive, id='o' + text if place == 'object id' else 'ob"1"', name=t('object name', "it's"), Type=t('object type', P.ObjectType.pole), subtype=t('object subtype', None), radius=1))
        r.add_signal(P.Signal(3, -2, 'de', 'T' + text if place == 'signal type' else '274', t('signal subtype', '57'), id='s' + text if place == 'signal id' else 's1', name=t('signal name', 'a  b'), value=3, unit=t('signal unit', 'km/h')))
    o.add_road(r)
    if rich:
        r2 = road('R2', 'second'); o.add_road(r2)
        r.add_successor(P.ElementType.road, 'R2', P.ContactPoint.start)
        r2.add_predecessor(P.ElementType.road, rid, P.ContactPoint.end)
        r2.add_neighbor(P.ElementType.road, t('neighbor id', 9), P.Direction.opposite)
        j = P.Junction(t('junction name', 'j > i'), t('junction id', 7))
        c = P.Connection(t('incoming road', 1), 2, P.ContactPoint.start); c.add_lanelink(-1, -1); j.add_connection(c)
        o.add_junction(j)
    o.adjust_roads_and_lanes()
    return o

def compare(env, e, x, path):
    """x, read back, is the element e"""
    env.require(path + ': tag', e.tag == x.tag)
    env.require(path + ': attribute names', sorted(e.attrib) == sorted(x.attrib))
    for k in sorted(e.attrib):
        if e.tag == 'header' and k == 'date': continue
        env.check('%s: attribute %s' % (path, k), env.same_text(e.attrib[k], x.attrib[k]))
    env.check(path + ': no text', not x.text.strip())
    kids = list(e)
    env.require(path + ': number of children', len(kids) == len(x.kids))
    for i, (a, b) in enumerate(zip(kids, x.kids)): compare(env, a, b, path + '/' + a.tag)

def check(env, o, files, name):
    env.require('exactly one file', len(files) == 1)
    env.check('file name', env.same_text(files[0][0], name))
    env.require('the file is well-formed', files[0][1] is not None)
    compare(env, o.get_element(), files[0][1], 'OpenDRIVE')

def write(env, o, given, pretty, locale='utf-8'):
    """writes in the ways a user can ask for it"""
    args, kw = [], {}
    if given == 'positional': args = ['some file.xodr']
    elif given == 'keyword': kw['filename'] = 'dir.d/some'
    if pretty is not None: kw['prettyprint'] = pretty
    return env.written(lambda: o.write_xml(*args, **kw), locale), (args + [kw.get('filename')])[0]

def places(env):
    """a character at every place that takes a text"""
    place = env.choice('place', PLACES)
    text = 'a' + env.chars('c', 1, '/' if place == 'network' else '') + 'b'
    o = network(env, place, text)
    files, name = write(env, o, 'positional', env.choice('pretty', [True, False]), env.choice('locale', ['utf-8', 'latin-1', 'ascii']))
    check(env, o, files, name)

def characters(env):
    """several characters, at the beginning and the end of the text"""
    n = env.choice('n', [0, 1, 2, 3] if env.thorough else [0, 1, 2])
    text = env.chars('c', n)
    o = network(env, 'road name', text, False)
    files, name = write(env, o, env.choice('given', ['positional', 'keyword']), env.choice('pretty', [True, False]))
    check(env, o, files, name)

def default_name(env):
    """without file name: the network name"""
    n = env.choice('n', [1, 2])
    text = env.chars('c', n, '/')
    o = network(env, 'network', text, False)
    files, _ = write(env, o, 'default', env.choice('pretty', [None, True, False]))
    check(env, o, files, text + '.xodr')

def history(env):
    """several files of one program"""
    P = env.P
    text = env.chars('c', 1, '/')
    o = network(env, 'network', text, False)
    for k in range(3):
        what = env.choice('step%d' % k, ['write', 'default', 'ugly', 'road'])
        if what == 'road':
            r = P.create_straight_road(70 + k, 20); r.planview.set_start_point(1, 2, 0); r.planview.adjust_geometries(); o.add_road(r)
        else:
            args = {'write': ['some'], 'default': [], 'ugly': ['some', False]}[what]
            check(env, o, env.written(lambda: o.write_xml(*args)), args[0] if args else text + '.xodr')
    check(env, o, env.written(lambda: o.write_xml('some')), 'some')

class Copy:
    """what an element was"""
    def __init__(self, e):
        self.tag, self.attrib, self.kids = e.tag, dict(e.attrib), [Copy(k) for k in e]
    def __iter__(self): return iter(self.kids)

def printing(env):
    """prettyprint shows the document, and leaves it as it is"""
    place = env.choice('place', PLACES)
    text = 'a' + env.chars('c', 1, '\t\n\r') + 'b'
    e = network(env, place, text).get_element()
    before = Copy(e)
    for k in range(env.choice('times', [1, 2])):
        x = env.printed(lambda: env.P.prettyprint(e))
        env.require('what is printed is well-formed', x is not None)
        compare(env, before, x, 'OpenDRIVE'); compare(env, e, x, 'element')
HARNESSES = [places, characters, default_name, history, printing]
