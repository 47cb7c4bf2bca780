"""C27: run_road starts the viewer on the file it wrote"""
from .c25 import network, compare
FUNCTIONS = ['helpers.run_road', 'opendrive.OpenDrive.write_xml', 'helpers.printToFile', 'posixpath.join and shlex.quote of the project interpreter, from source']
BOUNDS = 'esmini paths with up to 2 (thorough 3) arbitrary characters except / and NUL in a folder name, relative or absolute, on posix; up to three calls in one program; plain folder names on nt; density a symbolic number or the default'
OUTSIDE = 'what the viewer does; folders that do not exist; on nt, folder names with characters special to cmd.exe'
ASSUMPTIONS = ['the command interpreter splits a command as POSIX sh does (model: quoting, escapes, word splitting; expansions and operators count as failures)', 'nothing is really started: os.system and subprocess are stand-ins that record the command']
OPTS = {'symchars': True}

def sh_words(env, s):
    """the words of a simple command without expansions, None if it is anything else"""
    out, cur, i, n = [], None, 0, len(s)
    is_ = env.char_in
    while i < n:
        c = s[i]
        if is_(c, ' \t'):
            if cur is not None: out.append(cur)
            cur = None
        elif is_(c, "'"):
            cur = cur or ''; i += 1
            while i < n and not is_(s[i], "'"): cur += s[i]; i += 1
            if i >= n: return None
        elif is_(c, '"'):
            cur = cur or ''; i += 1
            while i < n and not is_(s[i], '"'):
                if is_(s[i], '$`'): return None
                if is_(s[i], '\\'):
                    if i + 1 >= n: return None
                    if is_(s[i+1], '$`"\\'): i += 1
                    elif is_(s[i+1], '\n'): i += 2; continue
                cur += s[i]; i += 1
            if i >= n: return None
        elif is_(c, '\\'):
            i += 1
            if i >= n: return None
            if not is_(s[i], '\n'): cur = (cur or '') + s[i]
        elif is_(c, '|&;<>()$`*?[\n\r'): return None
        elif cur is None and is_(c, '~#'): return None
        else: cur = (cur or '') + c
        i += 1
    return out + ([cur] if cur is not None else [])

def plain(env, p):
    """a path without leading ./"""
    while len(p) > 1 and env.char_in(p[0], '.') and env.char_in(p[1], '/'): p = p[2:]
    return p

def launch(env, esmini, osname, o=None, tag=''):
    P = env.P
    o = o or network(env, 'network', 'net', False)
    d = env.choice('density' + tag, ['default', 'number', 'text'])
    args = {'default': [], 'number': [env.real('density' + tag, 0, 100000)], 'text': ['3.5']}[d]
    density = args[0] if args else 15
    started, files = env.launched(lambda: P.run_road(o, esmini, *args), osname)
    env.require('exactly one file is written', len(files) == 1)
    env.check('the file is in the resources of this esmini', env.same_text(plain(env, files[0][0]), plain(env, esmini + '/resources/xodr/pythonroad.xodr')))
    env.require('the file is well-formed', files[0][1] is not None)
    compare(env, o.get_element(), files[0][1], 'OpenDRIVE')
    env.require('exactly one program is started', len(started) == 1)
    how, words = started[0]
    if how == 'shell': words = sh_words(env, words)
    env.require('a single plain command', words is not None and len(words) >= 1)
    env.check('the viewer of this esmini', env.same_text(plain(env, words[0]), plain(env, esmini + '/bin/odrviewer' + ('.exe' if osname == 'nt' else ''))))
    env.check('a path, not a name to be searched', any(c == '/' for c in words[0]))
    for opt, want in (('--odr', files[0][0]), ('--density', density)):
        at = [i for i, w in enumerate(words[:-1]) if w == opt]
        env.require('exactly one ' + opt, len(at) == 1)
        w = words[at[0] + 1]
        if opt == '--odr': env.check('shows the written file', env.same_text(plain(env, w), plain(env, want)))
        else: env.check('the given density', env.shows(w, want))

def posix(env):
    """any folder name"""
    t = env.chars('c', env.choice('n', [1, 2, 3] if env.thorough else [1, 2]), '/\0')
    esmini = env.choice('form', ['esm%sini', '%s', '/opt/%s x', 'a/%s']) % t
    env.assume(env.not_(env.same_text(esmini, '.')))
    launch(env, esmini, 'posix')

def windows(env):
    """plain folder names"""
    launch(env, env.choice('form', ['esmini', 'a/esmini', '/opt/esmini']), 'nt')

def again(env):
    """several calls in one program"""
    o = network(env, 'network', 'net', False); os = env.choice('system', ['posix', 'nt'])
    launch(env, 'esmini', os, o, '0')
    c = env.choice('then', ['same', 'another folder', 'more roads', 'another network'])
    if c == 'more roads':
        r = env.P.create_straight_road(77, 20); r.planview.set_start_point(1, 2, 0); r.planview.adjust_geometries(); o.add_road(r)
    launch(env, 'other' if c == 'another folder' else 'esmini', os, network(env, 'network', 'net', False) if c == 'another network' else o, '1')
    if c == 'another folder': launch(env, 'esmini', os, o, '2')

HARNESSES = [posix, windows, again]
