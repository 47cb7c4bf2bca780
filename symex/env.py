"""Harness API, concrete side (also the base class).  Runs on the project's own interpreter: no solver here."""
import math, sys, os, traceback, io

def sample_text(name): return ' T\u00e9  xt<&"\'>_' + name + '_' + 'long Text; '*30
NUM_TOL = 1e-6
NUM_REL = 1e-8

class Stop(Exception):
    """the path ends here (a required structural fact failed)"""
class AssumeFailed(Exception): pass

class Tree(object):
    """a parsed element"""
    def __init__(self, e):
        self.tag, self.attrib, self.kids = e.tag, dict(e.attrib), [Tree(c) for c in e]
        self.text = (e.text or '') + ''.join(c.tail or '' for c in e)

class ConcreteEnv(object):
    symbolic = False
    def __init__(self, pyodrx, inputs, choices, tier='quick'):
        self.P = pyodrx
        self.inputs, self.choices_in = inputs, choices
        self.tier = tier
        self.fails, self.obs = [], []
        self.nchecks = 0
        self.pi = math.pi
        self._n = {}
    @property
    def thorough(self): return self.tier == 'thorough'
    # ---- inputs
    def real(self, name, lo=None, hi=None):
        if name not in self.inputs: raise AssumeFailed()       # another path than the recorded one
        return float(self.inputs[name])
    def int(self, name, lo, hi):
        if name not in self.inputs: raise AssumeFailed()
        return int(self.inputs[name])
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        return options[self.choices_in.get(name, 0)]
    def bool(self, name): return self.choice(name, [False, True])
    def text(self, name): return sample_text(name)
    def chars(self, name, n, without=''):
        r = u''
        for i in range(n):
            k = '%s_%d' % (name, i)
            if k not in self.inputs: raise AssumeFailed()
            r += chr(int(self.inputs[k]))
        return r
    def same_text(self, a, b): return a == b
    def char_in(self, c, cs): return c in cs
    def launched(self, fn, osname='posix'):
        """([what was started], [written files]) of fn; nothing is really started"""
        import subprocess
        started = []
        def shell(c, *a): started.append(('shell', c)); return 0
        class Popen(object):
            def __init__(s, args, *a, **k):
                if k.get('shell'): started.append(('shell', args if isinstance(args, str) else args[0]))
                else: started.append(('program', [args] if isinstance(args, str) else list(args)))
                s.returncode = 0; s.stdout = s.stderr = None; s.args = args
            def wait(s, *a, **k): return 0
            def poll(s): return 0
            def communicate(s, *a, **k): return (None, None)
            def kill(s): pass
            def __enter__(s): return s
            def __exit__(s, *a): pass
        keep = (os.system, os.popen, subprocess.Popen, os.name)
        import pathlib
        class Posix(type(os)):
            name = 'posix'
            def __getattr__(s, n): return getattr(keep_os, n)
        keep_os = os
        def inside():
            pathlib.os = Posix('os')
            os.system, os.popen, subprocess.Popen, os.name = shell, shell, Popen, osname
            try: fn()
            finally:
                os.system, os.popen, subprocess.Popen, os.name = keep; pathlib.os = keep_os
        return started, self.written(inside)
    def written(self, fn, locale='utf-8'):
        """[(name, parsed document or None)] of the files fn wrote; file operations are stand-ins inside a scratch folder"""
        import tempfile, shutil, builtins, io
        import xml.etree.ElementTree as ET
        d = tempfile.mkdtemp(); names = []
        real = dict(open=builtins.open, replace=os.replace, rename=os.rename, remove=os.remove, unlink=os.unlink, makedirs=os.makedirs, mkdir=os.mkdir, rmdir=os.rmdir, exists=os.path.exists, isfile=os.path.isfile)
        at = lambda i: os.path.join(d, 'f%d' % i)
        def number(f):
            if f not in names: names.append(f)
            return names.index(f)
        def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int): return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            f = os.fspath(file)
            if f not in names and not set(mode) & set('wax+'): return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if 'b' not in mode and encoding is None: encoding = locale
            return real['open'](at(number(f)), mode, buffering, encoding, errors, newline)
        def replace(a, b, **k):
            a, b = os.fspath(a), os.fspath(b)
            if a not in names:
                if os.path.dirname(os.path.abspath(a)) not in (d, tempfile.gettempdir()): raise FileNotFoundError(a)
                shutil.copyfile(a, at(number(a)))
            if b != a and b in names: names[names.index(b)] = None
            names[names.index(a)] = b
        def remove(a, **k):
            if os.fspath(a) not in names: raise FileNotFoundError(a)
            names[names.index(os.fspath(a))] = None
        def nothing(*a, **k): pass
        def exists(f):
            try: return os.fspath(f) in names or real['exists'](f)
            except TypeError: return real['exists'](f)
        def put(r):
            builtins.open = io.open = r['open']
            for n in r:
                if n in ('exists', 'isfile'): setattr(os.path, n, r[n])
                elif n != 'open': setattr(os, n, r[n])
        here = os.getcwd()
        try:
            os.chdir(d); put(dict(open=open_, replace=replace, rename=replace, remove=remove, unlink=remove, makedirs=nothing, mkdir=nothing, rmdir=nothing, exists=exists, isfile=exists))
            try: fn()
            finally: put(real); os.chdir(here)
            out = []
            def tree(f):
                try: return Tree(ET.parse(f).getroot())
                except (ET.ParseError, ValueError): return None
            out = [(n, tree(at(i))) for i, n in enumerate(names) if n is not None]
            for f in os.listdir(d):
                if f not in ['f%d' % i for i in range(len(names))] and f not in names: out.append((f, tree(os.path.join(d, f))))
            return out
        finally: shutil.rmtree(d)
    def printed(self, fn):
        """runs fn; the parsed document it printed, or None"""
        import io, sys
        import xml.etree.ElementTree as ET
        keep = sys.stdout
        sys.stdout = io.StringIO()
        try: fn(); t = sys.stdout.getvalue().strip()
        finally: sys.stdout = keep
        try: return Tree(ET.fromstring(t))
        except (ET.ParseError, ValueError): return None
    # ---- logic
    def and_(self, *fs): return all(bool(f) for f in fs)
    def or_(self, *fs): return any(bool(f) for f in fs)
    def not_(self, f): return not f
    def implies(self, a, b): return (not a) or bool(b)
    def assume(self, c):
        if not c: raise AssumeFailed()
    def eq(self, a, b):
        a, b = float(a), float(b)
        d = abs(a - b)
        return d <= NUM_TOL + NUM_REL*min(abs(a), abs(b))
    def same(self, a, b): return a == b
    def scale(self, x, y): return max(1.0, math.hypot(float(x), float(y)))     # for comparisons of floating point numbers
    def eq_angle(self, a, b):
        d = float(a) - float(b)
        return abs(math.cos(d) - 1) <= NUM_TOL and abs(math.sin(d)) <= NUM_TOL*(1 + abs(float(a)) + abs(float(b)))
    # ---- checks
    def check(self, label, c):
        self.nchecks += 1
        if not c: self.fails.append(label)
    def fail(self, label): self.check(label, False)
    def require(self, label, c):
        self.check(label, c)
        if self.fails and self.fails[-1] == label: raise Stop()
    # ---- text
    def num(self, t, label='numeric value'):
        try:
            if t is None: raise ValueError()
            v = float(t)
            if v != v or v in (float('inf'), float('-inf')): raise ValueError()
            return v
        except (ValueError, TypeError):
            self.require('%s is a number (got %r)' % (label, t), False)
    def is_num(self, t):
        try: float(t); return True
        except (ValueError, TypeError): return False
    def shows(self, t, v):
        """text t displays the value v (a number or text)"""
        if t is None: return False
        if isinstance(v, bool): return t == str(v)
        if isinstance(v, (int, float)):
            try: return float(t) == float(v)
            except ValueError: return False
        return t == str(v)
    # ---- maths
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def sqrt(self, x): return math.sqrt(x)
    def abs(self, x): return abs(x)
    def upper(self, t): return t.upper()
    def integral(self, f, a, b):
        prev = None; n = 32
        while True:
            v = self._gauss(f, a, b, n)
            if prev is not None and abs(v - prev) <= 1e-10*(1 + abs(v)) or n > 20000: return v
            prev, n = v, 2*n
    def _gauss(self, f, a, b, n):
        h = (b - a)/n; tot = 0.0
        xs = (-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526)
        ws = (0.34785484513745385, 0.6521451548625461, 0.6521451548625461, 0.34785484513745385)
        for i in range(n):
            m = a + (i + .5)*h
            for x, w in zip(xs, ws): tot += w*f(m + x*h/2)
        return tot*h/2
    def check_curve(self, label, x0, y0, x1, y1, s, heading, speed=None):
        """(x1,y1) - (x0,y0) is the integral over [0,s] of speed*(cos,sin)(heading)"""
        sp = speed or (lambda t: 1.0)
        ix = self.integral(lambda t: sp(t)*math.cos(heading(t)), 0.0, float(s))
        iy = self.integral(lambda t: sp(t)*math.sin(heading(t)), 0.0, float(s))
        self.check(label + ': end x is the end of the emitted curve', self.eq(x1, x0 + ix))
        self.check(label + ': end y is the end of the emitted curve', self.eq(y1, y0 + iy))
    def spiral_end(self, x, y, h, ks, g, L):
        """end of the curve with curvature ks + g*t, t in [0,L]"""
        th = lambda t: h + ks*t + g*t*t/2
        return (x + self.integral(lambda t: math.cos(th(t)), 0.0, L), y + self.integral(lambda t: math.sin(th(t)), 0.0, L), th(L))
    # ---- misc
    def fresh(self):
        """the package as a program that has just started finds it"""
        import importlib
        for k in [k for k in sys.modules if k == 'pyodrx' or k.startswith('pyodrx.')]: del sys.modules[k]
        return importlib.import_module('pyodrx')
    def apart(self, fn):
        """fn() in a program of its own"""
        P, self.P = self.P, self.fresh()
        try: return fn()
        finally: self.P = P
    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
            return None
        except Exception as e:
            if isinstance(e, (Stop, AssumeFailed)): raise
            return type(e).__name__
    def observe(self, label, v): self.obs.append((label, v if isinstance(v, (int, float, str, type(None))) else str(v)))

def run_concrete(fn, pyodrx, inputs, choices, tier):
    env = ConcreteEnv(pyodrx, inputs, choices, tier)
    res = {'error': None, 'assume': True}
    try: fn(env)
    except Stop: pass
    except AssumeFailed: res['assume'] = False
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    res['fails'] = env.fails; res['obs'] = env.obs; res['nchecks'] = env.nchecks
    return res
