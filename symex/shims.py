"""Loads the current pyodrx sources with symbolic builtins, numpy, math, scipy."""
import ast, builtins, importlib, math, cmath, os, sys, types, functools
from fractions import Fraction
import numpy as _np
from . import core, values, chars, containers
from .core import Poly, f_cmp
from .values import SymReal, SymComplex, SymBool, SymStr, as_sym, lift, core_pi

def has_sym(x):
    if isinstance(x, (SymReal, SymComplex, SymBool)): return True
    if isinstance(x, _np.ndarray): return x.dtype == object and any(has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)): return any(has_sym(v) for v in x)
    return False

def S(x):
    s = as_sym(x)
    return s

class Arr(_np.ndarray):
    """an array of numbers that may become symbolic"""
    def astype(self, t, *a, **k):
        if t in (float, FloatShim, 'float', 'float64', 'f8', 'd', _np.float64, object) or getattr(t, '__name__', '') == '<lambda>': return self.copy()
        return _np.array(self, dtype=object).astype(t, *a, **k)

def plain(x):
    """an array without symbolic members as numpy has it"""
    return _np.array(x.tolist()) if isinstance(x, Arr) and x.size and not has_sym(x) else x

def elementwise(fn):
    """apply fn on scalars; arrays/lists elementwise (with broadcasting)"""
    def w(*a, **kw):
        if any(isinstance(x, (list, tuple, _np.ndarray)) and getattr(x, 'ndim', 1) for x in a):
            u = _np.frompyfunc(fn, len(a), 1)
            return u(*[_np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in a])
        return fn(*a)
    return w

def _exp(x):
    if isinstance(x, complex): x = SymComplex.lift(x)
    return x.exp() if isinstance(x, SymComplex) else S(x).exp()
def _abs(x): return abs(x)
def _sign(x):
    if core.CTX.test(f_cmp('==', lift(x))): return 0
    return -1 if core.CTX.test(f_cmp('<', lift(x))) else 1
def _max(a, b): return a if bool(a >= b) else b
def _min(a, b): return a if bool(a <= b) else b
def _real(x): return x.real if hasattr(x, 'real') else x
def _imag(x): return x.imag if hasattr(x, 'imag') else 0
def _angle(z): return SymComplex.lift(z).arg()
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return abs(a - b) <= atol + rtol*abs(b)
def _hypot(a, b): return S(a).hypot(b)
def _copysign(a, b): return -abs(a) if bool(b < 0) else abs(a)
def _asin(x):
    s = S(x); c = (1 - s*s).sqrt()
    return SymReal(core.patan2(s.p, lift(c)))
def _acos(x):
    c = S(x); s = (1 - c*c).sqrt()
    return SymReal(core.patan2(lift(s), c.p))
def _cot(x): return S(x)

TRIG = {
    'cos': lambda x: S(x).cos(), 'sin': lambda x: S(x).sin(), 'tan': lambda x: S(x).tan(),
    'sqrt': lambda x: S(x).sqrt(), 'exp': _exp, 'abs': _abs, 'absolute': _abs, 'fabs': _abs, 'sign': _sign,
    'arctan2': lambda y, x: S(y).arctan2(x), 'arctan': lambda x: S(x).arctan(), 'arcsin': _asin, 'arccos': _acos,
    'hypot': _hypot, 'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'deg2rad': lambda x: S(x).deg2rad(), 'radians': lambda x: S(x).deg2rad(),
    'rad2deg': lambda x: S(x).rad2deg(), 'degrees': lambda x: S(x).rad2deg(),
    'floor': lambda x: S(x).__floor__(), 'ceil': lambda x: S(x).__ceil__(), 'rint': lambda x: S(x).__round__(),
    'trunc': lambda x: S(x).__trunc__(),
    'mod': lambda a, b: S(a) % b, 'remainder': lambda a, b: S(a) % b, 'fmod': lambda a, b: S(a) % b,
    'square': lambda x: x*x, 'power': lambda a, b: S(a) ** b, 'float_power': lambda a, b: S(a) ** b,
    'real': _real, 'imag': _imag, 'angle': _angle, 'copysign': _copysign,
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': lambda a, b: S(a) / b, 'true_divide': lambda a, b: S(a) / b, 'negative': lambda a: -a,
    'floor_divide': lambda a, b: S(a) // b,
    'isnan': lambda x: False, 'isfinite': lambda x: True, 'isinf': lambda x: False,
    'logical_not': lambda x: not x,
}
def sym_or(name, real, fn):
    ew = elementwise(fn)
    @functools.wraps(real if callable(real) else fn)
    def w(*a, **kw):
        if any(has_sym(x) for x in a): return ew(*a)
        return real(*[plain(x) for x in a], **kw)
    return w

class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_d'] = {}
        self.__dict__['__path__'] = []
        for n, fn in TRIG.items():
            if hasattr(_np, n): self._d[n] = sym_or(n, getattr(_np, n), fn)
        self._d['round'] = self._d['around'] = self._d['round_'] = self._round
        self._d['isclose'] = lambda a, b, **kw: _isclose(a, b, **{k: v for k, v in kw.items()}) if has_sym(a) or has_sym(b) else _np.isclose(a, b, **kw)
        self._d['allclose'] = lambda a, b, **kw: all(bool(self._d['isclose'](x, y, **kw)) for x, y in zip(_np.ravel(_np.array(a, dtype=object)), _np.ravel(_np.array(b, dtype=object))))
        for n in ('zeros', 'ones', 'empty', 'full'):
            self._d[n] = self._alloc(n)
        for n in ('array', 'asarray', 'asanyarray'): self._d[n] = self._array
        self._d['amax'] = self._d['max'] = lambda a, *r, **k: functools.reduce(_max, list(_np.ravel(_np.array(a, dtype=object)))) if has_sym(a) else _np.max(a, *r, **k)
        self._d['amin'] = self._d['min'] = lambda a, *r, **k: functools.reduce(_min, list(_np.ravel(_np.array(a, dtype=object)))) if has_sym(a) else _np.min(a, *r, **k)
        self._d['sum'] = lambda a, *r, **k: (functools.reduce(lambda x, y: x + y, a, 0) if has_sym(list(a)) and not r and not k else _np.sum(a, *r, **k))
        self._d['clip'] = lambda x, lo, hi: _min(_max(x, lo), hi) if has_sym((x, lo, hi)) else _np.clip(x, lo, hi)
        self._d['where'] = lambda c, *a: (a[0] if bool(c) else a[1]) if isinstance(c, SymBool) else _np.where(c, *a)
        self._d['float64'] = self._d['float32'] = self._d['double'] = lambda x=0: x if isinstance(x, SymReal) else float(x)
        self._d['int64'] = self._d['int32'] = lambda x=0: x.__trunc__() if isinstance(x, SymReal) else int(x)
        self._d['linalg'] = Linalg(self)
        self._d['unwrap'] = _np.unwrap
    def _round(self, x, decimals=0, *a):
        if has_sym(x): return elementwise(lambda v: v.__round__(decimals) if isinstance(v, SymReal) else round(v, decimals))(x)
        return _np.round(x, decimals)
    def _alloc(self, name):
        def w(shape, *a, **kw):
            if name == 'full': r = _np.empty(shape, dtype=object); r[...] = a[0]; return r
            r = _np.empty(shape, dtype=object); r[...] = 1 if name == 'ones' else 0
            return r
        return w
    def _array(self, x, *a, **kw):
        if has_sym(x) or (isinstance(x, (list, tuple)) and has_sym(x)): return _np.array(x, dtype=object).view(Arr)
        if isinstance(x, Arr): return _np.array(x).view(Arr)
        r = _np.array(x, *a, **kw)
        return r.astype(object).view(Arr) if r.dtype.kind == 'f' and r.ndim and r.size <= 256 else r
    def __getattr__(self, n):
        if n == 'pi': return core_pi()
        d = self.__dict__['_d']
        if n in d: return d[n]
        r = getattr(_np, n)
        if isinstance(r, (types.FunctionType, _np.ufunc)) or type(r).__name__ == '_ArrayFunctionDispatcher': return lambda *a, **k: r(*[plain(x) for x in a], **k)
        return r

class Linalg:
    def __init__(self, np): self.np = np
    def norm(self, v, *a, **k):
        if has_sym(v):
            t = 0
            for x in _np.ravel(_np.array(v, dtype=object)): t = t + x*x
            return S(t).sqrt()
        return _np.linalg.norm(v, *a, **k)
    def __getattr__(self, n): return getattr(_np.linalg, n)

class MathShim(types.ModuleType):
    MAP = {'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'sqrt': 'sqrt', 'fabs': 'abs', 'atan2': 'arctan2', 'atan': 'arctan',
           'asin': 'arcsin', 'acos': 'arccos', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc',
           'fmod': 'mod', 'pow': 'power', 'exp': 'exp', 'copysign': 'copysign'}
    def __getattr__(self, n):
        if n == 'pi': return core_pi()
        if n == 'tau': return core_pi()*2
        real = getattr(math, n)
        if n == 'hypot':
            def hyp(*a):
                if not any(has_sym(x) for x in a): return math.hypot(*a)
                t = 0
                for x in a: t = t + x*x
                return S(t).sqrt()
            return hyp
        if n == 'isclose':
            def isc(a, b, rel_tol=1e-09, abs_tol=0.0):
                if not (has_sym(a) or has_sym(b)): return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
                m = _max(abs(a), abs(b))
                return bool(abs(a - b) <= _max(rel_tol*m, abs_tol))
            return isc
        if n in ('fsum',):
            return lambda xs: functools.reduce(lambda x, y: x + y, list(xs), 0)
        if n in ('isnan', 'isinf'): return lambda x: False if has_sym(x) else real(x)
        if n == 'isfinite': return lambda x: True if has_sym(x) else real(x)
        if n in self.MAP: return sym_or(n, real, TRIG[self.MAP[n]])
        return real

class CmathShim(types.ModuleType):
    def __getattr__(self, n):
        if n == 'pi': return core_pi()
        real = getattr(cmath, n)
        if n == 'exp': return sym_or(n, real, _exp)
        if n == 'phase': return sym_or(n, real, _angle)
        if n == 'rect': return lambda r, t: (SymComplex(S(r)*S(t).cos(), S(r)*S(t).sin()) if has_sym((r, t)) else real(r, t))
        return real

def fresnel(u, *a):
    if has_sym(u):
        if isinstance(u, _np.ndarray):
            r = [core.pfresnel(lift(v)) for v in u.flat]
            return _np.array([SymReal(x[0]) for x in r], dtype=object), _np.array([SymReal(x[1]) for x in r], dtype=object)
        s, c = core.pfresnel(lift(u))
        return SymReal(s), SymReal(c)
    from scipy.special import fresnel as real
    if isinstance(u, (int, float)):
        if u == 0: return 0.0, 0.0
        s, c = core.pfresnel(Poly.const(u))
        return SymReal(s), SymReal(c)
    return real(u, *a)

def quad(func, a, b, args=(), **kw):
    """definite integral: an unknown number determined by integrand and limits (same integrand, same value)"""
    t = core.TABLE
    var = t.get('in', ('quad!var',), lo=Fraction(0), hi=Fraction(1), name='quad!var')
    x = SymReal(Poly.atom(var))
    lo, hi = lift(a), lift(b)
    if lo is None or hi is None:
        raise core.Unsupported('infinite integral')
    core.CTX.quad_depth += 1
    try:
        fv = func(x, *args); f = lift(fv)
    finally: core.CTX.quad_depth -= 1
    if var.idx not in f.atoms() and not any(_mentions(i, var.idx) for i in f.atoms()):
        v = SymReal(f*(hi - lo))
        return v, 0.0
    at = t.get('quad', (var.idx, f, lo, hi))
    core.CTX.quads.append((var, f, lo, hi, at))
    nn = getattr(fv, 'nn', False) and lo.is_const() and hi.is_const() and lo.constval() <= hi.constval()
    if nn: at.lo = Fraction(0)
    return SymReal(Poly.atom(at), False, nn), 0.0

def _mentions(i, x, depth=0):
    a = core.TABLE.atoms[i]
    if i == x: return True
    for arg in a.args:
        if isinstance(arg, Poly) and any(_mentions(j, x) for j in arg.atoms()): return True
        if isinstance(arg, tuple):
            for t in arg:
                if isinstance(t, tuple) and len(t) == 2 and _mentions(t[0], x): return True
    return False

class ScipyModule(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name); self.__dict__['_d'] = d
        self.__dict__['__path__'] = []
    def __getattr__(self, n):
        d = self.__dict__['_d']
        if n in d: return d[n]
        return getattr(importlib.import_module(self.__name__), n)

# ----------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, float) or (isinstance(o, SymReal) and not o.isint)
    def __subclasscheck__(cls, c): return issubclass(c, float)
    def __call__(cls, x=0.0):
        if isinstance(x, SymReal): return SymReal(x.p, False)
        if isinstance(x, SymStr):
            n = x._num()
            if n is None: raise ValueError('could not convert string to float')
            return SymReal(n.p, False)
        if isinstance(x, _np.ndarray) and x.dtype == object: return cls(x.item())
        return float(x)
    def __getattr__(cls, n): return getattr(float, n)
    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)
class FloatShim(metaclass=_FloatMeta): pass
class _IntMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, int) or (isinstance(o, SymReal) and o.isint)
    def __subclasscheck__(cls, c): return issubclass(c, int)
    def __call__(cls, x=0, *a):
        if isinstance(x, SymReal): return x.__trunc__()
        if isinstance(x, SymStr):
            n = x._num()
            if n is None or not n.isint: raise ValueError('invalid literal for int()')
            return n
        return int(x, *a)
    def __getattr__(cls, n): return getattr(int, n)
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)
class IntShim(metaclass=_IntMeta): pass

class _ComplexMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, (complex, SymComplex))
    def __subclasscheck__(cls, c): return issubclass(c, complex)
    def __call__(cls, *a, **k):
        if has_sym(a) or has_sym(list(k.values())):
            re = a[0] if a else k.get('real', 0); im = a[1] if len(a) > 1 else k.get('imag', 0)
            return SymComplex.lift(re) + SymComplex.lift(im)*SymComplex(0, 1)
        return complex(*a, **k)
    def __getattr__(cls, n): return getattr(complex, n)
    def __eq__(cls, o): return o is cls or o is complex
    def __hash__(cls): return hash(complex)
class ComplexShim(metaclass=_ComplexMeta): pass

def _type(*a):
    if len(a) == 1:
        if isinstance(a[0], SymReal): return IntShim if a[0].isint else FloatShim
        if isinstance(a[0], SymStr): return str
        if isinstance(a[0], SymBool): return bool
        t = type(a[0])
        return FloatShim if t is float else IntShim if t is int else t
    return type(*a)

def _sum(xs, start=0):
    for x in xs: start = start + x
    return start

def _round(x, n=None):
    if isinstance(x, SymReal): return x.__round__(n)
    return round(x) if n is None else round(x, n)

def _print(*a, **k):
    for x in a: str(x)

def no_tiny(src):
    """constant expressions of magnitude below 1e-8 read as 0"""
    def value(n):
        if isinstance(n, ast.Constant) and type(n.value) in (int, float): return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = value(n.operand); return None if v is None else -v
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Div, ast.Mult, ast.Pow):
            a, b = value(n.left), value(n.right)
            if a is None or b is None: return None
            try: return a/b if isinstance(n.op, ast.Div) else a*b if isinstance(n.op, ast.Mult) else float(a)**b
            except ArithmeticError: return None
    class T(ast.NodeTransformer):
        def generic_visit(self, n):
            if isinstance(n, ast.expr):
                v = value(n)
                if isinstance(v, (int, float)) and 0 < abs(v) < 1e-8: return ast.copy_location(ast.Constant(0), n)
            return super().generic_visit(n)
    return T().visit(ast.parse(src))

class Loader:
    """fresh copy of the package per path (class-level state is fresh every time)"""
    def __init__(self, root, tiny_zero=False, symchars=False):
        self.root = root; self.symchars = symchars
        self.pkgdir = os.path.join(root, 'pyodrx')
        self.codes = {}
        for dp, dn, fn in os.walk(self.pkgdir):
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'): rel = rel[:-9]
                    with open(path, 'rb') as fh: src = fh.read()
                    if tiny_zero: src = no_tiny(src)
                    if symchars: src = chars.rewrite(src)
                    else: src = containers.rewrite(src if isinstance(src, ast.AST) else ast.parse(src))
                    self.codes[rel] = (compile(src, path, 'exec', dont_inherit=True), path, f == '__init__.py')
        self.np = NumpyShim()
        self.math = MathShim('math'); self.cmath = CmathShim('cmath')
        special = ScipyModule('scipy.special', {'fresnel': fresnel})
        integrate = ScipyModule('scipy.integrate', {'quad': quad})
        self.scipy = ScipyModule('scipy', {'special': special, 'integrate': integrate})
        self.fixed = {'numpy': self.np, 'math': self.math, 'cmath': self.cmath, 'scipy': self.scipy,
                      'scipy.special': special, 'scipy.integrate': integrate}
        if not symchars: self.fixed['collections'] = ScipyModule('collections', containers.SHIMS)
        if symchars:
            std = chars.load_stdlib()
            pk = {n: ScipyModule(n, {}) for n in ('xml', 'xml.etree', 'xml.dom', 'xml.sax')}
            self.fixed.update(pk); self.fixed.update(std)
            self.fixed.update({'io': chars.IoShim(), 're': chars.ReShim(), 'codecs': ScipyModule('codecs', {'open': lambda f, mode='r', encoding=None, errors='strict', buffering=-1: chars.sym_open(f, mode, buffering, encoding, errors)})})
            for n in list(pk) + list(std):
                a, _, c = n.rpartition('.')
                if a in pk: pk[a].__dict__['_d'][c] = self.fixed[n]
    def load(self):
        mods = {}
        b = dict(vars(builtins))
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
                base = pkg.rsplit('.', level-1)[0] if level > 1 else pkg
                full = base + '.' + name if name else base
            else: full = name
            if full in self.fixed:
                if fromlist or '.' not in full: return self.fixed[full]
                return self.fixed[full.split('.')[0]]
            if full.split('.')[0] == 'pyodrx':
                m = get(full)
                if fromlist:
                    for f in fromlist:
                        if f != '*' and not hasattr(m, f) and full + '.' + f in self.codes:
                            setattr(m, f, get(full + '.' + f))
                    return m
                return get(full.split('.')[0])
            return builtins.__import__(name, globals, locals, fromlist, level)
        def get(full):
            m = mods.get(full)
            if m is not None: return m
            if full not in self.codes: raise ImportError('No module named %r' % full)
            code, path, ispkg = self.codes[full]
            m = types.ModuleType(full)
            m.__file__ = path
            m.__dict__['__builtins__'] = b
            m.__package__ = full if ispkg else full.rpartition('.')[0]
            if ispkg: m.__path__ = [os.path.dirname(path)]
            mods[full] = m
            parent, _, leaf = full.rpartition('.')
            if parent and parent not in mods: get(parent)
            exec(code, m.__dict__)
            if parent: setattr(mods[parent], leaf, m)
            return m
        b.update({'__import__': imp, 'float': FloatShim, 'int': IntShim, 'complex': ComplexShim, 'type': _type, 'sum': _sum, 'round': _round,
                  'print': _print})
        if self.symchars: chars.install(b)
        else: b.update(containers.BUILTINS)
        return get('pyodrx')
