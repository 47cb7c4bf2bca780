"""Symbolic Python values: numbers, booleans, complex numbers, strings."""
import math, numbers, operator
import numpy
from fractions import Fraction
from . import core
from .env import sample_text
from .core import Poly, frac, f_cmp, f_not, f_and, f_or, Unsupported

def lift(x):
    """Poly of a number-like, or None"""
    if isinstance(x, SymReal): return x.p
    if isinstance(x, bool): return Poly.const(int(x))
    if isinstance(x, (int, float, Fraction)): 
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)): return None
        return Poly.const(x)
    if isinstance(x, SymBool): return Poly.const(1 if bool(x) else 0)
    t = type(x)
    if t.__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0:
        v = x.item()
        if isinstance(v, (SymReal, int, float)): return lift(v)
    return None

def mk(p, isint=False):
    return SymReal(p, isint)

def is_int_like(x):
    if isinstance(x, SymReal): return x.isint
    if isinstance(x, (int,)): return True
    t = type(x)
    return t.__module__ == 'numpy' and 'int' in t.__name__

class SymBool:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __bool__(self):
        if self.f is True or self.f is False: return self.f
        return core.CTX.branch(self.f)
    def __and__(self, o): return SymBool(f_and([self.f, form(o)]))
    __rand__ = __and__
    def __or__(self, o): return SymBool(f_or([self.f, form(o)]))
    __ror__ = __or__
    def __invert__(self): return SymBool(f_not(self.f))
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)): return bool(self) == bool(o)
        return bool(self) == o
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return 77
    def __repr__(self): return 'SymBool(%r)' % (self.f,)
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))

def form(x):
    if isinstance(x, SymBool): return x.f
    if x is True or x is False: return x
    if type(x).__name__ in ('bool_', 'bool'): return bool(x)
    return bool(x)

class SymReal:
    __slots__ = ('p', 'isint', 'nn')       # nn: known to be >= 0 by construction
    __array_priority__ = 1000
    def __init__(self, p, isint=False, nn=False):
        self.p, self.isint, self.nn = p, isint, nn
    # --- arithmetic
    def _bin(self, o, op, ro):
        if isinstance(o, (complex, SymComplex)):
            return NotImplemented
        q = lift(o)
        if q is None: return NotImplemented
        isint = self.isint and is_int_like(o)
        if op == '+': r = self.p + q
        elif op == '-': r = (q - self.p) if ro else (self.p - q)
        elif op == '*': r = self.p * q
        elif op == '/':
            a, b = (q, self.p) if ro else (self.p, q)
            if core.CTX.test(f_cmp('==', b)):
                raise ZeroDivisionError('float division by zero')
            r = core.pdiv(a, b); isint = False
        nn = False
        if op != '-' and self.nn or (o is self and op == '*'):
            nn = o is self or (o.nn if isinstance(o, SymReal) else (q.is_const() and q.constval() >= 0))
        return SymReal(r, isint, nn)
    def __add__(self, o): return self._bin(o, '+', 0)
    def __radd__(self, o): return self._bin(o, '+', 1)
    def __sub__(self, o): return self._bin(o, '-', 0)
    def __rsub__(self, o): return self._bin(o, '-', 1)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) and self.isint: return o * self.__index__()
        return self._bin(o, '*', 0)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, '/', 0)
    def __rtruediv__(self, o): return self._bin(o, '/', 1)
    def __neg__(self): return SymReal(self.p.neg(), self.isint)
    def __pos__(self): return self
    def __abs__(self):
        if self.p.is_const(): return SymReal(Poly.const(abs(self.p.constval())), self.isint)
        if self.nn: return self
        if core.CTX.quad_depth: return SymReal(core.psqrt_raw(self.p*self.p), self.isint, True)
        if core.CTX.test(f_cmp('<', self.p)): return SymReal(self.p.neg(), self.isint, True)
        return SymReal(self.p, self.isint, True)
    def _floordiv(self, a, b, isint):
        if core.CTX.test(f_cmp('==', b)): raise ZeroDivisionError('integer division or modulo by zero')
        q = core.pdiv(a, b)
        return SymReal(pfloor(q), isint)
    def __floordiv__(self, o):
        q = lift(o)
        return NotImplemented if q is None else self._floordiv(self.p, q, self.isint and is_int_like(o))
    def __rfloordiv__(self, o):
        q = lift(o)
        return NotImplemented if q is None else self._floordiv(q, self.p, self.isint and is_int_like(o))
    def __mod__(self, o):
        q = lift(o)
        if q is None: return NotImplemented
        n = self._floordiv(self.p, q, True)
        return SymReal(self.p - q*n.p, self.isint and is_int_like(o))
    def __rmod__(self, o):
        if isinstance(o, str): return NotImplemented
        q = lift(o)
        if q is None: return NotImplemented
        n = self._floordiv(q, self.p, True)
        return SymReal(q - self.p*n.p, self.isint and is_int_like(o))
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o, mod=None):
        if isinstance(o, SymReal):
            if o.p.is_const(): o = o.p.constval()
            else: return self ** o._concrete()
        q = frac(o) if isinstance(o, (int, float, Fraction)) else None
        if q is None:
            q = lift(o)
            if q is None or not q.is_const(): return NotImplemented
            q = q.constval()
        if q.denominator == 1:
            n = q.numerator
            if n < 0 and core.CTX.test(f_cmp('==', self.p)): raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            if n < 0: return SymReal(core.pdiv(Poly.const(1), self.p.pow(-n)))
            return SymReal(self.p.pow(n), self.isint, n % 2 == 0 or self.nn)
        if q.denominator == 2:
            r = self.sqrt()
            return r ** q.numerator
        return self._concrete() ** float(q)
    def __rpow__(self, o): return o ** self._concrete()
    # --- comparison
    def _cmp(self, o, op):
        q = lift(o)
        if self.nn and q is not None and q.is_const():
            c = q.constval()
            if op == '<' and c <= 0: return False
            if op == '>=' and c <= 0: return True
            if op == '>' and c < 0: return True
            if op == '<=' and c < 0: return False
        if q is None:
            if isinstance(o, float):   # inf / nan
                if o != o: return False
                big = o > 0
                return {'<': big, '<=': big, '>': not big, '>=': not big}[op]
            return NotImplemented
        d = self.p - q
        if op == '<': f = f_cmp('<', d)
        elif op == '<=': f = f_cmp('<=', d)
        elif op == '>': f = f_cmp('<', d.neg())
        else: f = f_cmp('<=', d.neg())
        return f if isinstance(f, bool) else SymBool(f)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        q = lift(o)
        if q is None:
            if isinstance(o, (complex, SymComplex)): return SymComplex(self, 0) == o
            return False if not hasattr(o, '__array__') else NotImplemented
        f = f_cmp('==', self.p - q)
        return f if isinstance(f, bool) else SymBool(f)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return ~r if isinstance(r, SymBool) else not r
    def __hash__(self):
        return hash(self.p.constval()) if self.p.is_const() else 7411
    def __bool__(self):
        f = f_cmp('==', self.p)
        return not (f if isinstance(f, bool) else core.CTX.branch(f))
    # --- conversions
    def _concrete(self):
        """concretise (recorded: coverage of this path is reduced to one value)"""
        if self.p.is_const():
            c = self.p.constval()
            return int(c) if self.isint else float(c)
        return core.CTX.concretize(self)
    def __float__(self): return float(self._concrete())
    def __complex__(self): return complex(self._concrete())
    def __int__(self): return int(self._concrete())
    def __index__(self):
        if not self.isint: raise TypeError("'float' object cannot be interpreted as an integer")
        return core.CTX.enum_int(self)
    def __trunc__(self):
        if self.isint: return self
        if core.CTX.test(f_cmp('<', self.p)): return SymReal(pfloor(self.p.neg()).neg(), True)
        return SymReal(pfloor(self.p), True)
    def __floor__(self): return self if self.isint else SymReal(pfloor(self.p), True)
    def __ceil__(self): return self if self.isint else SymReal(pfloor(self.p.neg()).neg(), True)
    def __round__(self, n=None):
        if self.isint: return self
        if self.p.is_const(): return round(float(self.p.constval()), n)
        if n is None:
            a = core.TABLE.get('round', (self.p, 0), isint=True)
            return SymReal(Poly.atom(a), True)
        a = core.TABLE.get('round', (self.p, int(n)))
        return SymReal(Poly.atom(a))
    def __str__(self): return token(self)
    __repr__ = __str__
    def __format__(self, spec): return token(self, spec)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise Unsupported('pickle')
    # --- numeric protocol bits used by numpy object loops and code
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    def item(self): return self
    def is_integer(self): return self == self.__floor__()
    def cos(self): return SymReal(core.trig(self.p)[0])
    def sin(self): return SymReal(core.trig(self.p)[1])
    def tan(self):
        c, s = core.trig(self.p)
        if core.CTX.test(f_cmp('==', c)): raise ZeroDivisionError('tan')
        return SymReal(core.pdiv(s, c))
    def sqrt(self):
        if not self.nn and not core.CTX.quad_depth and core.CTX.test(f_cmp('<', self.p)): raise ValueError('math domain error')
        return SymReal(core.psqrt(self.p), False, True)
    def arctan2(self, x):
        return SymReal(core.patan2(self.p, lift(x)))
    def arctan(self): return SymReal(core.patan2(self.p, Poly.const(1)))
    def exp(self):
        if self.p.is_const() and self.p.constval() == 0: return SymReal(Poly.const(1))
        return SymReal(Poly.atom(core.TABLE.get('exp', (self.p,), lo=Fraction(0))))
    def rint(self): return self.__round__()
    def floor(self): return self.__floor__()
    def ceil(self): return self.__ceil__()
    def square(self): return self*self
    def hypot(self, o):
        q = lift(o); return SymReal(self.p*self.p + q*q, False, True).sqrt()
    def deg2rad(self): return self*core_pi()/180
    radians = deg2rad
    def rad2deg(self): return self*180/core_pi()
    degrees = rad2deg
    def fabs(self): return abs(self)
    def isnan(self): return False
    def isfinite(self): return True

def core_pi(): return SymReal(Poly.atom(core.TABLE.atoms[0]))

def pfloor(p):
    if p.is_const(): return Poly.const(math.floor(p.constval()))
    return Poly.atom(core.TABLE.get('floor', (p,), isint=True))

numbers.Real.register(SymReal)

def as_sym(x):
    if isinstance(x, SymReal): return x
    p = lift(x)
    return None if p is None else SymReal(p, is_int_like(x))

class SymComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1001
    def __init__(self, re, im):
        self.re, self.im = as_sym(re), as_sym(im)
    @staticmethod
    def lift(o):
        if isinstance(o, SymComplex): return o
        if isinstance(o, complex): return SymComplex(o.real, o.imag)
        s = as_sym(o)
        return None if s is None else SymComplex(s, 0)
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return SymComplex(self.re, -self.im)
    def __add__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): return SymComplex.lift(o) - self
    def __mul__(self, o):
        o = SymComplex.lift(o)
        if o is None: return NotImplemented
        return SymComplex(self.re*o.re - self.im*o.im, self.re*o.im + self.im*o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = SymComplex.lift(o)
        if o is None: return NotImplemented
        if not o.im.p.t: return SymComplex(self.re/o.re, self.im/o.re)
        d = o.re*o.re + o.im*o.im
        return SymComplex((self.re*o.re + self.im*o.im)/d, (self.im*o.re - self.re*o.im)/d)
    def __rtruediv__(self, o): return SymComplex.lift(o)/self
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __pos__(self): return self
    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = SymComplex(1, 0)
            for _ in range(n): r = r*self
            return r
        return NotImplemented
    def __abs__(self): return SymReal((self.re*self.re + self.im*self.im).p, False, True).sqrt()
    def __eq__(self, o):
        o = SymComplex.lift(o)
        if o is None: return False
        return SymBool(f_and([form(self.re == o.re), form(self.im == o.im)]))
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return 7412
    def __bool__(self): return not bool(self == 0)
    def exp(self):
        c, s = core.trig(self.im.p)
        z = SymComplex(SymReal(c), SymReal(s))
        if self.re.p.is_const() and self.re.p.constval() == 0: return z
        return z*self.re.exp()
    def arg(self): return SymReal(core.patan2(self.im.p, self.re.p))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __complex__(self): return complex(float(self.re), float(self.im))

def _radd(self, o):
    if isinstance(o, complex): return SymComplex.lift(o) + self
    return NotImplemented
# complex (op) SymReal and SymReal (op) complex
def _cwrap(name, fn):
    old = getattr(SymReal, name)
    def w(self, o):
        if isinstance(o, (complex, SymComplex)): return fn(SymComplex(self, 0), SymComplex.lift(o))
        return old(self, o)
    setattr(SymReal, name, w)
_cwrap('__add__', lambda a, b: a + b); _cwrap('__radd__', lambda a, b: b + a)
_cwrap('__sub__', lambda a, b: a - b); _cwrap('__rsub__', lambda a, b: b - a)
_cwrap('__mul__', lambda a, b: a * b); _cwrap('__rmul__', lambda a, b: b * a)
_cwrap('__truediv__', lambda a, b: a / b); _cwrap('__rtruediv__', lambda a, b: b / a)

# array (op) symbolic number: member by member, as numpy does
def _over_arrays(cls, name, fn):
    old = getattr(cls, name, None)
    if old is None: return
    def w(self, o, *a):
        if isinstance(o, numpy.ndarray) and o.ndim > 0:
            r = numpy.empty(o.shape, object)
            for i in numpy.ndindex(*o.shape): r[i] = fn(self, o[i])
            return r.view(type(o))
        return old(self, o, *a)
    setattr(cls, name, w)
for _c in (SymReal, SymComplex):
    for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        _f = getattr(operator, _n)
        _over_arrays(_c, '__%s__' % _n, _f); _over_arrays(_c, '__r%s__' % _n, lambda a, b, f=_f: f(b, a))
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        if '__%s__' % _n in _c.__dict__: _over_arrays(_c, '__%s__' % _n, getattr(operator, _n))

# ----------------------------------------------------------------- strings carrying symbolic numbers
T0, T1, D0 = '\ue000', '\ue001', 0xe010
def enc(n): return T0 + ''.join(chr(D0 + int(d)) for d in str(n)) + T1
def token(sym, spec=''):
    if sym.p.is_const() and not spec:
        c = sym.p.constval()
        return str(int(c)) if sym.isint else str(float(c))
    t = core.TABLE
    key = ('num', sym.p.key(), sym.isint, spec)
    i = t.token_ids.get(key)
    if i is None:
        i = len(t.tokens); t.tokens.append(('num', sym, spec)); t.token_ids[key] = i
    return SymStr(enc(i), i)
SAMPLES = {}
def text_token(name, of=None):
    """opaque text `name`; its upper()/lower() are opaque texts of their own. Anything finer is decided on a sample of it"""
    t = core.TABLE
    SAMPLES[name] = sample_text(name) if of is None else of
    key = ('text', name)
    i = t.token_ids.get(key)
    if i is None:
        i = len(t.tokens); t.tokens.append(('text', name, '')); t.token_ids[key] = i
    return SymStr(enc(i), i)
def decode(s):
    """list of literal strings and token ids"""
    s = str.__str__(s)
    out = []; pos = 0
    while True:
        j = s.find(T0, pos)
        if j < 0:
            if pos < len(s): out.append(s[pos:])
            return out
        if j > pos: out.append(s[pos:j])
        k = s.find(T1, j)
        out.append(int(''.join(str(ord(ch) - D0) for ch in s[j+1:k])))
        pos = k + 1

class SymStr(str):
    def __new__(cls, s, tid=None):
        o = str.__new__(cls, s); o.tid = tid
        return o
    def _num(self):
        e = core.TABLE.tokens[self.tid]
        return e[1] if e[0] == 'num' and e[2] == '' else None
    def __eq__(self, o):
        if not isinstance(o, str): return False
        if str.__eq__(self, o): return True
        a = self._num()
        if a is None:
            e = core.TABLE.tokens[self.tid]
            return e[0] == 'text' and T0 not in o and SAMPLES[e[1]] == o
        if isinstance(o, SymStr):
            b = o._num()
            if b is None: return False
            if a.isint != b.isint: return False
            r = (a == b)
            return r if isinstance(r, bool) else bool(r)
        if T0 in o: return False
        try: v = int(o) if a.isint else float(o)
        except ValueError: return False
        if str(v) != o: return False
        return bool(a == v)
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self):
        return 4242 if self._num() is not None else str.__hash__(str(self))
    # the text of a number: its length, order and sign are decided, anything finer is left to sampling
    def _int(self, what):
        a = self._num()
        if a is None or not a.isint: raise core.Unsupported('str.%s of a symbolic %s' % (what, 'text' if a is None else 'number'))
        return a
    def __bool__(self): return True
    def _before(self, o, strict):
        """lexicographic order with another number's text"""
        if self._text() or isinstance(o, SymStr) and o._text():
            a, b = self._plain('__lt__'), plain(o, '__lt__')
            return a < b if strict else a <= b
        a = self._int('__lt__')
        if isinstance(o, SymStr): b = o._int('__lt__')
        else:
            if T0 in o: raise core.Unsupported('order of mixed texts')
            if o == '' or o[0] > '9' or (o[0] < '0' and o[0] != '-'): return o != '' and o[0] > '9'
            if str(int(o) if o.lstrip('-').isdigit() else None) != o: raise core.Unsupported('order of a number and %r' % o)
            b = int(o)
        na, nb = bool(a < 0), bool(b < 0)
        if na != nb: return na                       # '-' is below the digits
        if na: a, b = -a, -b
        def digits(x):
            for k in range(1, 16):
                if x < 10**k: return k
            raise core.Unsupported('text of a number of over 15 digits')
        la, lb = digits(a), digits(b); m = max(la, lb)
        u, v = a*10**(m - la), b*10**(m - lb)
        if u < v: return True
        if u > v: return False
        return la < lb if strict else la <= lb
    def __lt__(self, o): return self._before(o, True) if isinstance(o, str) else NotImplemented
    def __le__(self, o): return self._before(o, False) if isinstance(o, str) else NotImplemented
    def __gt__(self, o): return not self._before(o, False) if isinstance(o, str) else NotImplemented
    def __ge__(self, o): return not self._before(o, True) if isinstance(o, str) else NotImplemented
    def isdigit(self): return not self._text() and bool(self._int('isdigit') >= 0)
    isdecimal = isnumeric = isdigit
    def isalpha(self): return False
    def upper(self):
        e = core.TABLE.tokens[self.tid]
        if e[0] == 'text': return text_token('upper(%s)' % e[1], SAMPLES[e[1]].upper()) if not e[1].startswith('upper(') else self
        return self
    def lower(self):
        e = core.TABLE.tokens[self.tid]
        if e[0] == 'text': return text_token('lower(%s)' % e[1], SAMPLES[e[1]].lower())
        return self
    def _other(self, what, *a):
        e = core.TABLE.tokens[self.tid]
        if e[0] == 'text': return text_token('%s(%s)' % (what, ','.join([e[1]] + [repr(x) for x in a])), getattr(SAMPLES[e[1]], what)(*a))
        if what == 'replace' and isinstance(a[0], str) and a[0] and T0 not in a[0] and any(c not in NUMERIC for c in a[0]): return self     # no number has it
        return getattr(str, what)(self._plain(what), *[plain(x, what) for x in a]) if a else self
    def strip(self, *a): return self._other('strip', *a)
    def lstrip(self, *a): return self._other('lstrip', *a)
    def rstrip(self, *a): return self._other('rstrip', *a)
    def replace(self, *a): return self._other('replace', *a)
    def expandtabs(self, *a): return self._other('expandtabs', *a)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __str__(self): return self
    def _digits(self, what):
        """the text split by the number of its digits: (sign, absolute value, digits)"""
        a = self._int(what); neg = bool(a < 0)
        if neg: a = -a
        for k in range(1, 16):
            if a < 10**k: return neg, a, k
        raise core.Unsupported('text of a number of over 15 digits')
    def startswith(self, prefix, *rest):
        if isinstance(prefix, tuple) and not rest: return any(self.startswith(p) for p in prefix)
        if rest: return self._plain('startswith').startswith(prefix, *rest)
        if str.__eq__(self, prefix) or prefix == '': return True
        if self._text(): return self._plain('startswith').startswith(plain(prefix, 'startswith'))
        neg, a, k = self._digits('startswith')
        if isinstance(prefix, SymStr):
            n2, b, k2 = prefix._digits('startswith')
            if n2 != neg or k2 > k: return False
        else:
            if T0 in prefix: raise core.Unsupported('prefix of mixed text')
            if prefix[0] == '-':
                if not neg: return False
                prefix = prefix[1:]
                if prefix == '': return True
            elif neg: return False
            if not (prefix.isascii() and prefix.isdigit()): return False
            b, k2 = int(prefix), len(prefix)
            if k2 > k: return False
        m = 10**(k - k2)
        return bool(a >= b*m) and bool(a < b*m + m)
    def _text(self): return core.TABLE.tokens[self.tid][0] == 'text'
    def __len__(self):
        if self._text(): return len(self._plain('__len__'))
        neg, a, k = self._digits('__len__')
        return k + neg
    def _plain(self, what):
        """a case split over the values of a number with few of them: the text itself, in the case taken"""
        e = core.TABLE.tokens[self.tid]
        if e[0] == 'text': return SAMPLES[e[1]]
        a = self._int(what)
        try: return str(core.CTX.enum_int(a))
        except core.Unsupported: raise core.Unsupported('str.%s of a symbolic value' % what)
    def __contains__(self, o):
        if str.__eq__(self, o): return True
        if str.__contains__(o, T0) and not isinstance(o, SymStr): return str.__contains__(self, o)
        if o == '': return True
        a = self._num()
        if a is not None and a.isint and not isinstance(o, SymStr) and not any(c in '-0123456789' for c in o): return False
        return plain(o, '__contains__') in self._plain('__contains__')
NUMERIC = '+-.e0123456789'     # what the text of a number consists of
def plain(x, what):
    if isinstance(x, SymStr): return x._plain(what)
    if isinstance(x, str) and T0 in x: raise core.Unsupported('str.%s of a mixed text' % what)
    return x
def _coarse(name):
    real = getattr(str, name)
    def op(self, *a, **k): return real(self._plain(name), *[plain(x, name) for x in a], **k)
    setattr(SymStr, name, op)
for _n in ('__getitem__', '__iter__', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition',
           'zfill', 'ljust', 'rjust', 'center', 'translate', 'isalnum', 'isspace', 'title', 'capitalize', 'swapcase', 'casefold', 'removeprefix', 'removesuffix', '__mul__', '__rmul__'): _coarse(_n)
