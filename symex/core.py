"""Symbolic values, terms and the path-exploring context.

Numbers are exact: a symbolic number is a Laurent polynomial with rational
coefficients over *atoms*.  Atoms are inputs, pi, cos/sin of a base angle,
square roots, reciprocals of multi-term polynomials, Fresnel integrals, atan2,
rounding results, ...  Each atom comes with defining constraints for the solver
and with a numeric evaluation rule (used for witnesses and replays only).
"""
import math, cmath, numbers, time, random, re, zlib
from fractions import Fraction
import z3

# ----------------------------------------------------------------- control flow
class EngineSignal(BaseException):
    """never caught by `except Exception` in the code under test"""
class PathInfeasible(EngineSignal): pass
class RestartPath(EngineSignal): pass
class BudgetExceeded(EngineSignal): pass
class Unsupported(EngineSignal): pass

EQ_TOL = Fraction(1, 10**7)     # tolerance of equality assertions in the encoding
NUM_TOL = 1e-6                  # tolerance of equality assertions in replays
PI_LO = Fraction(314159265358979, 10**14)
PI_HI = Fraction(314159265358980, 10**14)

def frac(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return nice(x)
    return nice(float(x))

_nice = {}
def nice(x):
    """the rational a float constant stands for: the short fraction or decimal that rounds to it, else its exact value"""
    r = _nice.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 1000:
            q = r.limit_denominator(1000)
            if float(q) == x: r = q
            else:
                t = repr(x)
                if len(t.lstrip('-0.').split('e')[0].replace('.', '')) <= 12: r = Fraction(t)
        if len(_nice) < 100000: _nice[x] = r
    return r

def pi_const(x):
    """rational q when the float x is the float nearest to q*pi (q a multiple of 1/24), else None"""
    if x == 0.0 or x != x or abs(x) > 200 or abs(x) < 0.12: return None
    k = round(x*24/math.pi)
    if k == 0: return None
    v = k*math.pi/24
    if abs(v - x) <= 4.5e-16*abs(x): return Fraction(k, 24)
    return None

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('idx', 'kind', 'args', 'key', 'isint', 'name', 'lo', 'hi', 'extra')
    def __init__(self, idx, kind, args, key, isint=False, lo=None, hi=None, name=None):
        self.idx, self.kind, self.args, self.key = idx, kind, args, key
        self.isint, self.lo, self.hi = isint, lo, hi
        self.name = name or '%s_%d' % (kind, idx)
        self.extra = None

class Table:
    """All atoms of one harness exploration (shared by its paths)."""
    def __init__(self):
        self.atoms, self.by_key = [], {}
        self.units = {}            # monomial key name -> denominator of the base angle
        self.get('pi', (), lo=PI_LO, hi=PI_HI, name='pi')
        self.zc = {}               # z3 var cache
        self.zinv = {}
        self.tokens = []           # token id -> (Poly, fmt) or ('text', name)
        self.token_ids = {}
    def get(self, kind, args, isint=False, lo=None, hi=None, name=None):
        key = (kind,) + tuple(a.key() if isinstance(a, Poly) else a for a in args)
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, args, key, isint, lo, hi, name)
            self.atoms.append(a); self.by_key[key] = a
        return a

TABLE = None
CTX = None
def table(): return TABLE
def ctx(): return CTX
def set_table(t):
    global TABLE; TABLE = t
def set_ctx(c):
    global CTX; CTX = c

# ----------------------------------------------------------------- polynomials
class Poly:
    """Laurent polynomial: {monomial: Fraction}; monomial = ((atom idx, exp), ...) sorted."""
    __slots__ = ('t', '_k')
    def __init__(self, t):
        self.t = t; self._k = None
    @staticmethod
    def const(c):
        if type(c) is float:
            q = pi_const(c)
            if q is not None: return Poly({((0, 1),): q})
        c = frac(c)
        return Poly({(): c}) if c else Poly({})
    @staticmethod
    def atom(a, e=1): return Poly({((a.idx, e),): Fraction(1)})
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def constval(self): return self.t.get((), Fraction(0))
    def __add__(self, o):
        if len(self.t) < len(o.t): self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v = v + c
                if v: r[m] = v
                else: del r[m]
        return Poly(r)
    def neg(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + o.neg()
    def scale(self, q):
        if not q: return Poly({})
        return Poly({m: c*q for m, c in self.t.items()})
    def __mul__(self, o):
        if not self.t or not o.t: return Poly({})
        if o.is_const(): return self.scale(o.constval())
        if self.is_const(): return o.scale(self.constval())
        r = {}
        pend = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1*c2
                red = reduce_mono(m)
                if red is None:
                    v = r.get(m, 0) + c
                    if v: r[m] = v
                    elif m in r: del r[m]
                else:
                    red = red.scale(c)
                    pend = red if pend is None else pend + red
        p = Poly(r)
        if pend is not None: p = p + pend
        if len(p.t) > 60000: raise BudgetExceeded('polynomial too large')
        return p
    def pow(self, n):
        if n == 0: return Poly.const(1)
        if n < 0: return pinv(self).pow(-n)
        r = None; b = self
        while n:
            if n & 1: r = b if r is None else r*b
            n >>= 1
            if n: b = b*b
        return r
    def atoms(self):
        s = set()
        for m in self.t:
            for i, _ in m: s.add(i)
        return s

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) + e
        if v: d[i] = v
        else: d.pop(i, None)
    return tuple(sorted(d.items()))

def reduce_mono(m):
    """rewrite sin^2, sqrt^2, sgn^2; None if already normal"""
    atoms = TABLE.atoms
    for pos, (i, e) in enumerate(m):
        k = atoms[i].kind
        if k == 'sin' and e >= 2:
            rest = m[:pos] + (((i, e-2),) if e > 2 else ()) + m[pos+1:]
            c = TABLE.get('cos', atoms[i].args, lo=Fraction(-1), hi=Fraction(1))
            one = Poly({(): Fraction(1), ((c.idx, 2),): Fraction(-1)})
            return mul_mono(one, rest)
        if k == 'sqrt':
            p = atoms[i].args[0]
            if e >= 2:
                rest = m[:pos] + (((i, e-2),) if e > 2 else ()) + m[pos+1:]
                return mul_mono(p, rest)
            if e < 0 and len(p.t) == 1:
                # r^-n = r^(n') p^-...
                n = -e
                rest = m[:pos] + (((i, 1),) if n % 2 else ()) + m[pos+1:]
                q = pinv(p).pow((n+1)//2)
                return mul_mono(q, rest)
        if k == 'twocos':
            lo = minpoly(atoms[i].args[0]); d = len(lo)
            if e >= d:
                rest = m[:pos] + m[pos+1:]
                return mul_mono(Poly({(((i, e-d+j),) if e-d+j else ()): Fraction(c) for j, c in enumerate(lo) if c}), rest)
        if k == 'inv' and e < 0:
            rest = m[:pos] + m[pos+1:]
            return mul_mono(atoms[i].args[0].pow(-e), rest)
        if k == 'inv' and e > 0 and INV_RULE:
            q = atoms[i].args[0]; lm = inv_lead(i, q)
            if lm is not None:
                d = dict(m)
                if all(d.get(j, 0) >= x for j, x in lm):
                    rest = mono_mul(m, tuple((j, -x) for j, x in lm))
                    rest1 = mono_mul(rest, ((i, -1),))
                    c = q.t[lm]
                    low = Poly({mm: cc for mm, cc in q.t.items() if mm != lm})
                    return (normal_mono(rest1) - low*normal_mono(rest)).scale(1/c)
        if k == 'sgn' and (e >= 2 or e < 0):
            rest = m[:pos] + (((i, 1),) if e % 2 else ()) + m[pos+1:]
            return mul_mono(Poly.const(1), rest)
    return None

INV_RULE = True
_il = {}
def inv_lead(i, q):
    """leading monomial (graded lexicographic) of the argument of an inv atom"""
    r = _il.get((i, q.key()), 0)
    if r == 0:
        r = None
        if len(q.t) <= 12 and all(e > 0 for m in q.t for _, e in m):
            r = max(q.t, key=lambda m: (sum(e for _, e in m), tuple(sorted(((j, e) for j, e in m), reverse=True))))
            if not r: r = None
        if len(_il) > 20000: _il.clear()
        _il[(i, q.key())] = r
    return r

_mp = {}
def minpoly(n):
    """x^d as [c_0 .. c_d-1] for x = 2 cos(pi/n)"""
    r = _mp.get(n)
    if r is None:
        def div(a, b):            # exact polynomial division, coefficients from low to high
            a = list(a); q = [0]*(len(a) - len(b) + 1)
            for i in range(len(q) - 1, -1, -1):
                q[i] = a[i + len(b) - 1]//b[-1]
                for j, y in enumerate(b): a[i + j] -= q[i]*y
            return q
        cyc = {}
        def cyclo(k):
            if k not in cyc:
                p = [-1] + [0]*(k - 1) + [1]
                for j in range(1, k):
                    if k % j == 0: p = div(p, cyclo(j))
                cyc[k] = p
            return cyc[k]
        p = cyclo(2*n); d = (len(p) - 1)//2
        cheb = [[2], [0, 1]]      # z^k + z^-k in x = z + 1/z
        while len(cheb) <= d:
            a = [0] + cheb[-1]; b = cheb[-2]
            cheb.append([v - (b[j] if j < len(b) else 0) for j, v in enumerate(a)])
        out = [0]*(d + 1); out[0] = p[d]
        for k in range(1, d + 1):
            for j, v in enumerate(cheb[k]): out[j] += p[d + k]*v
        r = _mp[n] = [-v for v in out[:d]]
    return r

def mul_mono(p, m):
    return p * normal_mono(m)
def normal_mono(m):
    r = reduce_mono(m)
    return Poly({m: Fraction(1)}) if r is None else r

def lead(p):
    return max(p.t.keys(), key=lambda m: (sum(abs(e) for _, e in m), m))

def pdiv(a, b):
    """a / b (b known nonzero)"""
    if not a.t: return a
    if len(b.t) == 1:
        return a * pinv(b)
    q = exact_div(a, b)
    if q is not None: return q
    return a * pinv(b)

def exact_div(a, b, limit=60):
    if len(a.t) > 200 or len(b.t) > 50: return None
    lb = max(b.t.keys(), key=_ord)
    cb = b.t[lb]
    inv_lb = tuple((i, -e) for i, e in lb)
    q = Poly({}); r = a
    for _ in range(limit):
        if not r.t: return q
        lr = max(r.t.keys(), key=_ord)
        m = mono_mul(lr, inv_lb)
        if any(e < 0 for _, e in m) and not all(any(x == i and y < 0 for x, y in lr) for i, e in m if e < 0):
            return None
        term = Poly({m: r.t[lr]/cb})
        q = q + term
        r = r - b*term
    return None

def _ord(m):
    return (sum(e for _, e in m), m)

def pinv(p):
    if not p.t: raise ZeroDivisionError('division by zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        im = tuple((i, -e) for i, e in m)
        return normal_mono(im).scale(1/c)
    # pull out monomial content and leading coefficient
    lm = lead(p); c = p.t[lm]
    q = p.scale(1/c)
    a = TABLE.get('inv', (q,))
    return Poly.atom(a).scale(1/c)

# ----------------------------------------------------------------- formulas
# ('cmp', op, Poly) with op in '==', '<', '<=' against 0 ; ('and',[..]) ('or',[..]) ('not',f) ; True / False
def f_not(f):
    if f is True: return False
    if f is False: return True
    if f[0] == 'not': return f[1]
    if f[0] == 'cmp':
        if f[1] == '<': return ('cmp', '<=', f[2].neg())
        if f[1] == '<=': return ('cmp', '<', f[2].neg())
    return ('not', f)
def f_and(fs):
    out = []
    for f in fs:
        if f is False: return False
        if f is True: continue
        out.append(f)
    if not out: return True
    return out[0] if len(out) == 1 else ('and', out)
def f_or(fs):
    out = []
    for f in fs:
        if f is True: return True
        if f is False: continue
        out.append(f)
    if not out: return False
    return out[0] if len(out) == 1 else ('or', out)
def f_cmp(op, p):
    if p.is_const():
        c = p.constval()
        return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op]
    c = abs(p.t[lead(p)])
    if c != 1: p = p.scale(1/c)
    if op == '==' and p.t[lead(p)] < 0: p = p.neg()
    return ('cmp', op, p)
def f_key(f):
    if f is True or f is False: return f
    if f[0] == 'cmp': return ('cmp', f[1], f[2].key())
    if f[0] == 'not': return ('not', f_key(f[1]))
    if f[0] == 'eq': return ('eq', f[1].key(), f[2].key(), f[3])
    return (f[0],) + tuple(f_key(g) for g in f[1])
def f_polys(f):
    if f is True or f is False: return
    if f[0] == 'cmp': yield f[2]
    elif f[0] == 'not': yield from f_polys(f[1])
    elif f[0] == 'eq': yield f[1]; yield f[2]
    else:
        for g in f[1]: yield from f_polys(g)

# ----------------------------------------------------------------- z3 translation
def zvar(a):
    z = TABLE.zc.get(a.idx)
    if z is None:
        if a.isint:
            z = z3.ToReal(z3.Int(a.name))
        else:
            z = z3.Real(a.name)
        TABLE.zc[a.idx] = z
    return z
def zinv(a):
    z = TABLE.zinv.get(a.idx)
    if z is None:
        z = z3.Real('inv!' + a.name); TABLE.zinv[a.idx] = z
    return z
def zq(c):
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
def zpoly(p):
    if not p.t: return z3.RealVal(0)
    terms = []
    atoms = TABLE.atoms
    for m, c in p.t.items():
        f = [] if c == 1 and m else [zq(c)]
        for i, e in m:
            v = zvar(atoms[i]) if e > 0 else zinv(atoms[i])
            f.extend([v]*abs(e))
        t = f[0]
        for g in f[1:]: t = t*g
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)
def zform(f):
    if f is True: return z3.BoolVal(True)
    if f is False: return z3.BoolVal(False)
    if f[0] == 'cmp':
        z = zpoly(f[2])
        return z == 0 if f[1] == '==' else (z < 0 if f[1] == '<' else z <= 0)
    if f[0] == 'not': return z3.Not(zform(f[1]))
    if f[0] == 'eq':
        if not f[3]: return zpoly(f[1]) == zpoly(f[2])
        d = zpoly(f[1]) - zpoly(f[2]); t = zq(f[3])
        return z3.And(d <= t, -t <= d)
    if f[0] == 'and': return z3.And([zform(g) for g in f[1]])
    return z3.Or([zform(g) for g in f[1]])

def atom_defs(a):
    """defining constraints as formulas over polys (list), independent of the path"""
    if a.extra is not None: return a.extra
    P = Poly.atom(a); out = []
    k = a.kind
    raw = lambda op, p: ('cmp', op, p)
    if a.lo is not None: out.append(raw('<=', Poly.const(a.lo) - P))
    if a.hi is not None: out.append(raw('<=', P - Poly.const(a.hi)))
    if k in ('cos', 'sin'):
        out.append(('circle', a.args))
    elif k == 'sqrt':
        out.append(raw('<=', P.neg()))
        out.append(('prod', ((a.idx, 2),), a.args[0]))
    elif k == 'twocos':
        out.append(('minpoly', a.idx))
    elif k == 'inv':
        out.append(('invdef', a.idx, a.args[0]))
    elif k == 'sgn':
        out.append(('prod', ((a.idx, 2),), Poly.const(1)))
    elif k == 'atan2':
        pi = Poly.atom(TABLE.atoms[0])
        out.append(raw('<', pi.neg() - P)); out.append(raw('<=', P - pi))
    elif k == 'floor':
        p, = a.args
        out.append(raw('<=', P - p)); out.append(raw('<', p - P - Poly.const(1)))
    elif k == 'round':
        p, nd = a.args
        h = Fraction(1, 2) * (Fraction(10)**(-nd))
        out.append(raw('<=', P - p - Poly.const(h))); out.append(raw('<=', p - P - Poly.const(h)))
    elif k == 'digits':          # of a number not negative, rounded to so many significant digits
        p, nd = a.args
        h = p*Poly.const(Fraction(1, 2) * Fraction(10)**(1 - nd))
        out.append(raw('<=', P - p - h)); out.append(raw('<=', p - P - h))
    a.extra = out
    return out

def zdef(d):
    if d[0] == 'circle':
        c = TABLE.get('cos', d[1], lo=Fraction(-1), hi=Fraction(1)); s = TABLE.get('sin', d[1], lo=Fraction(-1), hi=Fraction(1))
        return zvar(c)*zvar(c) + zvar(s)*zvar(s) == 1
    if d[0] == 'prod':
        (i, e), = d[1]
        v = zvar(TABLE.atoms[i]); t = v
        for _ in range(e-1): t = t*v
        return t == zpoly(d[2])
    if d[0] == 'minpoly':
        v = zvar(TABLE.atoms[d[1]]); lo = minpoly(TABLE.atoms[d[1]].args[0]); t = 0; pw = zq(Fraction(1))
        for c in lo: t = t + c*pw; pw = pw*v
        return pw == t
    if d[0] == 'invdef':
        return zvar(TABLE.atoms[d[1]])*zpoly(d[2]) == 1
    return zform(d)
def def_polys(d):
    if d[0] == 'circle':
        c = TABLE.get('cos', d[1], lo=Fraction(-1), hi=Fraction(1)); s = TABLE.get('sin', d[1], lo=Fraction(-1), hi=Fraction(1))
        return [Poly.atom(c), Poly.atom(s)]
    if d[0] in ('prod', 'invdef'): return [d[2]]
    if d[0] == 'minpoly': return []
    return list(f_polys(d))

# ----------------------------------------------------------------- trig
def unit_key(m):
    return tuple((TABLE.atoms[i].name, e) for i, e in m)
def base_args(m):
    return (m, Fraction(1, TABLE.units.get(unit_key(m), 1)))

def split_angle(p):
    """p = sum n_i * base_i + q*pi ; returns ([(mono, unit, n)], q)"""
    out = []; q = Fraction(0)
    for m, c in p.t.items():
        if m == ((0, 1),):
            q += c; continue
        # integer multiple of pi
        d = dict(m)
        if d.get(0) == 1 and all(TABLE.atoms[i].isint and e > 0 for i, e in m if i != 0):
            if c.denominator == 1 and c.numerator % 2 == 0: continue
            if c.denominator == 1:
                out.append(('sgn', m, c.numerator)); continue
        if m == ():
            out.append(('const', c, 1)); continue
        if c.denominator > 48:
            out.append((m, abs(c), 1 if c > 0 else -1)); continue
        uk = unit_key(m)
        u = TABLE.units.get(uk, 1)
        if (c*u).denominator != 1:
            TABLE.units[uk] = u * (c*u).denominator
            raise RestartPath('angle unit')
        out.append((m, Fraction(1, u), (c*u).numerator))
    return out, q

SPECIAL = {}
def pi_multiple(q):
    """(cos, sin) of q*pi as Polys"""
    q = q % 2
    one = Fraction(1)
    if (q*12).denominator == 1:
        n = int(q*12)  # in units of 15 deg
        if n % 6 == 0:
            v = [(1, 0), (0, 1), (-1, 0), (0, -1)][n//6]
            return Poly.const(v[0]), Poly.const(v[1])
        def sq(k): return psqrt_raw(Poly.const(k))
        h = Fraction(1, 2)
        t = {2: (sq(3).scale(h), Poly.const(h)), 3: (sq(2).scale(h), sq(2).scale(h)), 4: (Poly.const(h), sq(3).scale(h))}
        if n % 2 == 0 or n % 3 == 0:
            quad, r = divmod(n, 6)
            c, s = t[r]
            for _ in range(quad): c, s = s.neg(), c
            return c, s
    # an odd multiple of a smaller angle: a polynomial in 2 cos(pi/n), n common to the harness
    if q.denominator > 48:
        c, s = trig_atoms(('piq', q))
        return c, s
    n = TABLE.units.get(PIN, 2)
    if (q*n).denominator != 1:
        TABLE.units[PIN] = n*q.denominator//math.gcd(n, q.denominator)
        raise RestartPath('angle unit')
    k = int(q*n)
    return cheb_cos(n, k), cheb_cos(n, k - n//2)

PIN = ('pi/n',)
def cheb_cos(n, k):
    """cos(k pi/n)"""
    k = abs(k) % (2*n); sg = 1
    if k > n: k = 2*n - k
    if 2*k > n: k = n - k; sg = -1
    if k == 0: return Poly.const(sg)
    if 2*k == n: return Poly({})
    v = 2*math.cos(math.pi/n); d = Fraction(1, 10**12)
    x = Poly.atom(TABLE.get('twocos', (n,), lo=Fraction(v) - d, hi=Fraction(v) + d))
    a, b = Poly.const(2), x
    for _ in range(k - 1): a, b = b, x*b - a
    return b.scale(Fraction(sg, 2))

def trig_atoms(base):
    if base[0] == 'piq':
        v = float(base[1])*math.pi
    elif base[0] == 'const':
        v = float(base[1])
    else:
        v = None
    if v is None:
        m = base[0]
        if base[1] == 1 and len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].kind == 'atan2':
            y, x = TABLE.atoms[m[0][0]].args
            q = x*x + y*y
            if CTX is None or not CTX.test(f_cmp('==', q)):
                r = pinv(psqrt(q))
                return x*r, y*r
            return Poly.const(1), Poly({})
        lo, hi = (Fraction(-1), Fraction(1))
        c = TABLE.get('cos', base, lo=lo, hi=hi); s = TABLE.get('sin', base, lo=lo, hi=hi)
    else:
        d = Fraction(1, 10**12)
        c0, s0 = Fraction(math.cos(v)), Fraction(math.sin(v))
        c = TABLE.get('cos', base, lo=c0-d, hi=c0+d); s = TABLE.get('sin', base, lo=s0-d, hi=s0+d)
    return Poly.atom(c), Poly.atom(s)

_tc = {}
def trig(p):
    """(cos p, sin p)"""
    parts, q = split_angle(p)
    key = (id(TABLE), p.key())
    r = _tc.get(key)
    if r is not None and r[0] is TABLE: return r[1], r[2]
    cacheable = all(TABLE.atoms[i].kind != 'atan2' for i in p.atoms())
    C, S = pi_multiple(q)
    for part in parts:
        if part[0] == 'sgn':
            a = TABLE.get('sgn', (part[1],), lo=Fraction(-1), hi=Fraction(1))
            c1, s1 = Poly.atom(a), Poly({})
            n = 1
        elif part[0] == 'const':
            c1, s1 = trig_atoms(('const', abs(part[1])))
            n = 1 if part[1] > 0 else -1
        else:
            m, u, n = part
            c1, s1 = trig_atoms((m, u))
        if n < 0: s1 = s1.neg(); n = -n
        cn, sn = c1, s1
        for _ in range(n-1):
            cn, sn = cn*c1 - sn*s1, sn*c1 + cn*s1
        C, S = C*cn - S*sn, S*cn + C*sn
    if cacheable: _tc[key] = (TABLE, C, S)
    if len(_tc) > 20000: _tc.clear()
    return C, S

# ----------------------------------------------------------------- sqrt etc.
def psqrt_raw(p):
    if p.is_const():
        c = p.constval()
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n) if n >= 0 else -1, math.isqrt(d)
        if n >= 0 and rn*rn == n and rd*rd == d: return Poly.const(Fraction(rn, rd))
        # pull the denominator out: sqrt(n/d) = sqrt(n*d)/d
        if d != 1: return psqrt_raw(Poly.const(n*d)).scale(Fraction(1, d))
    return Poly.atom(TABLE.get('sqrt', (p,), lo=Fraction(0)))

def psqrt(p):
    """square root of a polynomial known >= 0 on the current path"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly.const(1); keep = []
        sign = 1
        for i, e in m:
            par = e % 2
            half = (e - par)//2
            if half:
                if half % 2 == 0:
                    out = out * Poly({((i, half),): Fraction(1)})
                else:
                    sg = CTX.sign(Poly({((i, 1),): Fraction(1)})) if CTX else 0
                    if sg == 0:
                        return psqrt_raw(p)
                    out = out * Poly({((i, half),): Fraction(sg)})
            if par: keep.append((i, 1))
        return out * psqrt_raw(Poly({tuple(keep): c}))
    # common square factor of a quadratic form is left to the solver
    return psqrt_raw(p)

# ----------------------------------------------------------------- numeric evaluation
class Num:
    """float evaluation of polys/formulas under an assignment of input atoms (name -> value)"""
    def __init__(self, values, default=None):
        self.v, self.cache, self.default = values, {}, default
    def atom(self, i):
        r = self.cache.get(i)
        if r is not None: return r
        a = TABLE.atoms[i]; k = a.kind
        if k == 'in':
            if a.name in self.v: r = float(self.v[a.name])
            elif self.default: r = float(self.default(a))
            else: raise KeyError(a.name)
        elif k == 'pi': r = math.pi
        elif k == 'twocos': r = 2*math.cos(math.pi/a.args[0])
        elif k in ('cos', 'sin'):
            b = a.args
            if b[0] == 'piq': t = float(b[1])*math.pi
            elif b[0] == 'const': t = float(b[1])
            else: t = self.mono(b[0])*float(b[1])
            r = math.cos(t) if k == 'cos' else math.sin(t)
        elif k == 'sqrt':
            x = self.poly(a.args[0])
            if x < 0:
                if x > -1e-9: x = 0.0
                else: raise ArithmeticError('sqrt')
            r = math.sqrt(x)
        elif k == 'inv': r = 1.0/self.poly(a.args[0])
        elif k in ('fresS', 'fresC'):
            from scipy.special import fresnel
            s, c = fresnel(self.poly(a.args[0])); r = float(s if k == 'fresS' else c)
        elif k == 'atan2': r = math.atan2(self.poly(a.args[0]), self.poly(a.args[1]))
        elif k == 'floor': r = float(math.floor(self.poly(a.args[0])))
        elif k == 'round': r = float(round(self.poly(a.args[0]), a.args[1]))
        elif k == 'digits': r = float('%.*g' % (a.args[1], self.poly(a.args[0])))
        elif k == 'sgn':
            r = 1.0
            for i2, e in a.args[0]:
                if i2 != 0 and round(self.atom(i2)) % 2 == 0: break
            else: r = -1.0
        elif k == 'exp': r = math.exp(self.poly(a.args[0]))
        elif k == 'quad':
            from scipy.integrate import quad
            var, f, lo, hi = a.args
            lo, hi = self.poly(lo), self.poly(hi)
            def g(t):
                n = Num(dict(self.v), self.default); n.cache = {}
                n.v[TABLE.atoms[var].name] = t
                return n.poly(f)
            r = quad(g, lo, hi)[0]
        else: raise Unsupported('numeric ' + k)
        self.cache[i] = r
        return r
    def mono(self, m):
        r = 1.0
        for i, e in m: r *= self.atom(i)**e
        return r
    def poly(self, p):
        return math.fsum(float(c)*self.mono(m) for m, c in p.t.items())
    def exact(self, p):
        """exact value of c0 + c1*input"""
        r = Fraction(0)
        if len(p.t) > 2: return None
        for m, c in p.t.items():
            if not m: r += c; continue
            if len(m) != 1 or m[0][1] != 1: return None
            a = TABLE.atoms[m[0][0]]
            if a.kind != 'in' or a.name not in self.v: return None
            r += c*Fraction(self.v[a.name])
        return r
    def form(self, f, tol=1e-9):
        """True / False / None(too close to call)"""
        if f is True or f is False: return f
        if f[0] == 'cmp':
            x = self.poly(f[2])
            scale = tol
            if abs(x) <= scale:
                e = self.exact(f[2])
                if e is not None: return e == 0 if f[1] == '==' else (e < 0 if f[1] == '<' else e <= 0)
            if f[1] == '==':
                if all(TABLE.atoms[i].isint for i in f[2].atoms()): return abs(x) < 1e-6
                return False if abs(x) > scale else None
            if abs(x) <= scale:
                if all(TABLE.atoms[i].isint for i in f[2].atoms()):
                    x = round(x)
                    return x < 0 if f[1] == '<' else x <= 0
                return None
            return x < 0
        if f[0] == 'not':
            r = self.form(f[1], tol); return None if r is None else not r
        if f[0] == 'eq':
            a, b = self.poly(f[1]), self.poly(f[2])
            d = abs(a - b)
            if not f[3]: return True if d == 0 else (None if d < 1e-9 else False)
            s = NUM_TOL*(1 + min(abs(a), abs(b)))
            return False if d > 2*s else (None if d > s else True)
        rs = [self.form(g, tol) for g in f[1]]
        if f[0] == 'and':
            if any(r is False for r in rs): return False
            return None if any(r is None for r in rs) else True
        if any(r is True for r in rs): return True
        return None if any(r is None for r in rs) else False

# ----------------------------------------------------------------- calculus (for curve oracles)
def pdiff(p, x):
    """derivative of poly p by input atom index x"""
    out = Poly({})
    for i in p.atoms():
        da = adiff(i, x)
        if not da.t: continue
        # dp/da
        d = {}
        for m, c in p.t.items():
            for (j, e) in m:
                if j == i:
                    m2 = tuple((jj, ee - 1 if jj == i else ee) for jj, ee in m)
                    m2 = tuple(t for t in m2 if t[1] != 0)
                    d[m2] = d.get(m2, 0) + c*e
        q = Poly({})
        for m2, c in d.items():
            if c: q = q + normal_mono(m2).scale(c)
        out = out + q*da
    return out
def adiff(i, x):
    a = TABLE.atoms[i]
    if i == x: return Poly.const(1)
    k = a.kind
    if k in ('in', 'pi', 'sgn', 'twocos'): return Poly({})
    if k in ('cos', 'sin'):
        b = a.args
        if b[0] in ('piq', 'const'): return Poly({})
        d = pdiff(Poly({b[0]: b[1]}), x)
        if not d.t: return d
        c, s = trig_atoms(b)
        return d*(s.neg() if k == 'cos' else c)
    if k == 'sqrt':
        d = pdiff(a.args[0], x)
        if not d.t: return d
        return d.scale(Fraction(1, 2))*pinv(Poly.atom(a))
    if k == 'inv':
        d = pdiff(a.args[0], x)
        return d.neg()*Poly.atom(a, 2) if d.t else d
    if k in ('fresS', 'fresC'):
        u = a.args[0]; d = pdiff(u, x)
        if not d.t: return d
        c, s = trig((u*u).scale(Fraction(1, 2))*Poly.atom(TABLE.atoms[0]))
        return d*(s if k == 'fresS' else c)
    if k == 'atan2':
        y, xx = a.args
        dy, dx = pdiff(y, x), pdiff(xx, x)
        if not dy.t and not dx.t: return dy
        return pdiv(dy*xx - dx*y, xx*xx + y*y)
    raise Unsupported('derivative of ' + k)

def psubst(p, sub):
    """replace input atoms (idx -> Poly) everywhere"""
    cache = {}
    def A(i):
        if i in sub: return sub[i]
        if i in cache: return cache[i]
        a = TABLE.atoms[i]; k = a.kind
        if k in ('in', 'pi', 'sgn'): r = Poly.atom(a)
        elif k in ('cos', 'sin'):
            b = a.args
            if b[0] in ('piq', 'const'): r = Poly.atom(a)
            else:
                ang = R(Poly({b[0]: b[1]}))
                c, s = trig(ang); r = c if k == 'cos' else s
        elif k == 'sqrt': r = psqrt(R(a.args[0]))
        elif k == 'inv': r = pinv(R(a.args[0]))
        elif k in ('fresS', 'fresC'):
            s, c = pfresnel(R(a.args[0])); r = s if k == 'fresS' else c
        elif k == 'atan2': r = patan2(R(a.args[0]), R(a.args[1]))
        else: raise Unsupported('substitute into ' + k)
        cache[i] = r
        return r
    def R(q):
        out = Poly({})
        for m, c in q.t.items():
            t = Poly.const(c)
            for i, e in m:
                b = A(i)
                t = t*(b.pow(e) if e > 0 else pinv(b).pow(-e))
            out = out + t
        return out
    return R(p)

def sign_norm(p):
    """(q, s): p = s*q with canonical leading sign"""
    if not p.t: return p, 1
    m = max(p.t.keys(), key=_ord)
    return (p.neg(), -1) if p.t[m] < 0 else (p, 1)
def pfresnel(u):
    if not u.t: return Poly({}), Poly({})
    q, s = sign_norm(u)
    one = Fraction(1)
    S = Poly.atom(TABLE.get('fresS', (q,), lo=-one, hi=one)).scale(s)
    C = Poly.atom(TABLE.get('fresC', (q,), lo=-one, hi=one)).scale(s)
    return S, C
def patan2(y, x):
    if not y.t:
        sg = CTX.sign(x) if CTX else 0
        if sg > 0: return Poly({})
        if sg < 0: return Poly.atom(TABLE.atoms[0])
    pi = Fraction(22, 7)
    return Poly.atom(TABLE.get('atan2', (y, x), lo=-pi, hi=pi))
