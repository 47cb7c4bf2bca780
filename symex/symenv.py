"""Harness API, symbolic side."""
from fractions import Fraction
from . import core, values, shims, chars
from .core import Poly, f_cmp, f_not, f_and, f_or, PathInfeasible
from .values import SymReal, SymBool, SymStr, form, lift, T0, decode
from .env import Stop, ConcreteEnv

class SymEnv(object):
    symbolic = True
    def __init__(self, ctx, pyodrx, tier):
        self.c, self.P, self.tier = ctx, pyodrx, tier
        self.pi = values.core_pi()
    def apart(self, fn):
        P, self.P = self.P, self.fresh()
        try: return fn()
        finally: self.P = P
    @property
    def thorough(self): return self.tier == 'thorough'
    def real(self, name, lo=None, hi=None):
        self.c.h.declare(name, 'real', lo, hi)
        a = core.TABLE.get('in', (name,), lo=None if lo is None else core.frac(lo), hi=None if hi is None else core.frac(hi), name=name)
        self.c.used.add(name)
        return SymReal(Poly.atom(a))
    def int(self, name, lo, hi):
        self.c.h.declare(name, 'int', lo, hi)
        a = core.TABLE.get('in', (name,), isint=True, lo=core.frac(lo), hi=core.frac(hi), name=name)
        self.c.used.add(name)
        return SymReal(Poly.atom(a), True)
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        if name in self.c.choices: i = self.c.choices[name]
        else:
            i = self.c.pick(name, len(options)); self.c.choices[name] = i
        return options[i]
    def bool(self, name): return self.choice(name, [False, True])
    def text(self, name): return values.text_token(name)
    def chars(self, name, n, without=''):
        """text of n arbitrary XML characters"""
        if not chars.ACTIVE: raise RuntimeError('characters need the option symchars')
        out = ''
        for i in range(n):
            k = '%s_%d' % (name, i)
            v = self.int(k, 9, 0x10FFFF)
            self.assume(self.or_(v == 9, v == 10, v == 13, self.and_(v >= 32, v <= 0xD7FF), self.and_(v >= 0xE000, v <= 0xFFFD), v >= 0x10000))
            for c in without: self.assume(self.not_(v == ord(c)))
            out += chars.placeholder(k)
        return out
    def same_text(self, a, b): return wrap(chars.text_eq_f(a, b))
    def char_in(self, c, cs): return chars.member(c, cs)
    def launched(self, fn, osname='posix'):
        del chars.STARTED[:]; chars.OSNAME[0] = osname
        try: files = self.written(fn)
        finally: chars.OSNAME[0] = 'posix'
        return list(chars.STARTED), files
    def written(self, fn, locale='utf-8'):
        """runs fn; [(file name, parsed document or None)] of what it wrote"""
        chars.FILES.clear(); chars.LOCALE[0] = locale
        fn()
        out = []
        for n, b in list(chars.FILES.items()):
            try: out.append((n, chars.parse(b)))
            except chars.Malformed as e: out.append((n, None))
        return out
    def printed(self, fn):
        """runs fn; the parsed document it printed, or None"""
        del chars.PRINTED[:]
        fn()
        try: return chars.parse(''.join(chars.PRINTED).strip())
        except chars.Malformed as e: return None
    # ---- logic
    def and_(self, *fs): return wrap(f_and([form(f) for f in fs]))
    def or_(self, *fs): return wrap(f_or([form(f) for f in fs]))
    def not_(self, f): return wrap(f_not(form(f)))
    def implies(self, a, b): return wrap(f_or([f_not(form(a)), form(b)]))
    def assume(self, c):
        f = form(c)
        if f is True: return
        if f is False: raise PathInfeasible('assume')
        q = self.c.quick(f)
        if q is True: return
        if q is False: raise PathInfeasible('assume')
        if self.c.feasible(f) is False: raise PathInfeasible('assume')
        self.c.assert_path(f)
    def eq(self, a, b):
        a, b = self.poly(a), self.poly(b)
        ints = not any(not core.TABLE.atoms[i].isint for q in (a, b) for i in q.atoms())
        if a.is_const() and b.is_const(): return abs(a.constval() - b.constval()) <= core.EQ_TOL
        return SymBool(('eq', a, b, 0 if ints else core.EQ_TOL))
    def scale(self, x, y): return 1
    def same(self, a, b):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            a, b = self.poly(a), self.poly(b)
            if a.is_const() and b.is_const(): return a.constval() == b.constval()
            return SymBool(('eq', a, b, 0))
        return a == b
    def poly(self, x):
        p = lift(x)
        if p is None: raise TypeError('number expected, got %r' % (x,))
        return p
    def eq_angle(self, a, b):
        d = self.poly(a) - self.poly(b)
        c, s = core.trig(d)
        one = Poly.const(1)
        fs = []
        for u, v in ((c, one), (s, Poly({}))):
            if u.is_const() and v.is_const():
                fs.append(abs(u.constval() - v.constval()) <= core.EQ_TOL)
            else: fs.append(('eq', u, v, core.EQ_TOL))
        return wrap(f_and(fs))
    # ---- checks
    def check(self, label, c):
        self.c.checks.append((label, form(c) if isinstance(c, SymBool) else bool(c)))
    def fail(self, label): self.check(label, False)
    def require(self, label, c):
        f = form(c) if isinstance(c, SymBool) else bool(c)
        self.c.checks.append((label, f))
        if f is False: raise Stop()
        if f is not True and not self.c.test(f): raise Stop()
    # ---- text
    def parse(self, t):
        """SymReal / float for numeric text, None otherwise"""
        if t is None: return None
        if isinstance(t, SymReal): return t
        if not isinstance(t, str): return None
        if T0 in t:
            parts = decode(t)
            neg = False
            if len(parts) == 2 and parts[0] in ('-', '+'):
                neg = parts[0] == '-'; parts = parts[1:]
            if len(parts) == 1 and isinstance(parts[0], int):
                e = core.TABLE.tokens[parts[0]]
                if e[0] == 'num':
                    v = fmt_value(e[1], e[2])
                    return -v if neg else v
            return None
        try: v = float(t)
        except ValueError: return None
        if v != v or v in (float('inf'), float('-inf')): return None
        try: return int(t)
        except ValueError: return v
    def num(self, t, label='numeric value'):
        v = self.parse(t)
        if v is None: self.require('%s is a number (got %r)' % (label, t), False)
        return v
    def is_num(self, t): return self.parse(t) is not None
    def shows(self, t, v):
        if t is None: return False
        if isinstance(v, bool): return t == str(v)
        if isinstance(v, (int, float, SymReal)):
            n = self.parse(t)
            return False if n is None else self.same(n, v)
        return str.__eq__(t, v if isinstance(v, str) else str(v)) is True or t == v
    # ---- maths
    def cos(self, x): return shims.S(x).cos()
    def sin(self, x): return shims.S(x).sin()
    def sqrt(self, x): return shims.S(x).sqrt()
    def abs(self, x): return abs(x)
    def upper(self, t): return t.upper()
    def integral(self, f, a, b): return shims.quad(f, a, b)[0]
    def check_curve(self, label, x0, y0, x1, y1, s, heading, speed=None):
        """derivative of the end position w.r.t. the length is the unit vector of the heading there; at length 0 it is the start"""
        var = [i for i in self.poly(s).atoms()]
        assert len(var) == 1 and self.poly(s).key() == Poly.atom(core.TABLE.atoms[var[0]]).key()
        var = var[0]
        c, sn = core.trig(self.poly(heading(s)))
        sp = Poly.const(1) if speed is None else self.poly(speed(s))
        for nm, p0, p1, d in (('x', x0, x1, c), ('y', y0, y1, sn)):
            p0, p1 = self.poly(p0), self.poly(p1)
            self.check(label + ': end %s is the end of the emitted curve' % nm,
                       SymBool(f_and([('eq', core.pdiff(p1, var), d*sp, core.EQ_TOL), ('eq', core.psubst(p1, {var: Poly({})}), p0, core.EQ_TOL)])))
    def spiral_end(self, x, y, h, ks, g, L):
        g = shims.S(g)
        pos = bool(g > 0)
        ag = g if pos else -g
        r = (self.pi*ag).sqrt()
        S1, C1 = core.pfresnel(self.poly((shims.S(ks) + g*L)/r)); S0, C0 = core.pfresnel(self.poly(shims.S(ks)/r))
        dC = SymReal(C1 - C0); dS = SymReal(S1 - S0)
        if not pos: dC = -dC
        a = shims.S(h) - shims.S(ks)*ks/(2*g)
        sc = self.pi/r
        return (x + sc*(a.cos()*dC - a.sin()*dS), y + sc*(a.sin()*dC + a.cos()*dS), h + ks*L + g*L*L/2)
    # ---- misc
    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
            return None
        except Exception as e:
            if isinstance(e, Stop): raise
            return type(e).__name__
    def observe(self, label, v): self.c.obs.append((label, v))

def fmt_value(sym, spec):
    """the number the text of a formatted number shows"""
    if not spec: return sym
    import re
    m = re.match(r'^(?:\.(\d+))?[fF]$', spec)
    if m: return round(sym, int(m.group(1) or 6))
    m = re.match(r'^(?:\.(\d+))?([geGE]?)$', spec)
    if m:
        nd = int(m.group(1) or 6) + (m.group(2) in ('e', 'E')) or 1
        if nd > 16: return sym
        neg = bool(sym < 0)
        a = core.TABLE.get('digits', ((-sym if neg else sym).p, nd))
        r = SymReal(Poly.atom(a))
        return -r if neg else r
    raise core.Unsupported('format ' + spec)

def wrap(f): return f if isinstance(f, bool) else SymBool(f)
