"""Path exploration, solver queries, witnesses."""
import math, time, zlib, random, traceback, os, sys
from fractions import Fraction
import z3
from . import core, values
from .core import (Poly, Table, Num, f_cmp, f_not, f_and, f_or, f_key, f_polys, zform, zdef, zvar, zinv,
                   atom_defs, def_polys, PathInfeasible, RestartPath, BudgetExceeded, Unsupported)
from .values import SymReal, SymBool, SymStr, form

NPOOL = 40

class Stats(dict):
    def add(self, k, v=1): self[k] = self.get(k, 0) + v

# ------------------------------------------------------------------ intervals
def atom_bounds(a, over):
    lo, hi = a.lo, a.hi
    b = over.get(a.idx)
    if b is not None:
        if b[0] is not None and (lo is None or b[0] > lo): lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi): hi = b[1]
    return lo, hi
def ipow(lo, hi, e):
    if e < 0:
        if lo is not None and lo > 0: r = (Fraction(1)/hi if hi is not None else Fraction(0), Fraction(1)/lo)
        elif hi is not None and hi < 0: r = (Fraction(1)/hi, Fraction(1)/lo if lo is not None else Fraction(0))
        else: return (None, None) if e % 2 else (Fraction(0), None)
        lo, hi = r; e = -e
        if e == 1: return lo, hi
    if e % 2 == 1:
        return (lo**e if lo is not None else None, hi**e if hi is not None else None)
    if lo is not None and lo >= 0: return lo**e, (hi**e if hi is not None else None)
    if hi is not None and hi <= 0: return hi**e, (lo**e if lo is not None else None)
    if lo is None or hi is None: return Fraction(0), None
    return Fraction(0), max(lo**e, hi**e)
def imul(a, b):
    if a == (0, 0) or b == (0, 0): return (Fraction(0), Fraction(0))
    inf = math.inf
    al, ah = (-inf if a[0] is None else a[0]), (inf if a[1] is None else a[1])
    bl, bh = (-inf if b[0] is None else b[0]), (inf if b[1] is None else b[1])
    c = []
    for x in (al, ah):
        for y in (bl, bh):
            if x == 0 or y == 0: c.append(Fraction(0))
            elif abs(x) == inf or abs(y) == inf: c.append(inf if (x > 0) == (y > 0) else -inf)
            else: c.append(x*y)
    lo, hi = min(c), max(c)
    return (None if lo == -inf else lo, None if hi == inf else hi)
def interval(p, over):
    lo = hi = Fraction(0)
    atoms = core.TABLE.atoms
    for m, c in p.t.items():
        r = (c, c)
        for i, e in m:
            r = imul(r, ipow(*atom_bounds(atoms[i], over), e))
        lo = None if lo is None or r[0] is None else lo + r[0]
        hi = None if hi is None or r[1] is None else hi + r[1]
        if lo is None and hi is None: return None, None
    return lo, hi

# ------------------------------------------------------------------ per-harness state
class Harness:
    """symbol table and sample pool shared by the paths of one harness"""
    def __init__(self, fn, seed, tier):
        self.fn, self.seed, self.tier = fn, seed, tier
        self.table = Table()
        self.inputs = {}        # name -> dict(kind, lo, hi)
        self.pool = [dict() for _ in range(NPOOL)]
        self.nums = [None]*NPOOL
    def reset_table(self):
        u = self.table.units
        self.table = Table(); self.table.units = u
        self.nums = [None]*NPOOL
        core._tc.clear()
    def declare(self, name, kind, lo, hi):
        if name in self.inputs: return
        self.inputs[name] = dict(kind=kind, lo=lo, hi=hi)
        for i in range(NPOOL):
            r = random.Random(zlib.crc32(('%d/%d/%s' % (self.seed, i, name)).encode()))
            l = -8.0 if lo is None else float(lo); h = l + 16.0 if hi is None else float(hi)
            if lo is None and hi is not None: l = h - 16.0
            if kind == 'int':
                l, h = int(math.ceil(l)), int(math.floor(h))
                m = i % 4
                if m == 0: v = r.randint(l, h)
                elif m == 1: v = r.randint(max(l, -3), min(h, 3)) if max(l, -3) <= min(h, 3) else r.randint(l, h)
                elif m == 2: v = min(max(r.choice([-1, 0, 1, 2]), l), h)
                else: v = r.randint(l, min(h, l + 4))
            else:
                m = i % 4
                if m == 0: v = r.uniform(l, h)
                elif m == 1: v = r.uniform(max(l, -2.0), min(h, 2.0)) if max(l, -2.0) < min(h, 2.0) else r.uniform(l, h)
                elif m == 2: v = round(r.uniform(l, h), 1)
                else: v = r.uniform(l, l + 0.3*(h - l)) if r.random() < .5 else r.uniform(h - 0.3*(h - l), h)
                v = float(min(max(v, l), h))
            self.pool[i][name] = v
    def num(self, i):
        n = self.nums[i]
        if n is None:
            n = self.nums[i] = Num(self.pool[i])
        return n

# ------------------------------------------------------------------ solver
class Query:
    """z3 query over path formulas, with defining constraints of the atoms involved"""
    def __init__(self, ctx): self.ctx = ctx
    def build(self, goal, full=False):
        atoms = core.TABLE.atoms
        need = set(); negs = set()
        out = []; done = set()
        stack = []
        def addf(f):
            for p in f_polys(f): addp(p)
        def addp(p):
            for m in p.t:
                for i, e in m:
                    if e < 0 and i not in negs: negs.add(i)
                    if i not in need: need.add(i); stack.append(i)
        for g in goal: addf(g)
        rest = list(self.ctx.path)
        defs = []
        while True:
            while stack:
                a = atoms[stack.pop()]
                for d in atom_defs(a):
                    k = id(d)
                    if k in done: continue
                    done.add(k); defs.append(d)
                    for p in def_polys(d): addp(p)
                if a.idx in self.ctx.over:
                    lo, hi = self.ctx.over[a.idx]
                if a.kind in ('cos', 'sin') and a.args[0] not in ('piq', 'const'):
                    v = self.fixed_angle(a.args)
                    if v is not None: defs.append(('fixtrig', a, v))
            more = False
            keep = []
            for f in rest:
                if full or any((i in need and i != 0) for p in f_polys(f) for i in p.atoms()) or not any(i != 0 for p in f_polys(f) for i in p.atoms()):
                    out.append(f); addf(f); more = True
                else: keep.append(f)
            rest = keep
            if not stack and not more: break
        zs = [zform(g) for g in goal] + [zform(f) for f in out]
        for d in defs:
            if d[0] == 'fixtrig':
                c = math.cos(d[2]) if d[1].kind == 'cos' else math.sin(d[2])
                z = zvar(d[1])
                if d[2] == 0: zs.append(z == int(c))
                else:
                    q = Fraction(c); e = Fraction(1, 10**12)
                    zs.append(z >= core.zq(q - e)); zs.append(z <= core.zq(q + e))
            else: zs.append(zdef(d))
        for i in negs: zs.append(zinv(atoms[i])*zvar(atoms[i]) == 1)
        self.need = need
        return zs
    def fixed_angle(self, base):
        v = 1.0
        for i, e in base[0]:
            x = self.ctx.fixed.get(i)
            if x is None: return None
            if x == 0: return 0.0 if e > 0 else None
            v *= float(x)**e
        return v*float(base[1])

GRACE_S = float(os.environ.get('SYMEX_GRACE', 10))
BEAT = None      # shared (pid, path, number of the query, deadline) of this worker, watched by the parent
SKIP = ()        # numbers of the queries of this path that never came back, 'all' for every further one
NTH = 0
def beat(path, skip=()):
    global SKIP, NTH
    SKIP, NTH = skip, 0
    if BEAT is not None: BEAT[1], BEAT[2], BEAT[3] = path, 0, 0

def solve(zs, ms, stats, rlimit=0):
    """the solver's time limit is not always kept; a query far over it is ended with its worker and skipped the next time"""
    global NTH
    t = time.time(); NTH += 1
    if NTH in SKIP or ('all' in SKIP and NTH > min(SKIP - {'all'})):
        stats.add('queries'); stats.add('unknown'); stats.add('hung'); return 'unknown', None
    if BEAT is not None: BEAT[2], BEAT[3] = NTH, t + ms/1000.0 + GRACE_S
    try: return solve_(zs, ms, stats, t)
    finally:
        if BEAT is not None: BEAT[3] = 0

def solve_(zs, ms, stats, t):
    s = z3.Solver()
    s.set('timeout', ms)
    for z in zs: s.add(z)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    stats.add('queries'); stats.add('solver_s', time.time() - t)
    stats.add({'sat': 'sat', 'unsat': 'unsat'}.get(str(r), 'unknown'))
    return str(r), s

def _cvc5(txt, ms):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption('tlimit', str(ms))
    slv.setLogic('QF_NIRA' if 'Int' in txt else 'QF_NRA')
    ip = cvc5.InputParser(slv)
    ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = ip.getSymbolManager()
    while True:
        c = ip.nextCommand()
        if c.isNull(): break
        if c.getCommandName() == 'set-logic': continue
        c.invoke(slv, sm)
    return str(slv.checkSat())

def cvc5_check(zs, ms, stats):
    """second opinion from cvc5 on the same assertions, in a child process with a hard time limit"""
    import select, signal
    t = time.time(); r = ''
    s = z3.Solver(); [s.add(z) for z in zs]
    txt = s.to_smt2().replace('(check-sat)', '')
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            # ends by itself also when its worker is gone
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(int(ms/1000.0) + 2)
            try: x = _cvc5(txt, ms)
            except BaseException: x = 'unknown'
            os.write(wr, x.encode())
        finally: os._exit(0)
    os.close(wr)
    if select.select([rd], [], [], ms/1000.0 + 0.5)[0]: r = os.read(rd, 100).decode()
    else: os.kill(pid, signal.SIGKILL)
    os.close(rd); os.waitpid(pid, 0)
    stats.add('cvc5_queries'); stats.add('cvc5_s', time.time() - t)
    return r if r in ('sat', 'unsat') else 'unknown'

def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v): return v.numerator_as_long()/v.denominator_as_long() if abs(v.denominator_as_long()) else 0.0
    if z3.is_algebraic_value(v):
        a = v.approx(20); return a.numerator_as_long()/a.denominator_as_long()
    return None

# ------------------------------------------------------------------ one path
class Ctx:
    FEAS_MS = 2500
    def __init__(self, h, prefix, stats):
        self.h, self.prefix, self.stats = h, prefix, stats
        self.dec, self.alts = [], []
        self.path = []; self.known = {}; self.over = {}; self.fixed = {}
        self.alive = list(range(NPOOL)); self.extra = []
        self.choices = {}; self.used = set(); self.checks = []; self.obs = []; self.quads = []; self.texts = {}
        self.quad_depth = 0
        self.uncertain = 0
        self.name_n = {}
    # ---- knowledge
    def learn(self, f):
        """record formula f as true"""
        self.known[f_key(f)] = True
        if f[0] == 'cmp':
            p, op = f[2], f[1]; n = p.neg()
            K = self.known
            def put(op, q, v):
                g = f_cmp(op, q)
                if g is True or g is False: return
                K[f_key(g)] = v
            if op == '==':
                put('<', p, False); put('<', n, False); put('<=', p, True); put('<=', n, True)
            elif op == '<':
                put('==', p, False); put('<=', p, True); put('<=', n, False); put('<', n, False)
            else:
                put('<', n, False)
            # bounds of single atoms
            if len(p.t) <= 2:
                ms = [m for m in p.t if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                    i = ms[0][0][0]; c = p.t[ms[0]]; b = -p.t.get((), Fraction(0))/c
                    lo, hi = self.over.get(i, (None, None))
                    if op == '==':
                        lo = hi = b; self.fixed[i] = b
                    elif c > 0: hi = b if hi is None else min(hi, b)
                    else: lo = b if lo is None else max(lo, b)
                    self.over[i] = (lo, hi)
        elif f[0] == 'not':
            self.known[f_key(f[1])] = False
            if f[1][0] == 'cmp': pass
        elif f[0] == 'and':
            for g in f[1]: self.learn(g)
    def quick(self, f):
        """value implied by known facts / intervals, or None"""
        if f is True or f is False: return f
        v = self.known.get(f_key(f))
        if v is not None: return v
        if f[0] == 'not':
            v = self.quick(f[1]); return None if v is None else not v
        if f[0] == 'eq':
            return True if f[1].key() == f[2].key() else None
        if f[0] == 'cmp':
            lo, hi = interval(f[2], self.over)
            if f[1] == '==':
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
                if lo is not None and lo == hi == 0: return True
            elif f[1] == '<':
                if hi is not None and hi < 0: return True
                if lo is not None and lo >= 0: return False
            else:
                if hi is not None and hi <= 0: return True
                if lo is not None and lo > 0: return False
            return None
        vs = [self.quick(g) for g in f[1]]
        if f[0] == 'and':
            if any(v is False for v in vs): return False
            return True if all(v is True for v in vs) else None
        if any(v is True for v in vs): return True
        return False if all(v is False for v in vs) else None
    def sign(self, p):
        if p.is_const():
            c = p.constval(); return (c > 0) - (c < 0)
        if self.quick(f_cmp('<', p)) is True: return -1
        if self.quick(f_cmp('<', p.neg())) is True: return 1
        return 0
    def test(self, f):
        if f is True or f is False: return f
        return self.branch(f)
    # ---- samples
    def num(self, i):
        if i < NPOOL: return self.h.num(i)
        n = self.extra[i - NPOOL]
        if len(n.v) < len(self.h.inputs):          # inputs declared after the sample was made
            for name in self.h.inputs:
                if name not in n.v: n.v[name] = self.h.pool[0][name]
        return n
    def holds(self, i, f):
        try: return self.num(i).form(f)
        except (ArithmeticError, KeyError, ValueError, OverflowError): return None
    def witness_for(self, f):
        for i in self.alive:
            if self.holds(i, f) is True: return i
        return None
    def add_model(self, s, need):
        """sample from a solver model, repaired so that trig values fit; kept if it satisfies the path"""
        try: v = self.values_from(s.model(), need)
        except z3.Z3Exception: return None
        n = Num(v)
        try: ok = all(n.form(f) is not False for f in self.path)
        except (ArithmeticError, KeyError, ValueError, OverflowError): return None
        if not ok: return None
        self.extra.append(n)
        return NPOOL + len(self.extra) - 1
    def values_from(self, m, need):
        atoms = core.TABLE.atoms
        base = dict(self.h.pool[0])
        have = {}
        for name, d in self.h.inputs.items():
            a = core.TABLE.by_key.get(('in', name))
            if a is None: continue
            if a.idx in need:
                x = model_value(m, zvar(a))
                if x is not None: base[name] = int(x) if d['kind'] == 'int' else float(x); have[a.idx] = name
        for i in need:
            a = atoms[i]
            if a.kind in ('cos', 'sin') and a.args[0] not in ('piq', 'const'):
                mono, step = a.args
                if len(mono) == 1 and atoms[mono[0][0]].kind == 'in' and mono[0][1] in (1,) and mono[0][0] not in self.fixed:
                    nm = atoms[mono[0][0]].name
                    c = core.TABLE.by_key.get(('cos',) + a.args); sn = core.TABLE.by_key.get(('sin',) + a.args)
                    cv = model_value(m, zvar(c)) if c else None; sv = model_value(m, zvar(sn)) if sn else None
                    if cv is not None and sv is not None and (cv or sv) and nm in self.h.inputs:
                        ang = math.atan2(sv, cv)/float(step)
                        d = self.h.inputs[nm]; per = 2*math.pi/float(step)
                        cand = [ang + k*per for k in range(-3, 4)]
                        ok = [x for x in cand if (d['lo'] is None or x >= d['lo']) and (d['hi'] is None or x <= d['hi'])]
                        if ok: base[nm] = min(ok, key=abs)
        for name, d in self.h.inputs.items():
            if name not in base: base[name] = self.h.pool[0][name]
        return base
    # ---- branching
    def feasible(self, f):
        """True / False / None(unknown) for path and f"""
        if self.witness_for(f) is not None: return True
        q = Query(self); zs = q.build([f])
        r, s = solve(zs, self.FEAS_MS, self.stats)
        if r == 'unsat': return False
        if r == 'sat':
            self.path.append(f)
            i = self.add_model(s, q.need)
            self.path.pop()
            if i is not None: self.alive.append(i)
            return True
        return None
    def assert_path(self, f):
        self.path.append(f); self.learn(f)
        self.alive = [i for i in self.alive if self.holds(i, f) is not False]
    def branch(self, f):
        v = self.quick(f)
        if v is not None: return v
        if time.time() > self.deadline: raise BudgetExceeded('time')
        n = len(self.dec)
        if n < len(self.prefix):
            d = self.prefix[n]
            if d[0] != 'b': raise RuntimeError('replay divergence')
            v = d[1]
        else:
            g = f_not(f)
            t, e = self.feasible(f), self.feasible(g)
            self.stats.add('branches')
            if t is None or e is None: self.stats.add('branch_unknown'); self.uncertain += 1
            if t is False and e is False: raise PathInfeasible('path')
            if t is False: v = False
            elif e is False: v = True
            else:
                v = True
                self.alts.append(self.dec + [('b', False)])
        self.dec.append(('b', v))
        self.assert_path(f if v else f_not(f))
        if len(self.dec) > 3000: raise BudgetExceeded('decisions')
        return v
    def pick(self, name, n):
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
            if d[0] != 'c': raise RuntimeError('replay divergence')
            v = d[1]
        else:
            v = 0
            for j in range(1, n): self.alts.append(self.dec + [('c', j)])
        self.dec.append(('c', v))
        return v
    def enum_int(self, s):
        p = s.p
        if p.is_const(): return int(p.constval())
        lo, hi = interval(p, self.over)
        if lo is not None and hi is not None and hi - lo <= 64:
            for v in range(math.ceil(lo), math.floor(hi) + 1):
                if self.test(f_cmp('==', p - Poly.const(v))): return v
            raise PathInfeasible('int')
        raise Unsupported('index from an unbounded symbolic integer')
    def concretize(self, s):
        raise Unsupported('concrete value of a symbolic number needed (C code)')

class Outcome(dict): pass
