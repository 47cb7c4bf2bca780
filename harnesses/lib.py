"""shared harness helpers (run symbolically and on the real interpreter)"""

def children(env, e, tag, n=None):
    r = [c for c in e if c.tag == tag]
    if n is not None: env.require('exactly %d <%s>' % (n, tag), len(r) == n)
    return r

WORDS = {k: v.split() for k, v in {   # the words of OpenDRIVE the library offers, ' ' written as '_'
 'LaneType': 'none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 special3 roadWorks tram rail entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit',
 'RoadMarkType': 'none solid broken solid_solid solid_broken broken_solid broken_broken botts_dots grass curb custom edge',
 'RoadMarkColor': 'standard blue green red white yellow orange', 'RoadMarkWeight': 'standard bold', 'LaneChange': 'increase decrease both none', 'MarkRule': 'no_passing caution none',
 'ObjectType': 'none obstacle pole tree vegetation barrier building parkingSpace patch railing trafficIsland crosswalk streetLamp gantry soundBarrier roadMark',
 'ElementType': 'road junction', 'ContactPoint': 'start end', 'Direction': 'same opposite'}.items()}
def word(env, cls):
    """any member of an enumeration and the word it stands for"""
    w = env.choice('word of ' + cls, WORDS[cls])
    return getattr(getattr(env.P, cls), w), w.replace('_', ' ')

BIG = 10000000
def lane_type(env, k):
    """lane types in turn"""
    T = env.P.LaneType; return [T.driving, T.sidewalk, T.none, T.shoulder, T.bus, T.parking, T.border, T.biking, T.median, T.onRamp][k % 10]

def pose(env, tag='0'):
    return env.real('x' + tag, -BIG, BIG), env.real('y' + tag, -BIG, BIG), env.real('h' + tag, -100, 100)

def nonzero(env, name, lo, hi):
    """a non-zero real: sign by choice, magnitude symbolic"""
    v = env.real(name, lo, hi)
    return -v if getattr(env, 'sign_of', env.bool)('neg_' + name) else v

def tame(env, g, L):
    """the curvature of a spiral changes by at most 20 (replays run with floating point numbers)"""
    env.assume(g*L <= 20); env.assume(g*L >= -20)
    return g

def make_geom(env, kind, tag):
    """one geometry object of the given kind with symbolic parameters (documented preconditions only)"""
    P = env.P
    if kind == 'line': return P.Line(env.real('l_L' + tag, 0, 50000))
    if kind == 'arc_len': return P.Arc(nonzero(env, 'r_k' + tag, 0.0000001, 10), length=env.real('r_L' + tag, 0.0001, 1000))
    if kind == 'arc_ang':
        k = env.real('q_k' + tag, 0.000001, 10); a = env.real('q_a' + tag, 0.00001, 20)
        return P.Arc(-k, angle=-a) if getattr(env, 'sign_of', env.bool)('neg_q_k' + tag) else P.Arc(k, angle=a)
    if kind == 'arc_kpos': return P.Arc(env.real('o_k' + tag, 0.001, 10), angle=env.real('o_a' + tag, 0.01, 7))
    if kind == 'spiral':
        ks = env.real('s_ks' + tag, -1, 1); L = env.real('s_L' + tag, 0.0001, 5000)
        g = tame(env, nonzero(env, 's_g' + tag, 0.000001, 1), L)
        return P.Spiral(ks, ks + g*L, length=L)
    if kind == 'spiral0':        # starts or ends straight
        L = env.real('z_L' + tag, 0.0001, 5000); g = tame(env, nonzero(env, 'z_g' + tag, 0.000001, 1), L)
        return P.Spiral(0, g*L, length=L) if env.bool('from0' + tag) else P.Spiral(-g*L, 0, length=L)
    if kind == 'spiral_cdot':
        ks = env.real('c_ks' + tag, -1, 1); L = env.real('c_L' + tag, 0.01, 5000)
        g = tame(env, nonzero(env, 'c_g' + tag, 0.000001, 1), L)
        return P.Spiral(ks, ks + g*L, cdot=g)
    if kind == 'spiral_const':   # constant curvature, also zero
        L = env.real('n_L' + tag, 0.01, 5000)
        k = nonzero(env, 'n_ks' + tag, 0.001, 1) if env.bool('curved' + tag) else 0
        return P.Spiral(k, k, length=L)
    if kind in ('poly', 'poly_arc', 'poly_len'):
        c = [env.real('p_' + n + tag, -20, 20) for n in ('bu', 'cu', 'du', 'bv', 'cv', 'dv')]
        au, av = 0, 0
        if getattr(env, 'sign_of', env.bool)('shift' + tag): au, av = env.real('p_au' + tag, -500, 500), env.real('p_av' + tag, -500, 500)
        bu, cu, du, bv, cv, dv = c
        p = 1
        if kind == 'poly_arc': p = env.real('p_L' + tag, 0.01, 500)
        # the curve has a direction at its end
        eu, ev = bu + 2*cu*p + 3*du*p*p, bv + 2*cv*p + 3*dv*p*p
        env.assume(eu*eu + ev*ev > 0.01)
        if kind == 'poly': return P.ParamPoly3(au, bu, cu, du, av, bv, cv, dv)
        if kind == 'poly_len': return P.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, length=env.real('p_given' + tag, 0.01, 500))    # a length that does not count
        return P.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=p)
    if kind == 'spiral_ang':     # the angle that belongs to length L and curvatures ks, ks + g*L
        ks = env.real('w_ks' + tag, 0, 1); L = env.real('w_L' + tag, 0.01, 5000)
        g = tame(env, nonzero(env, 'w_g' + tag, 0.000001, 1), L)
        ke = ks + g*L
        env.assume(ke >= 0); env.assume(ks + ke > 0.001)
        sg = -1 if env.bool('right' + tag) else 1
        return P.Spiral(sg*ks, sg*ke, angle=L*(ks + ke)/2)
    raise ValueError(kind)

class Piece(object):
    """an emitted geometry element, as numbers, and the end of the curve it describes"""
    def __init__(self, env, e):
        self.env, self.e = env, e
        self.s, self.x, self.y, self.h, self.L = [env.num(e.get(a), 'geometry ' + a) for a in ('s', 'x', 'y', 'hdg', 'length')]
        kids = [c for c in e]
        env.require('geometry has exactly one shape', len(kids) == 1)
        self.shape = kids[0]; self.kind = kids[0].tag
    def attr(self, n): return self.env.num(self.shape.get(n), self.kind + ' ' + n)
    def end(self):
        """(x, y, (cos, sin) of heading up to a positive factor, heading or None)"""
        env, x, y, h, L = self.env, self.x, self.y, self.h, self.L
        if self.kind == 'line': return x + L*env.cos(h), y + L*env.sin(h), h
        if self.kind == 'arc':
            k = self.attr('curvature')
            return x + (env.sin(h + k*L) - env.sin(h))/k, y - (env.cos(h + k*L) - env.cos(h))/k, h + k*L
        if self.kind == 'spiral':
            ks, ke = self.attr('curvStart'), self.attr('curvEnd')
            g = (ke - ks)/L
            if g == 0:
                if ks == 0: return x + L*env.cos(h), y + L*env.sin(h), h
                return x + (env.sin(h + ks*L) - env.sin(h))/ks, y - (env.cos(h + ks*L) - env.cos(h))/ks, h + ks*L
            return env.spiral_end(x, y, h, ks, g, L)
        if self.kind == 'paramPoly3':
            au, bu, cu, du, av, bv, cv, dv = [self.attr(a) for a in ('aU', 'bU', 'cU', 'dU', 'aV', 'bV', 'cV', 'dV')]
            env.require('pRange', self.shape.get('pRange') in ('normalized', 'arcLength'))
            p = 1 if self.shape.get('pRange') == 'normalized' else L
            u, v = au + bu*p + cu*p*p + du*p*p*p, av + bv*p + cv*p*p + dv*p*p*p
            eu, ev = bu + 2*cu*p + 3*du*p*p, bv + 2*cv*p + 3*dv*p*p
            c, s = env.cos(h), env.sin(h)
            return x + u*c - v*s, y + u*s + v*c, Dir(eu*c - ev*s, eu*s + ev*c)
        env.require('known geometry shape %s' % self.kind, False)
    def true_length(self):
        """arc length of a normalized polynomial, None where the length attribute defines the curve"""
        env = self.env
        if self.kind != 'paramPoly3' or self.shape.get('pRange') != 'normalized': return None
        bu, cu, du, bv, cv, dv = [self.attr(a) for a in ('bU', 'cU', 'dU', 'bV', 'cV', 'dV')]
        return env.integral(lambda p: env.sqrt((bu + 2*cu*p + 3*du*p*p)**2 + (bv + 2*cv*p + 3*dv*p*p)**2), 0, 1)

class Dir(object):
    """a direction given by a vector"""
    def __init__(self, x, y): self.x, self.y = x, y

def same_dir(env, d, h, turned=False):
    """heading h points along d (a heading or a Dir)"""
    if not isinstance(d, Dir): return env.eq_angle(d + env.pi if turned else d, h)
    c, s = env.cos(h), env.sin(h)
    if turned: c, s = -c, -s
    m = env.scale(d.x, d.y)
    return env.and_(env.eq((d.x*s - d.y*c)/m, 0), d.x*c + d.y*s > 0)

def pieces(env, e): return [Piece(env, g) for g in children(env, e, 'geometry')]

def join(env, a, b, label):
    """piece b starts where the curve of piece a ends"""
    x, y, h = a.end()
    env.check(label + ' x', env.eq(b.x, x)); env.check(label + ' y', env.eq(b.y, y))
    env.check(label + ' heading', same_dir(env, h, b.h))

def same_shape(env, p, e):
    """piece p shows the shape element e"""
    if env.not_(p.kind == e.tag): return False
    if sorted(p.shape.keys()) != sorted(e.keys()): return False
    return env.and_(*[env.eq(env.num(p.shape.get(k)), env.num(e.get(k))) if env.is_num(e.get(k)) else p.shape.get(k) == e.get(k) for k in e.keys()])

def fixed_signs(env):
    """signs of curvatures etc. fixed by position instead of explored"""
    env.sign_of = lambda name: int(name[-1]) % 2 == 1 if name[-1].isdigit() else False
