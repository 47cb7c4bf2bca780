"""dict and set whose keys may be symbolic: keys are found by comparing them (which forks), never by their hash."""
import ast, re, collections.abc as cabc
from . import core
from .values import SymReal, SymStr, SymComplex, SymBool

def symbolic(k):
    if isinstance(k, (SymReal, SymStr, SymComplex, SymBool)): return True
    if isinstance(k, (tuple, frozenset)): return any(symbolic(x) for x in k)
    return False
def alike(a, b):
    """the same without asking"""
    if a is b: return True
    if isinstance(a, str) and isinstance(b, str): return str.__eq__(a, b)
    if isinstance(a, SymReal) and isinstance(b, SymReal): return a.isint == b.isint and a.p.key() == b.p.key()
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return False
def find(keys, key):
    for k in keys:
        if alike(k, key): return k, True
    for k in keys:
        if k == key: return k, True
    return None, False

class _Dict(type):
    def __instancecheck__(cls, o): return isinstance(o, dict) if cls is SymDict else type.__instancecheck__(cls, o)
    def __subclasscheck__(cls, c): return issubclass(c, dict) if cls is SymDict else type.__subclasscheck__(cls, c)
_none = object()
class SymDict(dict, metaclass=_Dict):
    _sym = False
    def __init__(self, *a, **k):
        if len(a) > 1: raise TypeError('dict expected at most 1 argument, got %d' % len(a))
        dict.__init__(self); self.update(*a, **k)
    def _key(self, key):
        """the stored key that equals key, whether there is one"""
        if self._sym or symbolic(key):
            if not self._sym and isinstance(key, SymStr) and key._num() is None: return key, dict.__contains__(self, key)
            return find(list(dict.__iter__(self)), key)
        return key, dict.__contains__(self, key)
    def __contains__(self, key): return self._key(key)[1]
    def __getitem__(self, key):
        k, ok = self._key(key)
        if ok: return dict.__getitem__(self, k)
        m = getattr(type(self), '__missing__', None)
        if m is not None: return m(self, key)
        raise KeyError(key)
    def get(self, key, default=None):
        k, ok = self._key(key)
        return dict.__getitem__(self, k) if ok else default
    def __setitem__(self, key, v):
        k, ok = self._key(key)
        if not ok:
            k = key
            if symbolic(key): self._sym = True
        dict.__setitem__(self, k, v)
    def setdefault(self, key, v=None):
        k, ok = self._key(key)
        if ok: return dict.__getitem__(self, k)
        self[key] = v; return v
    def __delitem__(self, key):
        k, ok = self._key(key)
        if not ok: raise KeyError(key)
        dict.__delitem__(self, k)
    def pop(self, key, *d):
        k, ok = self._key(key)
        if ok: return dict.pop(self, k)
        if d: return d[0]
        raise KeyError(key)
    def update(self, *a, **kw):
        for o in a:
            if hasattr(o, 'keys'):
                for k in o.keys(): self[k] = o[k]
            else:
                for k, v in o: self[k] = v
        for k, v in kw.items(): self[k] = v
    def copy(self): return type(self)(self)
    __copy__ = copy
    def __or__(self, o): r = SymDict(self); r.update(o); return r
    def __ror__(self, o): r = SymDict(o); r.update(self); return r
    def __ior__(self, o): self.update(o); return self
    def __eq__(self, o):
        if not isinstance(o, dict): return NotImplemented
        o = o if type(o) is SymDict else SymDict(o)
        return len(self) == len(o) and all(k in o and bool(v == o[k]) for k, v in self.items())
    def __ne__(self, o): r = self.__eq__(o); return r if r is NotImplemented else not r
    __hash__ = None
    def keys(self): return KeyView(self)
    @classmethod
    def fromkeys(cls, ks, v=None): return cls((k, v) for k in ks)
    def __reduce__(self): return (SymDict, (list(self.items()),))
class KeyView(cabc.KeysView):
    @classmethod
    def _from_iterable(cls, it): return SymSet(it)

class _Set(type(cabc.MutableSet)):
    def __instancecheck__(cls, o):
        if cls is SymSet: return isinstance(o, set) or (issubclass(type(o), SymSet) and not issubclass(type(o), SymFrozen))
        if cls is SymFrozen: return isinstance(o, frozenset) or issubclass(type(o), SymFrozen)
        return super().__instancecheck__(o)
class SymSet(cabc.MutableSet, metaclass=_Set):
    """insertion-ordered, as the sets of the project's interpreter are"""
    def __init__(self, xs=()):
        self._d = SymDict()
        for x in xs: self._d[x] = None
    def __contains__(self, x): return x in self._d
    def __iter__(self): return dict.__iter__(self._d)
    def __len__(self): return len(self._d)
    def add(self, x):
        if x not in self._d: self._d[x] = None
    def discard(self, x): self._d.pop(x, None)
    def remove(self, x): del self._d[x]
    def pop(self):
        for x in self._d: break
        else: raise KeyError('pop from an empty set')
        self.discard(x); return x
    def clear(self): self._d.clear()
    def copy(self): return type(self)(self)
    def update(self, *xs):
        for o in xs:
            for x in o: self.add(x)
    def union(self, *xs): r = type(self)(self); SymSet.update(r, *xs); return r
    def intersection(self, *xs): return type(self)(x for x in self if all(x in SymSet(o) for o in xs))
    def difference(self, *xs): return type(self)(x for x in self if not any(x in SymSet(o) for o in xs))
    def symmetric_difference(self, o): return type(self)(list(self.difference(o)) + list(SymSet(o).difference(self)))
    def difference_update(self, *xs):
        for o in xs:
            for x in o: self.discard(x)
    def intersection_update(self, *xs):
        for x in list(self):
            if not all(x in SymSet(o) for o in xs): self.discard(x)
    def issubset(self, o): return all(x in SymSet(o) for x in self)
    def issuperset(self, o): return all(x in self for x in o)
    def __repr__(self): return '{%s}' % ', '.join(map(repr, self))
    def __hash__(self): raise TypeError("unhashable type: 'set'")
class SymFrozen(SymSet):
    def __hash__(self): return 17

class OrderedDict(SymDict):
    def popitem(self, last=True):
        ks = list(dict.__iter__(self))
        if not ks: raise KeyError('dictionary is empty')
        k = ks[-1] if last else ks[0]
        return k, self.pop(k)
    def move_to_end(self, key, last=True):
        k, ok = self._key(key)
        if not ok: raise KeyError(key)
        v = self.pop(k)
        if last: self[k] = v
        else:
            rest = list(self.items()); self.clear(); self[k] = v
            for a, b in rest: self[a] = b
class defaultdict(SymDict):
    def __init__(self, factory=None, *a, **k): self.default_factory = factory; SymDict.__init__(self, *a, **k)
    def __missing__(self, key):
        if self.default_factory is None: raise KeyError(key)
        self[key] = v = self.default_factory(); return v
    def copy(self): return defaultdict(self.default_factory, self)
    __copy__ = copy
    def __reduce__(self): return (defaultdict, (self.default_factory, list(self.items())))
class Counter(SymDict):
    def __init__(self, xs=()):
        SymDict.__init__(self)
        for x in xs: self[x] = self.get(x, 0) + 1
    def __missing__(self, key): return 0
    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1]); return r if n is None else r[:n]
    def __reduce__(self): return (SymDict, (list(self.items()),))
SHIMS = {'OrderedDict': OrderedDict, 'defaultdict': defaultdict, 'Counter': Counter}

class _Rewrite(ast.NodeTransformer):
    def _call(self, n, name, arg):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[arg], keywords=[]), n)
    def visit_Dict(self, n):
        self.generic_visit(n)
        parts = [ast.Tuple(elts=[k if k is not None else ast.Constant(Ellipsis), v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return self._call(n, '__symdict__', ast.List(elts=parts, ctx=ast.Load()))
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._call(n, '__symdict__', ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators))
    def visit_Set(self, n):
        self.generic_visit(n); return self._call(n, '__symset__', ast.List(elts=n.elts, ctx=ast.Load()))
    def visit_SetComp(self, n):
        self.generic_visit(n); return self._call(n, '__symset__', ast.GeneratorExp(elt=n.elt, generators=n.generators))
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Mod): return n
        return ast.copy_location(ast.Call(func=ast.Name(id='__symmod__', ctx=ast.Load()), args=[n.left, n.right], keywords=[]), n)
SPEC = re.compile(r'%(\([^)]*\))?([-#0 +]*)(\*|\d+)?(\.(?:\*|\d+))?[hlL]?(.)')
def mod(a, b):
    """a % b; of a text, with the numbers in b left symbolic"""
    if type(b) is not tuple and not isinstance(b, (SymReal, dict)) or not isinstance(a, str): return a % b
    args = list(b) if isinstance(b, tuple) else [b]; named = isinstance(b, dict)
    if not any(isinstance(v, SymReal) for v in (b.values() if named else args)): return a % b
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(a):
        out.append(a[pos:m.start()]); pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%': out.append('%'); continue
        if width == '*' or prec == '.*': raise core.Unsupported('format with *')
        if key: v = b[key[1:-1]]
        else:
            if k >= len(args): raise TypeError('not enough arguments for format string')
            v = args[k]; k += 1
        if not isinstance(v, SymReal): out.append(('%' + flags + (width or '') + (prec or '') + conv) % (v,)); continue
        if width or flags: raise core.Unsupported('format %s of a symbolic number' % m.group())
        if conv in 'sra': out.append(str(v))
        elif conv in 'diu': out.append(str(v.__trunc__()))
        elif conv in 'eEfFgG': out.append(format(v, (prec or '') + conv))
        else: raise core.Unsupported('format %s of a symbolic number' % m.group())
    if not named and k < len(args): raise TypeError('not all arguments converted during string formatting')
    out = [x for x in out + [a[pos:]] if x]
    return out[0] if len(out) == 1 else ''.join(out)
def display(parts):
    d = SymDict()
    for k, v in parts:
        if k is Ellipsis: d.update(v)
        else: d[k] = v
    return d
def rewrite(tree): return ast.fix_missing_locations(_Rewrite().visit(tree))
BUILTINS = {'dict': SymDict, 'set': SymSet, 'frozenset': SymFrozen, '__symdict__': display, '__symset__': SymSet, '__symmod__': mod}
