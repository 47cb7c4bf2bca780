"""Texts with symbolic characters.

A symbolic character is an integer input (its code point).  Inside strings it is carried by a placeholder from a
private plane, so copying, concatenating and formatting need no support; operations that look at characters
(comparisons, replace, strip, encode, ...) are rewritten in the code under test and in the standard library modules it
writes XML with (`xml.etree.ElementTree`, `xml.dom.minidom`, ... from the project's own interpreter), and ask the solver.
"""
import ast, io, os, re, builtins, operator, types, importlib, subprocess, sys
import xml.dom
from . import core, values
from .core import f_cmp, f_and, f_not, Unsupported, Poly

CH, REF, L1 = 0xF0000, 0xF2000, 0xF1000     # the character, its character reference &#n; in text, its latin-1 byte
HASP = re.compile('[\U000f0000-\U000f2fff]')
HASB = re.compile(b'\xf3[\xb0-\xb2]')
ACTIVE = []
NAMES = []              # k -> input name

def kind(c):
    o = ord(c)
    if o < CH or o >= CH + 0x3000: return None
    return CH + ((o - CH) & ~0xFFF)
def index(c): return (ord(c) - CH) & 0xFFF
def placeholder(name, base=CH):
    if name not in NAMES: NAMES.append(name)
    return chr(base + NAMES.index(name))
def poly(c):
    n = NAMES[index(c)]
    a = core.TABLE.by_key.get(('in', n))
    if a is None: raise KeyError(n)
    return Poly.atom(a)
def has(x):
    if isinstance(x, str): return HASP.search(x) is not None
    if isinstance(x, (bytes, bytearray)): return HASB.search(x) is not None
    return False
def test(f): return core.CTX.test(f)

# ----------------------------------------------------------------- characters
def rel(op, a, b):
    """formula (or bool) a op b for characters"""
    ka, kb = kind(a), kind(b)
    if ka is None and kb is None: return {'==': operator.eq, '<': operator.lt, '<=': operator.le}[op](a, b)
    for k in (ka, kb):
        if k == REF: raise Unsupported("looking into a character reference")
    if a == b: return op != '<'
    if ka == L1 or kb == L1: raise Unsupported('bytes of another encoding')
    pa = poly(a) if ka else Poly.const(ord(a)); pb = poly(b) if kb else Poly.const(ord(b))
    return f_cmp(op, pa - pb)
def ceq(a, b): return test(rel('==', a, b))
def ceqf(a, b): return rel('==', a, b)
SPACE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
LINE = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
def member(c, chars):
    if kind(c) is None: return c in chars
    return any(ceq(c, d) for d in chars)
def text_eq(a, b):
    if len(a) != len(b): return False
    return all(ceq(x, y) for x, y in zip(a, b))
def text_eq_f(a, b):
    """formula: a and b are the same text"""
    if len(a) != len(b): return False
    fs = [ceqf(x, y) for x, y in zip(a, b)]
    if any(f is False for f in fs): return False
    return f_and([f for f in fs if f is not True])
def at(s, i, sub): return i + len(sub) <= len(s) and all(ceq(s[i+k], sub[k]) for k in range(len(sub)))
def find(s, sub, start=0, end=None):
    n = len(s) if end is None else min(end, len(s))
    for i in range(start, n - len(sub) + 1):
        if at(s, i, sub): return i
    return -1
def rfind(s, sub):
    for i in range(len(s) - len(sub), -1, -1):
        if at(s, i, sub): return i
    return -1
def replace(s, old, new, count=-1):
    if not old: raise Unsupported('replace of nothing')
    out, i = [], 0
    while i < len(s):
        if count != 0 and at(s, i, old): out.append(new); i += len(old); count -= 1
        else: out.append(s[i]); i += 1
    return ''.join(out)
def lstrip(s, chars=None):
    chars = SPACE if chars is None else chars
    i = 0
    while i < len(s) and member(s[i], chars): i += 1
    return s[i:]
def rstrip(s, chars=None):
    chars = SPACE if chars is None else chars
    i = len(s)
    while i and member(s[i-1], chars): i -= 1
    return s[:i]
def split(s, sep=None, maxsplit=-1):
    out, cur, i = [], '', 0
    if sep is None:
        if maxsplit != -1: raise Unsupported('split')
        for c in s:
            if member(c, SPACE):
                if cur: out.append(cur)
                cur = ''
            else: cur += c
        return out + ([cur] if cur else [])
    while i < len(s):
        if maxsplit != 0 and at(s, i, sep): out.append(cur); cur = ''; i += len(sep); maxsplit -= 1
        else: cur += s[i]; i += 1
    return out + [cur]
def splitlines(s, keepends=False):
    out, cur, i = [], '', 0
    while i < len(s):
        c = s[i]
        if member(c, LINE):
            e = c
            if i + 1 < len(s) and ceq(c, '\r') and ceq(s[i+1], '\n'): e += s[i+1]; i += 1
            out.append(cur + (e if keepends else '')); cur = ''
        else: cur += c
        i += 1
    return out + ([cur] if cur else [])
def encode(s, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if enc in ('utf-8', 'utf8', 'u8', 'utf'): return s.encode('utf-8')
    if enc in ('us-ascii', 'ascii', '646'): lim = 128
    elif enc in ('latin-1', 'iso-8859-1', 'iso8859-1', 'latin1', 'l1'): lim = 256
    else: raise Unsupported('encoding ' + encoding)
    out = []
    for c in s:
        k = kind(c)
        if k is None: out.append(c.encode(enc, errors).decode('latin-1')); continue
        if k != CH: out.append(c); continue
        if test(f_cmp('<', poly(c) - Poly.const(128))): out.append(c)
        elif lim == 256 and test(f_cmp('<', poly(c) - Poly.const(256))): out.append(chr(L1 + index(c)))
        elif errors == 'xmlcharrefreplace': out.append(chr(REF + index(c)))
        elif errors == 'ignore': pass
        elif errors == 'replace': out.append('?')
        elif errors == 'strict': raise UnicodeEncodeError(enc, s, 0, 1, 'character cannot be encoded')
        else: raise Unsupported('errors ' + errors)
    return ''.join(out).encode('utf-8')
def decode(b, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    s = b.decode('utf-8')
    if enc in ('utf-8', 'utf8'):
        if any(kind(c) == L1 for c in s): raise UnicodeDecodeError('utf-8', b, 0, 1, 'invalid byte')
        return s
    out = []
    for c in s:
        k = kind(c)
        if k == CH and not test(f_cmp('<', poly(c) - Poly.const(128))):
            if enc in ('us-ascii', 'ascii'): raise UnicodeDecodeError('ascii', b, 0, 1, 'invalid byte')
            raise Unsupported('decoding utf-8 as ' + encoding)
        if k == L1: c = chr(CH + index(c))
        out.append(c)
    return ''.join(out)
def translate(s, table):
    out = []
    for c in s:
        if kind(c) is None: out.append(c.translate(table)); continue
        for k, v in table.items():
            if ceq(c, chr(k)): out.append('' if v is None else chr(v) if isinstance(v, int) else v); break
        else: out.append(c)
    return ''.join(out)
def index_of(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0: raise ValueError('substring not found')
    return i
def starts(s, p, *a):
    if a: raise Unsupported('startswith range')
    return any(at(s, 0, q) for q in (p if isinstance(p, tuple) else (p,)))
def ends(s, p, *a):
    if a: raise Unsupported('endswith range')
    return any(len(q) <= len(s) and at(s, len(s) - len(q), q) for q in (p if isinstance(p, tuple) else (p,)))
def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i+len(sep):])
METHODS = {
    'replace': replace, 'find': find, 'rfind': rfind, 'index': index_of, 'startswith': starts, 'endswith': ends, 'split': split, 'splitlines': splitlines,
    'strip': lambda s, c=None: rstrip(lstrip(s, c), c), 'lstrip': lstrip, 'rstrip': rstrip, 'encode': encode, 'decode': decode, 'translate': translate,
    'partition': partition, 'count': lambda s, x: len(split(s, x)) - 1, '__contains__': lambda s, x: find(s, x) >= 0, '__eq__': lambda s, x: isinstance(x, str) and text_eq(s, x),
    'isspace': lambda s: bool(s) and all(member(c, SPACE) for c in s), 'isascii': lambda s: all(test(f_cmp('<', poly(c) - Poly.const(128))) if kind(c) else ord(c) < 128 for c in s),
}
COPY = {'join', 'format', '__str__', '__format__', '__add__', '__mod__', '__len__', '__iter__', '__getitem__', 'center', 'ljust', 'rjust'}
STRM = [m for m in dir(str) if not m.startswith('__') and m not in COPY] + ['decode', '__contains__', '__eq__', 'hex']

def method(x, name, *a, **k):
    if isinstance(x, type) and issubclass(x, (str, bytes)) and a and isinstance(a[0], (str, bytes)) and name != 'maketrans': x, a = a[0], a[1:]
    if isinstance(x, (str, bytes)) and (has(x) or any(has(y) for y in a) or any(has(y) for y in k.values())):
        f = METHODS.get(name)
        if f is None: raise Unsupported('text method %s on symbolic characters' % name)
        if isinstance(x, bytes) and name != 'decode':
            r = f(x.decode('utf-8'), *[y.decode('utf-8') if isinstance(y, bytes) else y for y in a], **k)
            return r.encode('utf-8') if isinstance(r, str) else [y.encode('utf-8') for y in r] if isinstance(r, list) else tuple(y.encode('utf-8') for y in r) if isinstance(r, tuple) else r
        return f(x, *a, **k)
    return getattr(x, name)(*a, **k)

def less(a, b):
    for x, y in zip(a, b):
        if not ceq(x, y): return test(rel('<', x, y))
    return len(a) < len(b)
def compare(op, a, b):
    if op in ('in', 'not in'):
        if isinstance(b, (str, bytes)):
            if has(a) or has(b): r = method(b, '__contains__', a)
            else: r = a in b
        elif has(a) and isinstance(b, (list, tuple, set, frozenset, dict)): r = any(compare('==', a, e) for e in b)
        elif isinstance(b, (list, tuple)) and isinstance(a, str): r = any(compare('==', a, e) for e in b)
        else: r = a in b
        return r if op == 'in' else not r
    if (isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes)) and (has(a) or has(b)):
        if isinstance(a, bytes): a, b = a.decode('utf-8'), b.decode('utf-8')
        if op == '==': return text_eq(a, b)
        if op == '!=': return not text_eq(a, b)
        if op == '<': return less(a, b)
        if op == '>': return less(b, a)
        if op == '<=': return not less(b, a)
        return not less(a, b)
    return OPS[op](a, b)
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}
OPN = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in'}

class Rewriter(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRM and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(ast.Name('__sym_method__', ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in OPN:
            return ast.copy_location(ast.Call(ast.Name('__sym_compare__', ast.Load()), [ast.Constant(OPN[type(n.ops[0])]), n.left, n.comparators[0]], []), n)
        return n
def rewrite(src): return ast.fix_missing_locations(Rewriter().visit(ast.parse(src)))

# ----------------------------------------------------------------- files
FILES = {}              # written in this path: name -> bytes
LOCALE = ['utf-8']
class TextOut(io.TextIOBase):
    """text written to a sink (a file, or another object with write)"""
    def __init__(self, buffer=None, encoding=None, errors=None, newline=None, *a, **k):
        self.out, self.enc, self.err = buffer, encoding or LOCALE[0], errors or 'strict'
        self.nl = newline
    @property
    def encoding(self): return self.enc
    def writable(self): return True
    def write(self, s):
        if not isinstance(s, str): raise TypeError('write() argument must be str')
        self.out.write(encode(s, self.enc, self.err) if has(s) else s.encode(self.enc, self.err)); return len(s)
    def detach(self): o = self.out; return o
    def flush(self): pass
    def close(self): pass
class ByteOut(io.BufferedIOBase):
    def __init__(self, initial=b''): self.parts = [initial]
    def writable(self): return True
    def write(self, b):
        if isinstance(b, str): raise TypeError('a bytes-like object is required')
        self.parts.append(bytes(b)); return len(b)
    def getvalue(self): return b''.join(self.parts)
    def close(self): pass
    def seekable(self): return False
class File(ByteOut):
    def __init__(self, name, append=False):
        super().__init__(FILES.get(name, b'') if append else b''); self.name = name; FILES[name] = b''
        self.write(b'')
    def write(self, b):
        n = super().write(b); FILES[self.name] = self.getvalue(); return n
def sym_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int): raise Unsupported('open of a descriptor')
    if 'w' not in mode and 'a' not in mode and 'x' not in mode:
        if fspath(file) in FILES: raise Unsupported('reading the written file')
        if has(fspath(file)): raise FileNotFoundError(file)
        return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None: raise Unsupported('open with an opener')
    f = File(fspath(file), 'a' in mode)
    return f if 'b' in mode else TextOut(f, encoding, errors, newline)
PRINTED = []                                 # what the program wrote to its standard output
class Stdout:
    encoding = 'utf-8'; errors = 'strict'
    def write(self, t): PRINTED.append(t); return len(t)
    def writelines(self, ts):
        for t in ts: self.write(t)
    def flush(self): pass
    def isatty(self): return False
    class buffer:
        def __init__(self): raise Unsupported('sys.stdout.buffer')
    def __getattr__(self, n): raise Unsupported('sys.stdout.' + n) if not n.startswith('_') else AttributeError(n)
STDOUT = Stdout()
def sym_print(*args, sep=None, end=None, file=None, flush=False):
    t = (' ' if sep is None else sep).join([str(a) for a in args]) + ('\n' if end is None else end)
    if file is None: file = STDOUT
    if file not in (sys.stderr, sys.__stderr__): file.write(t)
class SysShim(types.ModuleType):
    def __init__(self):
        super().__init__('sys'); self.stdout = self.__stdout__ = STDOUT; self.stderr = self.__stderr__ = sys.stderr
    def __getattr__(self, n): return getattr(sys, n)
class IoShim(types.ModuleType):
    def __init__(self):
        super().__init__('io')
        self.TextIOWrapper, self.BytesIO, self.open = TextOut, ByteOut, sym_open
    def __getattr__(self, n): return getattr(io, n)
def single_class(p):
    """a test for one character if the pattern is a single set of characters, else None"""
    import warnings
    if not isinstance(p.pattern, str): return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from re import _parser, _constants as C
            t = _parser.parse(p.pattern, p.flags & ~re.UNICODE if p.flags & re.ASCII else p.flags)
    except Exception: return None
    if len(t) != 1 or t[0][0] is not C.IN or p.flags & re.IGNORECASE: return None
    items = list(t[0][1]); neg = False; rs = []
    for op, v in items:
        if op is C.NEGATE: neg = True
        elif op is C.LITERAL: rs.append((v, v))
        elif op is C.RANGE: rs.append(v)
        elif op is C.CATEGORY and p.flags & re.ASCII and v in (C.CATEGORY_WORD, C.CATEGORY_DIGIT, C.CATEGORY_SPACE):
            rs += {C.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)], C.CATEGORY_DIGIT: [(48, 57)], C.CATEGORY_SPACE: [(9, 13), (32, 32)]}[v]
        else: return None
    rs.sort(); merged = []
    for lo, hi in rs:
        if merged and lo <= merged[-1][1] + 1: merged[-1] = (merged[-1][0], max(hi, merged[-1][1]))
        else: merged.append((lo, hi))
    def one(c):
        if kind(c) is None: r = any(lo <= ord(c) <= hi for lo, hi in merged)
        else: r = test(f_or_([f_and([f_cmp('<=', Poly.const(lo) - poly(c)), f_cmp('<=', poly(c) - Poly.const(hi))]) for lo, hi in merged]))
        return r != neg
    return one
def f_or_(fs): return f_not(f_and([f_not(f) for f in fs]))

# ----------------------------------------------------------------- starting programs
STARTED = []            # ('shell', text) or ('program', [arguments])
OSNAME = ['posix']
def fspath(f): return f if isinstance(f, (str, bytes)) else f.__fspath__()
def replace(a, b, **k):
    a, b = fspath(a), fspath(b)
    if a not in FILES: raise FileNotFoundError(a)
    FILES[b] = FILES.pop(a)
def remove(a, **k):
    if fspath(a) not in FILES: raise FileNotFoundError(a)
    del FILES[fspath(a)]
def exists(f): return fspath(f) in FILES or (not has(fspath(f)) and os.path.exists(f))
class OsShim(types.ModuleType):
    def __init__(self, path):
        super().__init__('os'); self.path = path
        path.exists = path.isfile = exists
        self.system = lambda c: (STARTED.append(('shell', c)), 0)[1]
        self.popen = lambda c, *a: (STARTED.append(('shell', c)), io.StringIO())[1]
        self.replace = self.rename = replace; self.remove = self.unlink = remove
        self.makedirs = self.mkdir = self.rmdir = lambda *a, **k: None
        self.fspath = fspath
    @property
    def name(self): return OSNAME[0]
    SAFE = ('sep', 'altsep', 'linesep', 'environ', 'getenv', 'getcwd', 'PathLike', 'curdir', 'pardir', 'extsep', 'pathsep', 'devnull', 'getpid', 'cpu_count', 'fsencode', 'fsdecode', 'urandom', 'error')
    def __getattr__(self, n):
        if n not in self.SAFE: raise Unsupported('os.' + n)
        return getattr(os, n)
class Path(__import__('pathlib').PurePosixPath):
    """pathlib.Path over the files of this path"""
    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None): return sym_open(self, mode, buffering, encoding, errors, newline)
    def write_text(self, data, encoding=None, errors=None, newline=None):
        with self.open('w', -1, encoding, errors, newline) as f: return f.write(data)
    def write_bytes(self, data):
        with self.open('wb') as f: return f.write(data)
    def exists(self): return exists(self)
    is_file = exists
    def mkdir(self, *a, **k): pass
    def rename(self, to): replace(self, to); return self.with_segments(to)
    replace = rename
    def unlink(self, missing_ok=False):
        if not missing_ok or fspath(self) in FILES: remove(self)
    def __getattr__(self, n): raise Unsupported('pathlib.Path.' + n) if not n.startswith('_') else AttributeError(n)
class PathlibShim(types.ModuleType):
    def __init__(self):
        super().__init__('pathlib'); self.Path = self.PosixPath = Path
    def __getattr__(self, n):
        import pathlib
        if n.startswith('Pure'): return getattr(pathlib, n)
        raise Unsupported('pathlib.' + n)
class SubprocessShim(types.ModuleType):
    def __init__(self):
        super().__init__('subprocess')
        import subprocess
        self.PIPE, self.DEVNULL, self.STDOUT, self.CalledProcessError, self.SubprocessError = subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT, subprocess.CalledProcessError, subprocess.SubprocessError
        class Popen:
            def __init__(s, args, *a, shell=False, **k):
                start(args, shell); s.returncode = 0; s.stdout = s.stderr = None
            def wait(s, *a, **k): return 0
            def communicate(s, *a, **k): return (None, None)
            def poll(s): return 0
            def __enter__(s): return s
            def __exit__(s, *a): pass
        self.Popen = Popen
        class Done:
            returncode = 0; stdout = stderr = ''
            def check_returncode(s): pass
        self.run = lambda args, *a, shell=False, **k: (start(args, shell), Done())[1]
        self.call = self.check_call = lambda args, *a, shell=False, **k: (start(args, shell), 0)[1]
    def __getattr__(self, n): raise Unsupported('subprocess.' + n)
def start(args, shell=False):
    if shell: STARTED.append(('shell', args if isinstance(args, str) else args[0]))
    else: STARTED.append(('program', [args] if isinstance(args, str) else list(args)))

class ReShim(types.ModuleType):
    def __init__(self): super().__init__('re')
    def __getattr__(self, n):
        v = getattr(re, n)
        if n in ('sub', 'subn', 'search', 'match', 'fullmatch', 'split', 'findall', 'finditer'):
            def w(*a, **k):
                if any(has(x) for x in a): raise Unsupported('regular expression on symbolic characters')
                return v(*a, **k)
            return w
        if n == 'compile':
            def c(*a, **k):
                p = v(*a, **k)
                one = single_class(p)
                class Pat:
                    def __getattr__(s, m):
                        f = getattr(p, m)
                        if not callable(f): return f
                        def w(*b, **kk):
                            if m == 'search' and len(b) == 1 and not kk and one is not None and isinstance(b[0], values.SymStr):
                                if b[0]._num() is not None and not any(one(c) for c in values.NUMERIC): return None     # no number has it
                            if any(has(x) for x in b):
                                if one is None or kk: raise Unsupported('regular expression on symbolic characters')
                                if m == 'search' and len(b) == 1: return next((c for c in b[0] if one(c)), None)
                                if m == 'sub' and len(b) == 2 and isinstance(b[0], str) and '\\' not in b[0]: return ''.join(b[0] if one(c) else c for c in b[1])
                                raise Unsupported('regular expression on symbolic characters')
                            return f(*b, **kk)
                        return w
                return Pat()
            return c
        return v

# ----------------------------------------------------------------- parsing
class Malformed(ValueError): pass
class Node:
    __slots__ = ('tag', 'attrib', 'text', 'kids')
    def __init__(self, tag, attrib): self.tag, self.attrib, self.text, self.kids = tag, attrib, '', []
def parse(data):
    """model of a conforming XML 1.0 parser (no DTD, no namespaces)"""
    if isinstance(data, bytes):
        m = re.match(rb'''\s*<\?xml[^>]*?encoding=['"]([A-Za-z0-9._-]+)['"]''', data)
        try: s = decode(data, m.group(1).decode() if m else 'utf-8')
        except UnicodeDecodeError as e: raise Malformed(str(e))
    else: s = data
    cs = []
    i = 0
    while i < len(s):                        # line ends
        c = s[i]
        if kind(c) != REF and ceq(c, '\r'):
            cs.append('\n')
            if i + 1 < len(s) and kind(s[i+1]) != REF and ceq(s[i+1], '\n'): i += 1
        else: cs.append(c)
        i += 1
    s = cs; n = len(s); pos = [0]
    def ok(c):
        if kind(c) is None: return c in '\t\n\r' or 32 <= ord(c) <= 0xD7FF or 0xE000 <= ord(c) <= 0xFFFD or ord(c) >= 0x10000
        return True                          # symbolic characters are XML characters
    def peek(): return s[pos[0]] if pos[0] < n else ''
    def lit(t):
        if pos[0] + len(t) <= n and all(kind(s[pos[0]+k]) is None and s[pos[0]+k] == t[k] for k in range(len(t))): pos[0] += len(t); return True
        return False
    def ws():
        while pos[0] < n and member(s[pos[0]], ' \t\n\r'): pos[0] += 1
    def name():
        r = ''
        while pos[0] < n and kind(s[pos[0]]) is None and (s[pos[0]].isalnum() or s[pos[0]] in '_-.:'): r += s[pos[0]]; pos[0] += 1
        if not r or not (r[0].isalpha() or r[0] in '_:'): raise Malformed('name expected')
        return r
    def ref():
        """after & ; returns the character"""
        r = ''
        while True:
            c = peek()
            if not c: raise Malformed('unterminated reference')
            pos[0] += 1
            if ceq(c, ';'): break
            if kind(c) is not None: raise Malformed('reference') if not test_name(c) else Unsupported('symbolic entity name')
            r += c
        if r.startswith('#x'): v = chr(int(r[2:], 16))
        elif r.startswith('#'):
            if not r[1:].isdigit(): raise Malformed('character reference')
            v = chr(int(r[1:]))
        else:
            if r not in ENT: raise Malformed('undefined entity ' + r)
            v = ENT[r]
        if not ok(v): raise Malformed('reference to an invalid character')
        return v
    def test_name(c): return not any(ceq(c, d) for d in ' \t\n\r<&"\'')
    def value(q):
        r = []
        while True:
            c = peek()
            if not c: raise Malformed('unterminated attribute')
            if kind(c) == REF: pos[0] += 1; r.append(chr(CH + index(c))); continue
            pos[0] += 1
            if ceq(c, q): return ''.join(r)
            if ceq(c, '<'): raise Malformed('< in attribute')
            if ceq(c, '&'): r.append(ref()); continue
            if member(c, '\t\n\r'): r.append(' '); continue
            if not ok(c): raise Malformed('invalid character')
            r.append(c)
    def misc():
        ws()
        while lit('<!--') or lit('<?'):
            com = s[pos[0]-1] == '-'
            while pos[0] < n and not lit('-->' if com else '?>'): pos[0] += 1
            ws()
    if lit('\ufeff'): pass
    misc()
    def element():
        if not lit('<'): raise Malformed('element expected')
        e = Node(name(), {})
        while True:
            p = pos[0]; ws(); sp = pos[0] > p
            if lit('/>'): return e
            if lit('>'): break
            if not sp: raise Malformed('space expected')
            a = name(); ws()
            if not lit('='): raise Malformed('= expected')
            ws(); q = peek(); pos[0] += 1
            if q not in '\'"' or not q: raise Malformed('quote expected')
            if a in e.attrib: raise Malformed('duplicate attribute')
            e.attrib[a] = value(q)
        while True:
            c = peek()
            if not c: raise Malformed('unterminated element')
            if kind(c) is None and c == '<':
                if lit('</'):
                    if name() != e.tag: raise Malformed('mismatched tag')
                    ws()
                    if not lit('>'): raise Malformed('> expected')
                    return e
                if lit('<!--'):
                    while not lit('-->'):
                        if pos[0] >= n: raise Malformed('comment')
                        pos[0] += 1
                    continue
                e.kids.append(element()); continue
            pos[0] += 1
            if kind(c) == REF: e.text += chr(CH + index(c)); continue
            if ceq(c, '<'): raise Malformed('symbolic markup')
            e.text += ref() if ceq(c, '&') else c
    root = element()
    misc()
    if pos[0] != n: raise Malformed('text after the document')
    return root
ENT = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}

# ----------------------------------------------------------------- the interpreter's own XML modules, rewritten
REALPY = os.environ.get('PYODRX_PYTHON', '/opt/venv/bin/python')
def lib():
    return subprocess.run([REALPY, '-c', 'import xml.etree.ElementTree as e, os; print(os.path.dirname(os.path.dirname(os.path.dirname(e.__file__))))'],
                          capture_output=True, text=True, cwd='/tmp').stdout.strip()
def install(b):
    ACTIVE[:] = [True]
    b['__sym_method__'] = method; b['__sym_compare__'] = compare; b['open'] = sym_open
    def sord(c):
        if has(c): raise Unsupported('ord of a symbolic character')
        return ord(c)
    b['ord'] = sord; b['print'] = sym_print
def load_stdlib():
    """{name: module} of the XML writing modules, executed from source over symbolic texts"""
    root = lib(); mods = {}
    shims = {'io': IoShim(), 're': ReShim()}
    wanted = ['xml.etree.ElementTree', 'xml.dom.minidom', 'xml.sax.saxutils', 'html', 'posixpath', 'shlex']
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in shims: return shims[name]
        if name == '_elementtree': raise ImportError(name)
        if level:
            base = globals['__package__'] + ('.' + name if name else '')
            for f in fromlist or ():
                try: importlib.import_module(base + '.' + f)
                except ImportError: pass
            return importlib.import_module(base)
        return builtins.__import__(name, globals, locals, fromlist, level)
    for full in wanted:
        path = os.path.join(root, *full.split('.')) + '.py'
        if not os.path.exists(path): path = os.path.join(root, *full.split('.'), '__init__.py')
        if not os.path.exists(path): continue
        m = types.ModuleType(full); m.__file__ = path; m.__package__ = full.rpartition('.')[0] or full
        b = dict(vars(builtins)); install(b); b['__import__'] = imp
        m.__dict__['__builtins__'] = b
        exec(compile(rewrite(open(path, encoding='utf-8').read()), path, 'exec', dont_inherit=True), m.__dict__)
        mods[full] = m
    ET, mini = mods['xml.etree.ElementTree'], mods['xml.dom.minidom']
    class XMLParser:
        def __init__(self, *a, **k): self.data = []
        def feed(self, d): self.data.append(d)
        def close(self):
            try: r = parse(b''.join(self.data) if isinstance(self.data[0], bytes) else ''.join(self.data))
            except Malformed as e: raise ET.ParseError(str(e))
            def build(x):
                el = ET.Element(x.tag, dict(x.attrib)); el.text = x.text or None
                for k in x.kids: el.append(build(k))
                return el
            return build(r)
    ET.XMLParser = XMLParser
    ET.fromstring = ET.XML = lambda t, parser=None: (lambda p: (p.feed(t), p.close())[1])(XMLParser())
    def parseString(t, parser=None):
        try: r = parse(t)
        except Malformed as e: raise ET.ParseError(str(e))
        d = mini.Document()
        def build(x):
            el = d.createElement(x.tag)
            for k, v in x.attrib.items(): el.setAttribute(k, v)
            if x.text: el.appendChild(d.createTextNode(x.text))     # text is kept in front of the children
            for k in x.kids: el.appendChild(build(k))
            return el
        d.appendChild(build(r))
        return d
    mini.parseString = parseString
    mods['os'] = OsShim(mods['posixpath']); mods['os.path'] = mods['posixpath']; mods['sys'] = SysShim(); mods['subprocess'] = SubprocessShim(); mods['pathlib'] = PathlibShim()
    return mods
