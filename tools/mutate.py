#!/usr/bin/env python3-vt
"""Mutation campaign: which small changes that the repository's tests accept do the checks report?
   mutate.py list OUT.json            all mutants of pyodrx (file, line, description, new source span)
   mutate.py tests IN OUT             keeps those that pass the stable tests
   mutate.py checks IN OUT [n/m]      runs the checks related to the mutated function, in scratch copies"""
import ast, sys, os, json, subprocess, shutil, tempfile, re, concurrent.futures as cf, time
REPO = os.environ.get('MUT_REPO', '/repo'); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers']
SWAP = {'start': 'end', 'end': 'start', 'predecessor': 'successor', 'successor': 'predecessor', 'leftlanes': 'rightlanes', 'rightlanes': 'leftlanes',
        'cos': 'sin', 'sin': 'cos', 'curvstart': 'curvend', 'curvend': 'curvstart', 'present_x': 'present_y', 'lane_offset_pred': 'lane_offset_suc', 'lane_offset_suc': 'lane_offset_pred',
        'width': 'length', 'length': 'width', 's': 't', 't': 's', 'pitch': 'roll', 'roll': 'pitch', 'broken': 'solid', 'STD_ROADMARK_SOLID': 'STD_ROADMARK_BROKEN', 'STD_ROADMARK_BROKEN': 'STD_ROADMARK_SOLID',
        'element_id': 'link_type', 'cu': 'cv', 'cv': 'cu', 'du': 'dv', 'dv': 'du', 'au': 'av', 'av': 'au', 'bu': 'bv', 'bv': 'bu', 'append': 'remove', 'left': 'right', 'positive': 'negative', 'i': 'j', 'j': 'i', 'heightStart': 'heightEnd',
        'x_start': 'y_start', 'road1': 'road2', 'road2': 'road1', 'leftlane': 'rightlane', 'left_lanes': 'right_lanes', 'right_lanes': 'left_lanes', 'toffset': 'soffset', 'soffset': 'toffset', 'space': 'length', 'angle_arc': 'angle_cloth', 'angle_cloth': 'angle_arc', 'junction': 'startnum'}
CHECKS = {  # by file, then by name of the enclosing function or class
 'geometry': {'': ['C01', 'C02', 'C03', 'C04', 'C19', 'C24', 'C05', 'C23'], 'PlanView': ['C03', 'C04', 'C19', 'C24', 'C05', 'C23'], '_Geometry': ['C03', 'C04', 'C23'], 'EulerSpiral': ['C01', 'C02', 'C20']},
 'opendrive': {'': ['C06', 'C05', 'C22', 'C24', 'C08', 'C23'], 'add_object_roadside': ['C14'], 'add_object': ['C12', 'C14'], 'add_signal': ['C12'], 'add_successor': ['C18', 'C09', 'C05'], 'add_predecessor': ['C18', 'C09', 'C05'], 'add_neighbor': ['C18'], '_Header': ['C22', 'C23'], 'Road': ['C18', 'C22', 'C12', 'C04', 'C20'], 'adjust_startpoints': ['C06', 'C05', 'C24'], 'adjust_road_wrt_neighbour': ['C05', 'C06', 'C21'], 'adjust_roads_and_lanes': ['C08', 'C09', 'C24']},
 'links': {'': ['C18', 'C11', 'C08', 'C09', 'C10', 'C13'], 'Junction': ['C13', 'C22', 'C10'], 'Connection': ['C13', 'C10'], 'LaneLinker': ['C11'], '_lanelink': ['C11'], 'create_lane_links': ['C08', 'C09', 'C24'], 'are_roads_consecutive': ['C08'], '_create_links_roads': ['C08'], '_create_links_connecting_road': ['C09', 'C10'], '_get_related_lanesection': ['C09', 'C10']},
 'lane': {'': ['C07', 'C17', 'C11', 'C08'], 'RoadMark': ['C17', 'C20'], 'RoadLine': ['C17']},
 'signals_objects': {'': ['C16', 'C15', 'C12', 'C14'], 'Object': ['C15', 'C14', 'C12'], '_update_id': ['C12']},
 'generators': {'': ['C20', 'C21', 'C10'], 'create_junction': ['C10', 'C21'], '_create_junction_links': ['C10', 'C21'], 'create_junction_roads': ['C21'], 'get_lanes_offset': ['C21'], 'get_road_by_id': ['C10']},
 'helpers': {'': ['C17', 'C16', 'C25', 'C27'], 'run_road': ['C27']},
}

def mutants():
    out = []
    for f in FILES:
        path = 'pyodrx/%s.py' % f
        src = open(os.path.join(REPO, path)).read()
        tree = ast.parse(src)
        lines = src.split('\n')
        starts = [0]
        for l in lines: starts.append(starts[-1] + len(l.encode()) + 1)
        b = src.encode()
        pos = lambda n: (starts[n.lineno-1] + n.col_offset, starts[n.end_lineno-1] + n.end_col_offset)
        def seg(n): p = pos(n); return b[p[0]:p[1]].decode()
        def add(n, new, what, ctx):
            p = pos(n); out.append(dict(file=path, mod=f, line=n.lineno, a=p[0], b=p[1], new=new, what='%s: %s -> %s' % (what, seg(n).split('\n')[0][:80], new[:80]), ctx=list(ctx)))
        def walk(n, ctx):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): ctx = ctx + [n.name]
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and seg(n.value.func) in ('print', 'infoFallback'))): return
            if isinstance(n, (ast.Import, ast.ImportFrom)): return
            if isinstance(n, ast.FunctionDef) and n.name in ('infoFallback', 'run_road', 'prettyprint', 'printToFile', 'write_xml'): return
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                o = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}[type(n.ops[0])]
                for x in o: add(n, '%s %s %s' % (l, x, r), 'cmp', ctx)
            elif isinstance(n, ast.BoolOp):
                j = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + j.join('(%s)' % seg(v) for v in n.values) + ')', 'bool', ctx)
                if isinstance(n.op, ast.And):
                    for k in range(len(n.values)): add(n, '(' + ' and '.join('(%s)' % seg(v) for i, v in enumerate(n.values) if i != k) + ')', 'drop', ctx)
                else: add(n, seg(n.values[0]), 'drop default', ctx)
            elif isinstance(n, ast.BinOp):
                l, r = seg(n.left), seg(n.right)
                for x in {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: [], ast.Mod: []}.get(type(n.op), []): add(n, '((%s) %s (%s))' % (l, x, r), 'arith', ctx)
                if isinstance(n.op, (ast.Add, ast.Sub)): add(n, '(%s)' % l, 'drop term', ctx)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): add(n, '(%s)' % seg(n.operand), 'unary', ctx)
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add(n, repr(n.value + 1), 'const', ctx)
                if n.value == 1: add(n, '0', 'const', ctx)
                if isinstance(n.value, float): add(n, repr(n.value*1.5), 'const', ctx)
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool): add(n, repr(not n.value), 'const', ctx)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value: add(n, repr(n.value + 'X'), 'str', ctx)
            elif isinstance(n, ast.Attribute) and n.attr in SWAP:
                s = seg(n); add(n, s[:-len(n.attr)] + SWAP[n.attr], 'swap', ctx)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP: add(n, SWAP[n.id], 'swap', ctx)
            elif isinstance(n, (ast.If, ast.While)):
                add(n.test, 'True' if isinstance(n, ast.If) else 'False', 'cond', ctx)
                if isinstance(n, ast.If): add(n.test, 'False', 'cond', ctx)
                # None test -> truth test
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)): add(n, 'pass', 'delete', ctx)
            elif isinstance(n, ast.Call) and len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    p, q = pos(n.args[k]), pos(n.args[k+1])
                    whole = pos(n)
                    new = (b[whole[0]:p[0]] + b[q[0]:q[1]] + b[p[1]:q[0]] + b[p[0]:p[1]] + b[q[1]:whole[1]]).decode()
                    add(n, new, 'swap args', ctx)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                l = seg(n.left)
                add(n, ('(not %s)' if isinstance(n.ops[0], (ast.Eq, ast.Is)) else '(%s)') % l, 'truth', ctx)
            if isinstance(n, ast.If) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)): add(n.test, '(%s) is not None' % seg(n.test), 'not none', ctx)
            if isinstance(n, ast.If) and n.orelse and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If): pass
            for c in ast.iter_child_nodes(n): walk(c, ctx)
        walk(tree, [])
    for i, m in enumerate(out): m['id'] = i
    return out

def copy(m, base='/tmp/mut'):
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(dir=base); r = os.path.join(d, 'repo')
    shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs', 'examples'))
    if m is not None:
        p = os.path.join(r, m['file']); b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['a']] + m['new'].encode() + b[m['b']:])
    return d, r

def tests(m):
    d, r = copy(m)
    try:
        try: compile(open(os.path.join(r, m['file'])).read(), 'x', 'exec')
        except SyntaxError: return False
        try: p = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=20'], cwd=r, capture_output=True, text=True, timeout=90, env=dict(os.environ, OPENBLAS_NUM_THREADS='1'))
        except subprocess.TimeoutExpired: return False
        return '114 passed' in p.stdout
    finally: shutil.rmtree(d)

def related(m):
    t = CHECKS[m['mod']]
    for c in reversed(m['ctx']):
        if c in t: return t[c]
    return t['']
EXTRA = {'opendrive': ['C28', 'C29', 'C26'], 'links': ['C28', 'C29', 'C26'], 'generators': ['C28', 'C29', 'C26'], 'geometry': ['C26'], 'lane': ['C26', 'C28'], 'signals_objects': ['C26', 'C12']}

def checks(m, only=None):
    d, r = copy(m); res = {}
    try:
        for c in only or related(m) + [c for c in EXTRA.get(m['mod'], []) if c not in related(m)]:
            t = time.time()
            try:
                p = subprocess.run(['python3-vt', '-B', os.path.join(VERIF, 'check.py'), c], cwd='/tmp', capture_output=True, text=True, timeout=900, env=dict(os.environ, PYODRX_ROOT=r, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=d))
                rc = p.returncode; last = (p.stdout.strip().split('\n') or [''])[-1][:200]
                inc = p.stdout.count('INCOMPLETE')
            except subprocess.TimeoutExpired: rc, last, inc = 'timeout', '', 0
            res[c] = dict(rc=rc, s=round(time.time() - t, 1), inc=inc, last=last if rc != 0 else '')
            if rc == 1: break
    finally: shutil.rmtree(d)
    return res

if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        m = mutants(); json.dump(m, open(sys.argv[2], 'w')); print(len(m))
    elif cmd == 'tests':
        ms = json.load(open(sys.argv[2]))
        with cf.ThreadPoolExecutor(8) as ex: ok = list(ex.map(tests, ms))
        keep = [m for m, o in zip(ms, ok) if o]
        json.dump(keep, open(sys.argv[3], 'w')); print(len(ms), 'mutants,', len(keep), 'pass the tests')
    elif cmd == 'checks':
        ms = json.load(open(sys.argv[2])); out = open(sys.argv[3], 'a')
        done = set()
        try: done = {json.loads(l)['id'] for l in open(sys.argv[3])}
        except FileNotFoundError: pass
        for m in ms:
            if m['id'] in done: continue
            m['res'] = checks(m); m['caught'] = any(x['rc'] == 1 for x in m['res'].values())
            out.write(json.dumps(m) + '\n'); out.flush()
            print('caught' if m['caught'] else 'MISSED', m['file'], m['line'], m['what'], {c: (x['rc'], x['s'], x['inc']) for c, x in m['res'].items()}, flush=True)
