"""mutate.py N SEED [file-substring] [checks]: development tool.  Random small mutations of the repository, each in a scratch copy,
run against the checks that execute the mutated line (line data of covrec.py in $COVDIR); prints the survivors as diffs."""
import ast, collections, copy, difflib, glob, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
R = '/repo/'; COV = os.environ.get('COVDIR', '/tmp/w/cov')
N, SEED = int(sys.argv[1]), int(sys.argv[2])
SUB = sys.argv[3] if len(sys.argv) > 3 else ''
ONLY = sys.argv[4].split(',') if len(sys.argv) > 4 else None
MAXC = int(os.environ.get('MAXC', '4'))
hit, size = collections.defaultdict(set), collections.Counter()
for p in glob.glob(COV + '/C[0-9][0-9]'):
    i = os.path.basename(p)
    for l in set(open(p)):
        f, n = l.rstrip().rsplit(':', 1)
        hit[(f, int(n))].add(i); size[i] += 1
FN = {'nanmean': 'mean', 'nanstd': 'std', 'nansum': 'sum', 'sum': 'nansum', 'mean': 'nanmean', 'deepcopy': 'copy', 'sorted': 'list', 'min': 'max', 'max': 'min', 'nanvar': 'var',
      'argsort': 'argmax', 'ceil': 'floor', 'floor': 'ceil', 'nanmedian': 'nanmean', 'any': 'all', 'all': 'any', 'isnan': 'isinf', 'append': 'extend', 'set': 'list'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
def options(n):
    """mutations of a node, as functions of (node) -> replacement"""
    o = []
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        o.append(('cmp', lambda m: (setattr(m, 'ops', [CMP[type(m.ops[0])]()] + m.ops[1:]), m)[1]))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        o.append(('bin', lambda m: (setattr(m, 'op', BIN[type(m.op)]()), m)[1]))
        o.append(('left', lambda m: m.left))
    if isinstance(n, ast.BoolOp):
        o.append(('bool', lambda m: (setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()), m)[1]))
    if isinstance(n, ast.UnaryOp):
        o.append(('unary', lambda m: m.operand))
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool): o.append(('const', lambda m: ast.Constant(not m.value)))
        elif isinstance(v, (int, float)):
            o.append(('const', lambda m: ast.Constant(m.value + 1 if m.value in (0, 1) or isinstance(m.value, int) else m.value * 1.5)))
            if v == 1: o.append(('const0', lambda m: ast.Constant(0)))
        elif v is None: o.append(('const', lambda m: ast.Constant(0)))
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in FN: o.append(('fn', lambda m: (setattr(m.func, 'attr', FN[m.func.attr]), m)[1]))
        if isinstance(f, ast.Name) and f.id in FN: o.append(('fn', lambda m: (setattr(m.func, 'id', FN[m.func.id]), m)[1]))
        if len(n.args) == 1 and not n.keywords: o.append(('arg', lambda m: m.args[0]))
        if len(n.args) >= 2: o.append(('swap', lambda m: (setattr(m, 'args', [m.args[1], m.args[0]] + m.args[2:]), m)[1]))
        if n.keywords:
            k = random.randrange(len(n.keywords)); o.append(('nokw', lambda m: (m.keywords.pop(k), m)[1]))
    if isinstance(n, ast.IfExp): o.append(('ifexp', lambda m: m.body)); o.append(('ifexp2', lambda m: m.orelse))
    if isinstance(n, ast.Assign) or isinstance(n, ast.AugAssign) or isinstance(n, ast.Assert) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)) or isinstance(n, (ast.Continue, ast.Break)):
        o.append(('del', lambda m: ast.Pass()))
    if isinstance(n, (ast.If,)):
        o.append(('iftrue', lambda m: (setattr(m, 'test', ast.Constant(True)), m)[1])); o.append(('iffalse', lambda m: (setattr(m, 'test', ast.Constant(False)), m)[1]))
    return o
class Repl(ast.NodeTransformer):
    def __init__(self, key, f): self.key, self.f, self.done = key, f, False
    def visit(self, n):
        if not self.done and getattr(n, '_k', None) == self.key:
            self.done = True
            return self.f(n)
        return super().visit(n)
random.seed(SEED)
points = []
for f in sorted(glob.glob(R + 'sureal/**/*.py', recursive=True)):
    rel = os.path.relpath(f, R)
    if SUB and not any(s in rel for s in SUB.split('|')): continue
    t = ast.parse(open(f).read())
    def walk(n, infn, line):
        for c in ast.iter_child_nodes(n):
            ln = getattr(c, 'lineno', line)
            if infn:
                st = c.lineno if isinstance(c, ast.stmt) else line
                for k, (name, _) in enumerate(options(c)):
                    if hit.get((rel, ln)) or hit.get((rel, st)): points.append((rel, ln, st, (c.lineno, c.col_offset, c.end_lineno, c.end_col_offset, type(c).__name__), name))
            else: st = line
            walk(c, infn or isinstance(c, ast.FunctionDef), c.lineno if isinstance(c, ast.stmt) else line)
    walk(t, False, 0)
random.shuffle(points)
lock = threading.Lock(); stat = collections.Counter()
def one(a):
    idx, (rel, ln, st, key, name) = a
    src = open(R + rel).read(); t = ast.parse(src)
    for n in ast.walk(t):
        if hasattr(n, 'lineno'): n._k = (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, type(n).__name__)
    base = ast.unparse(t)
    node = next(n for n in ast.walk(t) if getattr(n, '_k', None) == key)
    f = dict(options(node)).get(name)
    if f is None: return
    t = Repl(key, f).visit(t); new = ast.unparse(ast.fix_missing_locations(t))
    if new == base: return
    try: compile(new, rel, 'exec')
    except Exception: return
    W = '/tmp/mut/%d_%d' % (SEED, idx)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(['cp', '-a', R + 'sureal', R + 'itut_p910_demo', R + 'resource', W], stderr=subprocess.DEVNULL)
    subprocess.run('cd /repo && cp -a $(ls -A | grep -v "^.git$") %s/' % W, shell=True)
    open(os.path.join(W, rel), 'w').write(new)
    cs = sorted((hit.get((rel, ln)) or set()) | (hit.get((rel, st)) or set()), key=lambda i: (size[i], i))
    if ONLY: cs = [c for c in cs if c in ONLY]
    cs = cs[:MAXC]
    res = []
    for c in cs:
        r = subprocess.run(['timeout', '600', 'python3', 'run.py', c, '--tier', 'quick'], cwd=os.environ.get('VDIR', '/verif'), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, SUREAL_REPO=W, VERIF_SEED='1', VERIF_TIER='quick'))
        res.append((c, r.returncode))
        if r.returncode == 1: break
    shutil.rmtree(W, ignore_errors=True)
    d = '\n'.join(x for x in difflib.unified_diff(base.split('\n'), new.split('\n'), lineterm='', n=2))
    k = 'CAUGHT' if any(r == 1 for _, r in res) else 'SURVIVED'
    with lock:
        stat[k] += 1
        print(k, idx, rel, ln, name, res, dict(stat), flush=True)
        if k == 'SURVIVED': print(d, flush=True)
    return
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    list(ex.map(one, enumerate(points[:N])))
