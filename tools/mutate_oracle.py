#!/usr/bin/env python3-vt
"""tools/mutate_oracle.py PROP FILE:QUAL[,FILE:QUAL...] [-n MAX] [-b BUDGET] [-t TESTFILES] [-j JOBS]: mutates the named functions in scratch copies of
the repository and lists the mutants which the search of the property, the unit tests given and the contracts of the mutated function let pass."""
import sys, os, ast, random, json, subprocess, shutil, concurrent.futures as cf, queue, copy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
A = sys.argv
opt = lambda o, d: A[A.index(o) + 1] if o in A else d
prop = A[1]; mx = int(opt('-n', '60')); budget = opt('-b', '12'); nj = int(opt('-j', '7')); tests = [t for t in opt('-t', '').split(',') if t]
CM = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
def find(tree, qual):
    node = tree
    for q in qual.split('.'): node = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == q and n is not node][0]
    return node
def mutants(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CM:
            o = n.ops[0]; yield f'{n.lineno}: {ast.unparse(n)} op', (lambda n=n, o=o: n.ops.__setitem__(0, CM[type(o)]()))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield f'{n.lineno}: {ast.unparse(n)} +-', (lambda n=n, m=(ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()): setattr(n, 'op', m))
        if isinstance(n, ast.BoolOp):
            yield f'{n.lineno}: {ast.unparse(n)} and/or', (lambda n=n, m=(ast.Or() if isinstance(n.op, ast.And) else ast.And()): setattr(n, 'op', m))
            for i in range(len(n.values)): yield f'{n.lineno}: {ast.unparse(n)} without operand {i}', (lambda n=n, i=i: n.values.pop(i))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield f'{n.lineno}: const {n.value} -> {n.value+1}', (lambda n=n: setattr(n, 'value', n.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield f'{n.lineno}: const {n.value} flipped', (lambda n=n: setattr(n, 'value', not n.value))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield f'{n.lineno}: not ({ast.unparse(n.test)})', (lambda n=n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test)))
            yield f'{n.lineno}: if False ({ast.unparse(n.test)})', (lambda n=n: setattr(n, 'test', ast.Constant(False)))
            if not isinstance(n, ast.While): yield f'{n.lineno}: if True ({ast.unparse(n.test)})', (lambda n=n: setattr(n, 'test', ast.Constant(True)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'reversed': yield f'{n.lineno}: {ast.unparse(n)} not reversed', (lambda n=n: setattr(n.func, 'id', 'tuple'))
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)): yield f'{n.lineno}: {ast.unparse(n)[:80]} without keyword {n.keywords[i].arg}', (lambda n=n, i=i: n.keywords.pop(i))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.AnnAssign, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield f'{s.lineno}: drop {ast.unparse(s)[:90]}', (lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
jobs = []
for t in A[2].split(','):
    f, q = t.split(':'); src = open(f'/repo/DHParser/{f}').read()
    n = len(list(mutants(find(ast.parse(src), q))))
    ks = list(range(n)); random.Random(int(opt('-s', '1'))).shuffle(ks)
    jobs += [(f, q, k) for k in ks[:mx]]
def build(f, q, k):
    src = open(f'/repo/DHParser/{f}').read(); tree = ast.parse(src); node = find(tree, q)
    first = min([node.lineno] + [d.lineno for d in node.decorator_list]); last = node.end_lineno; col = node.col_offset
    d, ap = list(mutants(node))[k]; ap()
    new = ast.unparse(ast.fix_missing_locations(node))
    lines = src.split('\n')
    lines[first - 1:last] = [(' ' * col + l) if l else l for l in new.split('\n')]
    s = '\n'.join(lines)
    try: ast.parse(s)
    except SyntaxError:      # docstrings with odd contents
        return d, None
    return d, s
pool = queue.Queue()
ROOT = '/tmp/mo'
for i in range(nj):
    c = f'{ROOT}/{os.getpid()}-{i}'; os.makedirs(c); subprocess.run(f'cp -a /repo {c}/repo', shell=True); pool.put(c)
PRF = '''
import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)
from pyvc import runner as R
R.load(); st = []
for c in R.all_contracts().values():
    if not (c.trusted or c.inline) and (c.module == %r and c.qual == %r):
        r = R.verify(c, None, timeout=4, limit=60); st.append(r['status'])
print(st)
'''
def one(job):
    f, q, k = job; c = pool.get()
    try:
        d, s = build(f, q, k)
        if s is None: return job, d, 'unbuildable'
        tgt = f'{c}/repo/DHParser/{f}'; orig = open(tgt).read(); open(tgt, 'w').write(s)
        try:
            env = dict(os.environ, PYVC_REPO=c + '/repo', PYTHONDONTWRITEBYTECODE='1')
            try: subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', HERE + '/oracles/base.py', prop, '--budget', budget, '--seed', '1', '--out', c + '/o.json'], env=env, capture_output=True, timeout=float(budget) + 60)
            except subprocess.TimeoutExpired: return job, d, 'killed (hang)'
            try: o = json.load(open(c + '/o.json'))
            except Exception: return job, d, 'killed (crash)'
            finally:
                if os.path.exists(c + '/o.json'): os.remove(c + '/o.json')
            if o.get('failure'): return job, d, 'killed by search'
            for t in tests:
                e = dict(os.environ, PYTHONPATH=c + '/repo', PYTHONDONTWRITEBYTECODE='1', TERM='dumb')
                if t.endswith('.py') and '/' not in t: cmd = f'cd {c}/repo/tests && timeout 120 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --rootdir={c}/repo {t}'
                else: cmd = f'cd {c}/repo && timeout 120 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --rootdir={c}/repo --doctest-modules {t}'
                r = subprocess.run(cmd, shell=True, env=e, capture_output=True, text=True, stdin=subprocess.DEVNULL)
                if r.returncode: return job, d, 'killed by tests'
            r = subprocess.run(['python3-vt', '-c', PRF % (HERE, f[:-3], q)], env=env, capture_output=True, text=True, timeout=300)
            st = (r.stdout.strip().splitlines() or ['?'])[-1]
            return job, d, 'killed by proof' if 'failed' in st else 'SURVIVED ' + st
        finally: open(tgt, 'w').write(orig)
    except Exception as e: return job, '?', f'error {e!r}'[:200]
    finally: pool.put(c)
cnt = {}
with cf.ThreadPoolExecutor(nj) as ex:
    for job, d, r in ex.map(one, jobs):
        cnt[r.split('[')[0]] = cnt.get(r.split('[')[0], 0) + 1
        if 'SURV' in r or 'err' in r or 'hang' in r: print(job[0], job[1], d, '->', r, flush=True)
print(prop, cnt)
while not pool.empty(): shutil.rmtree(pool.get(), ignore_errors=True)
