#!/usr/bin/env python3-vt
"""tools/mutate.py PROP|contract-name-part [-n MAX]: strength test of the contracts. Mutates the functions under contract (in memory) and lists
mutants all contracts of the function still accept (survivors: equivalent mutants or weak contracts)."""
import sys, os, ast, copy, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from pyvc import runner as R, source as SRC
R.load()
pat = sys.argv[1]; mx = int(sys.argv[sys.argv.index('-n') + 1]) if '-n' in sys.argv else 10**6
CM = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
def mutants(node):
    """yields (description, apply, undo)"""
    for n in ast.walk(node):
        if isinstance(n, ast.Compare):
            o = n.ops[0]
            if type(o) in CM:
                yield f'{n.lineno}: {ast.unparse(n)} op', (lambda n=n, o=o: n.ops.__setitem__(0, CM[type(o)]())), (lambda n=n, o=o: n.ops.__setitem__(0, o))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = n.op; m = ast.Sub() if isinstance(o, ast.Add) else ast.Add()
            yield f'{n.lineno}: {ast.unparse(n)} +-', (lambda n=n, m=m: setattr(n, 'op', m)), (lambda n=n, o=o: setattr(n, 'op', o))
        if isinstance(n, ast.BoolOp):
            o = n.op; m = ast.Or() if isinstance(o, ast.And) else ast.And()
            yield f'{n.lineno}: {ast.unparse(n)} and/or', (lambda n=n, m=m: setattr(n, 'op', m)), (lambda n=n, o=o: setattr(n, 'op', o))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            v = n.value
            yield f'{n.lineno}: const {v} -> {v+1}', (lambda n=n, v=v: setattr(n, 'value', v + 1)), (lambda n=n, v=v: setattr(n, 'value', v))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test; m = ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
            yield f'{n.lineno}: not ({ast.unparse(t)})', (lambda n=n, m=m: setattr(n, 'test', m)), (lambda n=n, t=t: setattr(n, 'test', t))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, ast.Lambda):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.AnnAssign, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield f'{s.lineno}: drop {ast.unparse(s)[:80]}', (lambda b=b, i=i, s=s: b.__setitem__(i, ast.copy_location(ast.Pass(), s))), (lambda b=b, i=i, s=s: b.__setitem__(i, s))
byfn = {}
for c in R.all_contracts().values():
    if c.trusted or c.inline or not (pat in c.props or pat in c.name): continue
    byfn.setdefault((c.module, c.qual), []).append(c)
jobs = []; table = {}
for key, cs in byfn.items():
    node = SRC.get_function(*key)[0]
    ms = list(mutants(node))
    random.Random(1).shuffle(ms)
    for k, (d, ap, un) in enumerate(ms[:mx]):
        jobs.append((key, k)); table[(key, k)] = (d, ap, un, cs)
real = R._child
def child(conn, kind, key, base):
    d, ap, un, cs = table[key]
    ap()
    st = []
    for c in cs:
        r = R.verify(c, None, timeout=3, limit=40); st.append(r['status'])
        if r['status'] not in ('proved',): break
    conn.send({'name': str(key), 'st': st}); conn.close()
R._child = child
out = R.run_jobs([('m', k, None) for k in jobs], nproc=8, limit=100)
tot = len(out); sv = 0; kinds = {}
for k, r in out.items():
    st = r.get('st', ['timeout'])
    kinds[st[-1]] = kinds.get(st[-1], 0) + 1
    if all(x == 'proved' for x in st): sv += 1; print('SURVIVES', k[0][1], table[k][0])
print('mutants', tot, 'survivors', sv, kinds)
