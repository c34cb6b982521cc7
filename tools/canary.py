#!/usr/bin/env python3-vt
"""tools/canary.py [PATTERN] [-t SECS]: tries to refute the hypotheses of every contract (path conditions at the ends of the function together with all
background axioms) with every back end. A refutation of all ends of a function, or of the axioms alone, would mean that the axioms are inconsistent."""
import sys, os, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
from pyvc import runner as R
import z3
A = sys.argv; to = float(A[A.index('-t') + 1]) if '-t' in A else 8
pat = A[1] if len(A) > 1 and not A[1].startswith('-') else ''
R.load()
def one(name):
    c = R.all_contracts()[name]
    try: V = R.Verifier(c); V.explore()
    except Exception as e: return name, f'not explored: {type(e).__name__}'
    out = []; ends = getattr(V, 'ends', [])
    for pc in ends[:int(os.environ.get("ENDS", "1"))]:
        s = R.solver(4000)
        for a in R.relevant_axioms(pc): s.add(a)
        s.add(*pc)
        r = R.external(s, to); out.append(r)
    return name, ('REFUTED by ' + str(out) if out and all(out) else 'partly refuted ' + str(out) if any(out) else 'ok' if out else 'no ends')
names = [n for n, c in R.all_contracts().items() if not (c.trusted or c.inline) and pat in n]
if __name__ == '__main__':
    cnt = {}
    with mp.get_context('fork').Pool(3) as p:
        for n, r in p.imap_unordered(one, names):
            cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
            if r != 'ok': print(n, r, flush=True)
    print(cnt)
