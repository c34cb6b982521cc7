"""Derived facts of the theory, proved from its basic axioms on every run"""
import z3
from pyvc.runner import lemma
from pyvc.theory import *
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not

@lemma('find_slice', ['C01', 'C03', 'C06'])
def _():
    th = Str(); S = th.sort
    t, u = z3.Consts('l_t l_u', S); m, n, b, e = z3.Ints('l_m l_n l_b l_e')
    out = []
    for nm, G in (('find', FIND()), ('rfind', RFIND())):
        sl = th.slice(t, m, n)
        f = G(sl, u, b, e); g = G(t, u, m + b, m + e)
        hy = [0 <= m, m <= n, n <= th.len(t), 0 <= b, b <= e, e <= n - m]
        L = th.len(u)
        # name the occurrences so that the trigger terms exist
        P = z3.Function('mention_l', S, BOOL)
        men = [P(th.slice(t, m + f, m + f + L)), P(th.slice(sl, g - m, g - m + L))]
        out.append((nm + ' in a slice', hy + men, f == If(g == -1, -1, g - m)))
    return out
