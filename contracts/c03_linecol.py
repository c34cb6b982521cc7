"""Contracts for positions (property C03): toolkit.linebreaks, toolkit.line_col"""
import z3
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import add_axioms, Str, FIND, INT
from pyvc.runner import lemma
from . import common, c01_stringview
C, S = REG.contract, REG.spec
M = 'toolkit'
P = {'props': ['C03']}

# number of newlines in t[:k]
S('nls', [('t', 'str'), ('k', 'int')], 'int')
th = Str(); NL = z3.Function('spec.nls', th.sort, INT, INT)
_t = z3.Const('nl_t', th.sort); _k, _a, _b = z3.Ints('nl_k nl_a nl_b')
NLC = th.unit(z3.IntVal(10))
def one(t, k): return z3.If(th.at(t, k) == 10, 1, 0)
DEF = [z3.ForAll([_t], NL(_t, 0) == 0, patterns=[NL(_t, 0)]),
       z3.ForAll([_t, _k], z3.Implies(z3.And(0 <= _k, _k < th.len(_t)), NL(_t, _k + 1) == NL(_t, _k) + one(_t, _k)), patterns=[z3.MultiPattern(NL(_t, _k + 1), th.at(_t, _k))])]
def seg(t, a, b): return z3.Implies(z3.And(0 <= a, a <= b, b <= th.len(t), FIND()(t, NLC, a, b) == -1), NL(t, b) == NL(t, a))
_f = FIND()(_t, NLC, _a, _b)
def findstep(t, a, b):
    f = FIND()(t, NLC, a, b)
    return z3.Implies(z3.And(0 <= a, a <= b, b <= th.len(t)), z3.If(f == -1, NL(t, b) == NL(t, a), z3.And(NL(t, f) == NL(t, a), NL(t, f + 1) == NL(t, a) + 1)))
DERIVED = [z3.ForAll([_t, _a, _b], findstep(_t, _a, _b), patterns=[z3.MultiPattern(_f, NL(_t, _a))])]
add_axioms('nls', ({'spec.nls'}, DEF[:1] + DERIVED))

@lemma('nls_segment', ['C03'])
def _():
    t = z3.Const('i_t', th.sort); a, b = z3.Ints('i_a i_b')
    F = FIND()
    m = z3.Function('mention_i', INT, z3.BoolSort())
    step_hyp = [0 <= a, a <= b, b < th.len(t), seg(t, a, b), F(t, NLC, a, b + 1) == -1, m(th.at(t, b)), m(F(t, NLC, a, b)), m(NL(t, b)),
                NL(t, b + 1) == NL(t, b) + one(t, b)]
    f = F(t, NLC, a, b)
    fs = [z3.Implies(f != -1, seg(t, a, f)), 0 <= a, a <= b, b <= th.len(t), m(F(t, NLC, a, f)), z3.Implies(f != -1, NL(t, f + 1) == NL(t, f) + one(t, f)), seg(t, a, b)]
    return [('base', [0 <= a, a <= th.len(t)], seg(t, a, a)), ('step', step_hyp, seg(t, a, b + 1)), ('from find', fs, findstep(t, a, b))]

LB = ['len(result) >= 2', 'result[0] == -1', 'result[len(result) - 1] == len({T})',
      'forall(lambda i: 0 <= result[i] and result[i] < len({T}) and {T}[result[i]] == "\\n" and nls({T}, result[i]) == i - 1, 1, len(result) - 1)',
      'forall(lambda i: result[i] < result[i + 1], 0, len(result) - 1)', 'forall(lambda i, j: implies(i < j, result[i] < result[j]), 0, len(result))',
      'nls({T}, len({T})) == len(result) - 2',
      'forall(lambda i: find({T}, "\\n", result[i] + 1, result[i + 1]) == -1, 0, len(result) - 1)']
# lb is the table of line breaks of t: strictly increasing from -1 to the length of the text
S('islb', [('lb', '[int]'), ('t', 'str')], 'bool', ' and '.join('(' + e.replace('{T}', 't').replace('result', 'lb') + ')' for e in LB))
def inv(T): return [
      'len(lbr) >= 1', 'lbr[0] == -1', f'i == find({T}, "\\n", lbr[len(lbr) - 1] + 1)', f'lbr[len(lbr) - 1] < len({T}) and lbr[len(lbr) - 1] >= -1',
      f'forall(lambda j: 0 <= lbr[j] and lbr[j] < len({T}) and {T}[lbr[j]] == "\\n" and nls({T}, lbr[j]) == j - 1, 1, len(lbr))',
      'forall(lambda j: lbr[j] < lbr[j + 1], 0, len(lbr) - 1)', 'forall(lambda j, k: implies(j < k, lbr[j] < lbr[k]), 0, len(lbr))',
      f'nls({T}, lbr[len(lbr) - 1] + 1) == len(lbr) - 1',
      f'forall(lambda j: find({T}, "\\n", lbr[j] + 1, lbr[j + 1]) == -1, 0, len(lbr) - 1)']
for k, T in (('str', 'text'), ('StringView', 'view(text)')):
    C(M, 'linebreaks', {'text': k}, 'list[int]', ensures=[e.replace('{T}', T) for e in LB] + ([f'islb(seq(result), {T})']),
      loops=[Loop(inv(T), f'len({T}) - lbr[len(lbr) - 1]', hints=[f'nls({T}, 0)', f'nls({T}, i)', f'nls({T}, i + 1)', f'nls({T}, len({T}))'])], variant=k,
      hints=[f'nls({T}, len({T}))'], fresh=True, opaque=['view'], locals={'lbr': 'list[int]'}, **P)

C(M, 'line_col', {'lbreaks': 'list[int]', 'pos': 'int'}, '(int,int)',
  requires=['len(lbreaks) >= 2', 'lbreaks[0] == -1', 'forall(lambda i: lbreaks[i] < lbreaks[i + 1], 0, len(lbreaks) - 1)',
            'forall(lambda i, j: implies(i < j, lbreaks[i] < lbreaks[j]), 0, len(lbreaks))'],
  raises=[('ValueError', 'pos < 0 or pos > lbreaks[len(lbreaks) - 1]')],
  ensures=['1 <= result[0] and result[0] < len(lbreaks)', 'lbreaks[result[0] - 1] < pos and pos <= lbreaks[result[0]]',
           'result[1] == pos - lbreaks[result[0] - 1]', 'result[1] >= 1'], **P)

@lemma('line_col_counts_newlines', ['C03'])
def _():
    """contracts of linebreaks and line_col together: line == 1 + newlines before pos, and the pair determines pos"""
    from pyvc.engine import And
    from pyvc.theory import seq_theory
    L = seq_theory(INT)
    t, lb = z3.Consts('q_t q_lb', th.sort)
    pos, line, col, pos2, i = z3.Ints('q_pos q_line q_col q_pos2 q_i')
    F = FIND()
    at = L.at
    hy = [L.len(lb) >= 2, at(lb, 0) == -1, at(lb, L.len(lb) - 1) == th.len(t),
          z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < L.len(lb) - 1), z3.And(0 <= at(lb, i), at(lb, i) < th.len(t), NL(t, at(lb, i)) == i - 1, th.at(t, at(lb, i)) == 10)), patterns=[at(lb, i)]),
          NL(t, th.len(t)) == L.len(lb) - 2,
          F(t, NLC, at(lb, line - 1) + 1, at(lb, line)) == -1,
          1 <= line, line < L.len(lb), at(lb, line - 1) < pos, pos <= at(lb, line), col == pos - at(lb, line - 1), 0 <= pos, pos <= th.len(t)]
    m = z3.Function('mention_q', INT, z3.BoolSort())
    a = at(lb, line - 1) + 1
    men = [m(F(t, NLC, a, pos)), m(NL(t, a)), NL(t, 0) == 0, z3.Implies(line > 1, NL(t, a) == NL(t, a - 1) + one(t, a - 1))]
    return [('line == 1 + newlines before pos', hy + men + DERIVED, line == 1 + NL(t, pos)),
            ('the pair determines the position', hy + [at(lb, line - 1) < pos2, col == pos2 - at(lb, line - 1)], pos == pos2)]
C('toolkit', 'line_col', {'lbreaks': 'list[int]', 'pos': 'int'}, '(int,int)', free={'t': 'str'}, variant='table',
  requires=['islb(lbreaks, t)'],
  raises=[('ValueError', 'pos < 0 or pos > len(t)')], hints=['nls(t, pos)', 'nls(t, lbreaks[result[0] - 1] + 1)', 'nls(t,0)', 'find(t, "\\n", lbreaks[result[0] - 1] + 1, pos)'],
  ensures=['result[0] == 1 + nls(t, pos)', '1 <= result[1] and result[1] <= pos + 1', 'find(t, "\\n", pos + 1 - result[1], pos) == -1', 'pos + 1 - result[1] == 0 or t[pos - result[1]] == "\\n"'], props=['C03'])
