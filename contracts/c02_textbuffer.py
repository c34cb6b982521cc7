"""Contracts for TextBuffer (property C02), for plain strings as text and as replacement"""
import z3
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import *
from pyvc.theory import add_axioms
from pyvc.runner import lemma
from . import common
C, S, K = REG.contract, REG.spec, REG.klass
M = 'stringview'
P = {'props': ['C02']}
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
ST = Str(); SS = seq_theory(ST.sort)
FA = lambda vs, b, *ps: z3.ForAll(vs, b, patterns=list(ps))
# every line followed by a line break
REG.hom('nlines', '[str]', 'str', 'e', "e + '\\n'")
S("nochar", [('t', 'str'), ('c', 'str')], 'bool', 'find(t, c, 0, len(t)) == -1')
S('lineparts', [('s', '[str]')], 'bool', "forall(lambda i: find(s[i], '\\n', 0, len(s[i])) == -1 and find(s[i], '\\r', 0, len(s[i])) == -1, 0, len(s))")
NLS = z3.Function('spec.nlines', SS.sort, ST.sort); NL = ST.unit(z3.IntVal(10)); CR = ST.unit(z3.IntVal(13))
SF = z3.Function('spec.splitfrom', ST.sort, ST.sort, INT, SS.sort)
x = z3.Const('tb!x', SS.sort); t, u = z3.Consts('tb!t tb!u', ST.sort); k, j, ch, b, e = z3.Ints('tb!k tb!j tb!c tb!b tb!e')
J = JOIN(); F = FIND()
sf = SF(t, NL, k); part = SS.at(sf, j)
rng = And(0 <= k, k <= ST.len(t))
free = lambda w, c: F(w, c, 0, ST.len(w)) == -1
joined = lambda s_: Implies(SS.len(s_) > 0, NLS(s_) == ST.cat(J(NL, s_), NL))
parts = lambda t_, k_, j_: Implies(And(0 <= k_, k_ <= ST.len(t_), 0 <= j_, j_ < SS.len(SF(t_, NL, k_))), And(free(SS.at(SF(t_, NL, k_), j_), NL), Implies(free(t_, CR), free(SS.at(SF(t_, NL, k_), j_), CR))))
whole = lambda t_, k_: Implies(And(0 <= k_, k_ <= ST.len(t_)), And(SS.len(SF(t_, NL, k_)) >= 1, NLS(SF(t_, NL, k_)) == ST.cat(ST.slice(t_, k_, ST.len(t_)), NL)))
add_axioms('nlines.join', ({'spec.nlines'}, [FA([x], Implies(SS.len(x) > 0, And(joined(x), J(NL, x) == ST.slice(NLS(x), 0, ST.len(NLS(x)) - 1))), NLS(x), J(NL, x))]))
add_axioms('nlines.split', ({'spec.splitfrom'}, [FA([t, k], whole(t, k), sf), FA([t, k, j], parts(t, k, j), part)]))
STRIP = z3.Function('str.strip/2', ST.sort, ST.sort, ST.sort)
# str.strip(c) of a text that neither begins nor ends with the character c (definition of the builtin)
add_axioms('strip1', ({'str.strip/2'}, [FA([t, ch], Implies(Or(ST.len(t) == 0, And(ST.at(t, 0) != ch, ST.at(t, ST.len(t) - 1) != ch)), STRIP(t, ST.unit(ch)) == t), STRIP(t, ST.unit(ch)))]))

@lemma('splitting into lines and joining them', ['C02'])
def _():
    nl, sp = z3.Function('lem.nlines', SS.sort, ST.sort), z3.Function('lem.splitfrom', ST.sort, ST.sort, INT, SS.sort)
    y = z3.Const('tb!y', SS.sort)
    hom = [nl(SS.empty) == ST.empty, FA([u], nl(SS.unit(u)) == ST.cat(u, NL), nl(SS.unit(u))), FA([x, y], nl(SS.cat(x, y)) == ST.cat(nl(x), nl(y)), nl(SS.cat(x, y)))]
    jn = lambda s_: Implies(SS.len(s_) > 0, nl(s_) == ST.cat(J(NL, s_), NL))
    snoc = SS.cat(x, SS.unit(u))
    f = F(t, NL, k, ST.len(t))
    df = lambda k_: sp(t, NL, k_) == If(F(t, NL, k_, ST.len(t)) < 0, SS.unit(ST.slice(t, k_, ST.len(t))),
                                        SS.cat(SS.unit(ST.slice(t, k_, F(t, NL, k_, ST.len(t)))), sp(t, NL, F(t, NL, k_, ST.len(t)) + 1)))
    wh = lambda k_: Implies(And(0 <= k_, k_ <= ST.len(t)), And(SS.len(sp(t, NL, k_)) >= 1, nl(sp(t, NL, k_)) == ST.cat(ST.slice(t, k_, ST.len(t)), NL)))
    pa = lambda k_, j_: Implies(And(0 <= k_, k_ <= ST.len(t), 0 <= j_, j_ < SS.len(sp(t, NL, k_))), And(free(SS.at(sp(t, NL, k_), j_), NL), Implies(free(t, CR), free(SS.at(sp(t, NL, k_), j_), CR))))
    m = z3.Function('mention_tb', INT, BOOL)
    men = [m(F(t, CR, k, f)), m(F(t, NL, k, f)), m(F(t, CR, k, ST.len(t))), m(F(t, CR, 0, ST.len(t)))]
    # the first occurrence: none before it; none in a part of a text without any
    before = [Implies(And(k <= f), F(t, NL, k, f) == -1)]
    pn = pa
    cases = [('the last', f < 0, []), ('the first', And(f >= 0, j == 0), []), ('a later one', And(f >= 0, j > 0), [pa(f + 1, j - 1)])]
    return [('join: empty', hom, jn(SS.empty)), ('join: step', hom + [jn(x)], jn(snoc)),
            ('nothing before the first', [rng, m(F(t, NL, k, f))], before[0]),
            ('split: induction over the rest of the text', hom + [rng, df(k), Implies(f >= 0, wh(f + 1)), m(nl(SS.unit(ST.slice(t, k, f)))) if False else BoolTrue], wh(k)),
            *[(f'parts, {name}: induction over the rest of the text', [rng, df(k), cond, *ih] + men + before, pn(k, j)) for name, cond, ih in cases]]
BoolTrue = z3.BoolVal(True)

# replacing the range from line l1, column c1 up to line l2, column c2 of the lines L by the lines R
S('lineedit', [('L', '[str]'), ('R', '[str]'), ('l1', 'int'), ('c1', 'int'), ('l2', 'int'), ('c2', 'int')], '[str]')
LE = z3.Function('spec.lineedit', SS.sort, SS.sort, INT, INT, INT, INT, SS.sort)
L, R = z3.Consts('le!L le!R', SS.sort); l1, c1, l2, c2 = z3.Ints('le!l1 le!c1 le!l2 le!c2')
line = lambda s_, i_: SS.at(s_, i_)
head, tail = ST.slice(line(L, l1), 0, c1), ST.slice(line(L, l2), c2, ST.len(line(L, l2)))
R1 = SS.upd(R, 0, ST.cat(head, line(R, 0))); R2 = SS.upd(R1, SS.len(R) - 1, ST.cat(line(R1, SS.len(R) - 1), tail))
pre, post = SS.slice(L, 0, l1), SS.slice(L, l2 + 1, SS.len(L))
W = SS.cat(pre, SS.cat(R2, post))
lerng = And(0 <= l1, l1 <= l2, l2 < SS.len(L), 0 <= c1, c1 <= ST.len(line(L, l1)), 0 <= c2, c2 <= ST.len(line(L, l2)), SS.len(R) >= 1)
def edit_facts(nl, le):
    T = ST.slice(nl(L), 0, ST.len(nl(L)) - 1); rep = ST.slice(nl(R), 0, ST.len(nl(R)) - 1)
    o1, o2 = ST.len(nl(pre)) + c1, ST.len(nl(SS.slice(L, 0, l2))) + c2
    return T, rep, o1, o2, And(SS.len(le) >= 1, J(NL, le) == ST.cat(ST.slice(T, 0, o1), ST.cat(rep, ST.slice(T, o2, ST.len(T)))))
le = LE(L, R, l1, c1, l2, c2)
ok1 = lambda s_, j_: And(free(SS.at(s_, j_), NL), free(SS.at(s_, j_), CR))
allok = lambda s_: FA([j], Implies(And(0 <= j, j < SS.len(s_)), ok1(s_, j)), SS.at(s_, j))
add_axioms('lineedit', ({'spec.lineedit'}, [
    FA([L, R, l1, c1, l2, c2], Implies(lerng, And(le == W, SS.len(le) >= 1)), le), FA([L, R, l1, c1, l2, c2], Implies(lerng, edit_facts(NLS, le)[-1]), J(NL, le)),
    FA([L, R, l1, c1, l2, c2, k], Implies(And(lerng, allok(L), allok(R), 0 <= k, k < SS.len(le)), ok1(le, k)), SS.at(le, k))]))

@lemma('editing lines', ['C02'])
def _():
    nl = z3.Function('lem.nlines', SS.sort, ST.sort); y = z3.Const('tb!y', SS.sort)
    hom = [nl(SS.empty) == ST.empty, FA([u], nl(SS.unit(u)) == ST.cat(u, NL), nl(SS.unit(u))), FA([x, y], nl(SS.cat(x, y)) == ST.cat(nl(x), nl(y)), nl(SS.cat(x, y)))]
    T, rep, o1, o2, goal = edit_facts(nl, W)
    n = SS.len(R)
    mid, last = SS.slice(R, 1, n - 1), SS.at(R, n - 1)
    c = ST.cat
    a = nl(R2) == c(head, c(rep, c(tail, NL)))
    one = Implies(n == 1, And(SS.eqq(R, SS.unit(SS.at(R, 0))), SS.eqq(R2, SS.unit(c(c(head, SS.at(R, 0)), tail)))))
    more = Implies(n > 1, And(SS.eqq(R, SS.cat(SS.unit(SS.at(R, 0)), SS.cat(mid, SS.unit(last)))), SS.eqq(R2, SS.cat(SS.unit(c(head, SS.at(R, 0))), SS.cat(mid, SS.unit(c(last, tail)))))))
    rN = nl(R) == c(rep, NL)
    b = nl(W) == c(nl(pre), c(nl(R2), nl(post)))
    split = lambda i_, c_: nl(L) == c(nl(SS.slice(L, 0, i_)), c(ST.slice(line(L, i_), 0, c_), c(ST.slice(line(L, i_), c_, ST.len(line(L, i_))), c(NL, nl(SS.slice(L, i_ + 1, SS.len(L)))))))
    Lsplit = lambda i_: SS.eqq(L, SS.cat(SS.slice(L, 0, i_), SS.cat(SS.unit(line(L, i_)), SS.slice(L, i_ + 1, SS.len(L)))))
    rest = c(tail, c(NL, nl(post)))
    pl, al = ST.slice(T, 0, o1) == c(nl(pre), head), ST.slice(T, o2, ST.len(T)) == ST.slice(rest, 0, ST.len(rest) - 1)
    A, B_, C_, D = z3.Consts('le!A le!B le!C le!D', ST.sort)
    jn = And(J(NL, W) == ST.slice(nl(W), 0, ST.len(nl(W)) - 1), SS.len(W) >= 1)
    jx = FA([x], Implies(SS.len(x) > 0, J(NL, x) == ST.slice(nl(x), 0, ST.len(nl(x)) - 1)), J(NL, x))
    h0 = [lerng]
    endnl = Implies(SS.len(x) > 0, And(ST.len(nl(x)) > 0, c(ST.slice(nl(x), 0, ST.len(nl(x)) - 1), NL) == nl(x)))
    return [('ends with a line break: empty', hom, z3.substitute(endnl, (x, SS.empty))), ('ends with a line break: step', hom + [endnl], z3.substitute(endnl, (x, SS.cat(x, SS.unit(u))))),
            ('one line', h0 + [n == 1], one), ('several lines', h0 + [n > 1], more),
            ('middle 1', h0 + hom[1:] + [n == 1, one, rN], a), ('middle 2', h0 + hom[1:] + [n > 1, more, rN], a),
            ('around', h0 + hom, b), ('cut 1', h0, Lsplit(l1)), ('cut 2', h0, Lsplit(l2)),
            ('text cut 1', h0 + hom + [Lsplit(l1)], split(l1, c1)), ('text cut 2', h0 + hom + [Lsplit(l2)], split(l2, c2)),
            ('left', h0 + [split(l1, c1), c(T, NL) == nl(L)], pl), ('right', h0 + [split(l2, c2), c(T, NL) == nl(L)], al),
            ('end', h0 + [a, b, pl, al, jx], goal),
            ('characters', h0 + [FA([j], Implies(And(0 <= j, j < SS.len(s_)), ok1(s_, j)), SS.at(s_, j)) for s_ in (L, R)] + [0 <= k, k < SS.len(W)], ok1(W, k))]

K('TextBuffer', M, {'_text': 'str', '_buffer': 'list[str]', 'version': 'int'})
# the text denoted by a buffer, and its consistency: lines that have been split agree with the text
S('tbtext', [('b', 'TextBuffer')], 'str', "b._text if b._text != '' else '\\n'.join(seq(b._buffer))")
S('tbok', [('b', 'TextBuffer')], 'bool', "(len(b._buffer) > 0 or nochar(b._text, '\\r')) and lineparts(seq(b._buffer)) and (len(b._buffer) == 0 or b._text == '' or '\\n'.join(seq(b._buffer)) == b._text)")
# the lines of a buffer, split or not; offset of a line/column pair
S('tblines', [('b', 'TextBuffer')], '[str]', "seq(b._buffer) if len(b._buffer) > 0 else splitfrom(b._text, '\\n', 0)")
S('offset', [('s', '[str]'), ('l', 'int'), ('c', 'int')], 'int', 'len(nlines(s[:l])) + c')
TB = {'self': 'TextBuffer'}
KEEP = ['tbok(self)', "tbtext(self) == old(tbtext(self))", 'self.version == old(self.version)']
LINES = ['seq(self._buffer) == old(tblines(self))', "nlines(seq(self._buffer)) == old(tbtext(self)) + '\\n'", 'len(self._buffer) > 0']
C(M, 'TextBuffer.__init__', {'self': 'TextBuffer', 'text': 'str', 'version': 'int'}, 'none', modifies=['self.*'],
  ensures=["tbtext(self) == text", "implies(nochar(text, '\\r'), tbok(self))", 'self.version == max(version, 0)'], **P)
C(M, 'TextBuffer._lazy_init', TB, 'none', requires=['tbok(self)', 'len(self._buffer) == 0'], modifies=['self._buffer'],
  ensures=LINES + KEEP, fresh=False, **P)
C(M, 'TextBuffer.buffer', TB, 'list[str]', requires=['tbok(self)'], modifies=['self._buffer'], ensures=LINES + KEEP + ['result is self._buffer'], **P)
C(M, 'TextBuffer.lines', TB, 'int', requires=['tbok(self)'], modifies=['self._buffer'], ensures=LINES + KEEP + ['result == len(self._buffer)'], **P)
C(M, 'TextBuffer.__getitem__', {'self': 'TextBuffer', 'index': 'int'}, 'str', requires=['tbok(self)'], modifies=['self._buffer'],
  raises=[('IndexError', 'not (-len(tblines(self)) <= index and index < len(tblines(self)))')],
  ensures=LINES + KEEP + ['result == old(tblines(self))[ite(index < 0, index + len(old(tblines(self))), index)]'], variant='int', **P)
C(M, 'TextBuffer.__str__', TB, 'str', requires=['tbok(self)'], modifies=['self._text'], ensures=KEEP + ['result == tbtext(self)'], **P)
C(M, 'TextBuffer.snapshot', {'self': 'TextBuffer', 'eol': 'str'}, 'str', requires=['tbok(self)', "eol == '\\n'"], modifies=['self._text'], ensures=KEEP + ['result == tbtext(self)'], **P)
C(M, 'TextBuffer.__len__', TB, 'int', requires=['tbok(self)'], ensures=['result == len(tbtext(self))'], comps=['lambda s: len(nlines(s)) - len(s)'], **P)
C(M, 'TextBuffer.update', {'self': 'TextBuffer', 'l1': 'int', 'c1': 'int', 'l2': 'int', 'c2': 'int', 'replacement': 'str'}, 'none',
  requires=['tbok(self)', "nochar(replacement, '\\r')", '0 <= l1 and l1 <= l2 and l2 < len(tblines(self))', '0 <= c1 and c1 <= len(tblines(self)[l1])', '0 <= c2 and c2 <= len(tblines(self)[l2])'],
  modifies=['self._buffer', 'self._text', 'self.version', '*list[str]'], locals={'lines': 'list[str]'},
  ensures=["old(nlines(tblines(self))) == old(tbtext(self)) + '\\n'", "nlines(splitfrom(replacement, '\\n', 0)) == replacement + '\\n'", "seq(self._buffer) == lineedit(old(tblines(self)), splitfrom(replacement, '\\n', 0), l1, c1, l2, c2)", 'tbok(self)', 'self.version == old(self.version) + 1', 'len(self._buffer) > 0', "self._text == ''",
    'tbtext(self) == old(tbtext(self)[:offset(tblines(self), l1, c1)] + replacement + tbtext(self)[offset(tblines(self), l2, c2):])'],
  hints=[], **P)
