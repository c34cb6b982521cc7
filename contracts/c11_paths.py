"""Contracts for picking nodes, locating positions and stepping through paths (property C11): DHParser.nodetree"""
import z3
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import *
from pyvc.theory import add_axioms
from pyvc.runner import lemma
from . import common, tree, c10_node
from .tree import RES, NB, PB, NT, ST, HC, HR, c, r, FA, TEXT, TEXTS, snoc
C, S, K = REG.contract, REG.spec, REG.klass
M = 'nodetree'
P = {'props': ['C11']}
# ---- children
REG.hom('matching', '[Node]', '[Node]', 'e', '(e,) if m(e) else ()', extra=[('m', NB)])
for nm, kind in (('fn', NB),):
    C(M, 'Node.select_children', {'self': 'Node', 'criteria': kind, 'reverse': 'bool'}, variant=nm, yields='Node',
      ensures=['result == ite(reverse, reversed(matching(self._children, criteria)), matching(self._children, criteria))'],
      loops=[Loop(['seq(__yield__) == _it[:_i]']), Loop(['seq(__yield__) == matching(_it[:_i], criteria)'])], **P)
    C(M, 'Node.pick_child', {'self': 'Node', 'criteria': kind, 'reverse': 'bool'}, 'Node?', variant=nm,
      ensures=['(result is None) == (len(matching(self._children, criteria)) == 0)',
               'implies(result is not None, result is matching(self._children, criteria)[ite(reverse, len(matching(self._children, criteria)) - 1, 0)])'], **P)
SEL1 = 'ite(include_root, ite(match_func(self), (self,), ()) + ite(skip_func(self), (), selected(self, match_func, skip_func, reverse)), selected(self, match_func, skip_func, reverse))'
C(M, 'Node.pick_if', {'self': 'Node', 'match_func': NB, 'include_root': 'bool', 'reverse': 'bool', 'skip_func': NB}, 'Node?',
  ensures=[f'(result is None) == (len({SEL1}) == 0)', f'implies(result is not None, result is ({SEL1})[0])'], **P)
SEL2 = SEL1.replace('match_func', 'criteria').replace('skip_func', 'skip_subtree')
C(M, 'Node.select', {'self': 'Node', 'criteria': NB, 'include_root': 'bool', 'reverse': 'bool', 'skip_subtree': NB}, yields='Node', ensures=[f'result == {SEL2}'], variant='fn', **P)
C(M, 'Node.pick', {'self': 'Node', 'criteria': NB, 'include_root': 'bool', 'reverse': 'bool', 'skip_subtree': NB}, 'Node?', variant='fn',
  ensures=[f'(result is None) == (len({SEL2}) == 0)', f'implies(result is not None, result is ({SEL2})[0])'], **P)
# ---- siblings
ISCHILD = lambda p, x: f'exists(lambda c: {p}._children[c] is {x}, 0, len({p}._children))'
PAR, ND = 'path[len(path) - 2]', 'path[len(path) - 1]'
FIRST = f'exists(lambda c: {PAR}._children[c] is {ND} and forall(lambda d: {PAR}._children[d] is not {ND}, 0, c) and result == {{f}}, 0, len({PAR}._children))'
RSIB = dict(requires=['implies(len(path) > 1, ' + ISCHILD(PAR, ND) + ')'], raises=[('ValueError', 'len(path) <= 1')], yields='Node', variant='fn')
C(M, 'pred_siblings', {'path': '[Node]', 'criteria': NB, 'reverse': 'bool'}, 
  ensures=[FIRST.format(f=f'ite(reverse, reversed(matching({PAR}._children[:c], criteria)), matching({PAR}._children[:c], criteria))')],
  loops=[Loop(['seq(__yield__) == reversed(matching(children[i - _i:i], criteria))'], steps=['children[k:i] == (children[k],) + children[k + 1:i]']), Loop(['seq(__yield__) == matching(_it[:_i], criteria)', f'forall(lambda d: _it[d] is not {ND}, 0, _i)'])], **RSIB, **P)
C(M, 'succ_siblings', {'path': '[Node]', 'criteria': NB, 'reverse': 'bool'},
  ensures=[FIRST.format(f=f'ite(reverse, reversed(matching({PAR}._children[c + 1:], criteria)), matching({PAR}._children[c + 1:], criteria))')],
  loops=[Loop(['seq(__yield__) == reversed(matching(children[len(children) - _i:], criteria))'], steps=['children[k:] == (children[k],) + children[k + 1:]']), Loop(['seq(__yield__) == matching(_it[:_i], criteria)'])], **RSIB, **P)
# ---- stepping
CHAIN = 'forall(lambda q: ' + ISCHILD('path[q]', 'path[q + 1]') + ', 0, len(path) - 1)'
EDGE = {'next_path': lambda j: f'path[{j}]._children[len(path[{j}]._children) - 1] is path[{j} + 1]', 'prev_path': lambda j: f'path[{j}]._children[0] is path[{j} + 1]'}
for f, d, dup in (('next_path', 1, 'c, len(path[q]._children)'), ('prev_path', -1, '0, c')):
    E_ = EDGE[f]
    C(M, f, {'path': 'list[Node]'}, 'list[Node]?', requires=['len(path) > 0', CHAIN],
      ensures=['implies(result is None, forall(lambda j: ' + E_('j') + ', 0, len(path) - 1))',
               f'implies(result is not None, exists(lambda q, c: 0 <= q and q < len(path) - 1 and 0 <= c and c < len(path[q]._children) and 0 <= c + {d} and c + {d} < len(path[q]._children)'
               f' and path[q]._children[c] is path[q + 1] and as_kind(result, "list[Node]")[q + 1] is path[q]._children[c + {d}] and len(as_kind(result, "list[Node]")) == q + 2 and seq(as_kind(result, "list[Node]"))[:q + 1] == seq(path)[:q + 1]'
               f' and forall(lambda j: ' + E_('j') + ', q + 1, len(path) - 1)))'],
      loops=[Loop(['node is path[len(path) - 1 - _i]', 'forall(lambda j: ' + E_('j') + ', len(path) - 1 - _i, len(path) - 1)']),
             Loop([f'forall(lambda x: siblings[x] is not node, {"len(siblings) - 1 - _i, len(siblings)" if d == 1 else "0, 1 + _i"})'])], **P)
# ---- leaves in document order and positions
from .tree import treefn, DESC, DESCS, SEL, SELS, PS, PSS, AP, APB, FB, PT, RANK, n, s, t, i
from pyvc.theory import fnsort
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
LV, LVS = treefn('leaves', '[Node]', [], lambda h, nd, xs: NT.unit(nd), lambda h, e, xs, f, g: f(h, e))
FN1 = fnsort(parse_kind(NB)); MP = z3.MultiPattern; y_ = z3.Const('lv!y', Ref); r_ = z3.Bool('lv!r')
m, k = z3.Consts('lv!m lv!k', FN1); pm, pk = z3.Consts('lv!pm lv!pk', FB); pp, pq = z3.Consts('lv!p lv!q', NT.sort); f_ = z3.BoolVal(False)
# m is 'has no children' and nothing is skipped, otherwise there is a witness
W1 = z3.Function('lv.w1', HC, FN1, Ref); W2 = z3.Function('lv.w2', FN1, Ref); V1 = z3.Function('lv.v1', HC, FB, NT.sort); V2 = z3.Function('lv.v2', FB, NT.sort)
LST = lambda q: NT.at(q, NT.len(q) - 1)
ONLYLEAVES = Or(And(AP(m, W1(c, m)) != (NT.len(c[W1(c, m)]) == 0)), AP(k, W2(k)))
ONLYLEAFPATHS = Or(And(NT.len(V1(c, pm)) > 0, APB(pm, V1(c, pm)) != (NT.len(c[LST(V1(c, pm))]) == 0)), APB(pk, V2(pk)))
BRANCH = lambda nd: If(NT.len(c[nd]) > 0, LV(c, nd), NT.empty)
REG.hom('lasts', '[[Node]]', '[Node]', 'e', '(e[len(e) - 1],)')
LA = z3.Function('spec.lasts', PT.sort, NT.sort)
add_axioms('paths.leaves', ({'spec.leaves'}, [
    FA([c, n, m, k], Or(ONLYLEAVES, SEL(c, n, m, k, f_) == BRANCH(n)), SEL(c, n, m, k, f_)),
    FA([c, r, n], TEXTS(c, r, LV(c, n)) == TEXT(c, r, n), LV(c, n), TEXT(c, r, n)) if False else FA([c, r, n], TEXTS(c, r, LV(c, n)) == TEXT(c, r, n), TEXTS(c, r, LV(c, n))),
    FA([c, n, i], Implies(And(0 <= i, i < NT.len(LV(c, n))), NT.len(c[NT.at(LV(c, n), i)]) == 0), NT.at(LV(c, n), i))]))
add_axioms('paths.leafpaths', ({'spec.lasts'}, [FA([c, pp, pm, pk], Or(NT.len(pp) == 0, ONLYLEAFPATHS, LA(PS(c, pp, pm, pk, f_)) == BRANCH(LST(pp))), LA(PS(c, pp, pm, pk, f_)))]))

ps = z3.Const('lv!paths', PT.sort); j = z3.Int('lv!j')
add_axioms('paths.lasts', ({'spec.lasts'}, [FA([ps], NT.len(LA(ps)) == PT.len(ps), LA(ps)), FA([ps, i], Implies(And(0 <= i, i < PT.len(ps)), NT.at(LA(ps), i) == LST(PT.at(ps, i))), NT.at(LA(ps), i)),
    FA([ps, j], Implies(And(0 <= j, j <= PT.len(ps)), LA(PT.slice(ps, 0, j)) == NT.slice(LA(ps), 0, j)), LA(PT.slice(ps, 0, j)))]))

@lemma('last nodes of paths', ['C11'])
def _():
    LL = z3.Function('lem.lasts', PT.sort, NT.sort); a, b = z3.Consts('lv!a lv!b', PT.sort); e = z3.Const('lv!e', NT.sort)
    defs = [LL(PT.empty) == NT.empty, FA([e], LL(PT.unit(e)) == NT.unit(LST(e)), LL(PT.unit(e))), FA([a, b], LL(PT.cat(a, b)) == NT.cat(LL(a), LL(b)), LL(PT.cat(a, b)))]
    at = lambda sq: And(NT.len(LL(sq)) == PT.len(sq), FA([i], Implies(And(0 <= i, i < PT.len(sq)), NT.at(LL(sq), i) == LST(PT.at(sq, i))), NT.at(LL(sq), i)))
    cat = PT.cat(ps, PT.unit(e)); P_ = z3.Function('lem.P', NT.sort, BOOL)
    head, tail = PT.slice(ps, 0, j), PT.slice(ps, j, PT.len(ps))
    return [('empty', defs, NT.len(LL(PT.empty)) == 0), ('items', defs + [at(ps)], And(NT.len(LL(cat)) == PT.len(cat), Implies(And(0 <= i, i < PT.len(cat)), NT.at(LL(cat), i) == LST(PT.at(cat, i))))),
            ('prefix', defs + [at(head), at(tail), 0 <= j, j <= PT.len(ps), ps == PT.cat(head, tail), P_(NT.slice(NT.cat(LL(head), LL(tail)), 0, NT.len(LL(head))))], LL(head) == NT.slice(LL(ps), 0, j))]

@lemma('selected leaves', ['C11'])
def _():
    S1, S2 = z3.Function('lem.sel', Ref, NT.sort), z3.Function('lem.sels', NT.sort, NT.sort)
    L1, L2 = z3.Function('lem.lv', Ref, NT.sort), z3.Function('lem.lvs', NT.sort, NT.sort); x_ = z3.Const('lem!x', Ref)
    T2 = z3.Function('lem.texts', NT.sort, ST.sort)
    defs = [FA([n], S1(n) == S2(c[n]), S1(n)), S2(NT.empty) == NT.empty, FA([n], S2(NT.unit(n)) == NT.cat(If(NT.len(c[n]) == 0, NT.unit(n), NT.empty), If(NT.len(c[n]) > 0, S1(n), NT.empty)), S2(NT.unit(n))),
            FA([s, t], S2(NT.cat(s, t)) == NT.cat(S2(s), S2(t)), S2(NT.cat(s, t))),
            FA([n], L1(n) == If(NT.len(c[n]) > 0, L2(c[n]), NT.unit(n)), L1(n)), L2(NT.empty) == NT.empty, FA([n], L2(NT.unit(n)) == L1(n), L2(NT.unit(n))), FA([s, t], L2(NT.cat(s, t)) == NT.cat(L2(s), L2(t)), L2(NT.cat(s, t)))]
    tdefs = [T2(NT.empty) == ST.empty, FA([n], T2(NT.unit(n)) == TEXT(c, r, n), T2(NT.unit(n))), FA([s, t], T2(NT.cat(s, t)) == ST.cat(T2(s), T2(t)), T2(NT.cat(s, t))),
             FA([n], Implies(NT.len(c[n]) > 0, TEXT(c, r, n) == T2(c[n])), TEXT(c, r, n))]
    one = lambda nd: S1(nd) == If(NT.len(c[nd]) > 0, L1(nd), NT.empty)
    many = lambda sq: S2(sq) == L2(sq)
    tone = lambda nd: T2(L1(nd)) == TEXT(c, r, nd)
    tmany = lambda sq: T2(L2(sq)) == T2(sq)
    w = z3.Function('lem.w', NT.sort, INT)(s); wt = z3.Function('lem.wt', NT.sort, INT)(s)
    allm = FA([s], Or(many(s), And(0 <= w, w < NT.len(s), Not(one(NT.at(s, w))))), S2(s), L2(s))
    allt = FA([s], Or(tmany(s), And(0 <= wt, wt < NT.len(s), Not(tone(NT.at(s, wt))))), L2(s))
    IH = FA([x_], Implies(RANK(c, x_) < RANK(c, n), And(one(x_), tone(x_))), RANK(c, x_))
    kids = FA([i], Implies(And(0 <= i, i < NT.len(c[n])), RANK(c, NT.at(c[n], i)) < RANK(c, n)), NT.at(c[n], i))
    # (an item of a sequence that does not fulfil the claim: contraposition of the induction over the sequence)
    leafy = lambda sq: FA([i], Implies(And(0 <= i, i < NT.len(sq)), NT.len(c[NT.at(sq, i)]) == 0), NT.at(sq, i))
    k_ = z3.Int('lem!k'); cat = NT.cat(s, NT.unit(n))
    wl = z3.Function('lem.wl', NT.sort, INT)
    out = snoc('selection of leaves', one, many, defs) + [('selection of leaves of a node', defs + [IH, allm, kids], one(n))]
    out += snoc('texts of leaves', tone, tmany, defs + tdefs) + [('text of the leaves of a node', defs + tdefs + [IH, allt, kids], tone(n))]
    out += [('leaves are leaves: none', defs, leafy(L2(NT.empty))),
            ('leaves are leaves: step', defs + [leafy(L1(n)), leafy(L2(s))], Implies(And(0 <= k_, k_ < NT.len(L2(cat))), NT.len(c[NT.at(L2(cat), k_)]) == 0)),
            ('leaves are leaves: node', defs + [Implies(NT.len(c[n]) > 0, leafy(L2(c[n])))], Implies(And(0 <= k_, k_ < NT.len(L1(n))), NT.len(c[NT.at(L1(n), k_)]) == 0))]
    return out

@lemma('selected leaf paths', ['C11'])
def _():
    A1, A2 = z3.Function('lem.ps', NT.sort, PT.sort), z3.Function('lem.pss', NT.sort, NT.sort, PT.sort)
    L1, L2 = z3.Function('lem.lv', Ref, NT.sort), z3.Function('lem.lvs', NT.sort, NT.sort); LL = z3.Function('lem.lasts', PT.sort, NT.sort)
    a, b = z3.Consts('lv!a lv!b', PT.sort); e = z3.Const('lv!e', NT.sort)
    cp = lambda nd: NT.cat(pp, NT.unit(nd))
    defs = [FA([pp], Implies(NT.len(pp) > 0, A1(pp) == A2(c[LST(pp)], pp)), A1(pp)), A2(NT.empty, pp) == PT.empty,
            FA([n], A2(NT.unit(n), pp) == PT.cat(If(NT.len(c[n]) == 0, PT.unit(cp(n)), PT.empty), If(NT.len(c[n]) > 0, A1(cp(n)), PT.empty)), A2(NT.unit(n), pp)),
            FA([s, t], A2(NT.cat(s, t), pp) == PT.cat(A2(s, pp), A2(t, pp)), A2(NT.cat(s, t), pp)),
            FA([n], L1(n) == If(NT.len(c[n]) > 0, L2(c[n]), NT.unit(n)), L1(n)), L2(NT.empty) == NT.empty, FA([n], L2(NT.unit(n)) == L1(n), L2(NT.unit(n))), FA([s, t], L2(NT.cat(s, t)) == NT.cat(L2(s), L2(t)), L2(NT.cat(s, t))),
            LL(PT.empty) == NT.empty, FA([e], LL(PT.unit(e)) == NT.unit(LST(e)), LL(PT.unit(e))), FA([a, b], LL(PT.cat(a, b)) == NT.cat(LL(a), LL(b)), LL(PT.cat(a, b)))]
    down = lambda nd: Implies(NT.len(c[nd]) > 0, LL(A1(cp(nd))) == L1(nd))     # claim for the path prolonged by the node
    many = lambda sq: LL(A2(sq, pp)) == L2(sq)
    return snoc('leaf paths below children', down, many, defs + [NT.len(pp) > 0]) + [('leaf paths', defs + [NT.len(pp) > 0, NT.len(c[LST(pp)]) > 0, many(c[LST(pp)])], LL(A1(pp)) == L1(LST(pp)))]

LEAFAT = 'exists(lambda i: {what} and len(texts(leaves(self)[:i])) <= location and location < len(texts(leaves(self)[:i + 1])), 0, len(leaves(self)))'
# the text of a prefix of a sequence is not longer than the text of the sequence
from .tree import TEXTS, HR, c as c_, r as rr_
PREFIX = lambda T_: ST_.len(T_(NT.slice(s, 0, i))) <= ST_.len(T_(s))
ST_ = Str()
add_axioms('paths.prefixtext', ({'spec.leaves'}, [FA([c_, rr_, s, i], Implies(And(0 <= i, i <= NT.len(s)), PREFIX(lambda q: TEXTS(c_, rr_, q))), TEXTS(c_, rr_, NT.slice(s, 0, i)))]))

@lemma('text of a prefix', ['C11'])
def _():
    T_ = z3.Function('lem.texts', NT.sort, ST_.sort)
    l, q = NT.slice(s, 0, i), NT.slice(s, i, NT.len(s))
    return [('split', [0 <= i, i <= NT.len(s)], NT.eqq(s, NT.cat(l, q))), ('length', [s == NT.cat(l, q), T_(NT.cat(l, q)) == ST_.cat(T_(l), T_(q))], PREFIX(T_)),
            ('sum', [s == NT.cat(l, q)], TEXTS(c_, rr_, NT.cat(l, q)) == ST_.cat(TEXTS(c_, rr_, l), TEXTS(c_, rr_, q)))]

C(M, 'Node.locate', {'self': 'Node', 'location': 'int'}, 'Node?', ensures=['(result is None) == (location < 0 or location >= len(text(self)))',
  'implies(result is not None, ' + LEAFAT.format(what='result is leaves(self)[i]') + ')'],
  loops=[Loop(['end == len(texts(_it[:_i]))', 'end <= location', '_it == leaves(self)', 'forall(lambda j: len(texts(_it[:j])) <= len(text(self)), 0, len(_it) + 1)'], hints=['texts(_it[:_i])', 'texts(_it[:_i+1])'])], **P)
C(M, 'Node.locate_path', {'self': 'Node', 'location': 'int'}, '[Node]', ensures=['(len(result) == 0) == (location < 0 or location >= len(text(self)))',
  'implies(len(result) > 0, result[0] is self and ' + LEAFAT.format(what='result[len(result) - 1] is leaves(self)[i]') + ')'],
  allow=('seq+list',), loops=[Loop(['end == len(texts(lasts(_it[:_i])))', 'end <= location', 'lasts(_it) == leaves(self)', 'implies(_i == len(_it), lasts(_it[:_i]) == leaves(self))', 'forall(lambda j: len(texts(lasts(_it[:j]))) <= len(text(self)), 0, len(_it) + 1)'], hints=['lasts(_it[:_i])', 'lasts(_it[:_i+1])', 'texts(lasts(_it[:_i+1]))'])], steps=['implies(location < end, end <= len(text(self)))', 'implies(len(ret) > 0, location < len(text(self)))'], **P)
# ---- from a node to its path
DESCOF = 'desc(self, False)'
PCHAIN = lambda p, up, down: f'forall(lambda j: ' + ISCHILD(f'{p}[{up}]', f'{p}[{down}]') + f', 0, len({p}) - 1)'
# what is an item of s or below an item of s is below s
DM_HYP = lambda: Or(NT.at(s, i) == y_, NT.mem(y_, DESC(c, NT.at(s, i), r_)))
add_axioms('paths.descmem', ({'spec.descs'}, [FA([c, s, i, y_, r_], Implies(And(0 <= i, i < NT.len(s), DM_HYP()), NT.mem(y_, DESCS(c, s, r_))), z3.MultiPattern(NT.mem(y_, DESCS(c, s, r_)), NT.at(s, i)))]))

@lemma('descendants of the items of a sequence', ['C11'])
def _():
    l, r, u = NT.slice(s, 0, i), NT.slice(s, i + 1, NT.len(s)), NT.unit(NT.at(s, i))
    split = s == NT.cat(l, NT.cat(u, r))
    return [('split', [0 <= i, i < NT.len(s)], NT.eqq(s, NT.cat(l, NT.cat(u, r)))),
            ('member', [0 <= i, i < NT.len(s), split, DM_HYP(), DESCS(c, s, r_) == NT.cat(DESCS(c, l, r_), NT.cat(NT.cat(u, DESC(c, NT.at(s, i), r_)), DESCS(c, r, r_)))], NT.mem(y_, DESCS(c, s, r_))),
            ('sum', [split], DESCS(c, NT.cat(l, NT.cat(u, r)), r_) == NT.cat(DESCS(c, l, r_), NT.cat(NT.cat(u, DESC(c, NT.at(s, i), r_)), DESCS(c, r, r_))))]

C(M, 'Node._reconstruct_path_recursive', {'self': 'Node', 'node': 'Node'}, 'list[Node]', fresh=True,
  ensures=[f'(len(result) > 0) == (node in {DESCOF})', 'implies(len(result) > 0, len(result) >= 2 and result[0] is node and result[len(result) - 1] is self)', PCHAIN('result', 'j + 1', 'j')],
  loops=[Loop(['node not in descs(self._children[:_i], False)'], hints=['descs(self._children[:_i], False)', 'descs(self._children[:_i+1], False)'])],
  steps=['implies(len(ret) >= 2, exists(lambda c: self._children[c] is ret[len(ret) - 2] and (len(ret) == 2 or node in desc(self._children[c], False)), 0, len(self._children)))',
         'implies(len(ret) >= 2, node in descs(self._children, False))', f'(len(ret) > 0) == (node in {DESCOF})',
         'forall(lambda j: exists(lambda c: ret[j + 1]._children[c] is ret[j], 0, len(ret[j + 1]._children)), 0, len(ret) - 2)'], **P)
C(M, 'Node.reconstruct_path', {'self': 'Node', 'node': 'Node'}, 'list[Node]', raises=[('ValueError', f'node is not self and node not in {DESCOF}')],
  ensures=['len(result) > 0 and result[len(result) - 1] is node and result[0] is self', PCHAIN('result', 'j', 'j + 1')], **P)
C(M, 'Node.indices', {'self': 'Node', 'selector': NB}, '[int]', variant='fn',
  ensures=['forall(lambda j: 0 <= result[j] and result[j] < len(self._children) and selector(self._children[result[j]]), 0, len(result))', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(result), result[i] < result[j]))',
           'forall(lambda q: implies(selector(self._children[q]), exists(lambda j: result[j] == q, 0, len(result))), 0, len(self._children))'], **P)
PICK = 'fn[(Node)->Node]'
RL = 'as_kind(result, "list[Node]")'
C(M, 'zoom_into_path', {'path': 'list[Node]?', 'pick_child': PICK, 'steps': 'int'}, 'list[Node]?', fresh=True,
  ensures=['(result is None) == (path is None or len(path) == 0)', f'implies(result is not None, len({RL}) >= len(path) and seq({RL})[:len(path)] == seq(as_kind(path, "list[Node]")))',
           f'implies(result is not None, forall(lambda j: {RL}[j + 1] is pick_child({RL}[j]) and len({RL}[j]._children) > 0, len(path) - 1, len({RL}) - 1))',
           f'implies(result is not None, (steps < 0 or len({RL}) - len(path) <= steps) and (len({RL}[len({RL}) - 1]._children) == 0 or len({RL}) - len(path) == steps))'],
  loops=[Loop(['len(trl) >= len(path) and seq(trl)[:len(path)] == seq(as_kind(path, "list[Node]")) and top is trl[len(trl) - 1]', 'old(steps) - steps == len(trl) - len(path) and implies(old(steps) >= 0, steps >= 0)',
               'forall(lambda j: trl[j + 1] is pick_child(trl[j]) and len(trl[j]._children) > 0, len(path) - 1, len(trl) - 1)'])], **P)
add_axioms('paths.selmem', ({'spec.selected'}, [FA([c, n, m, k, y_, r_], Or(AP(k, W2(k)), NT.mem(y_, SEL(c, n, m, k, r_)) == And(NT.mem(y_, DESC(c, n, r_)), AP(m, y_))), NT.mem(y_, SEL(c, n, m, k, r_)))]))

@lemma('members of a selection', ['C11'])
def _():
    S1, S2, D1, D2 = z3.Function('lem.sel', Ref, NT.sort), z3.Function('lem.sels', NT.sort, NT.sort), z3.Function('lem.desc', Ref, NT.sort), z3.Function('lem.descs', NT.sort, NT.sort)
    CH = z3.Function('lem.ch', Ref, NT.sort)      # the children, possibly in reverse order
    defs = [FA([n], S1(n) == S2(CH(n)), S1(n)), S2(NT.empty) == NT.empty, FA([n], S2(NT.unit(n)) == NT.cat(If(AP(m, n), NT.unit(n), NT.empty), If(NT.len(c[n]) > 0, S1(n), NT.empty)), S2(NT.unit(n))),
            FA([s, t], S2(NT.cat(s, t)) == NT.cat(S2(s), S2(t)), S2(NT.cat(s, t))),
            FA([n], D1(n) == D2(CH(n)), D1(n)), D2(NT.empty) == NT.empty, FA([n], D2(NT.unit(n)) == NT.cat(NT.unit(n), D1(n)), D2(NT.unit(n))), FA([s, t], D2(NT.cat(s, t)) == NT.cat(D2(s), D2(t)), D2(NT.cat(s, t)))]
    one = lambda nd: NT.mem(y_, S1(nd)) == And(NT.mem(y_, D1(nd)), AP(m, y_))
    many = lambda sq: NT.mem(y_, S2(sq)) == And(NT.mem(y_, D2(sq)), AP(m, y_))
    w = z3.Function('lem.w', NT.sort, INT)(s); x_ = z3.Const('lem!x', Ref)
    leafless = FA([n], Implies(NT.len(c[n]) == 0, D1(n) == NT.empty), D1(n))
    allm = FA([s], Or(many(s), And(0 <= w, w < NT.len(s), Not(one(NT.at(s, w))))), S2(s))
    IH = FA([x_], Implies(RANK(c, x_) < RANK(c, n), one(x_)), RANK(c, x_))
    isch = [FA([n], NT.len(CH(n)) == NT.len(c[n]), CH(n)), FA([n, i], Implies(And(0 <= i, i < NT.len(c[n])), NT.at(CH(n), i) == If(r_, NT.at(c[n], NT.len(c[n]) - 1 - i), NT.at(c[n], i))), NT.at(CH(n), i))]
    kids = FA([i], Implies(And(0 <= i, i < NT.len(CH(n))), RANK(c, NT.at(CH(n), i)) < RANK(c, n)), NT.at(CH(n), i))
    return [('rank', isch, Implies(And(0 <= i, i < NT.len(CH(n))), RANK(c, NT.at(CH(n), i)) < RANK(c, n))), ('leaf', defs + isch + [NT.len(c[n]) == 0], D1(n) == NT.empty)] + snoc('items', one, many, defs + [leafless]) + [('node', [d for d in defs] + [IH, allm, kids], one(n))]

C(M, 'Node.find_parent', {'self': 'Node', 'node': 'Node'}, 'Node?',
  ensures=['implies(result is not None, node in result._children and (result is self or result in desc(self, False)))',
           'implies(result is None, node not in self._children and forall(lambda x: implies(x in desc(self, False), node not in x._children), kinds={"x": "Node"}, trigger=(x in desc(self, False))))'],
  loops=[Loop(['forall(lambda j: node not in _it[j]._children, 0, _i)', 'implies(len(self._children) > 0, self in _it)', 'forall(lambda x: implies(x in desc(self, False) and len(x._children) > 0, x in _it), kinds={"x": "Node"}, trigger=(x in desc(self, False)))',
               'forall(lambda x: implies(x in _it, x is self or x in desc(self, False)), kinds={"x": "Node"}, trigger=(x in _it))'])], **P)
# ---- structural equality (C10)
P10 = {'props': ['C10']}
AD = lambda x: f'as_kind({x}._attributes, "dict[str,str]")'
NOATTR = lambda x: f'({x}._attributes is None or len({AD(x)}) == 0)'
SAMEATTR = f'ite({NOATTR("self")} or {NOATTR("other")}, {NOATTR("self")} and {NOATTR("other")}, {AD("self")} == {AD("other")})'
C(M, 'Node.has_equal_attr', {'self': 'Node', 'other': 'Node', 'ignore_order': 'bool'}, 'bool', requires=['ignore_order'], ensures=[f"result == old({SAMEATTR})"], modifies=['self._attributes', 'other._attributes'], **P10)
C(M, 'Node.attr@setter', {'self': 'Node', 'attr_dict': 'dict[str,str]'}, 'none', modifies=['self._attributes'], ensures=['self._attributes is attr_dict'], **P10)
HAS = lambda x, k: f'({x}._attributes is not None and {k} in {AD(x)})'
C(M, 'Node.replace_by', {'self': 'Node', 'replacement': 'Node', 'merge_attr': 'bool'}, 'none', requires=['self is not replacement', 'implies(self._attributes is not None, self._attributes is not replacement._attributes)', 'not subnode(replacement, self)'],
  modifies=['self.name', 'self._children', 'self._result', 'self._attributes', '*Node._pos', '*dict[str,str]', 'replacement._attributes'], raises=[],
  entry_hints=['self._attributes', 'replacement._attributes'],
  ensures=['self.name == replacement.name', 'self._children == old(replacement._children)', 'text(self) == old(text(replacement))',
           f'forall(lambda k: {HAS("self", "k")} == old(ite({HAS("replacement", "k")}, True, {HAS("self", "k")} and (merge_attr or {NOATTR("replacement")}))), kinds={{"k": "str"}})',
           f'forall(lambda k: implies({HAS("self", "k")}, {AD("self")}[k] == old(ite({HAS("replacement", "k")}, {AD("replacement")}[k], {AD("self")}[k]))), kinds={{"k": "str"}})',
           'implies(old(self._pos) >= 0, self._pos == old(self._pos))', 'implies(old(self._pos) < 0, self._pos == old(replacement._pos))'], **P10)
