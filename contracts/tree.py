"""Theory of node-trees over the heap (fields Node._children, Node._result, ...), used by the contracts on nodetree, parse and transform.

Specification functions over a tree depend on the heap arrays of the fields they read. Each one is defined by a recursion equation
on the node and a list homomorphism on sequences of nodes, plus a frame rule: two heaps that agree on all nodes of the subtree yield the
same value (proved by induction over the height of the tree, see the lemmas below). Trees are assumed to be finite (no node is its own
descendant)."""
import z3
from pyvc.engine import REG, LoopSpec as Loop, SV
from pyvc.theory import *
from pyvc import theory
from pyvc.theory import add_axioms, seq_theory, Str, union_dt, parse_kind, sort_of
from pyvc.runner import lemma
from . import common, c01_stringview
S, K = REG.spec, REG.klass
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
RES = '[Node]|StringView|str'
RESK = parse_kind(RES)
K('Node', 'nodetree', {'name': 'str', '_result': RES, '_children': '[Node]', '_pos': 'int', '_attributes': 'dict[str,str]?'}, lazy=True, truthy=True, unset=['_attributes'],
  inv=['ite(isa(self._result, tuple), len(self._children) > 0 and as_kind(self._result, "[Node]") == self._children, len(self._children) == 0)'])
NT = seq_theory(Ref); ST = Str()
HC = z3.ArraySort(Ref, NT.sort); HR = z3.ArraySort(Ref, sort_of(RESK)); HI = z3.ArraySort(Ref, INT); HN = z3.ArraySort(Ref, ST.sort)
c, c2 = z3.Consts('tr!c tr!c2', HC); r, r2 = z3.Consts('tr!r tr!r2', HR); p, p2 = z3.Consts('tr!p tr!p2', HI)
n, y, x = z3.Consts('tr!n tr!y tr!x', Ref); s, t = z3.Consts('tr!s tr!t', NT.sort); i, T = z3.Ints('tr!i tr!T')
FA = lambda vs, b, *ps: z3.ForAll(vs, b, patterns=list(ps))
MP = z3.MultiPattern
rv = union_dt(RESK)[1]
SVK, STK = parse_kind('StringView'), parse_kind('str')
_svf = {f: z3.Function(f'StringView.{f}', Ref, srt) for f, srt in (('_text', ST.sort), ('_begin', INT), ('_end', INT))}
def view_t(o): return ST.slice(_svf['_text'](o), _svf['_begin'](o), _svf['_end'](o))
def strof(v):
    """the text of a leaf's result"""
    return If(rv[STK][1](v), rv[STK][2](v), If(rv[SVK][1](v), view_t(rv[SVK][2](v)), ST.empty))

# ---- subtree relation
SUB = z3.Function('tree.sub', HC, Ref, Ref, BOOL)
RANK = z3.Function('tree.rank', HC, Ref, INT)
CLOSED = z3.Function('tree.closed', HC, INT, BOOL)
ACYCLIC = z3.Function('tree.acyclic', HC, BOOL)       # no node is its own descendant
theory.HEAP_GUARD[:] = [(HC, ACYCLIC, lambda name: 'Node._children' in name or name.startswith('tr!'))]
BASE = [FA([c, n], And(RANK(c, n) >= 0, SUB(c, n, n)), RANK(c, n)),
        FA([c, n, i], Implies(And(0 <= i, i < NT.len(c[n])), And(SUB(c, n, NT.at(c[n], i)), RANK(c, NT.at(c[n], i)) < RANK(c, n))), NT.at(c[n], i)),
        FA([c, n, y, i], Implies(And(0 <= i, i < NT.len(c[n]), SUB(c, NT.at(c[n], i), y)), SUB(c, n, y)), MP(SUB(c, NT.at(c[n], i), y))),
        FA([c, n, y], Implies(SUB(c, n, y), And(RANK(c, y) <= RANK(c, n), Or(y == n, RANK(c, y) < RANK(c, n)))), SUB(c, n, y)),
        FA([c, n, y, T], Implies(And(CLOSED(c, T), BIRTH(n) <= T, SUB(c, n, y)), BIRTH(y) <= T), MP(CLOSED(c, T), SUB(c, n, y)))]
add_axioms('tree', ({'tree.sub', 'tree.rank'}, BASE))

S('subnode', [('n', 'Node'), ('y', 'Node')], 'bool', None, heap=['Node._children'])
add_axioms('tree.subnode', ({'spec.subnode'}, [FA([c, n, y], z3.Function('spec.subnode', HC, Ref, Ref, BOOL)(c, n, y) == SUB(c, n, y), z3.Function('spec.subnode', HC, Ref, Ref, BOOL)(c, n, y))]))
S('rank', [('n', 'Node')], 'int', None, heap=['Node._children'])
add_axioms('tree.rankspec', ({'spec.rank'}, [FA([c, n], z3.Function('spec.rank', HC, Ref, INT)(c, n) == RANK(c, n), z3.Function('spec.rank', HC, Ref, INT)(c, n))]))

_fields = {'Node._children': HC, 'Node._result': HR, 'Node._pos': HI, 'Node.name': HN}

def treefn(name, ret, extra, leaf, unit, seqof=None, fields=(), same=None, nodeval=None, congr=False):
    """name(n, *extra): value of a node; name+'s'(s, *extra): homomorphism over sequences of nodes.
    name(n) = leaf or name+'s'(seqof(children));  name+'s'(unit e) = unit(e).
    same(h, h2, y): the two heaps agree on everything the function reads at node y (besides its children)
    congr: nodes with different fields but the same value do not matter, either (unit must be the value of the node)"""
    heaps = ['Node._children'] + list(fields)
    sorts = [_fields[f] for f in heaps]
    retk = parse_kind(ret); rs = sort_of(retk)
    xk = [(a, parse_kind(b)) for a, b in extra]
    xs = [z3.Const(f'tr!{name}!{a}', sort_of(k)) for a, k in xk]
    F = z3.Function('spec.' + name, *sorts, Ref, *[v.sort() for v in xs], rs)
    G = z3.Function('spec.' + name + 's', *sorts, NT.sort, *[v.sort() for v in xs], rs)
    S(name, [('n', 'Node')] + list(extra), ret, None, heap=heaps)
    S(name + 's', [('s', '[Node]')] + list(extra), ret, None, heap=heaps).hom_decl = True
    h1 = [z3.Const(f'tr!h1!{f}', so) for f, so in zip(heaps, sorts)]
    h2 = [z3.Const(f'tr!h2!{f}', so) for f, so in zip(heaps, sorts)]
    if retk == INTK: e0, op = z3.IntVal(0), lambda a, b: a + b
    elif retk == BOOLK: e0, op = z3.BoolVal(True), And
    else:
        th = ST if retk == STRK else seq_theory(sort_of(retk[1])); e0, op = th.empty, th.cat
    f = lambda h, nd, *a: F(*h, nd, *(a or xs)); g = lambda h, sq, *a: G(*h, sq, *(a or xs))
    ch = h1[0][n]
    W = z3.Function(f'tree.diff.{name}', *sorts, *sorts, Ref, *[v.sort() for v in xs], Ref)
    WI = z3.Function(f'tree.diffs.{name}', *sorts, *sorts, NT.sort, *[v.sort() for v in xs], INT)
    wy = z3.Function(f'tree.diffn.{name}', *sorts, *sorts, NT.sort, *[v.sort() for v in xs], Ref)(*h1, *h2, s, *xs)
    w = W(*h1, *h2, n, *xs); wi = WI(*h1, *h2, s, *xs)
    sq = seqof(ch, xs) if seqof else ch
    val = g(h1, sq) if nodeval is None else nodeval(h1, n, xs, g)
    if leaf is not None: val = If(NT.len(ch) > 0, val, leaf(h1, n, xs))
    def agree(yy): return And(h1[0][yy] == h2[0][yy], same(h1, h2, yy)) if same else h1[0][yy] == h2[0][yy]
    if congr:
        Fm = z3.Function('mirror.' + name, *sorts, Ref, *[v.sort() for v in xs], rs); MIRROR[name] = (F, Fm)
        fm = lambda h, nd: Fm(*h, nd, *xs)
    diff = lambda y: And(Not(agree(y)), fm(h1, y) != fm(h2, y)) if congr else Not(agree(y))
    def definitions(F, G):
        f = lambda h, nd, *a: F(*h, nd, *(a or xs)); g = lambda h, sq, *a: G(*h, sq, *(a or xs))
        val = g(h1, sq) if nodeval is None else nodeval(h1, n, xs, g)
        if leaf is not None: val = If(NT.len(ch) > 0, val, leaf(h1, n, xs))
        return [FA(h1 + [n] + xs, f(h1, n) == val, f(h1, n)),
                FA(h1 + xs, g(h1, NT.empty) == e0, g(h1, NT.empty)),
                FA(h1 + [n] + xs, g(h1, NT.unit(n)) == unit(h1, n, xs, f, g), g(h1, NT.unit(n))),
                FA(h1 + [s, t] + xs, g(h1, NT.cat(s, t)) == op(g(h1, s), g(h1, t)), g(h1, NT.cat(s, t)))]
    A = definitions(F, G) + [
         FA(h1 + h2 + [n] + xs, Or(f(h1, n) == f(h2, n), And(SUB(h1[0], n, w), diff(w))), MP(f(h1, n), f(h2, n))),
         FA(h1 + h2 + [s] + xs, Or(g(h1, s) == g(h2, s), And(0 <= wi, wi < NT.len(s), SUB(h1[0], NT.at(s, wi), wy), diff(wy))), MP(g(h1, s), g(h2, s)))]
    if congr:              # (the twin keeps the witnesses from being expanded again)
        A.append(FA(h1 + [n] + xs, fm(h1, n) == f(h1, n), MP(fm(h1, n), f(h1, n))))
    if retk == BOOLK:      # conjunction: every item fulfils it
        one = lambda h, e: unit(h, e, xs, f, g)
        A.append(FA(h1 + [s, i] + xs, Implies(And(g(h1, s), 0 <= i, i < NT.len(s)), one(h1, NT.at(s, i))), MP(g(h1, s), NT.at(s, i))))
    add_axioms('tree.' + name, ({'spec.' + name, 'spec.' + name + 's', 'tree.sub'}, A))
    # proof of the two frame rules: A[5] by induction over the sequence, A[4] by induction over the rank
    def prove():
        F_, G_ = z3.Function('lem.' + name, *sorts, Ref, *[v.sort() for v in xs], rs), z3.Function('lem.' + name + 's', *sorts, NT.sort, *[v.sort() for v in xs], rs)
        defs = definitions(F_, G_)
        g_ = lambda h, sq: G_(*h, sq, *xs); f_ = lambda h, nd: F_(*h, nd, *xs)
        out = snoc(name + 's depends on the items only', lambda e: g_(h1, NT.unit(e)) == g_(h2, NT.unit(e)), lambda sq: g_(h1, sq) == g_(h2, sq), defs)
        wi_ = z3.Function('lem.w', *sorts, *sorts, NT.sort, *[v.sort() for v in xs], INT)(*h1, *h2, s, *xs)
        gframe = FA(h1 + h2 + [s] + xs, Or(g_(h1, s) == g_(h2, s), And(0 <= wi_, wi_ < NT.len(s), g_(h1, NT.unit(NT.at(s, wi_))) != g_(h2, NT.unit(NT.at(s, wi_))))), MP(g_(h1, s), g_(h2, s)))
        agree_ = (lambda y: Or(agree(y), f_(h1, y) == f_(h2, y))) if congr else agree
        below = FA([y], Implies(SUB(h1[0], n, y), agree_(y)), SUB(h1[0], n, y))
        if retk == BOOLK:
            G1 = lambda sq: G_(*h1, sq, *xs); u1 = lambda e: unit(h1, e, xs, f_, g_)
            item = lambda sq: FA([i], Implies(And(G1(sq), 0 <= i, i < NT.len(sq)), u1(NT.at(sq, i))), NT.at(sq, i))
            k = z3.Int('lem!k'); cat = NT.cat(s, NT.unit(n))
            out += [(name + 's: items, empty', defs, item(NT.empty)),
                    (name + 's: items, step', defs[1:] + [item(s)], Implies(And(G1(cat), 0 <= k, k < NT.len(cat)), u1(NT.at(cat, k))))]
        IH = FA([x], Implies(And(RANK(h1[0], x) < RANK(h1[0], n), FA([y], Implies(SUB(h1[0], x, y), agree_(y)), SUB(h1[0], x, y))), f_(h1, x) == f_(h2, x)), f_(h1, x))
        # the recursion equation is used for n only
        def at_n(h): return z3.substitute(f_eq, *zip(h1, h)) if h is not h1 else f_eq
        f_eq = z3.substitute_vars(defs[0].body(), *reversed(h1 + [n] + xs))
        sq_ = seqof(h1[0][n], xs) if seqof else h1[0][n]
        gf = z3.substitute_vars(gframe.body(), *reversed(h1 + h2 + [sq_] + xs))
        # both combined: sequences with different values contain an item with a node where the heaps differ
        out.append((name + ' of one item', [d for d in defs if d is not defs[0]] + [below, SUB(h1[0], n, n), f_(h1, n) == f_(h2, n)], g_(h1, NT.unit(n)) == g_(h2, NT.unit(n))))
        return out + [(name + ' depends on the subtree only', defs[1:] + [at_n(h1), at_n(h2), gf, IH, below, SUB(h1[0], n, n)], f_(h1, n) == f_(h2, n))]
    lemma('frame rule of ' + name, ['C05', 'C10', 'C11', 'C14'])(prove)
    return F, G

def snoc(label, Q, R, hyps=()):
    """induction over sequences of nodes: if every item satisfies Q, then R(sequence)"""
    return [(label + ': empty', list(hyps), R(NT.empty)),
            (label + ': step', list(hyps) + [FA([i], Implies(And(0 <= i, i < NT.len(s)), Q(NT.at(s, i))), NT.at(s, i)), Q(n), R(s)], R(NT.cat(s, NT.unit(n))))]

# ---- text content
def leaf_same(h, h2, yy): return Or(NT.len(h[0][yy]) > 0, strof(h[1][yy]) == strof(h2[1][yy]))
TEXT, TEXTS = treefn('text', 'str', [], lambda h, nd, xs: strof(h[1][nd]), lambda h, e, xs, f, g: f(h, e), fields=['Node._result'], same=leaf_same, congr=True)
# ---- all descendants in document order (not including the node itself); r: reverse order
REV = lambda ch, rr: If(rr, NT.rev(ch), ch)
DESC, DESCS = treefn('desc', '[Node]', [('r', 'bool')], None, lambda h, e, xs, f, g: NT.cat(NT.unit(e), f(h, e)), seqof=lambda ch, xs: REV(ch, xs[0]))
# ---- well-formed: all nodes have a (non-empty) name and the result of leaves is a plain string
_isstr = rv[STK][1]
NAMED, NAMEDS = treefn('wf', 'bool', [], None, lambda h, e, xs, f, g: f(h, e), fields=['Node.name', 'Node._result'],
                       same=lambda h, h2, yy: And(ST.len(h[1][yy]) == ST.len(h2[1][yy]), Or(NT.len(h[0][yy]) > 0, _isstr(h[2][yy]) == _isstr(h2[2][yy]))),
                       nodeval=lambda h, nd, xs, g: And(ST.len(h[1][nd]) >= 1, Or(NT.len(h[0][nd]) > 0, _isstr(h[2][nd])), g(h, h[0][nd])))
# ---- selected descendants: m: match, k: skip condition
NB = 'fn[(Node)->bool]'
AP = fnapply(parse_kind(NB))
SEL, SELS = treefn('selected', '[Node]', [('m', NB), ('k', NB), ('r', 'bool')], None,
   lambda h, e, xs, f, g: NT.cat(If(AP(xs[0], e), NT.unit(e), NT.empty), If(And(NT.len(h[0][e]) > 0, Not(AP(xs[1], e))), f(h, e), NT.empty)), seqof=lambda ch, xs: REV(ch, xs[2]))

# ---- selected paths below the last node of a path
PB = 'fn[([Node])->bool]'
APB = fnapply(parse_kind(PB)); FB = fnsort(parse_kind(PB))
PT = seq_theory(NT.sort)
PS = z3.Function('spec.selpaths', HC, NT.sort, FB, FB, BOOL, PT.sort)
PSS = z3.Function('spec.selpathss', HC, NT.sort, NT.sort, FB, FB, BOOL, PT.sort)
S('selpaths', [('p', '[Node]'), ('m', PB), ('k', PB), ('r', 'bool')], '[[Node]]', None, heap=['Node._children'])
S('selpathss', [('s', '[Node]'), ('p', '[Node]'), ('m', PB), ('k', PB), ('r', 'bool')], '[[Node]]', None, heap=['Node._children'])
_m, _k = z3.Consts('tr!m tr!k', FB); _r = z3.Bool('tr!r'); _p = z3.Const('tr!path', NT.sort)
_last = NT.at(_p, NT.len(_p) - 1)
def _ps_unit(e):
    cp = NT.cat(_p, NT.unit(e))
    return PT.cat(If(APB(_m, cp), PT.unit(cp), PT.empty), If(And(NT.len(c[e]) > 0, Not(APB(_k, cp))), PS(c, cp, _m, _k, _r), PT.empty))
add_axioms('tree.selpaths', ({'spec.selpaths', 'spec.selpathss'}, [
    FA([c, _p, _m, _k, _r], Implies(NT.len(_p) > 0, PS(c, _p, _m, _k, _r) == PSS(c, REV(c[_last], _r), _p, _m, _k, _r)), PS(c, _p, _m, _k, _r)),
    FA([c, _p, _m, _k, _r], PSS(c, NT.empty, _p, _m, _k, _r) == PT.empty, PSS(c, NT.empty, _p, _m, _k, _r)),
    FA([c, n, _p, _m, _k, _r], PSS(c, NT.unit(n), _p, _m, _k, _r) == _ps_unit(n), PSS(c, NT.unit(n), _p, _m, _k, _r)),
    FA([c, s, t, _p, _m, _k, _r], PSS(c, NT.cat(s, t), _p, _m, _k, _r) == PT.cat(PSS(c, s, _p, _m, _k, _r), PSS(c, t, _p, _m, _k, _r)), PSS(c, NT.cat(s, t), _p, _m, _k, _r))]))
# every selected path extends the given path
_i2 = z3.Int('tr!pi')
def _ext(q, pth): return And(NT.len(q) > NT.len(pth), NT.slice(q, 0, NT.len(pth)) == pth)
def _inr(sq): return And(0 <= _i2, _i2 < PT.len(sq), NT.len(_p) > 0)
add_axioms('tree.selpaths.ext', ({'spec.selpaths', 'spec.selpathss'}, [
    FA([c, _p, _m, _k, _r, _i2], Implies(_inr(PS(c, _p, _m, _k, _r)), _ext(PT.at(PS(c, _p, _m, _k, _r), _i2), _p)), PT.at(PS(c, _p, _m, _k, _r), _i2)),
    FA([c, s, _p, _m, _k, _r, _i2], Implies(_inr(PSS(c, s, _p, _m, _k, _r)), _ext(PT.at(PSS(c, s, _p, _m, _k, _r), _i2), _p)), PT.at(PSS(c, s, _p, _m, _k, _r), _i2))]))

@lemma('selected paths extend the path', ['C10', 'C11', 'C13'])
def _():
    FS = z3.Function('lem.selpaths', NT.sort, PT.sort); FSS = z3.Function('lem.selpathss', NT.sort, NT.sort, PT.sort)
    q = z3.Const('lem!q', NT.sort)
    cp = NT.cat(_p, NT.unit(n))
    unit = FSS(NT.unit(n), _p) == PT.cat(If(APB(_m, cp), PT.unit(cp), PT.empty), If(And(NT.len(c[n]) > 0, Not(APB(_k, cp))), FS(cp), PT.empty))
    defs = [FA([_p], Implies(NT.len(_p) > 0, FS(_p) == FSS(REV(c[_last], _r), _p)), FS(_p)), FSS(NT.empty, _p) == PT.empty,
            FA([s, t], FSS(NT.cat(s, t), _p) == PT.cat(FSS(s, _p), FSS(t, _p)), FSS(NT.cat(s, t), _p))]
    one = lambda q, pth=None: FA([_i2], Implies(And(0 <= _i2, _i2 < PT.len(FS(q))), _ext(PT.at(FS(q), _i2), q)), PT.at(FS(q), _i2))
    many = lambda sq: FA([_i2], Implies(And(0 <= _i2, _i2 < PT.len(FSS(sq, _p))), _ext(PT.at(FSS(sq, _p), _i2), _p)), PT.at(FSS(sq, _p), _i2))
    goal_i = lambda t_: Implies(And(0 <= _i2, _i2 < PT.len(t_)), _ext(PT.at(t_, _i2), _p))
    cat = NT.cat(s, NT.unit(n))
    # items of a unit extend the path if the paths below the node extend the path with the node
    P_ = z3.Function('mention_sp', NT.sort, BOOL); it = PT.at(FSS(NT.unit(n), _p), _i2)
    step = [('item', [unit, NT.len(_p) > 0, one(cp), P_(NT.slice(NT.slice(it, 0, NT.len(_p) + 1), 0, NT.len(_p))), P_(NT.slice(cp, 0, NT.len(_p)))], goal_i(FSS(NT.unit(n), _p))),
            ('empty', defs + [NT.len(_p) > 0], goal_i(FSS(NT.empty, _p))),
            ('sequence', defs + [NT.len(_p) > 0, many(s), many(NT.unit(n))], goal_i(FSS(cat, _p))),
            ('path', defs + [NT.len(_p) > 0, FA([s], Implies(And(0 <= _i2, _i2 < PT.len(FSS(s, _p))), _ext(PT.at(FSS(s, _p), _i2), _p)), FSS(s, _p))], goal_i(FS(_p)))]
    return step

REG.hom('leaftexts', '[Node]', 'str', 'e', "text(e) if len(e._children) == 0 else ''", heap=('Node._children', 'Node._result'))
LT = z3.Function('spec.leaftexts', HC, HR, NT.sort, ST.sort)
_f = z3.BoolVal(False)
# the leaves below a sequence of nodes, in document order, carry exactly its text
add_axioms('tree.leaftexts', ({'spec.leaftexts'}, [FA([c, r, s], LT(c, r, DESCS(c, s, _f)) == TEXTS(c, r, s), LT(c, r, DESCS(c, s, _f))),
                                                   FA([c, r, n], LT(c, r, DESC(c, n, _f)) == If(NT.len(c[n]) > 0, TEXT(c, r, n), ST.empty), LT(c, r, DESC(c, n, _f)))]))

@lemma('leaftexts', ['C10', 'C11'])
def _():
    # joint induction over the rank; the axioms of this group are not used: lt is a copy of leaftexts with its defining equations only
    lt = z3.Function('lem.leaftexts', HC, HR, NT.sort, ST.sort)
    defs = [lt(c, r, NT.empty) == ST.empty, FA([n], lt(c, r, NT.unit(n)) == If(NT.len(c[n]) == 0, TEXT(c, r, n), ST.empty), lt(c, r, NT.unit(n))),
            FA([s, t], lt(c, r, NT.cat(s, t)) == ST.cat(lt(c, r, s), lt(c, r, t)), lt(c, r, NT.cat(s, t)))]
    one = lambda nd: lt(c, r, DESC(c, nd, _f)) == If(NT.len(c[nd]) > 0, TEXT(c, r, nd), ST.empty)
    many = lambda sq: lt(c, r, DESCS(c, sq, _f)) == TEXTS(c, r, sq)
    wj = z3.Function('lem.wj', NT.sort, INT)(s)
    allmany = FA([s], Or(many(s), And(0 <= wj, wj < NT.len(s), Not(one(NT.at(s, wj))))), DESCS(c, s, _f))
    IH = FA([x], Implies(RANK(c, x) < RANK(c, n), one(x)), DESC(c, x, _f))
    return snoc('leaftexts of descs', one, many, defs) + [('leaftexts of desc', defs + [IH, allmany], one(n))]

WO = z3.Function('spec.without', NT.sort, Ref, NT.sort)
WI = z3.Function('tree.without.w', NT.sort, Ref, INT)
REG.hom('without', '[Node]', '[Node]', 'e', '() if e is node else (e,)', extra=[('node', 'Node')])
wi = WI(s, n)
add_axioms('tree.without', ({'spec.without'}, [FA([s, n], NT.len(WO(s, n)) <= NT.len(s), WO(s, n)),
    FA([s, n, i], Implies(And(0 <= i, i < NT.len(s), NT.at(s, i) == n), NT.len(WO(s, n)) < NT.len(s)), MP(WO(s, n), NT.at(s, i))),
    FA([s, n], Or(NT.len(WO(s, n)) < NT.len(s), WO(s, n) == s), WO(s, n)),
    FA([s, n], Implies(NT.len(WO(s, n)) < NT.len(s), And(0 <= wi, wi < NT.len(s), NT.at(s, wi) == n)), WO(s, n))]))

@lemma('without', ['C10'])
def _():
    W = z3.Function('lem.without', NT.sort, Ref, NT.sort)
    defs = [W(NT.empty, x) == NT.empty, FA([n], W(NT.unit(n), x) == If(n == x, NT.empty, NT.unit(n)), W(NT.unit(n), x)),
            FA([s, t], W(NT.cat(s, t), x) == NT.cat(W(s, x), W(t, x)), W(NT.cat(s, t), x))]
    cat = NT.cat(s, NT.unit(n)); P = lambda q, j: Implies(And(0 <= j, j < NT.len(q), NT.at(q, j) == x), NT.len(W(q, x)) < NT.len(q))
    k = z3.Int('lem!k')
    both = lambda q: And(NT.len(W(q, x)) <= NT.len(q), Or(NT.len(W(q, x)) < NT.len(q), W(q, x) == q))
    return [('empty', defs, And(both(NT.empty), P(NT.empty, k))), ('shorter or equal', defs + [both(s)], both(cat)),
            ('shorter if it occurs', defs + [both(s), FA([i], P(s, i), NT.at(s, i))], P(cat, k))] \
           + snoc('equal if it does not occur', lambda e: e != x, lambda q: W(q, x) == q, defs)
