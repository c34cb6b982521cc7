"""Sorts, kinds and axioms (sequences, spec functions) for z3."""
import z3

Ref = z3.DeclareSort('Ref')
Val = z3.DeclareSort('Val')
INT = z3.IntSort()
BOOL = z3.BoolSort()

class Unsupported(Exception):
    """The code (or spec) is outside of the verifier's subset."""

class KindError(Exception):
    pass

# ------------------------------------------------------------------ kinds

INTK = ('int',); BOOLK = ('bool',); STRK = ('str',); NONEK = ('none',); ANYK = ('any',); NEVER = ('never',)

def parse_kind(s):
    """'int', 'T?', 'A|B', '[T]' (tuple of unknown length / immutable sequence), 'list[T]',
    'dict[K,V]', 'set[K]', '(A,B)', 'fn[(A,B)->R]', '$Sort' (opaque sort), ClassName"""
    if not isinstance(s, str):
        return s
    toks = []
    i = 0
    while i < len(s):
        c = s[i]
        if c.isspace(): i += 1
        elif s.startswith('->', i): toks.append('->'); i += 2
        elif c.isalnum() or c in '_$.':
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] in '_$.'): j += 1
            toks.append(s[i:j]); i = j
        else: toks.append(c); i += 1
    pos = [0]
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else None
    def eat(t=None):
        x = peek()
        if t is not None and x != t: raise ValueError(f'kind {s!r}: expected {t} got {x}')
        pos[0] += 1
        return x
    def union():
        ks = [postfix()]
        while peek() == '|':
            eat(); ks.append(postfix())
        return mk_union(ks)
    def postfix():
        k = atom()
        while peek() == '?':
            eat(); k = mk_union([NONEK, k])
        return k
    def atom():
        t = eat()
        if t == '[':
            k = union(); eat(']'); return ('seq', k)
        if t == '(':
            ks = []
            while peek() != ')':
                ks.append(union())
                if peek() == ',': eat()
            eat(')')
            return ('tup', tuple(ks))
        if t in ('int', 'bool', 'str', 'none', 'any', 'never', 'slice'): return (t,)
        if t == 'None': return NONEK
        if t == 'list': eat('['); k = union(); eat(']'); return ('list', k)
        if t == 'set': eat('['); k = union(); eat(']'); return ('set', k)
        if t == 'dict':
            eat('['); k = union(); eat(','); v = union(); eat(']'); return ('dict', k, v)
        if t == 'fn':
            eat('['); a = atom(); eat('->'); r = union(); eat(']')
            return ('fn', a[1], r)
        if t.startswith('$'): return ('val', t[1:])
        return ('ref', t)
    k = union()
    if pos[0] != len(toks): raise ValueError(f'bad kind {s!r}')
    return k

def mk_union(ks):
    flat = []
    for k in ks:
        for a in (k[1] if k[0] == 'union' else (k,)):
            if a not in flat and a != NEVER: flat.append(a)
    if not flat: return NEVER
    if len(flat) == 1: return flat[0]
    return ('union', tuple(sorted(flat, key=kname)))

def join_kinds(a, b):
    if a == b: return a
    if a == NEVER: return b
    if b == NEVER: return a
    if a[0] == 'tup' and b[0] == 'tup':
        if len(a[1]) == len(b[1]):
            return ('tup', tuple(join_kinds(x, y) for x, y in zip(a[1], b[1])))
        return join_kinds(tup_to_seq(a), tup_to_seq(b))
    if a[0] == 'tup' and b[0] == 'seq': return join_kinds(tup_to_seq(a), b)
    if b[0] == 'tup' and a[0] == 'seq': return join_kinds(a, tup_to_seq(b))
    if a[0] == 'seq' and b[0] == 'seq': return ('seq', join_kinds(a[1], b[1]))
    if a[0] == 'list' and b[0] == 'list' and NEVER in (a[1], b[1]):
        return ('list', join_kinds(a[1], b[1]))
    if a[0] == 'union' or b[0] == 'union':
        xs = list(a[1] if a[0] == 'union' else (a,))
        for y in (b[1] if b[0] == 'union' else (b,)):
            for n, x in enumerate(xs):
                if x[0] in ('seq', 'tup') and y[0] in ('seq', 'tup'):
                    xs[n] = join_kinds(x, y); break
            else:
                xs.append(y)
        return mk_union(xs)
    return mk_union([a, b])

def tup_to_seq(k):
    e = NEVER
    for x in k[1]: e = join_kinds(e, x)
    return ('seq', e)

def kname(k):
    t = k[0]
    if t in ('int', 'bool', 'str', 'none', 'any', 'never', 'slice', 'pyobj'): return t
    if t == 'ref': return 'R_' + k[1]
    if t == 'val': return 'V_' + k[1]
    if t in ('seq', 'list', 'set'): return t + '<' + kname(k[1]) + '>'
    if t == 'dict': return 'dict<' + kname(k[1]) + '~' + kname(k[2]) + '>'
    if t == 'tup': return 'tup<' + '~'.join(map(kname, k[1])) + '>'
    if t == 'union': return 'U<' + '~'.join(map(kname, k[1])) + '>'
    if t == 'fn': return 'fn<' + '~'.join(map(kname, k[1])) + '>' + kname(k[2])
    raise ValueError(k)

_sorts = {}
_valsorts = {'Val': Val}
_unions = {}
_tuples = {}

def valsort(name):
    if name not in _valsorts: _valsorts[name] = z3.DeclareSort(name)
    return _valsorts[name]

def fnsort(k):
    return valsort('Fn_' + kname(k))

def fnapply(k):
    """uninterpreted application function of a callable kind"""
    key = ('apply', k)
    if key not in _sorts:
        _sorts[key] = z3.Function('apply_' + kname(k), fnsort(k), *[sort_of(a) for a in k[1]], sort_of(k[2]))
    return _sorts[key]

def sort_of(k):
    t = k[0]
    if t == 'int': return INT
    if t == 'bool': return BOOL
    if t == 'any': return Val
    if t == 'none': return BOOL      # dummy
    if t == 'str': return seq_theory(INT).sort
    if t in ('ref', 'list', 'dict', 'set'): return Ref
    if t == 'val': return valsort(k[1])
    if t == 'fn': return fnsort(k)
    if t == 'seq': return seq_theory(sort_of(k[1])).sort
    if t == 'tup': return tuple_dt(k)[0]
    if t == 'union': return union_dt(k)[0]
    if t == 'never': return Val
    raise Unsupported(f'no sort for kind {k}')

def tuple_dt(k):
    key = tuple(sort_of(x).name() for x in k[1])
    if key not in _tuples:
        nm = 'T<' + '~'.join(key) + '>'
        d = z3.Datatype(nm)
        d.declare('mk_' + nm, *[(f'{nm}_{i}', sort_of(x)) for i, x in enumerate(k[1])])
        s = d.create()
        _tuples[key] = (s, s.constructor(0), [s.accessor(0, i) for i in range(len(k[1]))])
    return _tuples[key]

def union_dt(k):
    """datatype with one constructor per alternative"""
    if k not in _unions:
        nm = kname(k)
        d = z3.Datatype(nm)
        for a in k[1]:
            if a == NONEK: d.declare(f'{nm}_none')
            else: d.declare(f'{nm}_{kname(a)}', (f'{nm}_{kname(a)}_val', sort_of(a)))
        s = d.create()
        _unions[k] = (s, {a: (s.constructor(i), s.recognizer(i), None if a == NONEK else s.accessor(i, 0))
                          for i, a in enumerate(k[1])})
    return _unions[k]

# --------------------------------------------------------- sequence theory

_seqs = {}

class SeqTheory:
    def __init__(self, elem):
        n = elem.name()
        nm = 'Str' if elem == INT else f'Seq<{n}>'
        self.elem = elem
        self.name = nm
        S = self.sort = z3.DeclareSort(nm)
        F = z3.Function
        self.len = F(nm + '.len', S, INT)
        self.at = F(nm + '.at', S, INT, elem)
        self.empty = z3.Const(nm + '.empty', S)
        self.unit = F(nm + '.unit', elem, S)
        self.cat = F(nm + '.cat', S, S, S)
        self.slice = F(nm + '.slice', S, INT, INT, S)
        self.upd = F(nm + '.upd', S, INT, elem, S)
        self.eqq = F(nm + '.eqq', S, S, BOOL)
        self.diff = F(nm + '.diff', S, S, INT)
        self.mem = F(nm + '.mem', elem, S, BOOL)
        self.memidx = F(nm + '.memidx', elem, S, INT)
        self.rev = F(nm + '.rev', S, S)
        self._ax = None

    def mk_cat(self, a, b):
        if a.eq(self.empty): return b
        if b.eq(self.empty): return a
        if z3.is_app(a) and a.decl().eq(self.cat):
            return self.mk_cat(a.arg(0), self.mk_cat(a.arg(1), b))
        return self.cat(a, b)

    def mk_len(self, s):
        if s.eq(self.empty): return z3.IntVal(0)
        if z3.is_app(s):
            d = s.decl()
            if d.eq(self.unit): return z3.IntVal(1)
            if d.eq(self.cat): return z3.simplify(self.mk_len(s.arg(0)) + self.mk_len(s.arg(1)))
            if d.eq(self.upd) : return self.mk_len(s.arg(0))
            if d.name().startswith('strlit!'): return z3.IntVal(_strlits_by_name[d.name()][1])
        return self.len(s)

    def axioms(self):
        if self._ax is not None: return self._ax
        S, E = self.sort, self.elem
        s, t, u, w = z3.Consts('s t u w', S)
        i, j, k, l = z3.Ints('i j k l')
        e = z3.Const('e', E)
        L, AT, CAT, SL, UNIT, UPD, EQ = self.len, self.at, self.cat, self.slice, self.unit, self.upd, self.eqq
        A = []
        def fa(vs, body, *pats):
            A.append(z3.ForAll(vs, body, patterns=list(pats)))
        MP = z3.MultiPattern
        And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
        fa([s], And(L(s) >= 0, Implies(L(s) == 0, s == self.empty)), L(s))
        A.append(L(self.empty) == 0)
        fa([e], And(L(UNIT(e)) == 1, AT(UNIT(e), 0) == e), UNIT(e))
        fa([s, t], And(L(CAT(s, t)) == L(s) + L(t),
                       Implies(L(s) == 0, CAT(s, t) == t), Implies(L(t) == 0, CAT(s, t) == s)), CAT(s, t))
        fa([s, t, i], And(Implies(And(0 <= i, i < L(s)), AT(CAT(s, t), i) == AT(s, i)),
                          Implies(And(L(s) <= i, i < L(s) + L(t)), AT(CAT(s, t), i) == AT(t, i - L(s)))), AT(CAT(s, t), i))
        fa([s, t, u], Or(L(t) == 0, CAT(CAT(s, t), u) == CAT(s, CAT(t, u))), CAT(CAT(s, t), u))
        rng = And(0 <= i, i <= j, j <= L(s))
        fa([s, i, j], Implies(rng, And(L(SL(s, i, j)) == j - i,
                                       Implies(And(i == 0, j == L(s)), SL(s, i, j) == s),
                                       Implies(i == j, SL(s, i, j) == self.empty),
                                       Implies(j == i + 1, SL(s, i, j) == UNIT(AT(s, i))))), SL(s, i, j))
        fa([s, i, j, k], Implies(And(rng, 0 <= k, k < j - i), AT(SL(s, i, j), k) == AT(s, i + k)), AT(SL(s, i, j), k))
        fa([s, i, j, k], Implies(And(rng, i <= k, k < j), AT(SL(s, i, j), k - i) == AT(s, k)), MP(AT(s, k), SL(s, i, j)))
        fa([s, i, j, k, l], Implies(And(rng, 0 <= k, k <= l, l <= j - i), SL(SL(s, i, j), k, l) == SL(s, i + k, i + l)),
           SL(SL(s, i, j), k, l))
        fa([s, t, i, j], Implies(And(0 <= i, i <= j, j <= L(s) + L(t)),
           SL(CAT(s, t), i, j) == If(j <= L(s), SL(s, i, j), If(i >= L(s), SL(t, i - L(s), j - L(s)),
                                     CAT(SL(s, i, L(s)), SL(t, 0, j - L(s)))))), SL(CAT(s, t), i, j))
        fa([s, i, j, k, l], Implies(And(rng, k == j, k <= l, l <= L(s)), CAT(SL(s, i, j), SL(s, k, l)) == SL(s, i, l)),
           CAT(SL(s, i, j), SL(s, k, l)))
        fa([s, i, j, k, l, u], Implies(And(rng, k == j, k <= l, l <= L(s)),
           CAT(SL(s, i, j), CAT(SL(s, k, l), u)) == CAT(SL(s, i, l), u)), CAT(SL(s, i, j), CAT(SL(s, k, l), u)))
        # element next to a slice
        fa([s, i, j, k], Implies(And(rng, k == j, k < L(s)), CAT(SL(s, i, j), UNIT(AT(s, k))) == SL(s, i, k + 1)),
           CAT(SL(s, i, j), UNIT(AT(s, k))))
        # slice of a unit / update
        fa([s, i, e], Implies(And(0 <= i, i < L(s)), And(L(UPD(s, i, e)) == L(s), AT(UPD(s, i, e), i) == e)), UPD(s, i, e))
        fa([s, i, e, j], Implies(And(0 <= i, i < L(s), 0 <= j, j < L(s), i != j), AT(UPD(s, i, e), j) == AT(s, j)), AT(UPD(s, i, e), j))
        fa([s, i, e], Implies(And(0 <= i, i < L(s)),
                              UPD(s, i, e) == CAT(SL(s, 0, i), CAT(UNIT(e), SL(s, i + 1, L(s))))), UPD(s, i, e))
        # equality
        fa([s, t], And(EQ(s, t) == (s == t),
                       Or(EQ(s, t), L(s) != L(t),
                          And(0 <= self.diff(s, t), self.diff(s, t) < L(s),
                              AT(s, self.diff(s, t)) != AT(t, self.diff(s, t))))), EQ(s, t))
        # membership
        M, MI = self.mem, self.memidx
        fa([e, s], Implies(M(e, s), And(0 <= MI(e, s), MI(e, s) < L(s), AT(s, MI(e, s)) == e)), M(e, s))
        fa([e, s, i], Implies(And(0 <= i, i < L(s), AT(s, i) == e), M(e, s)), MP(M(e, s), AT(s, i)))
        fa([e, s, t], M(e, CAT(s, t)) == Or(M(e, s), M(e, t)), M(e, CAT(s, t)))
        fa([e, u_ := z3.Const('f', E)], M(e, UNIT(u_)) == (e == u_), M(e, UNIT(u_)))
        fa([e], Not(M(e, self.empty)), M(e, self.empty))
        # reverse
        R = self.rev
        fa([s], L(R(s)) == L(s), R(s))
        fa([s, i], Implies(And(0 <= i, i < L(s)), AT(R(s), i) == AT(s, L(s) - 1 - i)), AT(R(s), i))
        fa([s, t], R(CAT(s, t)) == CAT(R(t), R(s)), R(CAT(s, t)))
        fa([e], R(UNIT(e)) == UNIT(e), R(UNIT(e)))
        fa([s], R(R(s)) == s, R(R(s)))
        if E == INT:
            A += string_axioms(self)
        self._ax = A
        return A

def seq_theory(elem):
    key = elem.name()
    if key not in _seqs: _seqs[key] = SeqTheory(elem)
    return _seqs[key]

def theory_of_seqsort(sort):
    for th in _seqs.values():
        if th.sort == sort: return th
    raise KeyError(sort)

# ----------------------------------------------------------------- strings

_strlits = {}
_strlits_by_name = {}

def Str():
    return seq_theory(INT)

def strlit(s):
    th = Str()
    if s == '': return th.empty
    if len(s) == 1: return th.unit(z3.IntVal(ord(s)))
    if s not in _strlits:
        nm = f'strlit!{len(_strlits)}'
        _strlits[s] = z3.Const(nm, th.sort)
        _strlits_by_name[nm] = (s, len(s))
    return _strlits[s]

def lit_value(t):
    """python string of a literal term or None"""
    th = Str()
    if t.eq(th.empty): return ''
    if z3.is_app(t):
        if t.decl().name() in _strlits_by_name: return _strlits_by_name[t.decl().name()][0]
        if t.decl().eq(th.unit) and z3.is_int_value(t.arg(0)): return chr(t.arg(0).as_long())
    return None

def strlit_axioms():
    th = Str()
    A = []
    lits = list(_strlits.items())
    for s, c in lits:
        A.append(th.len(c) == len(s))
        if len(s) <= 12:
            for n, ch in enumerate(s): A.append(th.at(c, n) == ord(ch))
            cat = th.unit(z3.IntVal(ord(s[-1])))
    if len(lits) > 1: A.append(z3.Distinct(*[c for _, c in lits]))
    return A

_strfuns = {}
_derived = []          # axioms that are proved as lemmas from the others on every run
DERIVED_OFF = False
def strfun(name, *sorts):
    if name not in _strfuns: _strfuns[name] = z3.Function(name, *sorts)
    return _strfuns[name]

def FIND():
    S = Str().sort
    return strfun('str.find', S, S, INT, INT, INT)
def RFIND():
    S = Str().sort
    return strfun('str.rfind', S, S, INT, INT, INT)
def COUNT():
    S = Str().sort
    return strfun('str.count', S, S, INT, INT, INT)
def STROF():
    return strfun('str.of_int', INT, Str().sort)
def JOIN():
    S = Str().sort
    return strfun('str.join', S, seq_theory(S).sort, S)

def string_axioms(th):
    S = th.sort
    A = []
    t, u, v = z3.Consts('t u v', S)
    b, e, i, j, k, m, n = z3.Ints('b e i j k m n')
    And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
    MP = z3.MultiPattern
    L, SL = th.len, th.slice
    F, RF, C = FIND(), RFIND(), COUNT()
    def fa(vs, body, *pats): A.append(z3.ForAll(vs, body, patterns=list(pats)))
    rng = And(0 <= b, b <= e, e <= L(t))
    for G, cmp in ((F, lambda f, x: f <= x), (RF, lambda f, x: f >= x)):
        f = G(t, u, b, e)
        fa([t, u, b, e], Implies(rng, Or(f == -1, And(b <= f, f + L(u) <= e, SL(t, f, f + L(u)) == u))), f)
        fa([t, u, b, e, i, j], Implies(And(rng, b <= i, j == i + L(u), j <= e, SL(t, i, j) == u), And(f != -1, cmp(f, i))),
           MP(f, SL(t, i, j)))
    # single characters: relate to at()
    c = z3.Int('c')
    for G, cmp in ((F, lambda f, x: f <= x), (RF, lambda f, x: f >= x)):
        f = G(t, th.unit(c), b, e)
        fa([t, c, b, e], Implies(And(rng, f != -1), th.at(t, f) == c), f)
        fa([t, c, b, e, i], Implies(And(rng, b <= i, i < e, th.at(t, i) == c), And(f != -1, cmp(f, i))), MP(f, th.at(t, i)))
    # derived law (proved as lemma 'find_slice', see pyvc/lemmas.py)
    for G in (F, RF):
        f = G(SL(t, m, n), u, b, e)
        g = G(t, u, m + b, m + e)
        fa([t, m, n, u, b, e], Implies(And(0 <= m, m <= n, n <= L(t), 0 <= b, b <= e, e <= n - m),
                                       f == If(g == -1, -1, g - m)), f)
        _derived.append(A[-1])
    # occurrences in a slice are occurrences in the text (assumed: definition of str.count by position-wise scanning)
    f = C(SL(t, m, n), u, b, e)
    fa([t, m, n, u, b, e], Implies(And(0 <= m, m <= n, n <= L(t), 0 <= b, b <= e, e <= n - m),
                                   f == C(t, u, m + b, m + e)), f)
    fa([t, u, b, e], C(t, u, b, e) >= 0, C(t, u, b, e))
    # join: ''.join
    SS = seq_theory(S)
    x, y = z3.Consts('x y', SS.sort)
    J = JOIN()
    fa([t], J(t, SS.empty) == th.empty, J(t, SS.empty))
    fa([t, u], J(t, SS.unit(u)) == u, J(t, SS.unit(u)))
    fa([t, x, y], J(t, SS.cat(x, y)) == If(SS.len(x) == 0, J(t, y), If(SS.len(y) == 0, J(t, x),
        th.cat(J(t, x), th.cat(t, J(t, y))))), J(t, SS.cat(x, y)))
    return A

# ------------------------------------------------- homomorphic spec functions

_extra_axioms = {}     # name -> (set of function decl names, [axioms])

def add_axioms(name, axioms):
    _extra_axioms[name] = axioms

BIRTH = z3.Function('birth', Ref, INT)

def _walk(t, seen, sorts, names):
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            for n in range(x.num_vars()): sorts.add(x.var_sort(n).name())
            continue
        if z3.is_app(x):
            sorts.add(x.sort().name())
            names.add(x.decl().name())
            stack.extend(x.children())

_sym_cache = {}
def _symbols(t, sorts, names):
    """adds the sorts and functions of t (computed once for every term)"""
    c = _sym_cache.get(t.get_id())
    if c is None:
        c = (t, set(), set()); _walk(t, set(), c[1], c[2])
        _sym_cache[t.get_id()] = c
    sorts |= c[1]; names |= c[2]

# Recursive functions over a heap are total only if the heap has no cycles: every quantifier over heaps of the guarded sort is restricted to those
# that fulfil the guard; the heaps which occur in a proof obligation are assumed to fulfil it (trees are finite).
HEAP_GUARD = []         # (sort, predicate, part of the names of the constants that denote such heaps)
_guarded = {}
def guarded(q):
    """the axiom or hypothesis q, restricted to heaps that fulfil the guard"""
    if not HEAP_GUARD or not z3.is_quantifier(q): return q
    c = _guarded.get(q.get_id())
    if c is None:
        c = (q, _guard(q)); _guarded[q.get_id()] = c
    return c[1]
def _guard(q):
    sort, pred, _ = HEAP_GUARD[0]
    if not q.is_forall(): return q
    n = q.num_vars(); vs = [z3.Const(f'g!{i}!{q.var_name(i)}', q.var_sort(i)) for i in range(n)]
    hs = [v for v in vs if v.sort() == sort]
    if not hs: return q
    inst = lambda e: z3.substitute_vars(e, *reversed(vs))
    pats = [inst(q.pattern(i)) for i in range(q.num_patterns())]
    pats = [z3.MultiPattern(*p.children()) if p.num_args() > 1 else p.arg(0) for p in pats]
    return z3.ForAll(vs, z3.Implies(z3.And(*[pred(h) for h in hs]), inst(q.body())), patterns=pats)
_heapterms = {}
def heap_facts(terms):
    """the guard of every heap that occurs in the terms"""
    if not HEAP_GUARD: return []
    sort, pred, part = HEAP_GUARD[0]
    out = {}
    for t in terms:
        c = _heapterms.get(t.get_id())
        if c is None:
            found = []; seen = set(); stack = [t]
            while stack:
                x = stack.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_quantifier(x): stack.append(x.body()); continue
                if not z3.is_app(x): continue
                if x.sort() == sort and all(part(v) for v in consts_of(x)): found.append(x)
                stack.extend(x.children())
            c = (t, found); _heapterms[t.get_id()] = c
        for x in c[1]: out[x.get_id()] = x
    return [pred(x) for x in out.values()]
def consts_of(x):
    """names of the array constants a heap term is made from; ['?'] if it contains variables"""
    if z3.is_var(x): return ['?']
    if z3.is_const(x): return [x.decl().name()]
    k = x.decl().kind()
    if k == z3.Z3_OP_STORE: return consts_of(x.arg(0)) + (['?'] if any(has_var(a) for a in x.children()[1:]) else [])
    if k == z3.Z3_OP_ITE: return consts_of(x.arg(1)) + consts_of(x.arg(2)) + (['?'] if has_var(x.arg(0)) else [])
    return ['?']
def has_var(e): return z3.is_var(e) or any(has_var(a) for a in e.children()) or z3.is_quantifier(e)

def relevant_axioms(terms):
    """all axioms whose symbols are (transitively) relevant for the given terms, and the assumptions about the heaps in the terms"""
    return [guarded(a) for a in _relevant_axioms(terms)] + heap_facts(terms)

def _relevant_axioms(terms):
    sorts, names = set(), set()
    for t in terms: _symbols(t, sorts, names)
    out = []
    done = set()
    changed = True
    while changed:
        changed = False
        for th in list(_seqs.values()):
            if th.name in sorts and ('th', th.name) not in done:
                if th.name.startswith('Seq<Str') or True:
                    ax = th.axioms()
                    if DERIVED_OFF: ax = [a for a in ax if not any(a.eq(d) for d in _derived)]
                    if th.elem == INT:
                        ax = [a for a in ax if _str_relevant(a, names)]
                    done.add(('th', th.name)); changed = True
                    out += ax
        for nm, (trig, axs) in list(_extra_axioms.items()):
            if ('x', nm) not in done and (trig is None or trig & names):
                done.add(('x', nm)); changed = True
                out += axs
                for a in axs: _symbols(a, sorts, names)
    if 'Str' in sorts: out += strlit_axioms()
    return out

_rel_cache = {}
def _str_relevant(a, names):
    """string axioms mentioning find/rfind/count/join only if the function is used"""
    i = a.get_id()
    if i not in _rel_cache:
        ns = set(); _walk(a, set(), set(), ns)
        _rel_cache[i] = {n for n in ns if n in ('str.find', 'str.rfind', 'str.count', 'str.join')}
    return _rel_cache[i] <= names

# functions with a twin of the same meaning that does not occur in triggers of frame rules (see contracts/tree.py)
MIRROR = {}
def mirrored(q):
    """a universal formula with every mirrored function replaced by its twin, or None"""
    if not (z3.is_quantifier(q) and q.is_forall()): return None
    used = [m for m in MIRROR.values() if mentions(q, m[0])]
    if not used: return None
    vs = [z3.Const(f'mir!{i}', q.var_sort(i)) for i in range(q.num_vars())]
    inst = lambda e: z3.substitute_vars(e, *reversed(vs))
    pairs = [(f, g(*[z3.Var(i, f.domain(i)) for i in range(f.arity())])) for f, g in used]
    tr = lambda e: z3.substitute_funs(inst(e), *pairs)
    pats = [q.pattern(i) for i in range(q.num_patterns())]
    return z3.ForAll(vs, tr(q.body()), patterns=[z3.MultiPattern(*[tr(c) for c in p.children()]) if p.num_args() > 1 else tr(p.arg(0)) for p in pats])
def mentions(e, f):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().eq(f): return True
            todo += x.children()
    return False
