"""Models of the builtins and library functions used by the verified code (trusted)."""
import z3
from .theory import *
from . import engine as E
from .engine import lib, LIB, SV, TupV, NTV, NONE, IterV, PyExc, ClassV, LibV, FnV, PartialV, ExcV, PyObj, SliceV, ConstMatch, ConstDict, STRK, IV, TRUE, FALSE, And, Or, Not, Implies, If, simp
from . import source as SRC

def I(t): return SV(INTK, simp(t))
def B(t): return SV(BOOLK, simp(t))
def S(t): return SV(STRK, t)

@lib('len')
def _len(ex, a, kw):
    v = ex.force_gen(a[0])
    if not ex.pure: v = ex.narrow(v)
    elif isinstance(v, SV) and v.k[0] == 'union': v = ex.pick_sub(v)
    if isinstance(v, TupV): return I(IV(len(v.items)))
    if isinstance(v, IterV): return I(v.length)
    if isinstance(v, SV):
        if v.k == STRK: return I(Str().mk_len(v.t))
        if v.k[0] == 'list': v = ex.list_get(v)
        if v.k[0] == 'seq': return I(IV(0)) if v.k[1] == NEVER else I(seq_theory(sort_of(v.k[1])).mk_len(v.t))
        if v.k[0] == 'ref': return ex.call(ex.getattr(v, '__len__'), [], {}, None)
        if v.k[0] == 'dict':
            if v.k[1] == NEVER: return I(IV(0))
            dom, _ = ex.dict_get(v)
            c = z3.Function('card_' + sort_of(v.k[1]).name(), dom.sort(), INT)
            ex.assume(And(c(dom) >= 0, (c(dom) == 0) == (dom == z3.K(sort_of(v.k[1]), FALSE))))
            return I(c(dom))
        if v.k == NONEK: raise PyExc('TypeError', where='len(None)')
    raise Unsupported(f'len of {v!r}')

@lib('str')
def _str(ex, a, kw):
    if not a: return S(Str().empty)
    return S(ex.str_of(a[0]))

@lib('repr')
def _repr(ex, a, kw):
    v = ex.narrow(a[0]) if not ex.pure else a[0]
    if isinstance(v, SV) and v.k == STRK: return S(ex.fresh_const('repr', Str().sort))
    if isinstance(v, SV) and (v.k == INTK or v.k[0] == 'val'): return S(z3.Function('repr_' + v.t.sort().name(), v.t.sort(), Str().sort)(v.t))
    return S(ex.fresh_const('repr', Str().sort))

@lib('print')
def _print(ex, a, kw): return NONE

@lib('int')
def _int(ex, a, kw):
    if not a: return I(IV(0))
    v = ex.narrow(a[0]) if not ex.pure else a[0]
    if isinstance(v, SV) and v.k in (INTK, BOOLK): return I(ex.int_t(v))
    if isinstance(v, SV) and v.k == STRK:
        th = Str(); x = ex.fresh_const('x!int', INT); c = th.at(v.t, x)
        nodig = Or(th.mk_len(v.t) <= 0, And(0 <= x, x < th.mk_len(v.t), Not(And(c >= 48, c <= 57))))
        r = z3.Function('py.int', th.sort, INT)(v.t)
        if not ex.pure:
            if ex.check_sat([nodig], 3000) == z3.unsat: ex.assume(r >= 0)
            elif ex.nondet(): raise PyExc('ValueError', where='int(str)')
        return I(r)
    raise Unsupported('int()')

@lib('bytearray')
def _bytearray(ex, a, kw):
    if a: raise Unsupported('bytearray of a value')
    ex.V.assumptions.add('byte arrays are treated as values (they are rebound or extended, never shared)')
    return S(Str().empty)

@lib('bool')
def _bool(ex, a, kw): return B(ex.truth(a[0])) if a else B(FALSE)

@lib('abs')
def _abs(ex, a, kw):
    x = ex.int_t(a[0]); return I(If(x >= 0, x, -x))

def _minmax(ismax):
    def f(ex, a, kw):
        if kw: 
            if set(kw) != {'default'} or len(a) != 1: raise Unsupported('min/max with key')
        if len(a) == 1:
            s = ex.as_seq(ex.force_gen(a[0]))
            if s.k[1] == NEVER:
                if 'default' in kw: return kw['default']
                raise PyExc('ValueError', where='max of empty')
            th = seq_theory(sort_of(s.k[1]))
            n = th.mk_len(s.t)
            if 'default' in kw:
                if not ex.branch(n > 0): return kw['default']
            elif not ex.branch(n > 0): raise PyExc('ValueError', where='max of empty')
            m = ex.fresh_const('max', INT); x = z3.Int('x!mm'); w = ex.fresh_const('mi', INT)
            ex.assume(z3.ForAll([x], Implies(And(0 <= x, x < n), th.at(s.t, x) <= m if ismax else th.at(s.t, x) >= m), patterns=[th.at(s.t, x)]))
            ex.assume(And(0 <= w, w < n, th.at(s.t, w) == m))
            return I(m)
        r = ex.int_t(a[0])
        for y in a[1:]:
            y = ex.int_t(y)
            c = simp(y > r if ismax else y < r)
            d = ex.decide(c) if not ex.pure else None
            r = y if d is True else r if d is False else If(c, y, r)
        return I(r)
    return f
LIB['max'] = _minmax(True); LIB['min'] = _minmax(False)

@lib('hasattr')
def _hasattr(ex, a, kw):
    v, name = a
    if not ex.pure: v = ex.narrow(v)
    f = lit_value(name.t)
    o = ex.field_owner(v.k[1], f) if isinstance(v, SV) and v.k[0] == 'ref' and f else None
    if not o: raise Unsupported(f'hasattr {v!r} {name!r} {f!r}')
    if f not in o[0].unset: return B(TRUE)
    t = ex.hread(f'{o[0].name}.{f}', sort_of(o[1]), v.t)
    return B(Or(Not(ex.is_none(ex.wrap(o[1], t))), ex.fresh_const('hasattr', BOOL)))
@lib('isinstance')
def _isinstance(ex, a, kw):
    v, c = a
    if isinstance(c, TupV):
        return B(Or(*[_isinstance(ex, [v, x], {}).t for x in c.items]))
    if isinstance(v, (list, tuple)) and v and v[0] == 'gen': return B(FALSE)
    name = c.name if isinstance(c, ClassV) else getattr(c, 'name', None)
    if name is None: raise Unsupported('isinstance')
    name = name.split('.')[-1]
    ex_t = _isinst_term(ex, v, name)
    if z3.is_true(ex_t) or z3.is_false(ex_t): return B(ex_t)
    if isinstance(v, SV) and v.k[0] == 'ref' and not ex.pure: pass
    return B(ex_t)

_KN = {'int': ('int', 'bool'), 'str': ('str',), 'bool': ('bool',), 'list': ('list',), 'tuple': ('seq', 'tup'), 'dict': ('dict',), 'Dict': ('dict',),
       'set': ('set',), 'Sequence': ('list', 'seq', 'tup', 'str'), 'Iterable': ('list', 'seq', 'tup', 'str', 'dict', 'set'),
       'float': (), 'bytes': (), 'Callable': ('fn',), 'frozenset': (), 'type': (), 'StringView': (), 'Set': ('set',), 'AbstractSet': ('set',),
       'MutableSequence': ('list',), 'List': ('list',), 'Tuple': ('seq', 'tup'), 'slice': ('slice',)}
def _isinst_term(ex, v, name):
    if isinstance(v, TupV): 
        if isinstance(v, NTV) and v.name == name: return TRUE
        return z3.BoolVal('tup' in _KN.get(name, ()))
    if isinstance(v, SliceV): return z3.BoolVal(name == 'slice')
    if isinstance(v, PyObj): return z3.BoolVal(name == 'Callable' and isinstance(v, (FnV, LibV, PartialV, E.BoundV)))
    if isinstance(v, SV):
        k = v.k[0]
        if k == 'union':
            alts = union_dt(v.k)[1]
            return simp(Or(*[And(r(v.t), TRUE if n == NONEK and name == 'NoneType' else FALSE if n == NONEK else _isinst_term(ex, SV(n, acc(v.t)), name))
                        for n, (c, r, acc) in alts.items()]))
        if k == 'ref':
            if ex.static_subclass(v.k[1], name): return TRUE
            if ex.static_subclass(name, v.k[1]): return ex.isa(v.t, name)
            return FALSE
        if name in ex.reg.classes: return FALSE
        if k == 'val' and v.k[1] == name: return TRUE
        if k == 'any':
            return z3.Function('any_isa_' + name, Val, BOOL)(v.t)
        if name in _KN: return z3.BoolVal(k in _KN[name])
        if name in ex.reg.namedtuples: return FALSE
        return FALSE
    raise Unsupported(f'isinstance {v!r} {name}')

@lib('cast', 'typing.cast')
def _cast(ex, a, kw):
    c, v = a
    n = getattr(c, 'name', '').split('.')[-1]
    if isinstance(v, SV) and v.k[0] == 'ref' and n in ex.reg.classes and not ex.reg.classes[n].inv and v.k[1] in [m.name for m in ex.models_of(ex.reg.classes[n])]:
        return SV(('ref', n), v.t)       # seen as a member of the subclass, which has no invariants of its own
    return v

@lib('callable')
def _callable(ex, a, kw):
    v = a[0]
    return B(z3.BoolVal(isinstance(v, (FnV, LibV, PartialV, E.BoundV)) or (isinstance(v, SV) and v.k[0] == 'fn')))

@lib('id')
def _id(ex, a, kw):
    t = z3.Function('py.id', a[0].t.sort(), INT)(a[0].t)
    ex.assume(z3.Function('py.idinv', INT, a[0].t.sort())(t) == a[0].t)      # different living objects have different ids
    return I(t)

@lib('hash')
def _hash(ex, a, kw):
    v = a[0]
    if isinstance(v, TupV):
        k = ex.kind_of(v)
        return I(z3.Function('py.hash_' + kname(k), sort_of(k), INT)(ex.coerce(v, k)))
    return I(z3.Function('py.hash_' + kname(v.k), sort_of(v.k), INT)(v.t))

@lib('tuple')
def _tuple(ex, a, kw):
    if not a: return TupV([])
    v = ex.force_gen(a[0])
    if not ex.pure: v = ex.narrow(v)
    if isinstance(v, TupV): return v
    return ex.as_seq(v)

@lib('list')
def _list(ex, a, kw):
    if not a: return ex.new_list(NEVER, None, ('listcall', getattr(ex.curnode, 'lineno', 0))) if ('listcall', getattr(ex.curnode, 'lineno', 0)) not in ex.V.site_kind else \
        ex.new_list(ex.V.site_kind[('listcall', getattr(ex.curnode, 'lineno', 0))], seq_theory(sort_of(ex.V.site_kind[('listcall', getattr(ex.curnode, 'lineno', 0))])).empty, ('listcall', getattr(ex.curnode, 'lineno', 0)))
    s = ex.as_seq(ex.force_gen(a[0]))
    if ex.pure: return s
    site = ('listcall', getattr(ex.curnode, 'lineno', 0))
    wk = ex.V.site_kind.get(site, NEVER)
    k = join_kinds(s.k[1], wk)
    if k == NEVER: return ex.new_list(NEVER, None, site)
    if k != wk and wk != NEVER: ex.widen_site(site, k)
    return ex.new_list(k, ex.seq_coerce(s, k) if s.k[1] != NEVER else seq_theory(sort_of(k)).empty, site if wk != NEVER else None)

@lib('dict')
def _dict(ex, a, kw):
    site = ('dictcall', getattr(ex.curnode, 'lineno', 0))
    if a:
        v = ex.narrow(a[0])
        if isinstance(v, SV) and v.k[0] == 'dict':
            if v.k[1] == NEVER: return ex.new_dict(NEVER, NEVER)
            d = ex.new_dict(v.k[1], v.k[2])
            dom, val = ex.dict_get(v)
            ex.dict_put(d, dom, val)
            return d
        raise Unsupported('dict()')
    wk = ex.V.site_kind.get(site, NEVER)
    return ex.new_dict(*(wk[1] if wk != NEVER else (NEVER, NEVER)), site=site)

@lib('set')
def _set(ex, a, kw):
    site = ('setcall', getattr(ex.curnode, 'lineno', 0))
    if a:
        s = ex.as_seq(ex.force_gen(a[0]))
        if s.k[1] == NEVER: return ex.new_set(NEVER, site)
        th = seq_theory(sort_of(s.k[1]))
        v = ex.new_set(s.k[1])
        x = z3.Const('x!set', sort_of(s.k[1]))
        arr = z3.Lambda([x], th.mem(x, s.t))
        ex.set_put(v, arr)
        return v
    return ex.new_set(ex.V.site_kind.get(site, NEVER), site)

@lib('range')
def _range(ex, a, kw):
    ts = [ex.int_t(x) for x in a]
    step = 1
    if len(ts) == 3:
        if not z3.is_int_value(simp(ts[2])): raise Unsupported('range step')
        step = simp(ts[2]).as_long()
    if len(ts) == 1: lo, hi = IV(0), ts[0]
    else: lo, hi = ts[0], ts[1]
    if step == 1:
        n = simp(hi - lo)
        d = ex.decide(n >= 0) if not ex.pure else None
        n = n if d is True else If(n >= 0, n, 0)
        return IterV(n, lambda i: I(lo + i))
    if step == -1:
        n = simp(lo - hi)
        d = ex.decide(n >= 0) if not ex.pure else None
        n = n if d is True else If(n >= 0, n, 0)
        return IterV(n, lambda i: I(lo - i))
    raise Unsupported('range step')

@lib('enumerate')
def _enumerate(ex, a, kw):
    it = ex.iterate(ex.force_gen(a[0]))
    st = ex.int_t(a[1]) if len(a) > 1 else ex.int_t(kw['start']) if 'start' in kw else IV(0)
    return IterV(it.length, lambda i: TupV([I(st + i), it.item(i)]), it.src)

@lib('zip')
def _zip(ex, a, kw):
    its = [ex.iterate(ex.force_gen(x)) for x in a]
    n = its[0].length
    for x in its[1:]:
        d = ex.decide(n == x.length) if not ex.pure else None
        n = n if d is True else If(n <= x.length, n, x.length)
    return IterV(n, lambda i: TupV([x.item(i) for x in its]), its[0].src)

@lib('reversed')
def _reversed(ex, a, kw):
    v = ex.narrow(a[0])
    if isinstance(v, TupV): return TupV(list(reversed(v.items)))
    if isinstance(v, IterV):
        return IterV(v.length, lambda i: v.item(simp(v.length - 1 - i)))
    s = ex.as_seq(v)
    if s.k[1] == NEVER: return s
    return SV(s.k, seq_theory(sort_of(s.k[1])).rev(s.t))

def _quant(ex, v, isall):
    if isinstance(v, tuple) and v and v[0] == 'gen' and len(v[1].generators) == 1:
        e, env = v[1], v[2]
        g = e.generators[0]
        it = ex.iterate(ex.force_gen(ex.eval(g.iter, env)))
        n = simp(it.length)
        if z3.is_int_value(n) and n.as_long() <= 8:
            ts = []
            for i in range(n.as_long()):
                ce = E.Env(env_up_=env)
                (ex.bind_pure if ex.pure else ex.assign)(g.target, it.item(IV(i)), ce)
                if ex.pure:
                    c = And(*[ex.truth(ex.eval(x, ce)) for x in g.ifs]) if g.ifs else TRUE
                    t = ex.truth(ex.eval(e.elt, ce))
                    ts.append(Implies(c, t) if isall else And(c, t))
                else:
                    if not all(ex.branch(ex.truth(ex.eval(c, ce))) for c in g.ifs): continue
                    r = ex.branch(ex.truth(ex.eval(e.elt, ce)))
                    if isall and not r: return B(FALSE)
                    if not isall and r: return B(TRUE)
            if not ex.pure: return B(z3.BoolVal(isall))
            return B(And(*ts) if isall else Or(*ts))
        x = z3.Int(f'x!qt{next(ex.n)}')
        ce = E.Env(env_up_=env)
        d0 = ex.defs
        ex.pure += 1; ex.defs = []
        try:
            ex.bind_pure(g.target, it.item(x), ce)
            cs = [ex.truth(ex.eval(c, ce)) for c in g.ifs]
            t = ex.truth(ex.eval(e.elt, ce))
            defs = ex.defs
        finally: ex.pure -= 1; ex.defs = d0
        rng = And(0 <= x, x < it.length, *cs)
        if defs: ex.oblige(z3.ForAll([x], Implies(And(0 <= x, x < it.length), And(*defs))), 'generator expression is defined', 'def')
        return B(z3.ForAll([x], Implies(rng, t)) if isall else z3.Exists([x], And(rng, t)))
    v = ex.force_gen(v)
    if isinstance(v, TupV):
        ts = [ex.truth(x) for x in v.items]
        return B(And(*ts) if isall else Or(*ts)) if ts else B(z3.BoolVal(isall))
    it = ex.iterate(v)
    x = z3.Int(f'x!qt{next(ex.n)}')
    ex.pure += 1
    try: t = ex.truth(it.item(x))
    finally: ex.pure -= 1
    rng = And(0 <= x, x < it.length)
    return B(z3.ForAll([x], Implies(rng, t)) if isall else z3.Exists([x], And(rng, t)))

@lib('all')
def _all(ex, a, kw): return _quant(ex, a[0], True)
@lib('any')
def _any(ex, a, kw): return _quant(ex, a[0], False)

def SUM():
    th = seq_theory(INT)
    return z3.Function('seq.sum', seq_theory(INT).sort, INT)

@lib('sum')
def _sum(ex, a, kw):
    s = ex.force_gen(a[0])
    if isinstance(s, TupV):
        r = IV(0)
        for x in s.items: r = r + ex.int_t(x)
        return I(r)
    s = ex.as_seq(s)
    if s.k[1] == NEVER: return I(IV(0))
    h = ex.reg.models.get('sum.hook')
    if h is not None:
        r = h(ex, [s], {})
        if r is not None: return r
    return I(SUM()(ex.coerce(s, ('seq', INTK))))

@lib('bisect.bisect_left', 'bisect.bisect_right', 'bisect.bisect')
def _bisect_right(ex, a, kw): return _bisect(ex, a, True)
def _bisect(ex, a, right):
    s = ex.as_seq(a[0]); x = ex.int_t(a[1])
    th = seq_theory(INT)
    n = th.mk_len(s.t)
    # requires sortedness to have a meaning
    i, j = z3.Ints('i!b j!b')
    ex.oblige(z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), th.at(s.t, i) <= th.at(s.t, j))), 'bisect: the list is sorted', 'pre')
    r = ex.fresh_const('bis', INT)
    ex.assume(And(0 <= r, r <= n))
    le = (lambda u, v: u <= v) if right else (lambda u, v: u < v)
    gt = (lambda u, v: u > v) if right else (lambda u, v: u >= v)
    ex.assume(z3.ForAll([i], And(Implies(And(0 <= i, i < r), le(th.at(s.t, i), x)), Implies(And(r <= i, i < n), gt(th.at(s.t, i), x))), patterns=[th.at(s.t, i)]))
    ex.assume(Implies(r > 0, le(th.at(s.t, r - 1), x)))
    ex.assume(Implies(r < n, gt(th.at(s.t, r), x)))
    return I(r)
LIB['bisect.bisect_left'] = lambda ex, a, kw: _bisect(ex, a, False)

@lib('functools.partial')
def _partial(ex, a, kw): return PartialV(a[0], a[1:], kw)

@lib('copy.copy', 'copy')
def _copy(ex, a, kw):
    v = ex.narrow(a[0])
    if isinstance(v, SV) and v.k[0] == 'list': return LIB['list.copy'](ex, [v], {})
    raise Unsupported('copy')

@lib('type')
def _type(ex, a, kw):
    v = a[0]
    if isinstance(v, SV) and v.k[0] == 'ref': return ClassV(v.k[1], ex.class_src(v.k[1]))
    if isinstance(v, SV): return ClassV(v.k[0])
    raise Unsupported('type()')

# ------------------------------------------------------------------ str

def _bounds(ex, t, a):
    """(start, stop) as CPython's ADJUST_INDICES does for find/count/startswith"""
    n = Str().mk_len(t)
    def opt(v, d):
        if v is None: return d, None
        if not ex.pure: v = ex.narrow(v)
        if isinstance(v, SV) and v.k == NONEK: return d, None
        if isinstance(v, SV) and v.k[0] == 'union': return ('opt', ex.is_none(v), d, ex.int_t(ex.some(v))), True
        return ex.int_t(v), True
    s, sgiven = opt(a[0] if a else None, IV(0))
    e, egiven = opt(a[1] if len(a) > 1 else None, n)
    def neg(x):
        x = simp(x)
        if z3.is_int_value(x) and x.as_long() >= 0: return x
        d = ex.decide(x >= 0) if not ex.pure else None
        if d is True: return x
        return If(x < 0, If(x + n < 0, IV(0), x + n), x)
    def optneg(x, up):
        _, c, d, v = x
        v = neg(v)
        return If(c, d, If(v > n, n, v) if up else v)
    if isinstance(s, tuple): s = optneg(s, False)
    elif sgiven: s = neg(s)
    if isinstance(e, tuple): e = optneg(e, True)
    elif egiven:
        d = ex.decide(e <= n) if not ex.pure else None
        e2 = neg(e)
        e = e2 if d is True else If(e > n, n, e2)
    return s, e

def _finder(name, dflt):
    def f(ex, a, kw):
        t, u = ex.str_t(a[0]), ex.str_t(ex.narrow(a[1]) if not ex.pure else a[1])
        s, e = _bounds(ex, t, a[2:])
        G = {'find': FIND, 'rfind': RFIND, 'count': COUNT}[name]()
        d = ex.decide(s <= e) if not ex.pure else None
        r = G(t, u, s, e) if d is True else IV(dflt) if d is False else If(s <= e, G(t, u, s, e), IV(dflt))
        return I(r)
    return f
for _n, _d in (('find', -1), ('rfind', -1), ('count', 0)): LIB['str.' + _n] = _finder(_n, _d)

@lib('str.startswith')
def _startswith(ex, a, kw):
    th = Str()
    p0 = ex.narrow(a[1]) if not ex.pure else a[1]
    if isinstance(p0, TupV):
        return B(Or(*[_startswith(ex, [a[0], x] + a[2:], kw).t for x in p0.items]))
    t, p = ex.str_t(a[0]), ex.str_t(p0)
    s, e = _bounds(ex, t, a[2:])
    L = th.mk_len(p)
    return B(And(s + L <= e, th.eqq(th.slice(t, s, s + L), p)))
@lib('str.endswith')
def _endswith(ex, a, kw):
    th = Str()
    t, p = ex.str_t(a[0]), ex.str_t(ex.narrow(a[1]) if not ex.pure else a[1])
    s, e = _bounds(ex, t, a[2:])
    L = th.mk_len(p)
    return B(And(s + L <= e, th.eqq(th.slice(t, e - L, e), p)))

def _strfn(name, *argkinds, ret='str'):
    def f(ex, a, kw):
        S_ = Str().sort
        ts = []
        for x, k in zip(a, argkinds):
            ts.append(ex.coerce(ex.narrow(x) if not ex.pure else x, parse_kind(k)))
        rk = parse_kind(ret)
        G = z3.Function(f'str.{name}/{len(ts)}', *[t.sort() for t in ts], sort_of(rk))
        return SV(rk, G(*ts))
    return f
for _n in ('strip', 'lstrip', 'rstrip'): LIB['str.' + _n] = _strfn(_n, 'str', 'str')
for _n in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase'): LIB['str.' + _n] = _strfn(_n, 'str')
for _n in ('isspace', 'isdigit', 'isalpha', 'isupper', 'islower', 'isidentifier', 'isalnum', 'isprintable'): LIB['str.' + _n] = _strfn(_n, 'str', ret='bool')
LIB['str.replace'] = _strfn('replace', 'str', 'str', 'str')
LIB['str.encode'] = _strfn('encode', 'str', 'str')
LIB['str.decode'] = _strfn('decode', 'str', 'str')

def SPLIT():
    S_ = Str().sort
    return z3.Function('str.split/2', S_, S_, seq_theory(S_).sort)
@lib('str.split')
def _split(ex, a, kw):
    v = ex.narrow(a[0])
    sep = ex.narrow(a[1]) if len(a) > 1 else NONE
    if len(a) > 2 or kw: raise Unsupported('str.split with maxsplit')
    if isinstance(sep, SV) and sep.k == NONEK:
        G = z3.Function('str.split/1', Str().sort, seq_theory(Str().sort).sort)
        r = G(ex.str_t(a[0]))
    else:
        st = ex.str_t(sep)
        if not ex.pure and not ex.branch(Str().mk_len(st) > 0): raise PyExc('ValueError', where='str.split with empty separator')
        r = ex.spec_apply(ex.reg.specs['splitfrom'], [S(ex.str_t(a[0])), S(st), I(IV(0))]).t
    if ex.pure: return SV(('seq', STRK), r)
    return ex.new_list(STRK, r)

@lib('str.join')
def _join(ex, a, kw):
    s = ex.as_seq(ex.force_gen(a[1]))
    if s.k[1] == NEVER: return S(Str().empty)
    return S(JOIN()(ex.str_t(a[0]), ex.coerce(s, ('seq', STRK))))

@lib('str.index')
def _sindex(ex, a, kw):
    r = LIB['str.find'](ex, a, kw)
    if not ex.branch(r.t >= 0): raise PyExc('ValueError', where='str.index')
    return r
@lib('str.format')
def _format(ex, a, kw): return S(ex.fresh_const('fmt', Str().sort))

# ----------------------------------------------------------------- list

@lib('list.append')
def _append(ex, a, kw): ex.list_append(a[0], a[1]); return NONE
@lib('list.__getitem__')
def _lgetitem(ex, a, kw): return ex.getitem(a[0], a[1])
@lib('list.extend')
def _extend(ex, a, kw): ex.list_extend(a[0], ex.force_gen(a[1])); return NONE
@lib('list.copy')
def _lcopy(ex, a, kw):
    v = a[0]
    if v.k[1] == NEVER: return ex.new_list(NEVER, None, v.site)
    return ex.new_list(v.k[1], ex.list_get(v).t)
@lib('list.reverse')
def _lreverse(ex, a, kw):
    v = a[0]
    if v.k[1] == NEVER: return NONE
    ex.list_set(v, seq_theory(sort_of(v.k[1])).rev(ex.list_get(v).t)); return NONE
@lib('list.clear')
def _lclear(ex, a, kw):
    v = a[0]
    if v.k[1] != NEVER: ex.list_set(v, seq_theory(sort_of(v.k[1])).empty)
    return NONE
@lib('list.pop')
def _pop(ex, a, kw):
    v = a[0]
    if v.k[1] == NEVER: raise PyExc('IndexError', where='pop from empty list')
    cur = ex.list_get(v); th = seq_theory(sort_of(v.k[1])); n = th.mk_len(cur.t)
    i = ex.norm_index(ex.int_t(a[1]) if len(a) > 1 else IV(-1), n, 'IndexError')
    x = ex.wrap(v.k[1], ex.at(th, cur.t, i))
    t = th.mk_cat(ex.mk_slice(th, cur.t, IV(0), i), ex.mk_slice(th, cur.t, simp(i + 1), n)) if len(a) > 1 else ex.mk_slice(th, cur.t, IV(0), simp(n - 1))
    ex.list_set(v, t)
    return x
@lib('list.insert')
def _insert(ex, a, kw):
    v = a[0]
    if v.k[1] == NEVER:
        ex.widen_site(v.site, ex.kind_of(a[2]))
    cur = ex.list_get(v); th = seq_theory(sort_of(v.k[1])); n = th.mk_len(cur.t)
    i = ex.clamp(ex.int_t(a[1]), n)
    ex.list_set(v, th.mk_cat(ex.mk_slice(th, cur.t, IV(0), i), th.mk_cat(th.unit(ex.coerce(a[2], v.k[1])), ex.mk_slice(th, cur.t, i, n))))
    return NONE
@lib('list.index', 'tuple.index')
def _lindex(ex, a, kw):
    s = ex.as_seq(a[0])
    if s.k[1] == NEVER: raise PyExc('ValueError', where='index')
    th = seq_theory(sort_of(s.k[1])); x = ex.coerce(a[1], s.k[1])
    if not ex.branch(th.mem(x, s.t)): raise PyExc('ValueError', where='index')
    r = ex.fresh_const('ix', INT); j = z3.Int('j!ix')
    ex.assume(And(0 <= r, r < th.mk_len(s.t), th.at(s.t, r) == x))
    ex.assume(z3.ForAll([j], Implies(And(0 <= j, j < r), th.at(s.t, j) != x), patterns=[th.at(s.t, j)]))
    n = th.mk_len(s.t)
    ex.assume(s.t == th.mk_cat(ex.mk_slice(th, s.t, IV(0), r), th.mk_cat(th.unit(x), ex.mk_slice(th, s.t, simp(r + 1), n))))
    return I(r)
@lib('list.sort')
def _sort(ex, a, kw): raise Unsupported('list.sort')

# ----------------------------------------------------------------- dict / set

@lib('dict.get', 'ConstDict.get')
def _dget(ex, a, kw):
    d = a[0]
    dflt = a[2] if len(a) > 2 else NONE
    if isinstance(d, ConstDict):
        if not ex.pure: dflt = ex.narrow(dflt)
        key, r = ex.str_t(a[1]), dflt
        for k, v in d.d.items(): r = ex.merge(key == strlit(k), ex.lift(v), r)
        return r
    if d.k[1] == NEVER: return dflt
    dom, val = ex.dict_get(d); k = ex.coerce(a[1], d.k[1])
    c = z3.Select(dom, k)
    if ex.pure: return ex.merge(c, ex.wrap(d.k[2], z3.Select(val, k)), dflt)
    if ex.branch(c): return ex.wrap(d.k[2], z3.Select(val, k))
    return dflt
@lib('dict.setdefault')
def _setdefault(ex, a, kw):
    d = a[0]
    if d.k[1] == NEVER: ex.widen_site(d.site, ('tup', (ex.kind_of(a[1]), ex.kind_of(a[2]))))
    dom, val = ex.dict_get(d); k = ex.coerce(a[1], d.k[1])
    if ex.branch(z3.Select(dom, k)): return ex.wrap(d.k[2], z3.Select(val, k))
    ex.setitem(d, a[1], a[2])
    return a[2]
@lib('dict.pop')
def _dpop(ex, a, kw):
    d = a[0]
    dom, val = ex.dict_get(d); k = ex.coerce(a[1], d.k[1])
    if ex.branch(z3.Select(dom, k)):
        v = ex.wrap(d.k[2], z3.Select(val, k))
        ex.dict_put(d, z3.Store(dom, k, FALSE), val)
        return v
    if len(a) > 2: return a[2]
    raise PyExc('KeyError', where='dict.pop')
@lib('dict.clear')
def _dclear(ex, a, kw):
    d = a[0]
    if d.k[1] != NEVER:
        dom, val = ex.dict_get(d)
        ex.dict_put(d, z3.K(sort_of(d.k[1]), FALSE), val)
    return NONE
@lib('dict.copy')
def _dcopy(ex, a, kw): return _dict(ex, a, kw)
@lib('dict.update')
def _dupdate(ex, a, kw):
    d, o = a[0], ex.narrow(a[1])
    if not (isinstance(o, SV) and o.k[0] == 'dict'): raise Unsupported('dict.update')
    if o.k[1] == NEVER: return NONE
    if d.k[1] == NEVER: ex.widen_site(d.site, ('tup', (o.k[1], o.k[2])))
    if d.k != o.k: raise Unsupported('dict.update kinds')
    d1, v1 = ex.dict_get(d); d2, v2 = ex.dict_get(o)
    x = z3.Const('x!upd', sort_of(d.k[1]))
    nd = ex.fresh_const('upd.dom', d1.sort()); nv = ex.fresh_const('upd.val', v1.sort())
    ex.assume(z3.ForAll([x], z3.Select(nd, x) == Or(z3.Select(d1, x), z3.Select(d2, x)), patterns=[z3.Select(nd, x)]))
    ex.assume(z3.ForAll([x], z3.Select(nv, x) == If(z3.Select(d2, x), z3.Select(v2, x), z3.Select(v1, x)), patterns=[z3.Select(nv, x)]))
    ex.dict_put(d, nd, nv)
    return NONE
@lib('dict.items')
def _ditems(ex, a, kw):
    if a[0].k[1] == NEVER: return IterV(IV(0), None)
    return ex.dict_iter(a[0], 'items')
@lib('dict.keys')
def _dkeys(ex, a, kw):
    if a[0].k[1] == NEVER: return IterV(IV(0), None)
    return ex.dict_iter(a[0], 'keys')
@lib('dict.values')
def _dvalues(ex, a, kw):
    if a[0].k[1] == NEVER: return IterV(IV(0), None)
    return ex.dict_iter(a[0], 'values')
@lib('set.add')
def _sadd(ex, a, kw):
    s = a[0]
    if s.k[1] == NEVER: ex.widen_site(s.site, ex.kind_of(a[1]))
    ex.set_put(s, z3.Store(ex.set_get(s), ex.coerce(a[1], s.k[1]), TRUE)); return NONE
@lib('set.remove', 'set.discard')
def _sremove(ex, a, kw):
    s = a[0]; t = ex.coerce(a[1], s.k[1])
    cur = ex.set_get(s)
    if not ex.branch(z3.Select(cur, t)): raise PyExc('KeyError', where='set.remove')
    ex.set_put(s, z3.Store(cur, t, FALSE)); return NONE
LIB['set.discard'] = lambda ex, a, kw: (ex.set_put(a[0], z3.Store(ex.set_get(a[0]), ex.coerce(a[1], a[0].k[1]), FALSE)), NONE)[1]
@lib('tuple.count', 'list.count')
def _tcount(ex, a, kw): raise Unsupported('count')

# ------------------------------------------------------------------ regex (opaque)

def _rx(ex, a, which):
    """regex.match/search/fullmatch(text, pos, endpos): opaque optional match object"""
    R = valsort('Regex'); M = valsort('Match'); S_ = Str().sort
    rx, t = a[0].t, ex.str_t(a[1])
    n = Str().mk_len(t)
    p = ex.int_t(a[2]) if len(a) > 2 else IV(0)
    e = ex.int_t(a[3]) if len(a) > 3 else n
    F = z3.Function('rx.' + which, R, S_, INT, INT, sort_of(parse_kind('$Match?')))
    r = ex.wrap(parse_kind('$Match?'), F(rx, t, p, e))
    if not ex.pure:     # definition of the builtin: the matched part lies in the range searched
        some, m = z3.Not(ex.is_none(r)), ex.some(r).t
        beg, end, grp = (z3.Function('match.' + n, M, o) for n, o in (('start', INT), ('end', INT), ('group', S_)))
        ex.assume(z3.Implies(z3.And(some, 0 <= p, p <= e, e <= n),
                             z3.And(p <= beg(m), beg(m) <= end(m), end(m) <= e, grp(m) == Str().slice(t, beg(m), end(m)),
                                    beg(m) == p if which != 'search' else z3.BoolVal(True))))
        h = ex.reg.regexes.get((str(rx), which))        # trusted meaning of a particular regular expression
        if h is not None:
            ex.V.assumptions.add(f'meaning of the regular expression {str(rx)[3:]} (contracts)')
            for f in h(t, p, e, some, m): ex.assume(f)
    return r
def _rxm(which):
    def f(ex, a, kw):
        a = list(a)
        if 'pos' in kw: a.append(kw['pos'])
        if 'endpos' in kw: a.append(kw['endpos'])
        return _rx(ex, a, which)
    return f
for _n in ('match', 'search', 'fullmatch'): LIB['Regex.' + _n] = _rxm(_n)
def _rxf(which):
    def f(ex, a, kw):
        import re
        p = lit_value(a[0].t) if isinstance(a[0], SV) and a[0].k == STRK else None
        if p is None or len(a) != 2 or kw: raise Unsupported('re.' + which)
        return _rx(ex, [ex.regex_const(re.compile(p)), a[1]], which)
    return f
for _n in ('match', 'search', 'fullmatch'): LIB['re.' + _n] = _rxf(_n)
@lib('re.compile')
def _rxcompile(ex, a, kw):
    import re
    p = lit_value(a[0].t) if isinstance(a[0], SV) and a[0].k == STRK else None
    if p is None or len(a) != 1 or kw: raise Unsupported('re.compile')
    return ex.regex_const(re.compile(p))
def char_class(pattern, flags):
    """the characters matched by a regular expression that is one (finite) character class, or None"""
    import re, re._parser as P, re._constants as K
    p = P.parse(pattern, flags)
    if len(p) != 1 or (flags & re.I): return None
    op, av = p[0]
    if op is K.LITERAL: return {av}
    if op is not K.IN: return None
    out = set()
    for o, v in av:
        if o is K.LITERAL: out.add(v)
        elif o is K.RANGE and v[1] - v[0] < 4096: out |= set(range(v[0], v[1] + 1))
        else: return None
    return out

@lib('Regex.sub')
def _rxsub(ex, a, kw):
    """substitution of single characters: the result is the concatenation of the images of all characters"""
    rx, fn, s = a[0], a[1], ex.str_t(a[2])
    pat = ex.V.rxconst.get(str(rx.t))
    cls = char_class(*pat) if pat else None
    if cls is None or len(a) > 3 or kw: raise Unsupported('sub with this regular expression')
    th = Str()
    img = {c: (ex.str_t(ex.call(fn, [ConstMatch(chr(c))], {}, None)) if isinstance(fn, PyObj) else ex.str_t(fn)) for c in sorted(cls)}
    r = ex.fresh_const('sub', th.sort)
    x = ex.fresh_const('x!sub', INT)
    rest = z3.And(0 <= x, x <= 0x10ffff, *[x != c for c in cls])
    for h in ex.V.c.comps:       # relations between result and text that are closed under concatenation: induction over the text
        if not h.startswith('rel:'): continue
        sf = ex.reg.specs[h[4:]]
        R = lambda u, v: ex.spec_apply(sf, [SV(STRK, u), SV(STRK, v)]).t
        bad = [chr(c) for c in sorted(cls) if ex.check_sat([Not(R(img[c], th.unit(IV(c))))], 3000) != z3.unsat]
        q = [ex.fresh_const('q!sub', th.sort) for _ in range(4)]
        closed = ex.check_sat([Not(R(th.empty, th.empty))], 3000) == z3.unsat and \
            ex.check_sat([R(q[0], q[1]), R(q[2], q[3]), Not(R(th.cat(q[0], q[2]), th.cat(q[1], q[3])))], 3000) == z3.unsat
        ok = not bad and closed and ex.check_sat([rest, Not(R(th.unit(x), th.unit(x)))], 3000) == z3.unsat
        ex.oblige(z3.BoolVal(ok), f'every character is replaced according to {sf.name}' + (f' (not: {bad[:5]!r})' if bad else ''), 'induction')
        if ok: ex.assume(R(r, s))
    return SV(STRK, r)
@lib('Regex.finditer')
def _finditer(ex, a, kw):
    a = list(a)
    if 'pos' in kw: a.append(kw['pos'])
    if 'endpos' in kw: a.append(kw['endpos'])
    R = valsort('Regex'); S_ = Str().sort; k = parse_kind('[$Match]')
    t = ex.str_t(a[1])
    F = z3.Function('rx.finditer', R, S_, INT, INT, sort_of(k))
    return SV(k, F(a[0].t, t, ex.int_t(a[2]) if len(a) > 2 else IV(0), ex.int_t(a[3]) if len(a) > 3 else Str().mk_len(t)))
def _mfun(name, ret):
    def f(ex, a, kw):
        if len(a) > 1: raise Unsupported('group arguments')
        F = z3.Function('match.' + name, valsort('Match'), sort_of(parse_kind(ret)))
        return ex.wrap(parse_kind(ret), F(a[0].t))
    return f
@lib('Match.group')
def _mgroup(ex, a, kw):
    if len(a) > 1 and a[1].k == STRK and lit_value(a[1].t) is not None:
        return SV(STRK, z3.Function('match.group!' + lit_value(a[1].t), valsort('Match'), Str().sort)(a[0].t))
    if len(a) > 1 and not (z3.is_int_value(a[1].t) and a[1].t.as_long() == 0):
        if not z3.is_int_value(a[1].t): raise Unsupported('group of a regular expression')
        return SV(('str',), z3.Function(f'match.group!{a[1].t.as_long()}', valsort('Match'), Str().sort)(a[0].t))
    return SV(('str',), z3.Function('match.group', valsort('Match'), Str().sort)(a[0].t))
for _n, _r in (('start', 'int'), ('end', 'int')): LIB['Match.' + _n] = _mfun(_n, _r)
LIB['Match.span'] = lambda ex, a, kw: TupV([LIB['Match.start'](ex, a, kw), LIB['Match.end'](ex, a, kw)])

@lib('Match.groupdict')
def _mgd(ex, a, kw):
    m = a[0].t
    return E.KeyV(lambda k: SV(STRK, z3.Function('match.group!' + k, valsort('Match'), Str().sort)(m)))
