"""The symbolic interpreter: executes real ASTs, emits proof obligations."""
import ast, itertools, sys, time
import z3
from .theory import *
from . import theory as TH
from . import source as SRC

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def IV(n): return z3.IntVal(n)

# ------------------------------------------------------------------ values

class SV:
    __slots__ = ('k', 't', 'site')
    def __init__(self, k, t, site=None): self.k, self.t, self.site = k, t, site
    def __repr__(self): return f'<{kname(self.k)} {self.t}>'

class TupV:
    __slots__ = ('items',)
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return f'TupV{self.items}'

NONE = SV(NONEK, TRUE)

class PyObj: pass
class FnV(PyObj):
    def __init__(self, node, env, mod, cls=None, qual=''):
        self.node, self.env, self.mod, self.cls, self.qual = node, env, mod, cls, qual
class BoundV(PyObj):
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn
def rx_name(pattern, flags=0):
    import re
    return f'rx!{pattern!r}/{int(flags) & ~int(re.U)}'

class PyFn(PyObj):             # function of the engine
    def __init__(self, fn): self.fn = fn
class ConstMatch(PyObj):       # match of a regular expression with known text
    def __init__(self, text): self.text = text
class ConstDict(PyObj):        # dictionary constant of a module that is never written
    def __init__(self, d): self.d = d
class KeyV(PyObj):            # mapping that is only looked up with literal strings
    def __init__(self, f): self.f = f
class LibM(PyObj):            # method of a builtin kind
    def __init__(self, obj, name): self.obj, self.name = obj, name
class ClassV(PyObj):
    def __init__(self, name, src=None): self.name, self.src = name, src
class LibV(PyObj):
    def __init__(self, name): self.name = name
class ModV(PyObj):
    def __init__(self, name): self.name = name
class SliceV(PyObj):
    def __init__(self, start, stop, step=NONE): self.start, self.stop, self.step = start, stop, step
class IterV(PyObj):
    """iterable: length term (z3 Int), item(idx_term) -> value; src: underlying SV or None"""
    def __init__(self, length, item, src=None, elemkind=None):
        self.length, self.item, self.src, self.elemkind = length, item, src, elemkind
class ExcV(PyObj):
    def __init__(self, cls, args=()): self.cls, self.args = cls, args
class SuperV(PyObj):
    def __init__(self, obj, cls): self.obj, self.cls = obj, cls
class PartialV(PyObj):
    def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs

class PyExc(Exception):
    def __init__(self, cls, val=None, where=''): self.cls, self.val, self.where = cls, val, where
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class EndPath(Exception): pass
class Restart(Exception): pass
class MissingName(Unsupported):
    def __init__(self, name): super().__init__(f'name {name!r} not found'); self.name = name

# --------------------------------------------------------------- contracts

def SUMF(): return z3.Function('seq.sum', seq_theory(INT).sort, INT)

class LoopSpec:
    def __init__(self, inv=(), dec=None, hints=(), unroll=None, steps=()):
        # steps: intermediate assertions at the end of the body, proved before the invariants (atiter(e): e at the start of the iteration)
        self.inv, self.dec, self.hints, self.steps = list(inv), dec, list(hints), list(steps)

class Contract:
    def __init__(self, module, qual, params=None, returns='none', requires=(), ensures=(), raises=(), modifies=(),
                 loops=(), variant='', props=(), trusted=False, inline=False, hints=(), fresh=False, assumes=(),
                 closure=None, defn=None, note='', ghost_on_entry=(), allow=(), virtual=False, free=None, yields=None, entry_hints=(), pure=False, comps=(), locals=None, opaque=(), calls=None, unbound=None, steps=(), merge=False):
        self.module = module[:-3] if module.endswith('.py') else module
        self.qual, self.variant = qual, variant
        self.params = {k: parse_kind(v) for k, v in (params or {}).items()}
        self.returns = parse_kind(returns)
        self.requires, self.ensures, self.modifies = list(requires), list(ensures), list(modifies)
        self.raises = [r if len(r) == 3 else (r[0], r[1], True) for r in raises]
        self.loops = list(loops)
        self.props, self.trusted, self.inline, self.hints, self.fresh = set(props), trusted, inline, list(hints), fresh
        self.entry_hints = list(entry_hints); self.steps = list(steps); self.merge = merge
        self.assumes = list(assumes)          # explicit, listed assumptions (never silently)
        self.closure = {k: parse_kind(v) for k, v in (closure or {}).items()}
        self.defn = defn
        self.note = note
        self.virtual = virtual
        self.free = {k: parse_kind(v) for k, v in (free or {}).items()}   # ghost params (universally quantified)
        self.yields = parse_kind(yields) if yields else None
        self.pure = pure
        self.comps = list(comps)
        self.allow = tuple(allow)   # 'seq+list': immutable sequences of this function that are lists in fact
        self.calls = dict(calls or {})  # per callee: variant to use and values of its ghost parameters, {'f#variant': {'ghost': expr}}
        self.opaque = set(opaque)      # spec functions whose definition this proof does not use
        self.locals = {k: parse_kind(v) for k, v in (locals or {}).items()}
        self.unbound = {k: parse_kind(v) for k, v in (unbound or {}).items()}   # names first bound inside a loop: any value before
    @property
    def name(self): return f'{self.module}.{self.qual}' + (f'#{self.variant}' if self.variant else '')

class ClassModel:
    def __init__(self, name, module, fields, frozen=(), inv=(), ghost=None, bases=(), exact=False, attrs=None, truthy=False, lazy=False, alias=None, unset=()):
        self.unset = set(unset)                # fields that may not be set yet if their value is None
        self.name, self.module = name, module
        self.fields = {k: parse_kind(v) for k, v in fields.items()}
        self.ghost = {k: parse_kind(v) for k, v in (ghost or {}).items()}
        self.frozen = set(self.fields) if frozen is True else set(frozen)
        self.inv = list(inv)
        self.bases = list(bases)
        self.exact = exact
        self.alias = dict(alias or {})         # instance attributes bound to a method: the method whose contract is the interface
        self.truthy = truthy
        self.lazy = lazy                       # invariants may be broken between calls, loop heads and exits

class SpecFun:
    """pure specification function. body: python expression string (inlined macro, or - if recursive=True - defined by
    a fuel-limited axiom); None: uninterpreted."""
    def __init__(self, name, params, ret, body=None, recursive=False, heap=()):
        self.name = name
        self.params = [(n, parse_kind(k)) for n, k in params]
        self.ret = parse_kind(ret)
        self.body = ast.parse(body, mode='eval').body if body else None
        self.recursive = recursive
        self.hom = None
        self.heap = list(heap)                 # heap components passed as extra arguments
        self._f = None

class Registry:
    def __init__(self):
        self.contracts, self.classes, self.specs, self.lemmas, self.namedtuples = {}, {}, {}, [], {}
        self.globals = {}
        self.aged = set()          # classes whose optional fields get age facts
        self.locks = {}            # class -> field that tells if the lock is held
        self.globalvars = {}       # (module, variable) -> kind
        self.regexes = {}          # (name of the regular expression, method) -> fn(text, pos, endpos, some, match): trusted facts
        self.records = {}
        self.variants = {}         # recursive kinds: $Name -> union that may contain $Name
        self.callables = {}        # opaque kinds whose values can be called: name -> fn(ex, f, args, kw)
        self.models = {}
    def contract(self, *a, **kw):
        c = Contract(*a, **kw); c.file = sys._getframe(1).f_globals.get('__name__', '').rsplit('.', 1)[-1]
        lst = self.contracts.setdefault((c.module, c.qual), [])
        lst[:] = [x for x in lst if x.variant != c.variant]
        lst.append(c)
        return c
    def klass(self, *a, **kw):
        c = ClassModel(*a, **kw); self.classes[c.name] = c
        SRC.module(c.module)
        return c
    def record(self, name, module, fields):
        self.records[name] = list(fields)
        return self.klass(name, module, fields)
    def spec(self, *a, **kw):
        s = SpecFun(*a, **kw); self.specs[s.name] = s; return s
    def hom(self, name, seqkind, ret, var, body, heap=(), extra=()):
        """spec function defined by  F(()) = unit, F((x,)) = body, F(a + b) = F(a) . F(b)  (ret: str, a sequence, int or bool)"""
        s = SpecFun(name, [(var, seqkind)] + list(extra), ret, body, recursive=True, heap=heap)
        s.hom = var
        self.specs[name] = s; return s
    def model(self, name):
        """register a library model: fn(ex, args, kwargs) -> value"""
        def deco(f): self.models[name] = f; return f
        return deco
    def globalvar(self, mod, name, kind):
        """declare a module variable that is part of the mutable state"""
        self.globalvars[(mod, name)] = kind
        fields = {n: k for (m, n), k in self.globalvars.items() if m == mod}
        self.klass(mod + '!', mod, fields)
    def regex(self, pattern, which, flags=0):
        def deco(f): self.regexes[(rx_name(pattern, flags), which)] = f; return f
        return deco
    def namedtuple(self, name, module, fields):
        self.namedtuples[name] = (module, [(n, parse_kind(k)) for n, k in fields])

REG = Registry()

class Obl:
    __slots__ = ('name', 'pc', 'goal', 'line', 'kind', 'inloop', 'status', 'time', 'model', 'core')
    def __init__(self, name, pc, goal, line, kind, inloop):
        self.name, self.pc, self.goal, self.line, self.kind, self.inloop = name, pc, goal, line, kind, inloop
        self.status = None; self.time = 0.0; self.model = None; self.core = None

def solver(timeout):
    s = z3.Solver()
    s.set('smt.mbqi', False); s.set('auto_config', False)
    s.set('timeout', int(timeout))
    return s

def simp(t):
    return z3.simplify(t)

# ----------------------------------------------------------------- verifier

class Verifier:
    """explores all paths of one function under its contract and collects obligations"""
    def __init__(self, contract, reg=REG, timeout=10000, rename=None, maxpaths=400, budget=120):
        self.c, self.reg, self.timeout = contract, reg, timeout
        self.rename = rename or {}
        node, cls, outer, mod = SRC.get_function(contract.module, contract.qual)
        if node is None: raise Unsupported(f'function {contract.qual} not found in {contract.module}')
        self.node, self.cls, self.outer, self.mod = node, cls, outer, mod
        self.maxpaths, self.budget = maxpaths, budget
        self.loop_havoc, self.site_kind, self.var_kind = {}, {}, {}
        self.assumptions = set()
        self.trace = []

    def explore(self):
        t0 = time.time()
        self.slow = 0
        self.rxconst = {}
        for attempt in range(60):
            try:
                self.obls, self.feas = {}, {}
                self.returns = 0; self.exits = 0
                self.assumptions = set(); self.ends = []; self.used = set(); self.nospec = set(); self.inlined = {}
                work = [()]
                npaths = 0
                while work:
                    prefix = work.pop()
                    npaths += 1
                    if npaths > self.maxpaths: raise Unsupported('too many paths')
                    if time.time() - t0 > self.budget: raise Unsupported('exploration budget exceeded')
                    ex = Exec(self, list(prefix), work)
                    ex.run()
                self.npaths = npaths
                return list(self.obls.values())
            except Restart:
                continue
        raise Unsupported('widening does not terminate')

def seqborn():
    th = seq_theory(Ref)
    F = z3.Function('seq.born', th.sort, INT, BOOL)
    if 'seq.born' not in TH._extra_axioms:
        s, i, T = z3.Const('sb!s', th.sort), z3.Int('sb!i'), z3.Int('sb!T')
        TH.add_axioms('seq.born', ({'seq.born'}, [z3.ForAll([s, i, T], Implies(And(F(s, T), 0 <= i, i < th.len(s)), BIRTH(th.at(s, i)) <= T), patterns=[z3.MultiPattern(F(s, T), th.at(s, i))])]))
    return F

class Env(dict):
    __slots__ = ('parent', 'fn')
    def __init__(self_, /, env_up_=None, env_fn_=None, **kw):
        dict.__init__(self_, **kw); self_.parent, self_.fn = env_up_, env_fn_
    def lookup(self, n):
        e = self
        while e is not None:
            if n in e: return e[n]
            e = e.parent
        raise KeyError(n)
    def where(self, n):
        e = self
        while e is not None:
            if n in e: return e
            e = e.parent
        return None

class Fork(Exception): pass

class Exec:
    def __init__(self, V, prefix, work):
        self.V, self.reg, self.prefix, self.work = V, V.reg, prefix, work
        self.pos = 0
        self.pc = []; self.pcids = {}; self.keep = []
        self.heap = {}
        self.n = itertools.count()
        self.obn = 0
        self.time = 0; self.fresh_base = 0
        self.exit_start = None; self.pre_len = 0
        self.arrtime, self.bmax, self.newtime = {}, {}, {}
        self.loops = []
        self.pure = 0
        self.spec = 0
        self.defs = None
        self.depth = 0
        self.old_heap = {}
        self.old_env = None
        self.constructing = []
        self.factseen = set()
        self.curnode = V.node
        self.yielded = None
        self.active = []
        self.dirty = {}
        self.nofork = 0

    # ------------------------------------------------------------ basics
    def fresh_const(self, name, sort):
        return z3.Const(f'{name}!{next(self.n)}', sort)

    def fresh(self, name, kind):
        """fresh symbolic value of a kind"""
        if kind == NONEK: return NONE
        if kind[0] == 'tup':
            return TupV([self.fresh(f'{name}.{i}', x) for i, x in enumerate(kind[1])])
        if kind[0] == 'slice':
            oi = parse_kind('int?')
            return SliceV(self.fresh(name + '.start', oi), self.fresh(name + '.stop', oi))
        return self.wrap(kind, self.fresh_const(name, sort_of(kind)))

    def wrap(self, kind, t):
        k0 = kind[0]
        if k0 == 'none': return NONE
        if k0 == 'val' and kind[1] in self.reg.variants:
            uk, view, inj = self.variant_fns(kind[1])
            return self.wrap(uk, t.arg(0) if z3.is_app(t) and t.decl().eq(inj) else view(t))
        if k0 == 'tup':
            s, mk, accs = tuple_dt(kind)
            if z3.is_app(t) and t.decl().eq(mk):
                return TupV([self.wrap(kk, t.arg(i)) for i, kk in enumerate(kind[1])])
            return TupV([self.wrap(kk, accs[i](t)) for i, kk in enumerate(kind[1])])
        if k0 == 'union':
            s, alts = union_dt(kind)
            for a, (c, r, acc) in alts.items():
                if z3.is_app(t) and t.decl().eq(c if isinstance(c, z3.FuncDeclRef) else c.decl()):
                    return NONE if a == NONEK else self.wrap(a, t.arg(0))
            v = SV(kind, t)
            return v
        v = SV(kind, t)
        if k0 in ('ref', 'list', 'dict', 'set'): self.ref_facts(v)
        elif k0 == 'seq' and kind[1][0] == 'ref' and not self.pure and (z3.is_const(t) or z3.is_select(t)):
            key = ('seqborn', t.get_id(), self.time)
            if key not in self.factseen:       # the items of a sequence that is seen now exist now
                self.factseen.add(key); self.keep.append(t)
                self.assume(seqborn()(t, IV(self.time)))
        return v

    def variant_fns(self, name):
        """a recursive kind: values of the opaque sort are seen as values of a union (view), unions can be values of the sort (inj)"""
        r = self.reg.variants[name]
        if isinstance(r, str):
            uk = parse_kind(r); S, U = valsort(name), sort_of(uk)
            view, inj = z3.Function(f'view_{name}', S, U), z3.Function(f'inj_{name}', U, S)
            x, y = z3.Const('vi!x', U), z3.Const('vi!y', S)
            TH.add_axioms('variant.' + name, ({f'inj_{name}'}, [z3.ForAll([x], view(inj(x)) == x, patterns=[inj(x)]), z3.ForAll([y], inj(view(y)) == y, patterns=[view(y)])]))
            r = self.reg.variants[name] = (uk, view, inj)
        return r

    def ref_facts(self, v):
        """facts valid for every reference obtained now"""
        if self.pure: return
        t = v.t
        key = (t.get_id(), v.k)
        if key in self.factseen: return
        self.factseen.add(key); self.keep.append(t)
        if not (z3.is_const(t) and t.decl().name().startswith('new!')):
            self.born(t, self.time)
        if v.k[0] == 'ref':
            self.assume_inv(v)

    def assume_inv(self, v):
        cm = self.reg.classes.get(v.k[1])
        if cm is None: return
        if any(v.t.eq(c) for c in self.constructing): return
        for m in self.models_of(cm):
            d = [v.t == w.t for w in self.dirty.values()] if m.lazy else []
            for inv in m.inv:
                t = self.spec_bool(inv, Env(self=v))
                self.assume(Or(*d, t) if d else t)
        if v.k[1] in self.reg.classes: self.assume(self.isa(v.t, v.k[1]))

    def flush_dirty(self, what):
        """objects with lazily checked invariants have to satisfy them again"""
        todo, self.dirty = self.dirty, {}
        for v in todo.values():
            for m in self.models_of(self.reg.classes[v.k[1]]):
                if m.lazy:
                    for inv in m.inv: self.oblige(self.spec_bool(inv, Env(self=v)), f'class invariant of {m.name} {what}: {inv}', 'inv')

    def can_reach(self, c, cname):
        """may the callee get hold of an object of this class through its arguments?"""
        seen, todo = set(), [k for k in c.params.values()] + [k for k in c.closure.values()] + ([('ref', c.qual.split('.')[0])] if '.' in c.qual else [])
        while todo:
            k = todo.pop()
            if k[0] in ('any', 'fn'): return True
            if k[0] == 'ref':
                if k[1] in seen: continue
                seen.add(k[1])
                if k[1] in self.reg.classes:
                    if self.static_subclass(k[1], cname) or self.static_subclass(cname, k[1]): return True
                    for m in self.models_of(self.reg.classes[k[1]]): todo += list(m.fields.values()) + list(m.ghost.values())
            elif k[0] in ('union', 'tup'): todo += list(k[1])
            elif k[0] in ('list', 'seq', 'set'): todo.append(k[1])
            elif k[0] == 'dict': todo += [k[1], k[2]]
        return False

    def isa(self, t, cname):
        return z3.Function('isa_' + cname, Ref, BOOL)(t)

    def models_of(self, cm):
        out = [cm]
        for b in cm.bases:
            if b in self.reg.classes: out += self.models_of(self.reg.classes[b])
        return out

    def assume(self, t):
        if z3.is_true(t): return
        if z3.is_and(t):
            for x in t.children(): self.assume(x)
            return
        i = t.get_id()
        if i in self.pcids: return
        self.pcids[i] = t
        self.pc.append(t)
        if z3.is_quantifier(t):
            m = mirrored(t)
            if m is not None: self.pc.append(m)

    def known(self, t):
        """syntactic truth under the path condition: True/False/None"""
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if t.get_id() in self.pcids: return True
        n = t.arg(0) if z3.is_not(t) else Not(t)
        if n.get_id() in self.pcids: return False
        return None

    def check_sat(self, extra, timeout=400):
        # quick feasibility query; where such queries often stay open in this function, less time is spent on them
        if self.V.slow > 8: timeout = min(timeout, 120)
        s = solver(timeout)
        terms = self.pc + extra
        for a in relevant_axioms(terms): s.add(a)
        s.add(*terms)
        r = s.check()
        if r == z3.unknown: self.V.slow += 1
        return r

    def decide(self, cond):
        """True if provable, False if refutable, None otherwise (quick)"""
        cond = simp(cond)
        k = self.known(cond)
        if k is not None: return k
        if self.pure: return None
        key = ('dec', tuple(self.prefix[:self.pos]), self.obn, cond.get_id(), len(self.pc))
        f = self.V.feas
        if key not in f:
            r = None
            if self.check_sat([Not(cond)], 200) == z3.unsat: r = True
            elif self.check_sat([cond], 200) == z3.unsat: r = False
            f[key] = (r, cond)
        return f[key][0]

    def branch(self, cond):
        cond = simp(cond)
        k = self.known(cond)
        if k is not None: return k
        if self.pure: raise Unsupported('branch in pure mode')
        key = (tuple(self.prefix[:self.pos]), self.obn, cond.get_id(), len(self.pc))
        f = self.V.feas
        if key not in f:
            if self.check_sat([cond]) == z3.unsat: f[key] = ('forced', False, cond)
            elif self.check_sat([Not(cond)]) == z3.unsat: f[key] = ('forced', True, cond)
            else: f[key] = ('free', None, cond)
        mode, val, _ = f[key]
        if mode == 'forced':
            self.assume(cond if val else simp(Not(cond)))
            k = cond if val else Not(cond)
            self.pcids.setdefault(k.get_id(), k)
            return val
        if self.nofork: raise Fork()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            d = True
            self.work.append(tuple(self.prefix) + (False,))
            self.prefix.append(True); self.pos += 1
        self.assume(cond if d else simp(Not(cond)))
        for x in ((cond,) if d else (simp(Not(cond)), Not(cond))):
            self.pcids.setdefault(x.get_id(), x)
        return d

    def nondet(self):
        """both alternatives are explored"""
        if self.nofork: raise Fork()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            d = True
            self.work.append(tuple(self.prefix) + (False,))
            self.prefix.append(True); self.pos += 1
        return d

    def oblige(self, goal, name, kind='assert'):
        if self.pure:
            if self.defs is not None:
                self.defs.append(goal)
                return
            return
        key = (tuple(self.prefix[:self.pos]), self.obn)
        self.obn += 1
        if key not in self.V.obls:
            self.V.obls[key] = o = Obl(name, list(self.pc), goal, getattr(self.curnode, 'lineno', 0), kind, bool(self.loops))
            if kind == 'post' and self.exit_start is not None and len(self.pc) > self.exit_start: o.core = self.pc[:self.pre_len] + self.pc[self.exit_start:]
        self.assume(goal)

    # ------------------------------------------------------------ kinds
    def kind_of(self, v):
        if isinstance(v, SV): return v.k
        if isinstance(v, TupV): return ('tup', tuple(self.kind_of(x) for x in v.items))
        if isinstance(v, SliceV): return ('slice',)
        if isinstance(v, IterV): return ('pyobj',)
        return ('pyobj',)

    def coerce(self, v, kind):
        """z3 term of value v at kind; raises KindError"""
        if kind[0] == 'val' and kind[1] in self.reg.variants and not (isinstance(v, SV) and v.k == kind):
            uk, view, inj = self.variant_fns(kind[1])
            t = self.coerce(v, uk)
            return t.arg(0) if z3.is_app(t) and t.decl().eq(view) else inj(t)
        if isinstance(v, TupV):
            if kind[0] == 'tup':
                if len(kind[1]) != len(v.items): raise KindError(f'tuple length {v} {kind}')
                s, mk, accs = tuple_dt(kind)
                return mk(*[self.coerce(x, kk) for x, kk in zip(v.items, kind[1])])
            if kind[0] == 'seq':
                th = seq_theory(sort_of(kind[1]))
                t = th.empty
                for x in reversed(v.items): t = th.mk_cat(th.unit(self.coerce(x, kind[1])), t)
                return t
            if kind[0] == 'union':
                for a in kind[1]:
                    if a[0] in ('tup', 'seq'):
                        try: return union_dt(kind)[1][a][0](self.coerce(v, a))
                        except KindError: pass
            raise KindError(f'{v} is not {kname(kind)}')
        if isinstance(v, FnV) or isinstance(v, (LibV, BoundV, PartialV)):
            if kind[0] == 'fn': return self.fn_const(v, kind)
            if kind[0] == 'val' and kind[1] in self.reg.callables: return self.callable_term(v, kind)
            if kind[0] == 'union':
                for a in kind[1]:
                    if a[0] == 'fn': return union_dt(kind)[1][a][0](self.fn_const(v, a))
        if not isinstance(v, SV): raise KindError(f'{type(v).__name__} cannot be {kname(kind)}')
        if v.k == kind: return v.t
        if kind[0] == 'union':
            s, alts = union_dt(kind)
            if v.k[0] == 'union':
                if all(a in kind[1] for a in v.k[1]):
                    vs, va = union_dt(v.k)
                    t = None
                    for a, (c, r, acc) in va.items():
                        x = alts[a][0]() if a == NONEK and isinstance(alts[a][0], z3.FuncDeclRef) else (alts[a][0] if a == NONEK else alts[a][0](acc(v.t)))
                        t = x if t is None else If(r(v.t), x, t)
                    return t
                if not self.pure:
                    return self.coerce(self.narrow(v), kind)
                raise KindError(f'{kname(v.k)} -> {kname(kind)}')
            if v.k in alts:
                c = alts[v.k][0]
                if v.k == NONEK: return c() if isinstance(c, z3.FuncDeclRef) else c
                return c(v.t)
            for a in kind[1]:
                if a != NONEK:
                    try: return alts[a][0](self.coerce(v, a))
                    except KindError: pass
            raise KindError(f'{kname(v.k)} -> {kname(kind)}')
        if v.k[0] == 'union':
            # projection; in exec mode the tag has to be decided
            s, alts = union_dt(v.k)
            if self.pure:
                for a, (c, r, acc) in alts.items():
                    if a == kind: return acc(v.t)
                for a, (c, r, acc) in alts.items():
                    if a != NONEK:
                        try: return self.coerce(SV(a, acc(v.t)), kind)
                        except KindError: pass
                raise KindError(f'{kname(v.k)} -> {kname(kind)}')
            return self.coerce(self.narrow(v), kind)
        if kind == INTK and v.k == BOOLK: return If(v.t, IV(1), IV(0))
        if v.k[0] == 'ref' and kind[0] == 'ref':
            if self.static_subclass(v.k[1], kind[1]): return v.t
            if self.static_subclass(kind[1], v.k[1]):
                if self.pure: return v.t
                if self.known(self.isa(v.t, kind[1])): return v.t
                if self.branch(self.isa(v.t, kind[1])): return v.t
                raise KindError(f'{kname(v.k)} -> {kname(kind)}')
            raise KindError(f'{kname(v.k)} -> {kname(kind)}')
        if v.k[0] == 'list' and kind[0] == 'list' and v.k[1] == NEVER:
            if v.site is not None: self.widen_site(v.site, kind[1])
            return v.t
        if v.k[0] == 'list' and kind[0] == 'list' and sort_of(v.k[1]) == sort_of(kind[1]): return v.t
        if v.k[0] == 'seq' and kind[0] == 'seq' and (v.k[1] == NEVER or sort_of(v.k[1]) == sort_of(kind[1])):
            return v.t if v.k[1] != NEVER else seq_theory(sort_of(kind[1])).empty
        if v.k == ('list', NEVER) and kind[0] == 'seq' and 'seq+list' in self.V.c.allow: return seq_theory(sort_of(kind[1])).empty
        if v.k[0] == 'dict' and kind[0] == 'dict' and NEVER in v.k:
            if v.site is not None: self.widen_site(v.site, ('tup', (kind[1], kind[2])))
            return v.t
        if v.k[0] == 'set' and kind[0] == 'set' and NEVER in v.k:
            if v.site is not None: self.widen_site(v.site, kind[1])
            return v.t
        if kind == ANYK:
            f = z3.Function('inject_' + kname(v.k), sort_of(v.k), Val)
            return f(v.t)
        if kind[0] == 'fn' and v.k[0] == 'ref':
            pass
        if v.k[0] == 'seq' and kind[0] == 'tup':
            raise KindError('seq -> tup')
        raise KindError(f'{kname(v.k)} -> {kname(kind)}')

    def callable_term(self, v, kind):
        """a bound method or a lambda without free variables as an opaque value: the same method of the same object is the same value"""
        if isinstance(v, BoundV) and isinstance(v.obj, SV) and v.obj.k[0] == 'ref' and isinstance(v.fn, FnV):
            return z3.Function(f'{kind[1]}.{v.fn.qual}', Ref, sort_of(kind))(v.obj.t)
        if isinstance(v, FnV) and isinstance(v.node, ast.Lambda):
            args = {a.arg for a in v.node.args.args}
            if all(n.id in args for n in ast.walk(v.node.body) if isinstance(n, ast.Name)): return z3.Const(f'{kind[1]}.{ast.unparse(v.node)}', sort_of(kind))
            return self.fresh_const(kind[1] + '.lambda', sort_of(kind))
        if isinstance(v, FnV): return self.fresh_const(kind[1] + '.def', sort_of(kind)) if v.env is not None else z3.Const(f'{kind[1]}.{v.module.name}.{v.qual}', sort_of(kind))
        raise KindError(f'{v!r} as {kname(kind)}')

    def havoc_comp(self, cc, sort):
        """an effect on any object: heap component cc has unknown content afterwards"""
        a = self.comp_array(cc, sort)
        for L in self.loops: L.on_write(self, cc, None)
        self.oblige(z3.BoolVal(any(mc in (cc, '*') and mt is None for mc, mt in self.modset)), f'frame: {cc}', 'frame')
        self.heap[cc] = b = z3.Const(f'H!{cc}!{next(self.n)}', a.sort())
        self.arrtime[b.decl().name()] = self.time + 1
        self.time += 1
        self.factseen.clear()

    def fn_const(self, v, kind):
        """a z3 constant standing for a callable value, with its definition as axiom"""
        f = self.fresh_const('fn', fnsort(kind))
        xs = [z3.Const(f'fa!{i}', sort_of(k)) for i, k in enumerate(kind[1])]
        try:
            self.pure += 1
            r = self.call(v, [self.wrap(k, x) for k, x in zip(kind[1], xs)], {}, None)
            t = self.coerce(r, kind[2])
        except (Unsupported, KindError, PyExc):
            if not isinstance(v, FnV): raise
            self.V.assumptions.add(f'{getattr(v, "qual", "") or v.node.name}, passed as a function value, only reads')
            return f
        finally:
            self.pure -= 1
        app = fnapply(kind)(f, *xs)
        self.assume(z3.ForAll(xs, app == t, patterns=[app]))
        return f

    def widen_site(self, site, kind):
        old = self.V.site_kind.get(site, NEVER)
        new = join_kinds(old, kind)
        if new != old:
            self.V.site_kind[site] = new
            raise Restart()

    def static_subclass(self, a, b):
        if a == b: return True
        cm = self.reg.classes.get(a)
        if cm is None: return False
        return any(self.static_subclass(x, b) for x in cm.bases)

    def narrow(self, v):
        """decide the alternative of a union value (branches)"""
        while isinstance(v, SV) and v.k[0] == 'union':
            s, alts = union_dt(v.k)
            if self.pure:
                return v
            items = list(alts.items())
            for n, (a, (c, r, acc)) in enumerate(items):
                if n == len(items) - 1:
                    self.assume(r(v.t))
                    v = NONE if a == NONEK else self.wrap(a, acc(v.t)); break
                if self.branch(r(v.t)):
                    v = NONE if a == NONEK else self.wrap(a, acc(v.t)); break
        return v

    def some(self, v):
        if isinstance(v, SV) and v.k[0] == 'union':
            alts = [k for k in v.k[1] if k != NONEK]
            if len(alts) == 1:
                return self.wrap(alts[0], union_dt(v.k)[1][alts[0]][2](v.t))
        return v

    def is_none(self, v):
        """z3 Bool: v is None"""
        if isinstance(v, SV):
            if v.k == NONEK: return TRUE
            if v.k[0] == 'union':
                alts = union_dt(v.k)[1]
                if NONEK in alts: return alts[NONEK][1](v.t)
            if v.k == ANYK:
                return z3.Function('any_is_none', Val, BOOL)(v.t)
        return FALSE

    def int_t(self, v): return self.coerce(v, INTK)
    def str_t(self, v): return self.coerce(v, STRK)

    def lift(self, x):
        """python constant -> value"""
        if x is None: return NONE
        if isinstance(x, bool): return SV(BOOLK, z3.BoolVal(x))
        if isinstance(x, int): return SV(INTK, IV(int(x)))
        if isinstance(x, str): return SV(STRK, strlit(str(x)))
        if isinstance(x, bytes): return SV(STRK, strlit(x.decode('latin-1')))
        if isinstance(x, tuple): return TupV([self.lift(y) for y in x])
        if isinstance(x, (list,)) : raise Unsupported('mutable module constant')
        if isinstance(x, frozenset):
            return TupV([self.lift(y) for y in sorted(x, key=repr)])
        raise Unsupported(f'constant {x!r}')

    # ------------------------------------------------------------- heap
    def comp_sort(self, comp):
        return self.heapsorts[comp]
    heapsorts = {}

    def comp_array(self, comp, sort):
        if comp not in self.heap:
            self.heapsorts[comp] = sort
            a = z3.Const('H0$' + comp, z3.ArraySort(Ref, sort))
            self.heap[comp] = a
            if comp not in self.old_heap: self.old_heap[comp] = a
        return self.heap[comp]

    def hread(self, comp, sort, ref):
        a = self.comp_array(comp, sort)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).eq(ref): return a.arg(2)
            if self.distinct_refs(a.arg(1), ref): a = a.arg(0)
            else: break
        return z3.Select(a, ref)

    def distinct_refs(self, a, b):
        na = z3.is_const(a) and a.decl().name().startswith('new!')
        nb = z3.is_const(b) and b.decl().name().startswith('new!')
        if na and nb: return not a.eq(b)
        if na: return self.prefixes_before(b, a)
        if nb: return self.prefixes_before(a, b)
        return False

    def prefixes_before(self, t, new):
        """term t is known to be born before the constant `new` was allocated"""
        return (t.get_id(), 'before', new.get_id()) in self.pcids or (z3.is_const(t) and t.decl().name().startswith('param!')) \
            or self.bmax.get(t.get_id(), 1 << 60) < self.newtime.get(new.decl().name(), 0)

    def born(self, t, time):
        """t was born at `time` or before"""
        self.assume(BIRTH(t) <= time)
        self.keep.append(t)
        self.bmax[t.get_id()] = min(time, self.bmax.get(t.get_id(), time))

    def hwrite(self, comp, sort, ref, val, what=''):
        a = self.comp_array(comp, sort)
        for L in self.loops: L.on_write(self, comp, ref)
        self.check_frame(comp, ref, what)
        self.heap[comp] = z3.Store(a, ref, val)

    def check_frame(self, comp, ref, what):
        if z3.is_const(ref) and ref.decl().name().startswith('new!'): return
        if any(ref.eq(c) for c in self.constructing): return
        allowed = [BIRTH(ref) > 0]
        for (mc, mt) in self.modset:
            if mc == comp or mc == '*' or (mc.startswith('D$') and comp.startswith(mc)):
                if mt is None: return
                if mt.eq(ref): return
                allowed.append(ref == mt)
        self.oblige(Or(*allowed), f'frame: write to {what or comp} is covered by modifies', 'frame')

    def new_ref(self, hint='obj'):
        self.time += 1
        r = z3.Const(f'new!{hint}!{next(self.n)}', Ref)
        self.assume(BIRTH(r) == self.time)
        self.newtime[r.decl().name()] = self.time
        return r

    def init_unset(self, cname, r):
        """attributes of a new object that do not exist before they are set"""
        if cname not in self.reg.classes: return
        for m in self.models_of(self.reg.classes[cname]):
            for f in m.unset:
                f = f.rstrip('!')
                if f not in m.fields: continue
                k = m.fields[f]
                self.assume(self.is_none(SV(k, self.hread(f'{m.name}.{f}', sort_of(k), r))))

    def seq_comp(self, ek):
        s = sort_of(ek)
        return 'L$' + s.name(), seq_theory(s).sort

    def list_get(self, v):
        """current content of a list value as an immutable seq SV"""
        if v.k[1] == NEVER: return SV(('seq', NEVER), z3.Const('never.empty', Val))
        comp, srt = self.seq_comp(v.k[1])
        t = self.hread(comp, srt, v.t)
        return self.wrap(('seq', v.k[1]), t)

    def list_set(self, v, seqt):
        comp, srt = self.seq_comp(v.k[1])
        self.hwrite(comp, srt, v.t, seqt, 'list content')

    def new_list(self, ek, seqt, site=None):
        if site is not None:
            wk = self.V.site_kind.get(site, NEVER)
            if join_kinds(wk, ek) != wk and ek != NEVER: self.widen_site(site, ek)
        r = self.new_ref('list')
        v = SV(('list', ek), r, site)
        if ek != NEVER:
            comp, srt = self.seq_comp(ek)
            a = self.comp_array(comp, srt)
            self.heap[comp] = z3.Store(a, r, seqt)
        return v

    # dicts / sets (no order)
    def dict_comps(self, k):
        nm = f'D${sort_of(k[1]).name()}${sort_of(k[2]).name()}'
        ks, vs = sort_of(k[1]), sort_of(k[2])
        return (nm + '$dom', z3.ArraySort(ks, BOOL)), (nm + '$val', z3.ArraySort(ks, vs))
    def dict_get(self, v):
        (dc, ds), (vc, vs) = self.dict_comps(v.k)
        return self.hread(dc, ds, v.t), self.hread(vc, vs, v.t)
    def dict_put(self, v, dom, val):
        (dc, ds), (vc, vs) = self.dict_comps(v.k)
        self.hwrite(dc, ds, v.t, dom, 'dict content'); self.hwrite(vc, vs, v.t, val, 'dict content')
    def new_dict(self, kk, vk, site=None):
        r = self.new_ref('dict')
        v = SV(('dict', kk, vk), r, site)
        if kk != NEVER:
            (dc, ds), (vc, vs) = self.dict_comps(v.k)
            self.heap[dc] = z3.Store(self.comp_array(dc, ds), r, z3.K(sort_of(kk), FALSE))
            self.comp_array(vc, vs)
        return v
    def set_comp(self, k):
        return f'S${sort_of(k[1]).name()}', z3.ArraySort(sort_of(k[1]), BOOL)
    def set_get(self, v):
        c, s = self.set_comp(v.k); return self.hread(c, s, v.t)
    def set_put(self, v, t):
        c, s = self.set_comp(v.k); self.hwrite(c, s, v.t, t, 'set content')
    def new_set(self, ek, site=None):
        r = self.new_ref('set')
        v = SV(('set', ek), r, site)
        if ek != NEVER:
            c, s = self.set_comp(v.k)
            self.heap[c] = z3.Store(self.comp_array(c, s), r, z3.K(sort_of(ek), FALSE))
        return v

    # --------------------------------------------------------- fields
    def field_owner(self, cname, attr):
        cm = self.reg.classes.get(cname)
        if cm is None: return None
        for m in self.models_of(cm):
            if attr in m.fields: return m, m.fields[attr], attr in m.frozen
            if attr in m.ghost: return m, m.ghost[attr], False
        return None

    def field_read(self, v, attr):
        o = self.field_owner(v.k[1], attr)
        m, kind, frozen = o
        comp = f'{m.name}.{attr}'
        if frozen:
            t = z3.Function(comp, Ref, sort_of(kind))(v.t)
        else:
            t = self.hread(comp, sort_of(kind), v.t)
            if kind[0] in ('ref', 'list', 'dict', 'set') and not self.pure: self.age_facts(t, v.t)
            if kind[0] == 'union' and not self.pure and (m.name[-1] == '!' or m.name in self.reg.aged): self.age_union(kind, t, v.t)
        r = self.wrap(kind, t)
        if attr + '!' in m.unset and not self.pure:      # the attribute does not exist before it is set
            if self.branch(self.is_none(r)): raise PyExc('AttributeError', where=f'{m.name}.{attr} is not set')
        if attr in m.unset and not self.pure:
            none = self.is_none(r)
            if self.check_sat([none]) != z3.unsat and self.nondet():
                self.assume(none); raise PyExc('AttributeError', where=f'{comp} not set')
        return r

    def age_union(self, kind, t, ref):
        for k, (c, r, acc) in union_dt(kind)[1].items():
            if k[0] not in ('ref', 'list', 'dict', 'set') or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_SELECT: continue
            a = t.arg(0)
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
            T = 0 if z3.is_const(a) and a.decl().name().startswith('H0$') else self.arrtime.get(a.decl().name()) if z3.is_const(a) else None
            if T is None: continue
            sel = z3.Select(a, ref)
            self.assume(Implies(And(BIRTH(ref) <= T, r(sel)), BIRTH(acc(sel)) <= T))
            if k[0] == 'ref' and k[1] in self.reg.aged:
                m = self.reg.classes[k[1]]
                for f, fk in m.fields.items():
                    if fk[0] == 'union': self.age_union(fk, self.hread(f'{m.name}.{f}', sort_of(fk), acc(sel)), acc(sel))

    def age_facts(self, t, ref):
        """a field of an object that existed when the heap array was introduced refers to an object that existed then"""
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT): return
        a = t.arg(0)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
        if not z3.is_const(a): return
        nm = a.decl().name()
        T = 0 if nm.startswith('H0$') else self.arrtime.get(nm)
        key = ('age', a.get_id(), ref.get_id())
        if T is None or key in self.factseen: return
        self.factseen.add(key); self.keep.append(a)
        if self.bmax.get(ref.get_id(), 1 << 60) <= T: self.born(z3.Select(a, ref), T)
        else: self.assume(Implies(BIRTH(ref) <= T, BIRTH(z3.Select(a, ref)) <= T))

    def field_write(self, v, attr, val):
        o = self.field_owner(v.k[1], attr)
        if o is None:
            st = self.class_src(v.k[1])
            s = SRC.find_setter(st, attr) if st else None
            if s:
                con = self.find_contract_for(s[1], attr + '@setter', None)
                if con is not None: self.call_contract(con, [v, val], {}, None)
                else: self.call(BoundV(v, FnV(s[0], None, s[1].module, s[1], f'{s[1].name}.{attr}@setter')), [val], {}, None)
                return
            raise Unsupported(f'unknown field {v.k[1]}.{attr}')
        m, kind, frozen = o
        comp = f'{m.name}.{attr}'
        t = self.coerce(val, kind)
        if frozen:
            if not any(v.t.eq(c) for c in self.constructing):
                raise Unsupported(f'assignment to immutable field {comp} outside of __init__')
            key = ('fieldinit', comp, v.t.get_id())
            if key in self.pcids: raise Unsupported(f'double initialisation of immutable field {comp}')
            self.pcids[key] = v.t
            self.assume(z3.Function(comp, Ref, sort_of(kind))(v.t) == t)
            return
        self.hwrite(comp, sort_of(kind), v.t, t, f'{v.k[1]}.{attr}')
        if not any(v.t.eq(c) for c in self.constructing):
            for mm in self.models_of(self.reg.classes[v.k[1]]):
                if mm.lazy:
                    if any(('self.' + attr) in inv for inv in mm.inv): self.dirty[v.t.get_id()] = v
                    continue
                for inv in mm.inv:
                    if ('self.' + attr) in inv:
                        self.oblige(self.spec_bool(inv, Env(self=v)), f'class invariant of {mm.name}: {inv}', 'inv')

    def class_src(self, cname):
        cm = self.reg.classes.get(cname)
        if cm is not None:
            return SRC.module(cm.module).classes.get(cname)
        return None

    # ------------------------------------------------------ running
    def run(self):
        V = self.V; c = V.c
        env = Env()
        try:
            self.setup(env)
            try:
                v = self.run_body(V.node, env)
                self.exit_normal(v, env)
            except PyExc as e:
                self.exit_exc(e, env)
        except EndPath:
            pass
        except (BreakEx, ContinueEx):
            raise Unsupported('break/continue outside of loop')

    def setup(self, env):
        for (m, n), k in self.reg.globalvars.items():
            if m == self.V.mod.name and parse_kind(k)[0] in ('dict', 'list', 'set', 'ref', 'union'): self.field_read(self.global_ref(m), n)
        V = self.V; c = V.c
        args = V.node.args
        names = [a.arg for a in args.posonlyargs + args.args] + ([args.vararg.arg] if args.vararg else []) \
            + [a.arg for a in args.kwonlyargs] + ([args.kwarg.arg] if args.kwarg else [])
        self.modset = []
        self.params = {}
        for n in names:
            if n == 'self' and n not in c.params and V.cls is not None:
                kind = ('ref', V.cls.name)
            elif n in c.params: kind = c.params[n]
            elif args.kwarg is not None and n == args.kwarg.arg:         # stated for calls without further keyword arguments
                env[n] = self.params[n] = ConstDict({})
                continue
            else:
                d = self.default_for(V.node, n)
                if d is None: raise Unsupported(f'no kind for parameter {n} of {c.name}')
                env[n] = self.eval(d, Env(env_fn_=(V.mod, V.cls)))
                self.params[n] = env[n]
                continue
            if n == 'self' and c.qual.endswith('__init__'):
                r = self.new_ref(kind[1])
                self.constructing.append(r)
                env[n] = SV(kind, r)
                self.assume(self.isa(r, kind[1]))
                self.init_unset(kind[1], r)
            else:
                env[n] = self.fresh_param(n, kind)
            self.params[n] = env[n]
        self.fresh_base = 0
        menv = Env(env_fn_=(V.mod, V.cls))
        for n, k in c.closure.items():
            menv[n] = self.fresh_param(n, k); self.params[n] = menv[n]
        for n, k in c.free.items():
            self.params[n] = self.fresh_param(n, k)
        env.parent = menv; env.fn = (V.mod, V.cls)
        # nested functions: make sibling functions of the enclosing scopes available
        for o in V.outer:
            for s in ast.walk(o):
                if isinstance(s, ast.FunctionDef) and s is not o and s.name not in menv:
                    menv[s.name] = FnV(s, menv, V.mod, V.cls, V.c.qual.rsplit('.', 1)[0] + '.' + s.name)
        self.param_env = Env(**self.params)
        self.old_env = Env(**self.params)
        if V.node.args and c.yields is not None:
            self.yielded = self.new_list(c.yields, seq_theory(sort_of(c.yields)).empty)
            env['__yield__'] = self.yielded
        for n, k in c.unbound.items():
            n = (V.rename or {}).get(n, n)
            env[n] = self.fresh_param(f'unbound.{n}', k)
            V.assumptions.add(f'{c.name}: the local variable {n} is bound whenever it is read')
        for r in c.requires:
            self.assume(self.spec_bool(r, self.param_env))
        for r in c.assumes:
            self.assume(self.spec_bool(r, self.param_env)); V.assumptions.add(f'{c.name}: {r}')
        for m in c.modifies: self.modset += self.modtargets(m, self.param_env)
        for h in c.entry_hints: self.mention(h, self.param_env)
        self.old_heap = dict(self.heap)
        self.pre_len = len(self.pc)
        self.entry_checked = True
        key = 'vacuity'
        if key not in V.feas: V.feas[key] = list(self.pc)

    def fresh_param(self, n, kind):
        if kind[0] in ('ref', 'list', 'dict', 'set'):
            return self.wrap(kind, z3.Const(f'param!{n}', Ref))
        if kind[0] == 'tup':
            return TupV([self.fresh_param(f'{n}.{i}', k) for i, k in enumerate(kind[1])])
        if kind[0] == 'slice':
            oi = parse_kind('int?')
            return SliceV(self.fresh_param(n + '.start', oi), self.fresh_param(n + '.stop', oi))
        if kind == NONEK: return NONE
        return self.wrap(kind, z3.Const(f'in!{n}', sort_of(kind)))

    def default_for(self, node, n):
        a = node.args
        pos = a.posonlyargs + a.args
        for arg, d in zip(reversed(pos), reversed(a.defaults)):
            if arg.arg == n: return d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if arg.arg == n: return d
        return None

    def modtargets(self, m, env):
        """'e.*' stands for all (mutable) fields of e"""
        if not m.endswith('.*'): return [self.modtarget(m, env)]
        v = self.spec_val(m[:-2], env)
        return [self.modtarget(f'{m[:-2]}.{f}', env) for mm in self.models_of(self.reg.classes[v.k[1]]) for f in list(mm.fields) + list(mm.ghost) if f not in mm.frozen]

    def modtarget(self, m, env):
        """'e.f' -> (comp, ref); 'e[]' -> list/dict/set content; '*' -> everything; '*Class.f' -> whole component"""
        if m == '*': return ('*', None)
        if m.startswith('global '):
            mod, n = (m[7:].split('.') if '.' in m else (self.V.mod.name if env is None else self.fn_ctx(env)[0].name, m[7:]))
            comp = f'{mod}!.{n}'
            self.comp_array(comp, sort_of(parse_kind(self.reg.globalvars[(mod, n)])))
            return (comp, self.global_ref(mod).t)
        if m.startswith('*'):
            if m.startswith('*list['):
                k = parse_kind(m[1:]); comp, srt = self.seq_comp(k[1]); self.comp_array(comp, srt); return (comp, None)
            if m.startswith('*dict['):
                k = parse_kind(m[1:]); (dc, ds), (vc, vs) = self.dict_comps(k)
                self.comp_array(dc, ds); self.comp_array(vc, vs); return (dc[:-4], None)
            cn, f = m[1:].split('.')
            o = self.field_owner(cn, f)
            comp = f'{o[0].name}.{f}'; self.comp_array(comp, sort_of(o[1]))
            return (comp, None)
        if m.endswith('[]'):
            v = self.spec_val(m[:-2], env)
            if v.k[0] == 'union':
                raise Unsupported('modifies on union')
            if v.k[0] == 'list': comp, srt = self.seq_comp(v.k[1])
            elif v.k[0] == 'set': comp, srt = self.set_comp(v.k)
            else: raise Unsupported(f'modifies {m}')
            self.comp_array(comp, srt)
            return (comp, v.t)
        if m.endswith('{}') :
            v = self.spec_val(m[:-2], env)
            (dc, ds), (vc, vs) = self.dict_comps(v.k)
            self.comp_array(dc, ds); self.comp_array(vc, vs)
            return (dc[:-4], v.t)
        node = ast.parse(m, mode='eval').body
        if not isinstance(node, ast.Attribute): raise Unsupported(f'modifies {m}')
        self.spec += 1; self.pure += 1
        try: v = self.eval(node.value, self.spec_env(env))
        finally: self.spec -= 1; self.pure -= 1
        o = self.field_owner(v.k[1], node.attr)
        comp = f'{o[0].name}.{node.attr}'
        self.comp_array(comp, sort_of(o[1]))
        return (comp, v.t)

    def is_generator(self, node):
        for n in self.walk_own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        return False

    def walk_own(self, node):
        """nodes of a function without nested functions/lambdas"""
        stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
        stack.reverse()
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
            stack.extend(reversed(list(ast.iter_child_nodes(n))))

    def run_body(self, node, env):
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, env)
        nl = set()
        gl = set()
        for n in self.walk_own(node):
            if isinstance(n, ast.Nonlocal): nl |= set(n.names)
            if isinstance(n, ast.Global): gl |= set(n.names)
        env['__nonlocal__'] = nl; env['__global__'] = gl
        env['__fnnode__'] = node
        gen = self.is_generator(node)
        if gen and '__yield__' not in env:
            env['__yield__'] = self.new_list(NEVER, None, site=('yield', id(node)))
            k = self.V.site_kind.get(('yield', id(node)), NEVER)
            if k != NEVER: env['__yield__'] = self.new_list(k, seq_theory(sort_of(k)).empty, site=('yield', id(node)))
        try:
            self.exec_block(node.body, env)
            r = NONE
        except ReturnEx as e:
            r = e.v
        if gen:
            return self.list_get(env['__yield__'])
        return r

    def exit_normal(self, v, env):
        V = self.V; c = V.c
        V.returns += 1
        V.ends.append(list(self.pc))
        self.curnode = V.node
        if not c.qual.endswith('__init__'): self.flush_dirty('on return')
        for (exc, cond, exact) in c.raises:
            if exact:
                self.oblige(Not(self.spec_bool(cond, self.param_env, old=True)), f'raises {exc} whenever {cond}', 'raises')
        if c.returns != NONEK or (isinstance(v, SV) and v.k != NONEK) or not isinstance(v, SV):
            kind = c.yields and ('seq', c.yields) or c.returns
            if kind[0] == 'seq' and isinstance(v, tuple): v = self.force_gen(v)
            try:
                if kind[0] == 'tup' and isinstance(v, TupV) and len(v.items) == len(kind[1]):
                    pass
                res = self.wrap(kind, self.coerce(v, kind)) if kind != ANYK or not isinstance(v, PyObj) else v
            except KindError as e:
                if not isinstance(v, (SV, TupV)): raise Unsupported(f'result {v!r}')
                self.oblige(FALSE, f'result has kind {kname(kind)} (got {self.kind_of(v)}: {e})', 'type')
                return
        else: res = NONE
        renv = Env(**self.params); renv['result'] = res
        self.result = res
        self.final_env = env
        for h in c.hints: self.mention(h, renv)
        if c.steps:                       # intermediate facts about the local variables at the end of the function
            senv = Env(**{**self.params, **dict(env)}); senv['ret'] = res
            for st in c.steps:
                try: st_t = self.spec_bool(st, senv)
                except (KindError, MissingName): continue
                self.oblige(st_t, f'step at the end: {st}', 'post')
        for cr in self.constructing:
            if c.qual.endswith('__init__'):
                self.constructing = []
                cm = self.reg.classes.get(V.cls.name)
                for m in self.models_of(cm) if cm else []:
                    for inv in m.inv:
                        self.oblige(self.spec_bool(inv, Env(self=self.params['self'])), f'class invariant of {m.name} established: {inv}', 'inv')
        for e in c.ensures:
            if self.exit_start is None: self.exit_start = len(self.pc)
            self.oblige(self.spec_bool(e, renv), f'ensures {e}', 'post')

    def mention(self, h, env):
        """make a ground term known to the solver (no logical content)"""
        try: v = self.spec_val(h, env)
        except (KindError, MissingName): return
        for x in (v.items if isinstance(v, TupV) else [v]):
            if isinstance(x, SV) and x.k != NONEK:
                p = z3.Function('mention_' + x.t.sort().name(), x.t.sort(), BOOL)
                self.assume(p(x.t))      # p is used nowhere else
                if x.k[0] == 'union' and z3.is_select(x.t): self.age_union(x.k, x.t, x.t.arg(1))   # what a field refers to exists

    def exit_exc(self, e, env):
        V = self.V; c = V.c
        V.exits += 1
        V.ends.append(list(self.pc))
        self.flush_dirty('on exceptional exit')
        for (exc, cond, exact) in c.raises:
            if SRC.exc_is_subclass(e.cls, exc) or exc == e.cls:
                self.oblige(self.spec_bool(cond, self.param_env, old=True), f'{e.cls} raised only if {cond}', 'raises')
                return
        self.oblige(FALSE, f'no unexpected {e.cls} ({e.where})', 'exc')

    # ------------------------------------------------ specification terms
    def spec_env(self, env):
        return env

    def spec_val(self, s, env, old=False):
        node = ast.parse(s, mode='eval').body if isinstance(s, str) else s
        self.spec += 1; self.pure += 1
        saved = self.heap
        if old: self.heap = dict(self.old_heap); 
        d = self.defs; self.defs = None
        try: return self.eval(node, env)
        finally:
            self.spec -= 1; self.pure -= 1
            self.defs = d
            if old:
                for k, v in self.heap.items():
                    if k not in saved: saved[k] = v
                    if k not in self.old_heap: self.old_heap[k] = v
                self.heap = saved

    def spec_bool(self, s, env, old=False):
        try:
            v = self.spec_val(s, env, old)
            self.pure += 1
            try: return self.truth(v)
            finally: self.pure -= 1
        except KindError as e:
            raise Unsupported(f'spec {s if isinstance(s, str) else ast.unparse(s)}: {e}')

    # ------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body: self.exec(s, env)

    def exec(self, s, env):
        self.curnode = s
        if self.depth == 0: self.cur_env = env
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None: raise Unsupported(f'statement {type(s).__name__} (line {s.lineno})')
        m(s, env)

    def st_Pass(self, s, env): pass
    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, env) if s.value.value else NONE
            self.do_yield(v, env); return
        if isinstance(s.value, ast.YieldFrom):
            v = self.eval(s.value.value, env)
            sv = self.as_seq(v)
            y = env.lookup('__yield__')
            y = self.list_like(y, sv.k[1])
            th = seq_theory(sort_of(y.k[1]))
            self.list_set(y, th.mk_cat(self.list_get(y).t, self.coerce(sv, ('seq', y.k[1]))))
            return
        self.eval(s.value, env)
    def do_yield(self, v, env):
        y = env.lookup('__yield__')
        self.list_append(y, self.snapshot(v, y.k[1]))

    def snapshot(self, v, kind):
        """a list handed to a pure callable or yielded: only its present content matters"""
        if kind[0] == 'seq' and isinstance(v, SV) and v.k[0] == 'list': return self.list_get(v)
        return v

    def list_like(self, v, ek):
        if v.k[1] == NEVER and v.site is not None:
            self.widen_site(v.site, ek)
        return v

    def list_append(self, lst, v):
        ek = lst.k[1]
        try:
            if ek == NEVER: raise KindError()
            t = self.coerce(v, ek)
        except KindError:
            if lst.site is None: raise Unsupported(f'append {self.kind_of(v)} to list[{kname(ek)}]')
            self.widen_site(lst.site, join_kinds(ek, self.kind_of(v)))
            raise
        th = seq_theory(sort_of(ek))
        self.list_set(lst, th.mk_cat(self.list_get(lst).t, th.unit(t)))

    def st_Import(self, s, env):
        for a in s.names: self.store_name(a.asname or a.name.split('.')[0], ModV(a.name), env)
    def st_ImportFrom(self, s, env):
        for a in s.names: self.store_name(a.asname or a.name, self.import_from(s.module, a.name), env)
    def st_Nonlocal(self, s, env): pass
    def st_Global(self, s, env): pass
    def st_FunctionDef(self, s, env):
        mod, cls = self.fn_ctx(env)
        outer = self.V.c.qual if env.parent is not None else ''
        env[s.name] = FnV(s, env, mod, None, f'{outer}.{s.name}')
    st_AsyncFunctionDef = st_FunctionDef

    def fn_ctx(self, env):
        e = env
        while e is not None:
            if e.fn is not None: return e.fn
            e = e.parent
        return (self.V.mod, self.V.cls)

    def st_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else NONE)
    def st_Break(self, s, env): raise BreakEx()
    def st_Continue(self, s, env): raise ContinueEx()

    def st_Assert(self, s, env):
        self.pure_guard()
        c = self.truth(self.eval(s.test, env))
        if not self.branch(c):
            raise PyExc('AssertionError', where=f'line {s.lineno}')

    def pure_guard(self):
        if self.pure: raise Unsupported('statement in pure mode')

    def st_Raise(self, s, env):
        if s.exc is None:
            e = env.lookup('__exc__') if env.where('__exc__') else None
            if e is None: raise Unsupported('bare raise')
            raise e
        x = s.exc
        if isinstance(x, ast.Call): x = x.func
        if isinstance(x, ast.Name):
            try: v = self.eval(x, env)
            except Unsupported: v = None
            if isinstance(v, ExcV): raise PyExc(v.cls, v, f'line {s.lineno}')
            raise PyExc(x.id, where=f'line {s.lineno}')
        if isinstance(x, ast.Attribute): raise PyExc(x.attr, where=f'line {s.lineno}')
        raise Unsupported('raise')

    def st_If(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if self.pure:
            raise Unsupported('if in pure mode')
        if self.V.c.merge and self.merged_if(c, s, env): return
        if self.branch(c): self.exec_block(s.body, env)
        else: self.exec_block(s.orelse, env)

    def merged_if(self, c, s, env):
        """both branches are executed one after the other and their effects joined, if they do not branch themselves"""
        NO = (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Yield, ast.YieldFrom, ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global, ast.Delete)
        if any(isinstance(x, NO) for b in (s.body, s.orelse) for st in b for x in ast.walk(st)): return False
        c = simp(c)
        if self.decide(c) is not None: return False
        obn0 = self.obn; where = tuple(self.prefix[:self.pos])
        def snap(): return (list(self.pc), dict(self.pcids), dict(self.heap), dict(env), self.time, dict(self.bmax), set(self.factseen), dict(self.dirty), list(self.constructing), self.yielded)
        def restore(x):
            pc, ids, heap, e, _, bm, fs, d, con, y = x
            self.pc, self.pcids, self.heap, self.bmax, self.factseen, self.dirty, self.constructing, self.yielded = list(pc), dict(ids), dict(heap), dict(bm), set(fs), dict(d), list(con), y
            env.clear(); env.update(e)
        s0 = snap()
        ends = []
        self.nofork += 1
        try:
            for cond, body in ((c, s.body), (simp(Not(c)), s.orelse)):
                self.assume(cond); self.pcids.setdefault(cond.get_id(), cond)
                mark = len(self.pc)
                self.exec_block(body, env)
                ends.append((cond, self.pc[mark:], snap()))
                t = self.time
                restore(s0); self.time = t
                if ends[-1][2][8] != s0[8] or ends[-1][2][9] is not s0[9]: raise Fork()
            (_, fa, A), (_, fb, B) = ends
            merged = {}
            for n in {**A[3], **B[3]}:
                if n not in A[3] or n not in B[3]: raise Fork()
                a, b = A[3][n], B[3][n]
                if a is b: continue
                if not (isinstance(a, SV) and isinstance(b, SV)): raise Fork()
                if a.k != b.k or a.k == NONEK: raise Fork()
                if not a.t.eq(b.t): merged[n] = (a, b)
        except (Fork, PyExc, EndPath):
            self.nofork -= 1
            restore(s0); self.time = s0[4]
            for k in [k for k in self.V.obls if k[0] == where and k[1] >= obn0]: del self.V.obls[k]
            self.obn = obn0
            return False
        self.nofork -= 1
        for cond, facts in ((c, fa), (simp(Not(c)), fb)):
            for f in facts: self.assume(Implies(cond, f))
        env.update(A[3])
        for n, (a, b) in merged.items(): env[n] = SV(a.k, z3.If(c, a.t, b.t))
        def stores(x, base):
            out = []
            while not x.eq(base):
                if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE): return None
                out.append((x.arg(1), x.arg(2))); x = x.arg(0)
            return out[::-1]
        for k in {**A[2], **B[2]}:
            a, b = (x[2].get(k, self.old_heap.get(k)) for x in (A, B))
            if a.eq(b): self.heap[k] = a; continue
            for x, base, cond in ((a, b, c), (b, a, Not(c))):
                st = stores(x, base)
                if st is not None:
                    for r, v in st: base = z3.Store(base, r, z3.If(cond, v, z3.Select(base, r)))
                    self.heap[k] = base
                    break
            else:
                self.heap[k] = m = z3.Const(f'H!{k}!{next(self.n)}', a.sort())
                self.arrtime[m.decl().name()] = self.time + 1
                self.assume(m == z3.If(c, a, b))
        self.time += 1
        self.dirty = {**A[7], **B[7]}
        return True

    def st_Try(self, s, env):
        def run():
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    names = []
                    if h.type is None: names = ['BaseException']
                    elif isinstance(h.type, ast.Tuple): names = [x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts]
                    elif isinstance(h.type, ast.Name): names = [h.type.id]
                    elif isinstance(h.type, ast.Attribute): names = [h.type.attr]
                    if any(SRC.exc_is_subclass(e.cls, n) for n in names):
                        if h.name: env[h.name] = e.val if e.val is not None else ExcV(e.cls)
                        env['__exc__'] = e
                        self.exec_block(h.body, env)
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        if s.finalbody:
            try: run()
            except (PyExc, ReturnEx, BreakEx, ContinueEx):
                self.exec_block(s.finalbody, env)
                raise
            self.exec_block(s.finalbody, env)
        else: run()

    def st_With(self, s, env):
        locks = []
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
            if isinstance(v, SV) and v.k[0] == 'ref' and v.k[1] in self.reg.locks:      # non-reentrant lock: must not be held already
                held = self.reg.locks[v.k[1]]
                self.oblige(Not(self.truth(self.field_read(v, held))), 'lock is not held yet (no deadlock)', 'lock')
                self.setattr(v, held, SV(BOOLK, TRUE))
                locks.append((v, held))
        def release():
            for v, held in reversed(locks): self.setattr(v, held, SV(BOOLK, FALSE))
        try: self.exec_block(s.body, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            release(); raise
        release()

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.narrow(self.eval(t.value, env))
                if isinstance(t.slice, ast.Slice):
                    self.seq_assign_slice(o, t.slice, TupV([]), env)
                    continue
                i = self.eval(t.slice, env)
                if isinstance(o, SV) and o.k[0] == 'list':
                    cur = self.list_get(o)
                    th = seq_theory(sort_of(o.k[1]))
                    n = th.mk_len(cur.t)
                    ix = self.norm_index(self.int_t(i), n, 'IndexError')
                    self.list_set(o, th.mk_cat(th.slice(cur.t, IV(0), ix), th.slice(cur.t, simp(ix + 1), n)))
                    continue
                if isinstance(o, SV) and o.k[0] == 'dict':
                    dom, val = self.dict_get(o)
                    kt = self.coerce(i, o.k[1])
                    if not self.branch(z3.Select(dom, kt)): raise PyExc('KeyError', where='del')
                    self.dict_put(o, z3.Store(dom, kt, FALSE), val)
                    continue
                if isinstance(o, SV) and o.k[0] == 'ref':
                    self.call(self.getattr(o, '__delitem__'), [i], {}, t); continue
            if isinstance(t, ast.Name):
                env.pop(t.id, None); continue
            raise Unsupported('del')

    def st_AnnAssign(self, s, env):
        if s.value is None: return
        self.assign(s.target, self.eval(s.value, env), env)

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def st_AugAssign(self, s, env):
        t = s.target
        rhs = self.eval(s.value, env)
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(t.id, ast.Load()), env)
            if isinstance(cur, SV) and cur.k[0] == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs); return
            self.store_name(t.id, self.binop(s.op, cur, rhs), env)
        elif isinstance(t, ast.Attribute):
            o = self.narrow(self.eval(t.value, env))
            cur = self.getattr(o, t.attr)
            if isinstance(cur, SV) and cur.k[0] == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs); return
            self.setattr(o, t.attr, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.narrow(self.eval(t.value, env)); i = self.eval_index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(s.op, cur, rhs))
        else: raise Unsupported('augassign')

    def setattr(self, o, attr, v):
        if isinstance(o, SV) and o.k[0] == 'ref':
            self.field_write(o, attr, v)
        else: raise Unsupported(f'attribute store on {o!r}')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.narrow(self.eval(t.value, env)), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.narrow(v)
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported('starred assignment')
            if isinstance(v, TupV):
                if len(v.items) != len(t.elts): raise PyExc('ValueError', where='unpack')
                for x, y in zip(t.elts, v.items): self.assign(x, y, env)
            elif isinstance(v, SV) and v.k[0] == 'seq':
                th = seq_theory(sort_of(v.k[1]))
                if not self.branch(th.mk_len(v.t) == len(t.elts)): raise PyExc('ValueError', where='unpack')
                for n, x in enumerate(t.elts): self.assign(x, self.wrap(v.k[1], th.at(v.t, IV(n))), env)
            elif isinstance(v, SV) and v.k[0] == 'ref' and v.k[1] in self.reg.namedtuples: raise Unsupported('nt')
            else: raise Unsupported(f'unpack {v!r}')
        elif isinstance(t, ast.Subscript):
            o = self.narrow(self.eval(t.value, env))
            if isinstance(t.slice, ast.Slice):
                self.seq_assign_slice(o, t.slice, v, env); return
            self.setitem(o, self.eval(t.slice, env), v)
        else: raise Unsupported('assignment target')

    def setitem(self, o, i, v):
        if isinstance(o, SV) and o.k[0] == 'list':
            cur = self.list_get(o)
            if o.k[1] == NEVER: raise PyExc('IndexError', where='list store')
            th = seq_theory(sort_of(o.k[1]))
            n = th.mk_len(cur.t)
            ix = self.norm_index(self.int_t(i), n, 'IndexError')
            try: t = self.coerce(v, o.k[1])
            except KindError:
                if o.site is None: raise Unsupported('list item store kind')
                self.widen_site(o.site, self.kind_of(v)); raise
            self.list_set(o, th.upd(cur.t, ix, t))
        elif isinstance(o, SV) and o.k[0] == 'dict':
            if o.k[1] == NEVER:
                self.widen_site(o.site, ('tup', (self.kind_of(i), self.kind_of(v))))
            dom, val = self.dict_get(o)
            kt = self.coerce(i, o.k[1])
            try: vt = self.coerce(v, o.k[2])
            except KindError:
                if o.site is None: raise Unsupported('dict item store kind')
                self.widen_site(o.site, ('tup', (o.k[1], self.kind_of(v)))); raise
            self.dict_put(o, z3.Store(dom, kt, TRUE), z3.Store(val, kt, vt))
        elif isinstance(o, SV) and o.k[0] == 'ref':
            self.call(self.getattr(o, '__setitem__'), [i, v], {}, None)
        else: raise Unsupported(f'item store on {o!r}')

    def seq_assign_slice(self, o, sl, v, env):
        if not (isinstance(o, SV) and o.k[0] == 'list') or sl.step is not None: raise Unsupported('slice store')
        cur = self.list_get(o)
        th = seq_theory(sort_of(o.k[1]))
        n = th.mk_len(cur.t)
        lo = self.eval(sl.lower, env) if sl.lower else NONE
        hi = self.eval(sl.upper, env) if sl.upper else NONE
        a, b = self.slice_bounds(lo, hi, n)
        sv = self.as_seq(v) if not isinstance(v, TupV) else v
        t = self.coerce(sv, ('seq', o.k[1]))
        self.list_set(o, th.mk_cat(th.slice(cur.t, IV(0), a), th.mk_cat(t, th.slice(cur.t, b, n))))

    def store_name(self, n, v, env):
        if n in env.get('__nonlocal__', ()):
            e = env.parent.where(n)
            if e is None: raise Unsupported(f'nonlocal {n}')
        elif n in env.get('__global__', ()):
            self.global_write(n, v, env)
            return
        else: e = env
        for L in self.loops: L.on_assign(self, n, e)
        if n in self.V.c.locals and isinstance(v, SV) and v.k[0] in ('list', 'set', 'dict') and v.site is not None and e.get('__fnnode__') is self.V.node:
            self.declare_kind(v, self.V.c.locals[n])
        if n in self.V.c.locals and self.V.c.locals[n][0] == 'seq' and isinstance(v, (TupV, SV)) and e.get('__fnnode__') is self.V.node:
            k = self.V.c.locals[n]
            if isinstance(v, TupV) or v.k == ('seq', NEVER):
                v = self.wrap(k, self.coerce(v, k) if isinstance(v, TupV) else seq_theory(sort_of(k[1])).empty)
        e[n] = v

    def declare_kind(self, v, k):
        if v.k == k or v.k[0] != k[0]: return
        self.widen_site(v.site, ('tup', k[1:]) if k[0] == 'dict' else k[1])

    def globals_env(self, env):
        raise Unsupported('global variable store')
    def global_write(self, n, v, env):
        mod, cls = self.fn_ctx(env)
        if (mod.name, n) not in self.reg.globalvars: raise Unsupported(f'store to global {n}')
        self.setattr(self.global_ref(mod.name), n, v)

    def global_ref(self, mod):
        """the variables of a module are fields of a single object"""
        r = SV(('ref', mod + '!'), z3.Const(f'param!G${mod}!', Ref))
        if not self.pure: self.assume(BIRTH(r.t) <= 0)
        return r

    # ------------------------------------------------------------ loops
    def loop_spec(self, node, env):
        fnode = env.lookup('__fnnode__') if env.where('__fnnode__') else self.V.node
        loops = [x for x in self.walk_own(fnode) if isinstance(x, (ast.While, ast.For))]
        idx = loops.index(node)
        if fnode is self.V.node: specs = self.V.c.loops
        else:
            specs = []
            for (m, q), cs in self.reg.contracts.items():
                if q.split('.')[-1] == fnode.name:
                    for c in cs:
                        if c.loops:
                            n2 = SRC.get_function(c.module, c.qual)[0]
                            if n2 is fnode: specs = c.loops
        return (specs[idx] if idx < len(specs) else None), idx

    def assigned_names(self, body):
        out = []
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                if isinstance(n, ast.FunctionDef): out.append(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.append(n.id)
            if isinstance(n, ast.NamedExpr): out.append(n.target.id)
            if isinstance(n, ast.ExceptHandler) and n.name: out.append(n.name)
            stack.extend(ast.iter_child_nodes(n))
        return sorted(set(out))

    def st_While(self, s, env):
        self.pure_guard()
        spec, idx = self.loop_spec(s, env)
        self.cut_loop(s, env, spec, idx, None)

    def st_For(self, s, env):
        self.pure_guard()
        it = self.iterate(self.eval(s.iter, env))
        n = simp(it.length)
        if z3.is_int_value(n) and n.as_long() <= 8:
            for i in range(n.as_long()):
                self.assign(s.target, it.item(IV(i)), env)
                try: self.exec_block(s.body, env)
                except BreakEx: return
                except ContinueEx: continue
            self.exec_block(s.orelse, env)
            return
        spec, idx = self.loop_spec(s, env)
        self.cut_loop(s, env, spec, idx, it)

    def cut_loop(self, s, env, spec, idx, it):
        V = self.V
        fnode = env.lookup('__fnnode__')
        lid = (fnode.name if not isinstance(fnode, ast.Lambda) else 'lambda', s.lineno, s.col_offset)
        hv = V.loop_havoc.setdefault(lid, {'vars': {}, 'heap': set(), 'locs': {}, 'envs': set()})
        L = LoopCtx(self, lid, hv, s, env)
        name = f'loop {idx}'
        if spec is None: V.nospec.add(f'{lid[0]}:{s.lineno}')
        spec = spec or LoopSpec()
        genv = env
        iter_state = [L.pre_heap, L.pre_env]
        def inv_env(i):
            e = Env(env_up_=env)
            e.update({'_i': SV(INTK, i)} if i is not None else {})
            if it is not None:
                e['_n'] = SV(INTK, it.length)
                if it.src is not None: e['_it'] = it.src
            e['__loopheap__'] = L.pre_heap; e['__loopenv__'] = L.pre_env
            e['__iterheap__'] = iter_state[0]; e['__iterenv__'] = iter_state[1]
            for k, v in self.params.items():
                if k not in e and env.where(k) is None: e[k] = v
            for a, b in V.rename.items():
                w = env.where(b)
                if w is not None: e[a] = w[b]
            return e
        def invs(i, what, kind):
            e = inv_env(i)
            for h in spec.hints: self.mention(h, e)
            for inv in spec.inv:
                self.oblige(self.spec_bool(inv, e), f'{name} invariant {what}: {inv}', kind)
        i0 = IV(0) if it is not None else None
        self.flush_dirty('at the loop head')
        invs(i0, 'holds initially', 'inv-init')
        # havoc
        L.havoc()
        i = self.fresh_const('_i', INT) if it is not None else None
        if it is not None: self.assume(And(0 <= i, i <= it.length))
        e = inv_env(i)
        for inv in spec.inv: self.assume(self.spec_bool(inv, e))
        for h in spec.hints: self.mention(h, e)
        if it is not None: c = simp(i < it.length)
        else: c = self.truth(self.eval(s.test, env))
        if self.branch(c):
            if it is not None:
                self.loop_item_hint(it, i)
            d0 = None
            if spec.dec is not None:
                d0 = self.int_t(self.spec_val(spec.dec, e))
            elif it is None: V.assumptions.add(f'{V.c.name}: termination of the loop at line {s.lineno} is not proved')
            self.loops.append(L)
            broke = False
            depth = len(self.loops)
            try:
                if it is not None: self.assign(s.target, it.item(i), env)
                if spec.steps: iter_state[:] = [dict(self.heap), dict(env)]
                try: self.exec_block(s.body, env)
                except ContinueEx: pass
                except BreakEx: broke = True
                if not broke:
                    L.at_end(self, env)
                    self.curnode = s
                    i2 = simp(i + 1) if i is not None else None
                    self.flush_dirty('at the end of the loop body')
                    for st in spec.steps:
                        self.oblige(self.spec_bool(st, inv_env(i2)), f'{name} step: {st}', 'inv-pres')
                    invs(i2, 'is preserved', 'inv-pres')
                    if d0 is not None:
                        d1 = self.int_t(self.spec_val(spec.dec, inv_env(i2)))
                        self.oblige(And(d0 >= 0, d1 < d0), f'{name} terminates: {spec.dec} decreases', 'dec')
                    raise EndPath()
            finally:
                del self.loops[depth - 1:]
            return       # after break
        else:
            self.exec_block(s.orelse, env)

    def loop_item_hint(self, it, i):
        if it.src is not None and it.src.k[0] == 'seq' and it.src.k[1] != NEVER:
            th = seq_theory(sort_of(it.src.k[1]))
            t = it.src.t
            self.assume(th.slice(t, IV(0), i + 1) == th.cat(th.slice(t, IV(0), i), th.unit(th.at(t, i))))

    # -------------------------------------------------------- iteration
    def iterate(self, v):
        v = self.narrow(v)
        if isinstance(v, IterV): return v
        if isinstance(v, TupV):
            items = v.items
            def item(i):
                i = simp(i)
                if z3.is_int_value(i): return items[i.as_long()]
                k = tup_to_seq(self.kind_of(v))
                th = seq_theory(sort_of(k[1]))
                return self.wrap(k[1], th.at(self.coerce(v, k), i))
            return IterV(IV(len(items)), item)
        if isinstance(v, SV):
            if v.k[0] == 'list':
                v = self.list_get(v)
            if v.k[0] == 'seq':
                if v.k[1] == NEVER: return IterV(IV(0), None)
                th = seq_theory(sort_of(v.k[1]))
                n = self.concrete_len(v.t, th)
                return IterV(n, lambda i: self.wrap(v.k[1], self.at(th, v.t, i)), v)
            if v.k == STRK:
                th = Str()
                return IterV(th.mk_len(v.t), lambda i: SV(STRK, th.unit(th.at(v.t, i))), v)
            if v.k[0] == 'ref':
                st = self.class_src(v.k[1])
                if st is not None and SRC.find_member(st, '__iter__'):
                    return self.iterate(self.call(self.getattr(v, '__iter__'), [], {}, None))
            if v.k[0] == 'dict':
                return self.dict_iter(v, 'keys')
            if v.k[0] == 'set':
                raise Unsupported('iteration over a set')
        raise Unsupported(f'iterate {v!r}')

    def dict_iter(self, v, what):
        """iteration over a dict: some enumeration of its keys (each key once, order unspecified)"""
        dom, val = self.dict_get(v)
        th = seq_theory(sort_of(v.k[1]))
        ks = self.fresh_const('keys', th.sort)
        idx = z3.Function(f'keyidx!{next(self.n)}', sort_of(v.k[1]), INT)
        i, j = z3.Ints('i j'); x = z3.Const('x', sort_of(v.k[1]))
        self.assume(z3.ForAll([i], Implies(And(0 <= i, i < th.len(ks)), And(z3.Select(dom, th.at(ks, i)), idx(th.at(ks, i)) == i)), patterns=[th.at(ks, i)]))
        self.assume(z3.ForAll([x], Implies(z3.Select(dom, x), And(0 <= idx(x), idx(x) < th.len(ks), th.at(ks, idx(x)) == x)), patterns=[z3.Select(dom, x), idx(x)]))
        kseq = SV(('seq', v.k[1]), ks)
        def key(i): return self.wrap(v.k[1], th.at(ks, i))
        def value(i): return self.wrap(v.k[2], z3.Select(val, th.at(ks, i)))
        if what == 'keys': return IterV(th.len(ks), key, kseq)
        if what == 'values': return IterV(th.len(ks), value, None)
        return IterV(th.len(ks), lambda i: TupV([key(i), value(i)]), kseq)

    def concrete_len(self, t, th):
        return th.mk_len(t)

    def at(self, th, t, i):
        """element with syntactic simplification"""
        i = simp(i)
        if z3.is_app(t) and z3.is_int_value(i):
            d = t.decl()
            if d.eq(th.unit) and i.as_long() == 0: return t.arg(0)
            if d.eq(th.cat):
                n = simp(th.mk_len(t.arg(0)))
                if z3.is_int_value(n):
                    if i.as_long() < n.as_long(): return self.at(th, t.arg(0), i)
                    return self.at(th, t.arg(1), IV(i.as_long() - n.as_long()))
        return th.at(t, i)

    def as_seq(self, v):
        """any iterable -> immutable seq SV"""
        v = self.narrow(v)
        if isinstance(v, SV):
            if v.k[0] == 'seq': return v
            if v.k[0] == 'list': return self.list_get(v)
            if v.k == STRK:
                raise Unsupported('str as sequence of characters')
        if isinstance(v, TupV):
            k = tup_to_seq(self.kind_of(v))
            return SV(k, self.coerce(v, k)) if v.items else SV(('seq', NEVER), z3.Const('never.empty', Val))
        it = self.iterate(v)
        if it.src is not None and it.item is None: return it.src
        # tabulate
        x = z3.Int('x!tab')
        self.pure += 1
        try:
            val = it.item(x)
            k = self.kind_of(val)
            t = self.coerce(val, k)
        finally: self.pure -= 1
        n = simp(it.length)
        if z3.is_int_value(n) and n.as_long() <= 8:
            return self.as_seq(TupV([it.item(IV(i)) for i in range(n.as_long())]))
        th = seq_theory(sort_of(k))
        r = self.fresh_const('tab', th.sort)
        self.assume(th.len(r) == it.length)
        self.assume(z3.ForAll([x], Implies(And(0 <= x, x < it.length), th.at(r, x) == t), patterns=[th.at(r, x)]))
        return SV(('seq', k), r)

    def list_extend(self, lst, v):
        sv = self.as_seq(v)
        if sv.k[1] == NEVER: return
        if lst.k[1] == NEVER or join_kinds(lst.k[1], sv.k[1]) != lst.k[1]:
            if lst.site is None: raise Unsupported('extend kind')
            self.widen_site(lst.site, join_kinds(lst.k[1], sv.k[1]))
        th = seq_theory(sort_of(lst.k[1]))
        self.list_set(lst, th.mk_cat(self.list_get(lst).t, self.seq_coerce(sv, lst.k[1])))

    def seq_coerce(self, sv, ek):
        if sort_of(sv.k[1]) == sort_of(ek): return sv.t
        return self.map_seq(sv, lambda x: SV(ek, self.coerce(x, ek)), ek).t

    def map_seq(self, sv, f, ek):
        """r[i] == f(sv[i]) for all i"""
        th1, th2 = seq_theory(sort_of(sv.k[1])), seq_theory(sort_of(ek))
        r = self.fresh_const('map', th2.sort)
        x = z3.Int('x!map')
        self.pure += 1
        try: t = self.coerce(f(self.wrap(sv.k[1], th1.at(sv.t, x))), ek)
        finally: self.pure -= 1
        self.assume(th2.len(r) == th1.mk_len(sv.t))
        self.assume(z3.ForAll([x], Implies(And(0 <= x, x < th2.len(r)), th2.at(r, x) == t), patterns=[th2.at(r, x)]))
        return SV(('seq', ek), r)

    # ---------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, TupV): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, SV):
            k = v.k
            if k == BOOLK: return v.t
            if k == INTK: return v.t != 0
            if k == NONEK: return FALSE
            if k == STRK: return Str().mk_len(v.t) != 0
            if k[0] == 'seq': return FALSE if k[1] == NEVER else seq_theory(sort_of(k[1])).mk_len(v.t) != 0
            if k[0] == 'list': return self.truth(self.list_get(v))
            if k[0] == 'dict':
                if k[1] == NEVER: return FALSE
                dom, _ = self.dict_get(v)
                return dom != z3.K(sort_of(k[1]), FALSE)
            if k[0] == 'set':
                if k[1] == NEVER: return FALSE
                return self.set_get(v) != z3.K(sort_of(k[1]), FALSE)
            if k[0] == 'ref':
                return self.ref_truth(v)
            if k[0] == 'union':
                s, alts = union_dt(k)
                return Or(*[And(r(v.t), self.truth(self.wrap(a, acc(v.t)))) for a, (c, r, acc) in alts.items() if a != NONEK])
            if k == ANYK: return z3.Function('any_truth', Val, BOOL)(v.t)
            if k[0] in ('fn', 'val'): return TRUE
        if isinstance(v, ConstDict): return z3.BoolVal(len(v.d) > 0)
        if isinstance(v, PyObj): return TRUE
        raise Unsupported(f'truth of {v!r}')

    def ref_truth(self, v):
        if v.k[1] in self.reg.classes and self.reg.classes[v.k[1]].truthy: return TRUE
        st = self.class_src(v.k[1])
        for m in ('__bool__', '__len__'):
            mem = SRC.find_member(st, m) if st else None
            if mem:
                r = self.call(self.getattr(v, m), [], {}, None)
                return self.truth(r)
        return TRUE

    # ------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def ex_Constant(self, e, env):
        if e.value is Ellipsis: raise Unsupported('...')
        return self.lift(e.value)

    def ex_Name(self, e, env):
        n = e.id
        w = env.where(n)
        if w is not None: return w[n]
        if self.spec:
            if n in self.reg.specs: return ('spec', self.reg.specs[n])
            if n in SPEC_BUILTINS: return ('specb', n)
        return self.global_name(n, env)

    def global_name(self, n, env):
        mod, cls = self.fn_ctx(env)
        return self.resolve_global(n, mod)

    def resolve_global(self, n, mod):
        if (mod.name, n) in self.reg.globalvars: return self.field_read(self.global_ref(mod.name), n)
        g = self.reg.globals.get((mod.name, n)) or self.reg.globals.get(n)
        if g is not None: return g(self) if callable(g) else g
        if n in mod.functions: return FnV(mod.functions[n], None, mod, None, n)
        if n in mod.classes: return ClassV(n, mod.classes[n])
        if n in mod.imports:
            m, a = mod.imports[n]
            return self.import_from(m, a) if a else ModV(m)
        if n in mod.assigns:
            return self.module_const(mod, n)
        if n in LIB or n in ('print',) or n in self.reg.models: return LibV(n)
        if n in ('int', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'float', 'bytes', 'frozenset', 'type', 'object', 'slice'): return ClassV(n)
        if n in SRC._BUILTIN_EXC: return ClassV(n)
        raise MissingName(n)

    def import_from(self, m, a):
        if m and m.startswith('DHParser.') and not m.startswith('DHParser.externallibs'):
            return self.resolve_global(a, SRC.module(m))
        if f'{m}.{a}' in LIB or f'{m}.{a}' in self.reg.models: return LibV(f'{m}.{a}')
        if a in ('cast',): return LibV('cast')
        return ModV(f'{m}.{a}')

    def module_const(self, mod, n):
        try: x = getattr(mod.real, n)
        except Exception as ex: raise Unsupported(f'module constant {n}: {ex}')
        fn = getattr(x, '__name__', None)
        if type(x).__name__ == 'function' and fn in mod.functions and fn != n: return self.resolve_global(fn, mod)      # alias
        return self.const_value(x, f'{mod.name}.{n}')

    def regex_const(self, rx):
        pat = rx.pattern if isinstance(rx.pattern, str) else rx.pattern.decode('latin-1')
        nm = rx_name(pat, rx.flags)
        self.V.rxconst[nm] = (rx.pattern, rx.flags)
        return SV(('val', 'Regex'), z3.Const(nm, valsort('Regex')))

    def const_value(self, x, name):
        try: return self.lift(x)
        except Unsupported: pass
        tn = type(x).__name__
        if tn == 'Pattern' or tn == 'LazyRE':
            try:
                import re as _re
                rx = x if tn == 'Pattern' else _re.compile(x.regexp, x.re_flags)
                return self.regex_const(rx)
            except Exception: pass
            return SV(('val', 'Regex'), z3.Const('rx$' + name, valsort('Regex')))
        if tn in self.reg.classes:
            r = z3.Const('param!G$' + name, Ref)
            v = SV(('ref', tn), r)
            if not self.pure:
                self.ref_facts(v)
                self.assume(BIRTH(r) <= 0)
            return v
        if tn == 'dict' and all(type(k) is str and type(v) is str for k, v in x.items()): return ConstDict(x)
        raise Unsupported(f'module constant {name} of type {tn}')

    def ex_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.narrow(self.eval(x.value, env))
                if isinstance(v, TupV): out += v.items
                else:
                    # sequence concatenation
                    return self.seq_literal(e.elts, env)
            else: out.append(self.eval(x, env))
        return TupV(out)

    def seq_literal(self, elts, env):
        parts = []
        k = NEVER
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.eval(x.value, env)); parts.append(s); k = join_kinds(k, s.k[1])
            else:
                v = self.eval(x, env); parts.append(TupV([v])); k = join_kinds(k, self.kind_of(v))
        th = seq_theory(sort_of(k))
        t = th.empty
        for p in reversed(parts):
            pt = self.coerce(p, ('seq', k)) if isinstance(p, TupV) else (self.seq_coerce(p, k) if p.k[1] != NEVER else th.empty)
            t = th.mk_cat(pt, t)
        return SV(('seq', k), t)

    def ex_List(self, e, env):
        if self.spec:
            return self.ex_Tuple(e, env)
        site = ('list', e.lineno, e.col_offset)
        items = [x for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in items):
            v = self.seq_literal(items, env)
            k = v.k[1]
        else:
            v = TupV([self.eval(x, env) for x in items])
            k = NEVER
            for x in v.items: k = join_kinds(k, self.kind_of(x))
        if self.pure: return v
        wk = self.V.site_kind.get(site, NEVER)
        k2 = join_kinds(k, wk)
        if k2 != wk and k2 != NEVER: self.V.site_kind[site] = k2; raise Restart()
        if k2 == NEVER: return self.new_list(NEVER, None, site)
        return self.new_list(k2, self.coerce(v, ('seq', k2)) if isinstance(v, TupV) else self.seq_coerce(v, k2), site)

    def ex_Dict(self, e, env):
        site = ('dict', e.lineno, e.col_offset)
        wk = self.V.site_kind.get(site, NEVER)
        d = self.new_dict(*(wk[1] if wk != NEVER else (NEVER, NEVER)), site=site)
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def ex_Set(self, e, env):
        return TupV([self.eval(x, env) for x in e.elts])

    def ex_JoinedStr(self, e, env):
        th = Str()
        t = th.empty
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(strlit(v.value))
            else:
                try: x = self.eval(v.value, env)
                except (PyExc, Restart, EndPath): raise
                parts.append(self.str_of(x) if v.format_spec is None and v.conversion == -1 else self.fresh_const('fmt', th.sort))
        for p in reversed(parts): t = th.mk_cat(p, t)
        return SV(STRK, t)

    def str_of(self, v):
        if not self.pure: v = self.narrow(v)
        if isinstance(v, SV):
            if v.k == STRK: return v.t
            if v.k == INTK:
                if z3.is_int_value(v.t): return strlit(str(v.t.as_long()))
                return STROF()(v.t)
            if v.k[0] == 'ref':
                st = self.class_src(v.k[1])
                mem = SRC.find_member(st, '__str__') if st else None
                if mem: return self.str_t(self.call(self.getattr(v, '__str__'), [], {}, None))
            return z3.Function('str_of_' + kname(v.k), sort_of(v.k), Str().sort)(v.t)
        return self.fresh_const('str', Str().sort)

    def ex_FormattedValue(self, e, env): return SV(STRK, self.str_of(self.eval(e.value, env)))

    def ex_IfExp(self, e, env):
        c = simp(self.truth(self.eval(e.test, env)))
        k = self.known(c)
        if k is True: return self.eval(e.body, env)
        if k is False: return self.eval(e.orelse, env)
        if self.pure:
            d = self.defs
            if d is not None:
                self.defs = []
                a = self.eval(e.body, env); da = self.defs
                self.defs = []
                b = self.eval(e.orelse, env); db = self.defs
                self.defs = d + [Implies(c, x) for x in da] + [Implies(Not(c), x) for x in db]
            else:
                a, b = self.eval(e.body, env), self.eval(e.orelse, env)
            return self.merge(c, a, b)
        return self.eval(e.body if self.branch(c) else e.orelse, env)

    def merge(self, c, a, b):
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        ka, kb = self.kind_of(a), self.kind_of(b)
        if ka == ('pyobj',) or kb == ('pyobj',): raise Unsupported('merge of non-data values')
        if {ka[0], kb[0]} == {'bool', 'int'}: k = INTK
        elif ka[0] == 'ref' and kb[0] == 'ref' and self.static_subclass(ka[1], kb[1]): k = kb
        elif ka[0] == 'ref' and kb[0] == 'ref' and self.static_subclass(kb[1], ka[1]): k = ka
        else: k = join_kinds(ka, kb)
        if k == NONEK: return NONE
        return self.wrap(k, If(c, self.coerce(a, k), self.coerce(b, k)))

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        if self.pure:
            ts = []
            vals = []
            d0 = self.defs
            for x in e.values:
                if d0 is not None: self.defs = []
                v = self.eval(x, env); vals.append(v)
                if d0 is not None:
                    g = And(*ts) if isand else Not(Or(*ts))
                    d0 = d0 + [Implies(g, y) if ts else y for y in self.defs]
                ts.append(self.truth(v))
            if d0 is not None: self.defs = d0
            if all(isinstance(v, SV) and v.k == BOOLK for v in vals) or self.spec:
                return SV(BOOLK, simp(And(*ts) if isand else Or(*ts)))
            r = vals[-1]
            try:
                for v, t in reversed(list(zip(vals[:-1], ts[:-1]))):
                    r = self.merge(t, r, v) if isand else self.merge(t, v, r)
                return r
            except (KindError, Unsupported):
                return SV(BOOLK, simp(And(*ts) if isand else Or(*ts)))
        for n, x in enumerate(e.values):
            v = self.eval(x, env)
            if n == len(e.values) - 1: return v
            c = self.branch(self.truth(v))
            if isand and not c: return v
            if not isand and c: return v

    def ex_UnaryOp(self, e, env):
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int):
            return SV(INTK, IV(-e.operand.value))
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not): return SV(BOOLK, simp(Not(self.truth(v))))
        if isinstance(e.op, ast.USub): return SV(INTK, simp(-self.int_t(v)))
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary op')

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if not self.pure: a, b = self.narrow(a), self.narrow(b)
        o = type(op).__name__
        ka = a.k[0] if isinstance(a, SV) else None
        kb = b.k[0] if isinstance(b, SV) else None
        if ka == 'union' and self.pure:
            a = self.pick_alt(a, b); ka = a.k[0] if isinstance(a, SV) else None
        if kb == 'union' and self.pure:
            b = self.pick_alt(b, a); kb = b.k[0] if isinstance(b, SV) else None
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x, y = self.int_t(a), self.int_t(b)
            if o == 'Add': return SV(INTK, simp(x + y))
            if o == 'Sub': return SV(INTK, simp(x - y))
            if o == 'Mult': return SV(INTK, simp(x * y))
            if o == 'Pow' and z3.is_int_value(simp(x)) and z3.is_int_value(simp(y)) and 0 <= simp(y).as_long() < 200: return SV(INTK, z3.IntVal(simp(x).as_long() ** simp(y).as_long()))
            if o in ('FloorDiv', 'Mod'):
                if not self.pure and not self.branch(y != 0): raise PyExc('ZeroDivisionError')
                if z3.is_int_value(y) and y.as_long() > 0:
                    return SV(INTK, x / y if o == 'FloorDiv' else x % y)
            if o in ('BitAnd', 'BitOr') and ka == 'bool' and kb == 'bool':
                return SV(BOOLK, And(a.t, b.t) if o == 'BitAnd' else Or(a.t, b.t))
            f = z3.Function('int.' + o, INT, INT, INT)
            return SV(INTK, f(x, y))
        if o == 'Add':
            if ka == 'str' and kb == 'str': return SV(STRK, Str().mk_cat(a.t, b.t))
            if isinstance(a, TupV) and isinstance(b, TupV): return TupV(a.items + b.items)
            if (ka == 'seq' or isinstance(a, TupV)) and (kb == 'seq' or isinstance(b, TupV)): return self.seq_cat(a, b)
            if {ka, kb} == {'seq', 'list'} and 'seq+list' in self.V.c.allow and not self.pure:     # immutable sequences that stand for lists
                return self.seq_cat(self.list_get(a) if ka == 'list' else a, self.list_get(b) if kb == 'list' else b)
            if ka == 'list' and kb == 'list':
                if self.pure: return self.seq_cat(self.list_get(a), self.list_get(b))
                r = self.seq_cat(self.list_get(a), self.list_get(b))
                if r.k[1] == NEVER: return self.new_list(NEVER, None)
                return self.new_list(r.k[1], r.t)
            if (self.spec or self.pure) and ({ka, kb} & {'list', 'seq'}) and not ({'ref', 'str'} & {ka, kb}):
                return self.seq_cat(self.as_seq(a), self.as_seq(b))
            if ka == 'ref': 
                mem = SRC.find_member(self.class_src(a.k[1]), '__add__') if self.class_src(a.k[1]) else None
                if mem: return self.call(self.getattr(a, '__add__'), [b], {}, None)
            if kb == 'ref':
                return self.call(self.getattr(b, '__radd__'), [a], {}, None)
        if o == 'Mult':
            if ka == 'str' and kb == 'int':
                return SV(STRK, z3.Function('str.repeat', Str().sort, INT, Str().sort)(a.t, b.t))
            if (ka == 'seq' or isinstance(a, TupV) or ka == 'list') and kb == 'int':
                s = self.as_seq(a)
                th = seq_theory(sort_of(s.k[1]))
                r = self.fresh_const('repeat', th.sort)
                n = b.t
                L = th.mk_len(s.t)
                if z3.is_int_value(simp(L)) and simp(L).as_long() == 1:
                    x = z3.Int('x!rep')
                    self.assume(th.len(r) == If(n > 0, n, 0))
                    self.assume(z3.ForAll([x], Implies(And(0 <= x, x < th.len(r)), th.at(r, x) == th.at(s.t, 0)), patterns=[th.at(r, x)]))
                    if ka == 'list': return self.new_list(s.k[1], r)
                    return SV(s.k, r)
        if o == 'Mod' and ka == 'str':
            return SV(STRK, self.fresh_const('fmt', Str().sort))
        if o in ('Sub', 'BitOr', 'BitAnd') and ka == 'set' and kb == 'set' and a.k == b.k:
            x, y = self.set_get(a), self.set_get(b)
            r = {'Sub': z3.SetDifference, 'BitOr': z3.SetUnion, 'BitAnd': z3.SetIntersect}[o](x, y)
            s = self.new_set(a.k[1]); self.set_put(s, r); return s
        raise Unsupported(f'{o} on {a!r} / {b!r}')

    def pick_alt(self, u, other):
        """pure mode: project a union to the alternative compatible with `other`"""
        ko = self.kind_of(other)
        s, alts = union_dt(u.k)
        for a, (c, r, acc) in alts.items():
            if a == ko or (a[0] == ko[0] and a != NONEK): return self.wrap(a, acc(u.t))
        for a, (c, r, acc) in alts.items():
            if a != NONEK and not (ko[0] == 'union'): return self.wrap(a, acc(u.t))
        for a, (c, r, acc) in alts.items():
            if a != NONEK: return self.wrap(a, acc(u.t))
        return NONE

    def seq_cat(self, a, b):
        if not self.pure:      # items known to belong to the item kind of the other operand
            for x, y in ((a, b), (b, a)):
                if isinstance(x, TupV) and isinstance(y, SV) and y.k[0] == 'seq':
                    x.items[:] = [self.narrow(z) if isinstance(z, SV) and z.k[0] == 'union' and y.k[1] != z.k and y.k[1] in z.k[1] else z for z in x.items]
        ka = tup_to_seq(self.kind_of(a)) if isinstance(a, TupV) else a.k
        kb = tup_to_seq(self.kind_of(b)) if isinstance(b, TupV) else b.k
        k = ('seq', join_kinds(ka[1], kb[1]))
        if k[1] == NEVER: return SV(k, z3.Const('never.empty', Val))
        th = seq_theory(sort_of(k[1]))
        def term(x):
            if isinstance(x, TupV): return self.coerce(x, k)
            if x.k[1] == NEVER: return th.empty
            return self.seq_coerce(x, k[1])
        return SV(k, th.mk_cat(term(a), term(b)))

    # ---- comparison
    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            t = self.compare(op, left, right)
            if len(e.ops) == 1: return SV(BOOLK, simp(t))
            res.append(t)
            if not self.pure and len(res) < len(e.ops):
                if not self.branch(t): return SV(BOOLK, FALSE)
            left = right
        return SV(BOOLK, simp(And(*res)))

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            t = self.identical(a, b)
            return t if o == 'Is' else Not(t)
        if o in ('Eq', 'NotEq'):
            t = self.equal(a, b)
            return t if o == 'Eq' else Not(t)
        if o in ('In', 'NotIn'):
            t = self.contains(b, a)
            return t if o == 'In' else Not(t)
        if not self.pure: a, b = self.narrow(a), self.narrow(b)
        if self.pure and isinstance(a, SV) and isinstance(b, SV) and a.k == STRK and b.k == STRK: pass
        if isinstance(a, SV) and isinstance(b, SV) and a.k == STRK and b.k == STRK:
            f = z3.Function('str.' + o, Str().sort, Str().sort, BOOL)
            return f(a.t, b.t)
        if isinstance(a, SV) and isinstance(b, SV) and a.k[0] == 'set' and b.k[0] == 'set':
            x, y = self.set_get(a), self.set_get(b)
            if o == 'LtE': return z3.IsSubset(x, y)
        try: x, y = self.int_t(a), self.int_t(b)
        except KindError as ex:
            if isinstance(a, SV) and isinstance(b, SV) and NONEK in (a.k, b.k): raise PyExc('TypeError', where='comparison with None')
            raise Unsupported(f'compare {a!r} {o} {b!r}')
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[o]

    def identical(self, a, b):
        if isinstance(b, SV) and b.k == NONEK: return self.is_none(a)
        if isinstance(a, SV) and a.k == NONEK: return self.is_none(b)
        if isinstance(a, SV) and isinstance(b, SV):
            if a.k[0] in ('ref', 'list', 'dict', 'set') and b.k[0] in ('ref', 'list', 'dict', 'set'): return a.t == b.t
            if a.k == BOOLK and b.k == BOOLK: return a.t == b.t
            if a.k == b.k and a.k[0] == 'union' and all(k == NONEK or k == BOOLK or k[0] in ('ref', 'list', 'dict', 'set') for k in union_dt(a.k)[1]): return a.t == b.t
            if a.k[0] == 'union' or b.k[0] == 'union':
                if a.k[0] != 'union': a, b = b, a
                if b.k[0] in ('ref', 'list', 'dict', 'set') or b.k == BOOLK:
                    alts = union_dt(a.k)[1]
                    for k, (c, r, acc) in alts.items():
                        if k == b.k or (k[0] == 'ref' and b.k[0] == 'ref'): return And(r(a.t), acc(a.t) == b.t)
                    return FALSE
                if not self.pure: return self.identical(self.narrow(a), self.narrow(b))
            if a.k[0] == b.k[0] == 'val': return a.t == b.t
            if a.k == STRK and b.k == STRK:
                # identity of strings: implies equality, otherwise unknown
                c = z3.Bool(f'same_str!{next(self.n)}')
                if not self.pure: self.assume(Implies(c, a.t == b.t))
                else: raise Unsupported('identity of strings in pure mode')
                return c
            if a.k[0] != b.k[0]: return FALSE
        if isinstance(a, ClassV) and isinstance(b, ClassV): return z3.BoolVal(a.name == b.name)
        if isinstance(a, FnV) and isinstance(b, FnV): return z3.BoolVal(a.node is b.node)
        if isinstance(a, PyObj) != isinstance(b, PyObj): return FALSE
        raise Unsupported(f'{a!r} is {b!r}')

    def equal(self, a, b):
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items): return FALSE
            return And(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, SV) and isinstance(b, SV):
            ka, kb = a.k, b.k
            if ka == NONEK or kb == NONEK: return self.is_none(b if ka == NONEK else a)
            if self.spec:
                if ka[0] == 'list' and kb[0] in ('list', 'seq'): a = self.list_get(a); ka = a.k
                if kb[0] == 'list' and ka[0] in ('list', 'seq'): b = self.list_get(b); kb = b.k
            elif ka[0] == 'list' and kb[0] == 'list': a, b = self.list_get(a), self.list_get(b); ka, kb = a.k, b.k
            if ka[0] in ('str',) and kb[0] in ('str',):
                return self.seq_eq(Str(), a.t, b.t)
            if ka[0] == 'seq' and kb[0] == 'seq':
                if ka[1] == NEVER and kb[1] == NEVER: return TRUE
                if ka[1] == NEVER: a, b, ka, kb = b, a, kb, ka
                th = seq_theory(sort_of(ka[1]))
                if kb[1] == NEVER: return th.mk_len(a.t) == 0
                if sort_of(kb[1]) != sort_of(ka[1]): raise Unsupported('equality of differently typed sequences')
                if ka[1][0] == 'ref' and not self.spec and not self.identity_eq(ka[1][1]): raise Unsupported('element equality')
                return self.seq_eq(th, a.t, b.t)
            if ka in (INTK, BOOLK) and kb in (INTK, BOOLK):
                if ka == kb: return a.t == b.t
                return self.int_t(a) == self.int_t(b)
            if ka[0] == 'ref' and kb[0] == 'ref':
                if self.spec or self.identity_eq(ka[1]): return a.t == b.t
                return self.truth(self.call(self.getattr(a, '__eq__'), [b], {}, None))
            if ka[0] == 'union' or kb[0] == 'union':
                if not self.pure: return self.equal(self.narrow(a), self.narrow(b))
                k = join_kinds(ka, kb)
                if ka == kb or self.spec: 
                    try: return self.coerce(a, k) == self.coerce(b, k)
                    except KindError: pass
                if ka[0] != 'union': a, b = b, a; ka, kb = kb, ka
                alts = union_dt(ka)[1]
                return Or(*[And(r(a.t), self.equal(self.wrap(x, acc(a.t)), b) if x != NONEK else self.is_none(b)) for x, (c, r, acc) in alts.items() if self.comparable(x, kb)])
            if ka == ANYK or kb == ANYK:
                return self.coerce(a, ANYK) == self.coerce(b, ANYK)
            if ka[0] == 'ref' and not self.identity_eq(ka[1]) and not self.spec:
                return self.truth(self.call(self.getattr(a, '__eq__'), [b], {}, None))
            if kb[0] == 'ref' and not self.identity_eq(kb[1]) and not self.spec:
                return self.truth(self.call(self.getattr(b, '__eq__'), [a], {}, None))
            if ka[0] == kb[0] and ka[0] in ('val', 'fn'): return a.t == b.t
            if ka[0] == 'dict' and kb[0] == 'dict' and NEVER not in ka and NEVER not in kb:
                d1, v1 = self.dict_get(a); d2, v2 = self.dict_get(b)
                x = z3.Const('x!deq', sort_of(ka[1]))
                return And(d1 == d2, z3.ForAll([x], Implies(z3.Select(d1, x), z3.Select(v1, x) == z3.Select(v2, x)), patterns=[z3.Select(v1, x)]))
            if ka[0] == 'set' and kb[0] == 'set' : return self.set_get(a) == self.set_get(b)
            if ka[0] != kb[0]: return FALSE
        if isinstance(a, (BoundV, FnV)) and isinstance(b, SV): a, b = b, a
        if isinstance(a, SV) and a.k[0] == 'val' and isinstance(b, (BoundV, FnV)): return a.t == self.coerce(b, a.k)
        if isinstance(a, TupV) and isinstance(b, SV) or isinstance(b, TupV) and isinstance(a, SV):
            if isinstance(b, TupV): a, b = b, a
            if b.k[0] == 'list' and (self.spec): b = self.list_get(b)
            if b.k[0] == 'seq':
                if b.k[1] == NEVER: return z3.BoolVal(len(a.items) == 0)
                return self.seq_eq(seq_theory(sort_of(b.k[1])), b.t, self.coerce(a, b.k))
            if b.k[0] == 'union':
                if not self.pure: return self.equal(a, self.narrow(b))
                return self.coerce(a, b.k) == b.t
            return FALSE
        if isinstance(a, PyObj) or isinstance(b, PyObj): return self.identical(a, b)
        raise Unsupported(f'{a!r} == {b!r}')

    def comparable(self, x, k):
        return x == k or (x[0] == k[0]) or {x[0], k[0]} <= {'int', 'bool'} or x[0] == 'union' or k[0] == 'union'

    def seq_eq(self, th, a, b):
        if a.eq(b): return TRUE
        la, lb = lit_value(a) if th is Str() else None, lit_value(b) if th is Str() else None
        if la is not None and lb is not None: return z3.BoolVal(la == lb)
        if a.eq(th.empty): return th.mk_len(b) == 0
        if b.eq(th.empty): return th.mk_len(a) == 0
        return th.eqq(a, b)

    def identity_eq(self, cname):
        st = self.class_src(cname)
        return st is None or SRC.find_member(st, '__eq__') is None

    def contains(self, c, x):
        if not self.pure: c = self.narrow(c)
        elif isinstance(c, SV) and c.k[0] == 'union': c = self.pick_sub(c)
        if isinstance(c, TupV):
            return Or(*[self.equal(y, x) for y in c.items]) if c.items else FALSE
        if isinstance(c, SV):
            if c.k == NONEK and not self.pure: raise PyExc('TypeError', where='in None')
            if c.k == STRK:
                th = Str()
                if not self.pure: x = self.narrow(x)
                lv = lit_value(c.t)
                xt = self.str_t(x)
                if lv is not None and z3.is_app(xt) and xt.decl().eq(th.unit):
                    return Or(*[xt.arg(0) == ord(ch) for ch in lv]) if lv else FALSE
                if z3.is_app(xt) and xt.decl().eq(th.unit):
                    return th.mem(xt.arg(0), c.t)
                return FIND()(c.t, xt, IV(0), th.mk_len(c.t)) >= 0
            if c.k[0] == 'list': c = self.list_get(c)
            if c.k[0] == 'seq':
                if c.k[1] == NEVER: return FALSE
                th = seq_theory(sort_of(c.k[1]))
                if c.k[1][0] == 'ref' and not self.spec and not self.identity_eq(c.k[1][1]): raise Unsupported('in with __eq__')
                if c.k[1][0] == 'ref' and not self.pure:
                    x = self.narrow(x)
                    if isinstance(x, SV) and x.k == NONEK: return FALSE
                return th.mem(self.coerce(x, c.k[1]), c.t)
            if c.k[0] in ('dict', 'set') and not self.pure:
                x = self.narrow(x)
                if c.k[1] == STRK and isinstance(x, SV) and x.k[0] in ('int', 'bool', 'none', 'seq', 'list'):
                    if x.k[0] == 'list': raise PyExc('TypeError', where='unhashable')
                    return FALSE
            if c.k[0] == 'dict':
                if c.k[1] == NEVER: return FALSE
                return z3.Select(self.dict_get(c)[0], self.coerce(x, c.k[1]))
            if c.k[0] == 'set':
                if c.k[1] == NEVER: return FALSE
                return z3.Select(self.set_get(c), self.coerce(x, c.k[1]))
            if c.k[0] == 'ref':
                return self.truth(self.call(self.getattr(c, '__contains__'), [x], {}, None))
        raise Unsupported(f'in {c!r}')

    # ---- subscripts
    def ex_Slice(self, e, env):
        return SliceV(self.eval(e.lower, env) if e.lower else NONE, self.eval(e.upper, env) if e.upper else NONE,
                      self.eval(e.step, env) if e.step else NONE)

    def eval_index(self, s, env): return self.eval(s, env)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, ClassV): return o        # generic alias
        i = self.eval(e.slice, env)
        if isinstance(o, KeyV):
            key = lit_value(self.str_t(i))
            if key is None: raise Unsupported('lookup with a computed key')
            return o.f(key)
        if isinstance(o, ConstDict):
            key = lit_value(self.str_t(i))
            if key is None: raise Unsupported('lookup in a constant dictionary')
            if key not in o.d: raise PyExc('KeyError', where=repr(key))
            return self.lift(o.d[key])
        return self.getitem(o, i)

    def norm_index(self, i, n, exc):
        """index of element i in a sequence of length n (Python semantics)"""
        i = simp(i)
        if z3.is_int_value(i):
            ok = simp(n > i) if i.as_long() >= 0 else simp(n >= -i)
            ix = i if i.as_long() >= 0 else simp(n + i)
        else:
            ok = And(-n <= i, i < n)
            ix = None
        if self.pure:
            if self.spec: return ix if ix is not None else i
            if self.defs is not None: self.defs.append(ok)
            return ix if ix is not None else If(i >= 0, i, i + n)
        if not self.branch(ok): raise PyExc(exc, where=f'index, line {getattr(self.curnode, "lineno", 0)}')
        if ix is None:
            d = self.decide(i >= 0)
            ix = i if d is True else simp(i + n) if d is False else If(i >= 0, i, i + n)
        return ix

    def clamp(self, x, n):
        """slice bound -> [0, n]"""
        x = simp(x)
        if self.spec: 
            if z3.is_int_value(x) and x.as_long() < 0: return simp(n + x)
            return x
        if z3.is_int_value(x) and x.as_long() == 0: return x
        def d(c):
            return self.decide(c)
        neg = d(x < 0)
        if neg is None:
            return If(x < 0, If(x + n < 0, IV(0), x + n), If(x > n, n, x))
        if neg:
            y = simp(x + n)
            u = d(y < 0)
            return IV(0) if u is True else y if u is False else If(y < 0, IV(0), y)
        u = d(x > n)
        return n if u is True else x if u is False else If(x > n, n, x)

    def slice_bounds(self, lo, hi, n):
        lo = lo if self.pure else self.narrow(lo); hi = hi if self.pure else self.narrow(hi)
        def bound(b, dflt):
            if isinstance(b, SV) and b.k == NONEK: return dflt
            if isinstance(b, SV) and b.k[0] == 'union':
                alts = union_dt(b.k)[1]
                x = self.clamp(self.int_t(b), n)
                if NONEK in alts: return If(alts[NONEK][1](b.t), dflt, x)
                return x
            return self.clamp(self.int_t(b), n)
        a = bound(lo, IV(0)); b = bound(hi, n)
        if self.spec: return a, b
        if z3.is_int_value(a) and a.as_long() == 0: return a, b
        if b.eq(n): return a, b
        d = self.decide(a <= b)
        return a, (b if d is True else a if d is False else If(a <= b, b, a))

    def getitem(self, o, i):
        if not self.pure: o = self.narrow(o)
        elif isinstance(o, SV) and o.k[0] == 'union':
            o = self.pick_sub(o)
        if isinstance(i, SliceV):
            if isinstance(i.step, SV) and i.step.k != NONEK:
                if not z3.is_int_value(simp(self.int_t(i.step))): raise Unsupported('slice step')
                st = simp(self.int_t(i.step)).as_long()
                if st == -1 and i.start is NONE and i.stop is NONE and isinstance(o, SV):
                    if o.k == STRK: return SV(STRK, Str().rev(o.t))
                    s = self.as_seq(o); th = seq_theory(sort_of(s.k[1]))
                    r = th.rev(s.t)
                    return self.new_list(s.k[1], r) if o.k[0] == 'list' and not self.pure else SV(s.k, r)
                raise Unsupported('slice step')
            if isinstance(o, TupV):
                def cv(x, d):
                    if isinstance(x, SV) and x.k == NONEK: return d
                    t = simp(self.int_t(x))
                    if not z3.is_int_value(t): raise KindError('symbolic slice of tuple')
                    return t.as_long()
                try: return TupV(o.items[cv(i.start, None):cv(i.stop, None)])
                except KindError: o = self.as_seq(o)
            if isinstance(o, SV):
                if o.k[0] == 'list':
                    if o.k[1] == NEVER: return self.new_list(NEVER, None, o.site)
                    cur = self.list_get(o)
                    th = seq_theory(sort_of(o.k[1]))
                    a, b = self.slice_bounds(i.start, i.stop, th.mk_len(cur.t))
                    if self.pure: return SV(cur.k, self.mk_slice(th, cur.t, a, b))
                    return self.new_list(o.k[1], self.mk_slice(th, cur.t, a, b))
                if o.k == STRK or o.k[0] == 'seq':
                    if o.k[0] == 'seq' and o.k[1] == NEVER: return o
                    th = Str() if o.k == STRK else seq_theory(sort_of(o.k[1]))
                    a, b = self.slice_bounds(i.start, i.stop, th.mk_len(o.t))
                    return SV(o.k, self.mk_slice(th, o.t, a, b))
                if o.k[0] == 'ref': return self.call(self.getattr(o, '__getitem__'), [i], {}, None)
            raise Unsupported(f'slice of {o!r}')
        if isinstance(o, TupV):
            if not self.pure: i = self.narrow(i)
            t = simp(self.int_t(i))
            if z3.is_int_value(t):
                n = t.as_long()
                if -len(o.items) <= n < len(o.items): return o.items[n]
                raise PyExc('IndexError', where='tuple index')
            if not o.items: raise PyExc('IndexError', where='tuple index')
            o = self.as_seq(o)
        if isinstance(o, SV):
            if o.k == STRK:
                th = Str()
                if not self.pure: i = self.narrow(i)
                ix = self.norm_index(self.int_t(i), th.mk_len(o.t), 'IndexError')
                return SV(STRK, th.unit(th.at(o.t, ix)))
            if o.k[0] == 'list': 
                o = self.list_get(o)
            if o.k[0] == 'seq':
                if o.k[1] == NEVER: raise PyExc('IndexError', where='empty list')
                th = seq_theory(sort_of(o.k[1]))
                if not self.pure: i = self.narrow(i)
                ix = self.norm_index(self.int_t(i), th.mk_len(o.t), 'IndexError')
                return self.wrap(o.k[1], self.at(th, o.t, ix))
            if o.k[0] == 'dict':
                if o.k[1] == NEVER: raise PyExc('KeyError', where='empty dict')
                dom, val = self.dict_get(o)
                kt = self.coerce(i, o.k[1])
                if self.pure:
                    if self.defs is not None: self.defs.append(z3.Select(dom, kt))
                elif not self.branch(z3.Select(dom, kt)): raise PyExc('KeyError', where='dict lookup')
                return self.wrap(o.k[2], z3.Select(val, kt))
            if o.k[0] == 'ref':
                if o.k[1] in self.reg.namedtuples: raise Unsupported('namedtuple ref')
                return self.call(self.getattr(o, '__getitem__'), [i], {}, None)
            if o.k[0] == 'fn' and False: pass
        raise Unsupported(f'subscript of {o!r}')

    def mk_slice(self, th, t, a, b):
        a, b = simp(a), simp(b)
        if z3.is_int_value(a) and a.as_long() == 0 and b.eq(simp(th.mk_len(t))): return t
        return th.slice(t, a, b)

    def pick_sub(self, o):
        alts = union_dt(o.k)[1]
        for a, (c, r, acc) in alts.items():
            if a[0] in ('str', 'seq', 'list', 'dict', 'tup'): return self.wrap(a, acc(o.t))
        for a, (c, r, acc) in alts.items():
            if a != NONEK: return self.wrap(a, acc(o.t))

    # ---- comprehension
    def ex_ListComp(self, e, env):
        s = self.comprehension(e, env)
        if self.pure: return s
        if isinstance(s, TupV):
            k = NEVER
            for x in s.items: k = join_kinds(k, self.kind_of(x))
            site = ('list', e.lineno, e.col_offset)
            wk = self.V.site_kind.get(site, NEVER)
            k2 = join_kinds(k, wk)
            if k2 != wk and k2 != NEVER: self.V.site_kind[site] = k2; raise Restart()
            if k2 == NEVER: return self.new_list(NEVER, None, site)
            return self.new_list(k2, self.coerce(s, ('seq', k2)), site)
        return self.new_list(s.k[1], s.t)
    def ex_GeneratorExp(self, e, env):
        return ('gen', e, env)          # consumed by any/all/sum/tuple/join/...
    def ex_SetComp(self, e, env): raise Unsupported('set comprehension')
    def ex_DictComp(self, e, env):
        """{k: f(k, v) for k, v in d.items() if p(k, v)}"""
        g = e.generators[0]
        if len(e.generators) != 1 or self.pure or not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == 'items'
                and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts)
                and isinstance(e.key, ast.Name) and e.key.id == g.target.elts[0].id): raise Unsupported('dict comprehension')
        d = self.narrow(self.eval(g.iter.func.value, env))
        if not (isinstance(d, SV) and d.k[0] == 'dict' and d.k[1] != NEVER): raise Unsupported('dict comprehension')
        dom, val = self.dict_get(d)
        ks = sort_of(d.k[1])
        x = z3.Const(f'x!dcomp{next(self.n)}', ks)
        ce = Env(env_up_=env); ce[g.target.elts[0].id] = self.wrap(d.k[1], x); ce[g.target.elts[1].id] = self.wrap(d.k[2], z3.Select(val, x))
        saved = self.defs
        self.pure += 1; self.defs = []
        try:
            p = And(*[self.truth(self.eval(c, ce)) for c in g.ifs]) if g.ifs else TRUE
            v = self.eval(e.value, ce)
            vk = self.kind_of(v); vt = self.coerce(v, vk)
            defs = self.defs
        finally: self.pure -= 1; self.defs = saved
        if defs: self.oblige(z3.ForAll([x], Implies(z3.Select(dom, x), And(*defs))), 'dictionary comprehension is well defined', 'comp')
        dom2, val2 = self.fresh_const('dcd', dom.sort()), self.fresh_const('dcv', z3.ArraySort(ks, sort_of(vk)))
        self.assume(z3.ForAll([x], z3.Select(dom2, x) == And(z3.Select(dom, x), p), patterns=[z3.Select(dom2, x)]))
        self.assume(z3.ForAll([x], z3.Select(val2, x) == vt, patterns=[z3.Select(val2, x)]))
        r = self.new_dict(d.k[1], vk)
        self.dict_put(r, dom2, val2)
        return r

    def force_gen(self, v):
        if isinstance(v, tuple) and v and v[0] == 'gen': return self.comprehension(v[1], v[2])
        return v

    def comprehension(self, e, env):
        """-> seq SV or TupV"""
        if len(e.generators) != 1: raise Unsupported('nested comprehension')
        g = e.generators[0]
        it = self.iterate(self.force_gen(self.eval(g.iter, env)))
        n = simp(it.length)
        if z3.is_int_value(n) and n.as_long() <= 8 and not self.pure:
            out = []
            for i in range(n.as_long()):
                ce = Env(env_up_=env)
                self.assign(g.target, it.item(IV(i)), ce)
                if all(self.branch(self.truth(self.eval(c, ce))) for c in g.ifs): out.append(self.eval(e.elt, ce))
            return TupV(out)
        if z3.is_int_value(n) and n.as_long() <= 8 and not g.ifs:
            out = []
            for i in range(n.as_long()):
                ce = Env(env_up_=env)
                self.assign(g.target, it.item(IV(i)), ce)
                out.append(self.eval(e.elt, ce))
            return TupV(out)
        x = z3.Int(f'x!comp{next(self.n)}')
        ce = Env(env_up_=env)
        outer = self.defs
        self.pure += 1
        self.defs = []
        try:
            self.bind_pure(g.target, it.item(x), ce)
            conds = [self.truth(self.eval(c, ce)) for c in g.ifs]
            dconds, self.defs = self.defs, []
            v = self.eval(e.elt, ce)
            k = self.kind_of(v)
            t = self.coerce(v, k)
            dval = self.defs
        finally:
            self.pure -= 1
            self.defs = outer
        p = And(*conds) if conds else None
        rng = And(0 <= x, x < it.length)
        if k[0] == 'union':          # all items belong to one alternative of the union
            for a, (_, rec, acc) in union_dt(k)[1].items():
                if self.check_sat([rng, Not(rec(t))] + ([p] if p is not None else []), 1000) == z3.unsat:
                    k, t = a, acc(t); break
        if dconds: self.oblige(z3.ForAll([x], Implies(rng, And(*dconds))), 'comprehension condition is defined', 'def')
        if dval: self.oblige(z3.ForAll([x], Implies(And(rng, p) if p is not None else rng, And(*dval))), 'comprehension element is defined', 'def')
        th = seq_theory(sort_of(k))
        r = self.fresh_const('comp', th.sort)
        if self.pure: raise Unsupported('comprehension with symbolic length in pure mode')
        if it.src is not None: self.comp_homs(r, it, x, p, t, k, rng)
        src_at = None
        if it.src is not None and it.src.k[0] == 'seq' and it.src.k[1] != NEVER:
            src_at = seq_theory(sort_of(it.src.k[1])).at(it.src.t, x)
        elif p is not None:      # an item that the condition reads, e.g. l[i] for i in range(...)
            todo = [p]
            while todo and src_at is None:
                q = todo.pop(0)
                if z3.is_app(q) and q.num_args() == 2 and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.arg(1).eq(x) and not q.arg(0).eq(x): src_at = q
                if z3.is_app(q): todo += q.children()
        if p is None:
            self.assume(th.len(r) == it.length)
            self.assume(z3.ForAll([x], Implies(rng, th.at(r, x) == t), patterns=[th.at(r, x)] + ([src_at] if src_at is not None else [])))
            self.comp_fact(r, th, it, x, t, k)
        else:
            y = z3.Int('y!comp')
            m = next(self.n)
            idx = z3.Function(f'filt.idx!{m}', INT, INT); inv = z3.Function(f'filt.inv!{m}', INT, INT)
            sub = lambda f, a: z3.substitute(f, (x, a))
            self.assume(th.len(r) <= it.length)
            self.assume(z3.ForAll([y], Implies(And(0 <= y, y < th.len(r)), And(0 <= idx(y), idx(y) < it.length, sub(p, idx(y)),
                        th.at(r, y) == sub(t, idx(y)), inv(idx(y)) == y)), patterns=[th.at(r, y), idx(y)]))
            z = z3.Int('z!comp')
            self.assume(z3.ForAll([y, z], Implies(And(0 <= y, y < z, z < th.len(r)), idx(y) < idx(z)), patterns=[z3.MultiPattern(idx(y), idx(z))]))
            self.assume(z3.ForAll([x], Implies(And(rng, p), And(0 <= inv(x), inv(x) < th.len(r), idx(inv(x)) == x, th.at(r, inv(x)) == t)),
                                  patterns=[inv(x)] + ([src_at] if src_at is not None else [])))
        return SV(('seq', k), r)

    def comp_homs(self, r, it, x, p, t, k, rng):
        """a comprehension over a sequence is the list homomorphism with the same value on singletons (uniqueness of homomorphisms);
        candidates are the applications F(source, ...) listed in the contract's comps"""
        for h in self.V.c.comps:
            if h.startswith('rel:'): continue
            n = ast.parse(h, mode='eval').body
            e = Env(**{a: b for a, b in self.params.items()})
            e.parent = self.cur_env if hasattr(self, 'cur_env') else None
            s2 = self.list_get(it.src) if it.src.k[0] == 'list' else it.src
            if s2.k[1] == NEVER: continue
            th, rt = seq_theory(sort_of(s2.k[1])), seq_theory(sort_of(k))
            if isinstance(n, ast.Lambda):
                def E(t_):
                    e2 = Env(env_up_=e); e2[n.args.args[0].arg] = SV(s2.k, t_)
                    v = self.spec_val(n.body, e2)
                    return (self.list_get(v) if v.k[0] == 'list' else v)
                try: v0 = E(th.empty)
                except (KindError, Unsupported): continue
                xe = th.at(s2.t, x)
                if v0.k == INTK and k == INTK: e0, op, one, fin = IV(0), (lambda a, b: a + b), (If(p, t, 0) if p is not None else t), SUMF()(r)
                elif v0.k == STRK and k == STRK: e0, op, one, fin = Str().empty, Str().cat, (If(p, t, Str().empty) if p is not None else t), JOIN()(Str().empty, r)
                elif v0.k == ('seq', k): e0, op, one, fin = rt.empty, rt.cat, (If(p, rt.unit(t), rt.empty) if p is not None else rt.unit(t)), r
                else: continue
                ca, cb = self.fresh_const('ca', th.sort), self.fresh_const('cb', th.sort)
                if all(self.check_sat([c], 3000) == z3.unsat for c in (v0.t != e0, E(th.cat(ca, cb)).t != op(E(ca).t, E(cb).t), And(rng, E(th.unit(xe)).t != one))):
                    self.assume(fin == E(s2.t).t)
                continue
            sf = self.reg.specs.get(n.func.id)
            if sf is None or not sf.hom or sf.ret != ('seq', k): continue
            src = self.spec_val(n.args[0], e)
            if isinstance(src, SV) and src.k[0] == 'list': src = self.list_get(src)
            if not (isinstance(src, SV) and src.k == s2.k and src.t.eq(s2.t)): continue
            rest = [self.spec_val(a, e) for a in n.args[1:]]
            one = self.spec_apply(sf, [SV(src.k, th.unit(th.at(src.t, x)))] + rest)
            want = If(p, rt.unit(t), rt.empty) if p is not None else rt.unit(t)
            if self.check_sat([rng, one.t != want], 3000) == z3.unsat:
                self.assume(r == self.spec_apply(sf, [src] + rest).t)

    def comp_fact(self, r, th, it, x, t, k):
        """let the solver decide by extensionality whether the comprehension reproduces its source"""
        if it.src is None: return
        src = self.list_get(it.src) if it.src.k[0] == 'list' and it.src.k[1] != NEVER else it.src
        if src.k == ('seq', k): self.assume(z3.Function('mention_Bool', BOOL, BOOL)(th.eqq(r, src.t)))

    def bind_pure(self, target, v, env):
        if isinstance(target, ast.Name): env[target.id] = v
        elif isinstance(target, ast.Tuple) and isinstance(v, TupV):
            for a, b in zip(target.elts, v.items): self.bind_pure(a, b, env)
        else: raise Unsupported('comprehension target')

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.store_name(e.target.id, v, env)
        return v

    def ex_Lambda(self, e, env):
        mod, cls = self.fn_ctx(env)
        return FnV(e, env, mod, None, '<lambda>')

    def ex_Starred(self, e, env): raise Unsupported('starred')
    def ex_Await(self, e, env): return self.eval(e.value, env)
    def ex_Yield(self, e, env): raise Unsupported('yield expression')

    # ---- attributes
    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, attr):
        if not self.pure: o = self.narrow(o)
        elif isinstance(o, SV) and o.k[0] == 'union':
            alts = union_dt(o.k)[1]
            for a, (c, r, acc) in alts.items():
                if a[0] == 'ref': o = self.wrap(a, acc(o.t)); break
            else: o = self.pick_sub(o)
        if isinstance(o, TupV):
            nt = getattr(o, 'nt', None)
            if isinstance(o, NTV):
                for n, (f, k) in enumerate(o.fields):
                    if f == attr: return o.items[n]
                mod = SRC.module(self.reg.namedtuples[o.name][0])
                mem = SRC.find_member(mod.classes[o.name], attr)
                if mem and mem[0] == 'method': return BoundV(o, FnV(mem[1], None, mod, mem[2], f'{o.name}.{attr}'))
            return LibM(o, attr)
        if isinstance(o, SliceV):
            if attr in ('start', 'stop', 'step'): return getattr(o, attr)
        if isinstance(o, SV):
            k = o.k[0]
            if k == 'ref':
                if self.field_owner(o.k[1], attr): return self.field_read(o, attr)
                st = self.class_src(o.k[1])
                if st is None: raise Unsupported(f'class {o.k[1]} unknown')
                for m in self.models_of(self.reg.classes[o.k[1]]) if o.k[1] in self.reg.classes else ():
                    if attr in m.alias:
                        self.V.assumptions.add(f'{m.name}.{attr} is bound to a method that fulfils the contract of {m.name}.{m.alias[attr]}')
                        attr = m.alias[attr]; break
                if attr == '__class__': return ClassV(o.k[1], st)
                mem = SRC.find_member(st, attr)
                if mem is None:
                    if attr in ('__iter__', '__len__', '__bool__'): raise Unsupported(f'{o.k[1]}.{attr}')
                    for sub, cm in self.reg.classes.items():      # attribute of a subclass after an isinstance test
                        if o.k[1] in [m.name for m in self.models_of(cm)] and sub != o.k[1] and attr in cm.fields and self.decide(self.isa(o.t, sub)) is True:
                            return self.getattr(SV(('ref', sub), o.t), attr)
                    raise Unsupported(f'attribute {o.k[1]}.{attr}')
                kind, node, cls = mem
                self.check_override(o, attr, cls)
                if kind == 'prop':
                    con = self.find_contract_for(cls, attr, o)
                    if con is not None and not con.inline: return self.call_contract(con, [o], {}, None)
                    return self.call(FnV(node, None, cls.module, cls, f'{cls.name}.{attr}'), [o], {}, None)
                if kind == 'method':
                    f = FnV(node, None, cls.module, cls, f'{cls.name}.{attr}')
                    return f if attr in cls.static else BoundV(o, f)
                return self.eval(node, Env(env_fn_=(cls.module, cls)))
            if k == 'val' and attr == '__name__' and o.k[1] in self.reg.callables:
                return SV(STRK, z3.Function('name$' + o.k[1], o.t.sort(), sort_of(STRK))(o.t))
            if k == 'int' and attr in ('start', 'stop'): raise PyExc('AttributeError', where=f'int.{attr}')
            if k == 'none':
                raise PyExc('AttributeError', where=f'None.{attr}')
            return LibM(o, attr)
        if isinstance(o, ModV):
            q = f'{o.name}.{attr}'
            if q in LIB or q in self.reg.models: return LibV(q)
            if o.name.startswith('DHParser.') : return self.resolve_global(attr, SRC.module(o.name))
            return ModV(q)
        if isinstance(o, ClassV):
            if o.src is not None:
                mem = SRC.find_member(o.src, attr)
                if mem and mem[0] in ('method', 'prop'):
                    f = FnV(mem[1], None, mem[2].module, mem[2], f'{mem[2].name}.{attr}')
                    return BoundV(o, f) if ('cls:' + attr) in mem[2].static else f
                if mem and mem[0] == 'attr':
                    return self.eval(mem[1], Env(env_fn_=(mem[2].module, mem[2])))
            return LibV(f'{o.name}.{attr}')
        if isinstance(o, SuperV):
            st = o.cls
            ms = SRC.mro(self.class_src(o.obj.k[1]) or st)
            i = [m.name for m in ms].index(st.name)
            for c in ms[i + 1:]:
                if attr in c.methods: return BoundV(o.obj, FnV(c.methods[attr], None, c.module, c, f'{c.name}.{attr}'))
            raise Unsupported(f'super().{attr}')
        if isinstance(o, ExcV):
            if attr == 'args': return TupV(list(o.args))
            return self.fresh('exc.' + attr, ANYK)
        if isinstance(o, tuple) and o and o[0] == 'gen': return LibM(o, attr)
        if isinstance(o, ConstMatch) and attr == 'group': return PyFn(lambda ex, a, kw: ex.lift(o.text))
        if isinstance(o, ConstDict): return LibM(o, attr)
        if isinstance(o, FnV) and attr == '__name__': return self.lift(getattr(o.node, 'name', '<lambda>'))
        raise Unsupported(f'attribute {attr} of {o!r}')

    def check_override(self, o, attr, cls):
        """the method is resolved statically: subclasses overriding it are an assumption or excluded"""
        cm = self.reg.classes.get(o.k[1])
        if cm is None: return
        for s in SRC.all_subclasses(o.k[1]):
            if attr in s.methods or attr in s.props:
                self.V.assumptions.add(f'{o.k[1]}.{attr}: dynamic dispatch resolved to {cls.name}.{attr} (override in {s.name} must satisfy the same contract)')
                break

    # ---- calls
    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and self.spec and env.where(e.func.id) is None:
            n = e.func.id
            if n in SPEC_BUILTINS: return self.spec_call(n, e, env)
            if n in self.reg.specs: return self.spec_apply(self.reg.specs[n], [self.eval(a, env) for a in e.args])
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and env.where('super') is None:
            mod, cls = self.fn_ctx(env)
            return SuperV(env.lookup('self'), cls)
        if isinstance(e.func, ast.Name) and e.func.id == 'locals': raise Unsupported('locals()')
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and env.where('next') is None and not self.pure and e.args and isinstance(e.args[0], (ast.Call, ast.GeneratorExp)) and not e.keywords:
            v = self.force_gen(self.eval(e.args[0], env))      # the first item of a generator that is not used any further
            if not (isinstance(v, TupV) or isinstance(v, SV) and v.k[0] == 'seq' and v.k[1] != NEVER): raise Unsupported('next')
            default = self.eval(e.args[1], env) if len(e.args) > 1 else None
            n = IV(len(v.items)) if isinstance(v, TupV) else seq_theory(sort_of(v.k[1])).len(v.t)
            if self.branch(n > 0): return v.items[0] if isinstance(v, TupV) else self.wrap(v.k[1], seq_theory(sort_of(v.k[1])).at(v.t, IV(0)))
            if default is None: raise PyExc('StopIteration')
            return default
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.narrow(self.force_gen(self.eval(a.value, env)))
                if isinstance(v, TupV): args += v.items
                elif isinstance(v, SV) and v.k[0] in ('list', 'seq') : args.append(('star', v))
                else: raise Unsupported('*args')
            else: args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None: raise Unsupported('**kwargs')
            kw[k.arg] = self.eval(k.value, env)
        saved = self.curnode
        r = self.call(f, args, kw, e)
        self.curnode = saved
        return r

    def call(self, f, args, kw, node):
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.obj] + args, kw, node)
        if isinstance(f, PartialV):
            k2 = dict(f.kwargs); k2.update(kw)
            return self.call(f.fn, list(f.args) + args, k2, node)
        if isinstance(f, FnV): return self.call_fn(f, args, kw, node)
        if isinstance(f, PyFn): return f.fn(self, args, kw)
        if isinstance(f, LibV):
            if f.name in self.reg.models: return self.reg.models[f.name](self, args, kw)
            if f.name in LIB: return LIB[f.name](self, args, kw)
            raise Unsupported(f'library function {f.name}')
        if isinstance(f, LibM):
            return self.call_libm(f, args, kw)
        if isinstance(f, ClassV): return self.instantiate(f, args, kw, node)
        if isinstance(f, ModV):
            if f.name in LIB: return LIB[f.name](self, args, kw)
            if f.name in self.reg.models: return self.reg.models[f.name](self, args, kw)
            raise Unsupported(f'call of {f.name}')
        if isinstance(f, SV):
            if not self.pure: f = self.narrow(f)
            elif f.k[0] == 'union':
                alts = union_dt(f.k)[1]
                for a, (c, r, acc) in alts.items():
                    if a[0] in ('fn', 'ref'): f = self.wrap(a, acc(f.t)); break
            if f.k[0] == 'fn':
                ts = [self.coerce(self.snapshot(self.narrow(a) if not self.pure else a, k), k) for a, k in zip(args, f.k[1])]
                return self.wrap(f.k[2], fnapply(f.k)(f.t, *ts))
            if f.k[0] == 'ref': return self.call(self.getattr(f, '__call__'), args, kw, node)
            if f.k[0] == 'val' and f.k[1] in self.reg.callables: return self.reg.callables[f.k[1]](self, f, args, kw)
            if f.k == NONEK: raise PyExc('TypeError', where='None called')
        if isinstance(f, tuple) and f and f[0] == 'spec': return self.spec_apply(f[1], args)
        raise Unsupported(f'call of {f!r}')

    def find_contract_for(self, cls, attr, o):
        """contract of a method/property defined in ClassSrc cls (or registered for a subclass that inherits it)"""
        cs = self.reg.contracts.get((cls.module.name, f'{cls.name}.{attr}'))
        if cs: return cs[0] if len(cs) == 1 else cs
        return None

    def call_fn(self, f, args, kw, node):
        if self.V.c.qual == f.qual and f.node is self.V.node and self.V.c.defn is None:
            pass    # recursion: by contract
        cs = self.reg.contracts.get((f.mod.name, f.qual))
        if cs and not cs[0].inline:
            return self.call_contract(cs, args, kw, node, f)
        key = f'{f.mod.name}.{f.qual}'
        if key in self.reg.models: return self.reg.models[key](self, args, kw)
        return self.inline_call(f, args, kw, node)

    def bind_args(self, fnode, args, kw, env, denv):
        a = fnode.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        if any(isinstance(x, tuple) and x and x[0] == 'star' for x in args):
            n = next(i for i, x in enumerate(args) if isinstance(x, tuple) and x and x[0] == 'star')
            if a.vararg is not None and n == len(pos) and len(args) == n + 1:
                bound[a.vararg.arg] = self.as_seq(args[n][1]); args = args[:n]
            else: raise Unsupported('*args call')
        for i, v in enumerate(args):
            if i < len(pos): bound[pos[i]] = v
            elif a.vararg is not None:
                bound.setdefault(a.vararg.arg, TupV([])).items.append(v)
            else: raise PyExc('TypeError', where='too many arguments')
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]: bound[k] = v
            else: raise Unsupported(f'keyword {k}')
        if a.vararg is not None and a.vararg.arg not in bound: bound[a.vararg.arg] = TupV([])
        if a.kwarg is not None: bound[a.kwarg.arg] = ConstDict({})     # no other keyword arguments got this far
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in bound:
                d = self.default_for(fnode, n)
                if d is None: raise PyExc('TypeError', where=f'missing argument {n}')
                bound[n] = self.eval(d, denv)
        return bound

    def inline_call(self, f, args, kw, node):
        if self.depth > 12: raise Unsupported(f'inlining too deep ({f.qual})')
        if any(n is f.node for n in self.active) : raise Unsupported(f'recursive function {f.qual} without contract')
        self.V.inlined[id(f.node)] = f.node
        denv = Env(env_up_=f.env, env_fn_=(f.mod, f.cls))
        env = Env(env_up_=f.env, env_fn_=(f.mod, f.cls))
        env.update(self.bind_args(f.node, args, kw, env, denv))
        if not isinstance(f.node, ast.Lambda):
            for d in f.node.decorator_list:
                ds = ast.unparse(d)
                if not any(ds.startswith(x) for x in ('cython.', 'property', 'staticmethod', 'classmethod', 'functools.lru_cache', 'lru_cache', 'functools.cached', 'abstractmethod', 'deprecated', 'cache', 'transformation_factory')):
                    raise Unsupported(f'decorator {ds}')
        self.depth += 1
        self.active.append(f.node)
        sp = self.spec; self.spec = 0
        try:
            if self.pure: return self.pure_body(f.node, env)
            return self.run_body(f.node, env)
        finally:
            self.depth -= 1
            self.active.pop()
            self.spec = sp

    def pure_body(self, node, env):
        """side effect free functions: if/return structure evaluated as an expression"""
        if isinstance(node, ast.Lambda): return self.eval(node.body, env)
        def block(stmts):
            for n, s in enumerate(stmts):
                if isinstance(s, ast.Return): return self.eval(s.value, env) if s.value else NONE
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                if isinstance(s, (ast.Pass, ast.Nonlocal, ast.Global)): continue
                if isinstance(s, ast.Assert):
                    if self.defs is not None: self.defs.append(self.truth(self.eval(s.test, env)))
                    continue
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                    if isinstance(t, ast.Name): env[t.id] = self.eval(s.value, env); continue
                    if isinstance(t, ast.Tuple): self.bind_pure(t, self.eval(s.value, env), env); continue
                if isinstance(s, ast.If):
                    c = simp(self.truth(self.eval(s.test, env)))
                    k = self.known(c)
                    if k is True: r = block(list(s.body) + list(stmts[n + 1:])); return r
                    if k is False: r = block(list(s.orelse) + list(stmts[n + 1:])); return r
                    saved = dict(env)
                    d = self.defs
                    if d is not None: self.defs = []
                    a = block(list(s.body) + list(stmts[n + 1:]))
                    da = self.defs
                    env.clear(); env.update(saved)
                    if d is not None: self.defs = []
                    b = block(list(s.orelse) + list(stmts[n + 1:]))
                    if d is not None:
                        self.defs = d + [Implies(c, x) for x in da] + [Implies(Not(c), x) for x in self.defs]
                    return self.merge(c, a, b)
                raise Unsupported(f'{type(s).__name__} in pure function')
            return NONE
        return block(node.body)

    def instantiate(self, c, args, kw, node):
        n = c.name
        if n in ('int', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'type', 'float'): return LIB[n](self, args, kw)
        if n in self.reg.models: return self.reg.models[n](self, args, kw)
        if n in SRC._BUILTIN_EXC: return ExcV(n, args)
        if n in self.reg.namedtuples:
            m, fields = self.reg.namedtuples[n]
            vals = list(args) + [None] * (len(fields) - len(args))
            for k, v in kw.items(): vals[[f for f, _ in fields].index(k)] = v
            if any(v is None for v in vals): raise Unsupported('namedtuple defaults')
            return NTV(n, fields, vals)
        if c.src is not None and c.src.name in self.reg.classes:
            r = self.new_ref(n)
            v = SV(('ref', n), r)
            self.init_unset(n, r)
            mem = SRC.find_member(c.src, '__init__')
            if mem is None:
                if c.src.name in self.reg.records:       # NamedTuple seen as an immutable record with an identity
                    vals = list(args) + [None] * (len(self.reg.records[c.src.name]) - len(args))
                    for k, x in kw.items(): vals[self.reg.records[c.src.name].index(k)] = x
                    if any(x is None for x in vals): raise Unsupported('namedtuple defaults')
                    self.constructing.append(r)
                    for k, x in zip(self.reg.records[c.src.name], vals): self.setattr(v, k, x)
                    self.constructing.remove(r)
                return v
            f = FnV(mem[1], None, mem[2].module, mem[2], f'{mem[2].name}.__init__')
            con = self.reg.contracts.get((f.mod.name, f.qual))
            self.factseen.add((r.get_id(), v.k)); self.keep.append(r)
            self.assume(self.isa(r, n))
            if con and not con[0].inline:
                self.call_contract(con, [v] + args, kw, node, f)
            else:
                self.constructing.append(r)
                try: self.inline_call(f, [v] + args, kw, node)
                finally: self.constructing.remove(r)
            cm = self.reg.classes.get(n)
            for m in self.models_of(cm):
                for inv in m.inv:
                    if con and not con[0].inline: self.assume(self.spec_bool(inv, Env(self=v)))
                    else: self.oblige(self.spec_bool(inv, Env(self=v)), f'class invariant of {m.name} established: {inv}', 'inv')
            return v
        raise Unsupported(f'instantiation of {n}')

    # contract application
    def select_variant(self, cs, args, kw, fnode):
        if not isinstance(cs, list): return cs
        for c in cs:
            if self.depth == 0 and (c.qual + ('#' + c.variant if c.variant else '')) in self.V.c.calls: return c
        if len(cs) == 1: return cs[0]
        names = [x.arg for x in fnode.args.posonlyargs + fnode.args.args]
        for c in cs:
            ok = True
            for n, v in list(zip(names, args)) + list(kw.items()):
                if n in c.params:
                    k = c.params[n]
                    vk = self.kind_of(v)
                    if vk == k or (k[0] == 'union' and vk in k[1]): continue
                    if k[0] == 'slice' or vk[0] == 'slice': ok = False; break
                    if vk[0] in ('tup', 'seq') and k[0] in ('seq', 'tup'): continue
                    if vk[0] == k[0] and k[0] in ('ref', 'list', 'dict'): continue
                    ok = False; break
            if ok: return c
        return cs[0]

    def call_contract(self, cs, args, kw, node, f=None):
        c0 = cs[0] if isinstance(cs, list) else cs
        fnode, cls, outer, mod = SRC.get_function(c0.module, c0.qual)
        if fnode is None: raise Unsupported(f'{c0.qual} is gone')
        if not self.pure: args = [self.narrow(a) if isinstance(a, SV) and len(cs if isinstance(cs, list) else [cs]) > 1 else a for a in args]
        c = self.select_variant(cs, args, kw, fnode)
        self.V.used.add(c.name)
        denv = Env(env_fn_=(mod, cls))
        bound = self.bind_args(fnode, args, kw, denv, denv)
        env = Env()
        for n, v in bound.items():
            v = self.force_gen(v)
            k = c.params.get(n)
            if n == 'self' and k is None: k = ('ref', c.qual.split('.')[0])
            if k is None or k[0] == 'slice' or (isinstance(v, PyObj) and k[0] != 'fn' and not (k[0] == 'val' and k[1] in self.reg.callables)): env[n] = v
            else:
                try:
                    if k[0] == 'seq' and not isinstance(v, (SV, TupV)): v = self.as_seq(v)
                    if k[0] == 'seq' and isinstance(v, SV) and v.k[0] == 'list': v = self.list_get(v)
                    if k[0] == 'ref' and isinstance(v, SV) and v.k[0] == 'ref' and self.static_subclass(v.k[1], k[1]): env[n] = v
                    else: env[n] = self.wrap(k, self.coerce(v, k))
                except KindError as ex:
                    if self.pure: raise
                    raise Unsupported(f'argument {n} of {c.name}: {ex}')
        for n, k in c.closure.items():
            w = f.env.where(n) if f is not None and f.env is not None else None
            if w is None: raise Unsupported(f'closure variable {n}')
            env[n] = self.wrap(k, self.coerce(w[n], k))
        if self.pure:
            if c.defn is not None:
                if self.defs is not None:
                    for r in c.requires: self.defs.append(self.spec_bool(r, env))
                return self.wrap(c.returns, self.coerce(self.spec_val(c.defn, env), c.returns))
            for en in c.ensures:
                n = ast.parse(en, mode='eval').body
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.left, ast.Name) \
                        and n.left.id == 'result' and not any(isinstance(x, ast.Name) and x.id == 'result' for x in ast.walk(n.comparators[0])):
                    if self.defs is not None:
                        for r in c.requires: self.defs.append(self.spec_bool(r, env))
                        for (exc, cond, exact) in c.raises: self.defs.append(Not(self.spec_bool(cond, env)))
                    v = self.spec_val(n.comparators[0], env)
                    return self.wrap(c.returns, self.coerce(v, c.returns)) if c.returns != ANYK else v
            raise Unsupported(f'call of {c.name} in pure mode')
        if self.dirty and any(self.can_reach(c, v.k[1]) for v in self.dirty.values()): self.flush_dirty(f'before the call of {c.name}')
        if c.free:
            ghost = self.V.c.calls.get(c.qual + ('#' + c.variant if c.variant else ''), {})
            for n, k in c.free.items():              # the contract is proved for all values of its ghost parameters
                env[n] = self.wrap(k, self.coerce(self.spec_val(ghost[n], self.cur_env), k)) if n in ghost else self.fresh(n, k)
        for r in c.requires:
            self.oblige(self.spec_bool(r, env), f'precondition of {c.name}: {r}', 'pre')
        mods = [t for m in c.modifies for t in self.modtargets(m, env)]
        if mods and 'Node._children' in self.heap: self.closed_heap(self.heap['Node._children'])
        pre_heap = dict(self.heap)
        saved_old, saved_env = self.old_heap, self.old_env
        for (exc, cond, exact) in c.raises:
            cd = self.spec_bool(cond, env)
            if exact:
                if self.branch(cd): raise PyExc(exc, where=f'raised by {c.name}')
            else:
                if self.known(cd) is not False and self.check_sat([cd]) != z3.unsat and self.nondet():
                    self.assume(cd)
                    raise PyExc(exc, where=f'raised by {c.name}')
        # havoc the frame
        for comp, ref in mods:
            comps = [comp] if not comp.startswith('D$') or comp.endswith(('$dom', '$val')) else [comp + '$dom', comp + '$val']
            if comp == '*': comps = list(self.heap)
            for cc in comps:
                a = self.heap[cc]
                for L in self.loops:
                    L.on_write(self, cc, ref)
                if ref is None:
                    self.oblige(z3.BoolVal(any(mc in (cc, comp, '*') and mt is None for mc, mt in self.modset)), f'frame of {c.name}: {cc}', 'frame')
                    self.heap[cc] = b = z3.Const(f'H!{cc}!{next(self.n)}', a.sort())
                    self.arrtime[b.decl().name()] = self.time + 1
                else:
                    self.check_frame(cc, ref, f'{cc} by {c.name}')
                    hv = self.fresh_const('hv', a.sort().range())
                    if hv.sort() == Ref: self.born(hv, self.time + 1)
                    elif hv.sort() == seq_theory(Ref).sort: self.assume(seqborn()(hv, IV(self.time + 1)))
                    self.heap[cc] = z3.Store(a, ref, hv)
        saved_base, self.fresh_base = self.fresh_base, self.time       # fresh(x) in the postcondition: created by this call
        self.time += 1
        if mods: self.factseen.clear()
        rk = ('seq', c.yields) if c.yields is not None else c.returns
        if c.qual.endswith('__init__'): res = NONE
        elif c.fresh and rk[0] in ('ref', 'list', 'dict', 'set'):
            r = self.new_ref('ret'); res = SV(rk, r)
            if rk[0] == 'ref': self.ref_facts(res)
            for cc in list(self.heap): pass
        else: res = self.fresh('ret', rk)
        self.old_env = Env(**env)
        env['result'] = res
        self.old_heap = pre_heap
        try:
            for e in c.ensures: self.assume(self.spec_bool(e, env))
        finally:
            for k, v in self.old_heap.items():
                if k not in saved_old: saved_old[k] = v if k not in pre_heap or True else v
            self.old_heap, self.old_env = saved_old, saved_env
            self.fresh_base = saved_base
        if c.trusted: self.V.assumptions.add(f'assumed contract of {c.name}' + (f' ({c.note})' if c.note else ''))
        return res

    # ---- spec functions
    def spec_apply(self, sf, args):
        opaque = sf.name in self.V.c.opaque
        if sf.body is not None and not sf.recursive and not opaque:
            env = Env()
            for (n, k), a in zip(sf.params, args):
                a = self.force_gen(a)
                if k == ANYK or k[0] == 'pyobj': env[n] = a
                elif isinstance(a, SV) and a.k[0] == 'list' and k[0] == 'seq': env[n] = self.wrap(k, self.coerce(self.list_get(a), k))
                elif isinstance(a, SV) and a.k[0] == 'ref' and k[0] == 'ref': env[n] = a
                else: env[n] = self.wrap(k, self.coerce(a, k))
            sp = self.spec
            self.pure += 1; self.spec += 1
            try: return self.eval(sf.body, env)
            finally: self.pure -= 1; self.spec -= 1
        ts = []
        self.pure += 1
        try:
            for (n, k), a in zip(sf.params, args):
                if isinstance(a, SV) and a.k[0] == 'list' and k[0] == 'seq': a = self.list_get(a)
                ts.append(self.coerce(a, k) if not (k[0] == 'ref' and isinstance(a, SV) and a.k[0] == 'ref') else a.t)
        finally: self.pure -= 1
        hs = []
        for comp in sf.heap:
            if comp.startswith('dict['):
                hs += [self.comp_array(c, srt) for c, srt in self.dict_comps(parse_kind(comp))]; continue
            cn, fld = comp.split('.')
            o = self.field_owner(cn, fld)
            hs.append(self.comp_array(f'{o[0].name}.{fld}', sort_of(o[1])))
            if comp == 'Node._children': self.closed_heap(hs[-1])
        f = z3.Function(('opaque.' if opaque else 'spec.') + sf.name, *[t.sort() for t in hs + ts], sort_of(sf.ret))
        if opaque: pass
        elif sf.hom: self.define_hom(sf, hs)
        elif sf.recursive: self.define_recursive(sf, hs)
        return self.wrap(sf.ret, f(*hs, *ts))

    def closed_heap(self, a):
        """every object that exists now has children that exist now"""
        if 'homh!' in str(a): return
        cl = z3.Function('tree.closed', a.sort(), INT, BOOL)
        base = a
        while z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE: base = base.arg(0)
        if z3.is_const(base) and base.decl().name().startswith('H0$'): self.assume(cl(base, IV(0)))
        if self.heap.get('Node._children') is a: self.assume(cl(a, IV(self.time)))

    def define_recursive(self, sf, hs):
        key = 'def.' + sf.name
        if key in TH._extra_axioms: return
        TH._extra_axioms[key] = ({'spec.' + sf.name}, [])
        sorts = [sort_of(k) for _, k in sf.params]
        F = z3.Function('spec.' + sf.name, *sorts, sort_of(sf.ret))
        G = z3.Function('speclim.' + sf.name, *sorts, sort_of(sf.ret))
        xs = [z3.Const(f'rec!{n}', s) for (n, _), s in zip(sf.params, sorts)]
        env = Env()
        for (n, k), x in zip(sf.params, xs): env[n] = self.wrap(k, x)
        self.pure += 1; self.spec += 1
        try: t = self.coerce(self.eval(sf.body, env), sf.ret)
        finally: self.pure -= 1; self.spec -= 1
        # replace F by G in the body (fuel 1)
        def rep(t):
            if z3.is_quantifier(t):
                return t
            if z3.is_app(t) and t.num_args():
                ch = [rep(x) for x in t.children()]
                if t.decl().eq(F): return G(*ch)
                return t.decl()(*ch)
            return t
        body = rep(t)
        TH._extra_axioms[key] = ({'spec.' + sf.name},
            [z3.ForAll(xs, And(F(*xs) == body, F(*xs) == G(*xs)), patterns=[F(*xs)])])

    def define_hom(self, sf, hs):
        key = 'def.' + sf.name
        if key in TH._extra_axioms: return
        nm = 'spec.' + sf.name
        TH._extra_axioms[key] = ({nm}, [])
        sk = sf.params[0][1]
        ek = sk[1] if sk[0] == 'seq' else INTK        # strings: elements are code points
        th = seq_theory(sort_of(ek))
        hv = [z3.Const(f'homh!{i}', h.sort()) for i, h in enumerate(hs)]
        xs = [z3.Const(f'homx!{n}', sort_of(k)) for n, k in sf.params[1:]]
        F = z3.Function(nm, *[h.sort() for h in hv], th.sort, *[x.sort() for x in xs], sort_of(sf.ret))
        ap = lambda s, h=None: F(*(h or hv), s, *xs)
        if sf.ret == INTK: e0, op = IV(0), lambda a, b: a + b
        elif sf.ret == BOOLK: e0, op = TRUE, lambda a, b: And(a, b)
        else:
            rt = Str() if sf.ret == STRK else seq_theory(sort_of(sf.ret[1]))
            e0, op = rt.empty, rt.cat
        x = z3.Const('hom!x', th.elem); a, b = z3.Consts('hom!a hom!b', th.sort)
        saved = self.heap
        self.heap = dict(saved)
        names = []
        for comp in sf.heap:
            if comp.startswith('dict['): names += [c for c, _ in self.dict_comps(parse_kind(comp))]; continue
            cn, fld = comp.split('.'); o = self.field_owner(cn, fld)
            names.append(f'{o[0].name}.{fld}')
        for nm_, h in zip(names, hv): self.heap[nm_] = h
        env = Env()
        for (n, k), t in zip(sf.params[1:], xs): env[n] = self.wrap(k, t)
        self.pure += 1; self.spec += 1
        try:
            env[sf.hom] = self.wrap(ek, x)
            body = self.coerce(self.eval(sf.body, env), sf.ret)
        finally:
            self.pure -= 1; self.spec -= 1
            for k, v in self.heap.items(): saved.setdefault(k, v)
            self.heap = saved
        al = hv + xs
        fa = lambda vs, f, *p: z3.ForAll(vs, f, patterns=list(p)) if vs else f
        A = [fa(al, ap(th.empty) == e0, ap(th.empty)), fa(al + [x], ap(th.unit(x)) == body, ap(th.unit(x))),
             fa(al + [a, b], ap(th.cat(a, b)) == op(ap(a), ap(b)), ap(th.cat(a, b)))]
        i = z3.Int('hom!i'); j = z3.Int('hom!j'); 
        bodyat = lambda t, h=None: z3.substitute(body, (x, t), *([(p, q) for p, q in zip(hv, h)] if h else []))
        def isunit(t): return z3.is_app(t) and t.decl().eq(rt.unit)
        if sf.ret[0] == 'seq' and isunit(body):      # a map: pointwise facts (by induction over the three equations above)
            val = lambda t, h=None: bodyat(t, h).arg(0)
            A += [fa(al + [a], rt.len(ap(a)) == th.len(a), ap(a)),
                  fa(al + [a, i], Implies(And(0 <= i, i < th.len(a)), rt.at(ap(a), i) == val(th.at(a, i))), rt.at(ap(a), i)),
                  fa(al + [a, i, j], Implies(And(0 <= i, i <= j, j <= th.len(a)), rt.slice(ap(a), i, j) == ap(th.slice(a, i, j))), rt.slice(ap(a), i, j))]
        if sf.ret == BOOLK:                          # all(...)
            A += [fa(al + [a, i], Implies(And(ap(a), 0 <= i, i < th.len(a)), bodyat(th.at(a, i))), z3.MultiPattern(ap(a), th.at(a, i)))]
        if hv:                                       # congruence in the heap (by induction)
            hw = [z3.Const(f'homk!{i}', h.sort()) for i, h in enumerate(hs)]
            A.append(fa(al + hw + [a], Implies(z3.ForAll([i], Implies(And(0 <= i, i < th.len(a)), bodyat(th.at(a, i)) == bodyat(th.at(a, i), hw)), patterns=[th.at(a, i)]),
                        ap(a) == ap(a, hw)), z3.MultiPattern(ap(a), ap(a, hw))))
        TH._extra_axioms[key] = ({nm}, A)

    def spec_call(self, n, e, env):
        a = e.args
        if n == 'implies':
            p = self.truth(self.eval(a[0], env))
            if z3.is_false(simp(p)): return SV(BOOLK, TRUE)
            q = self.truth(self.eval(a[1], env))
            return SV(BOOLK, Implies(p, q))
        if n == 'iff':
            p = self.truth(self.eval(a[0], env)); q = self.truth(self.eval(a[1], env))
            return SV(BOOLK, p == q)
        if n in ('forall', 'exists'):
            lam = a[0]
            kinds = {}
            pats = []
            for kw in e.keywords:
                if kw.arg == 'kinds': kinds = {k.value: v.value for k, v in zip(kw.value.keys, kw.value.values)}
                if kw.arg == 'trigger': pats = kw.value.elts if isinstance(kw.value, ast.Tuple) else [kw.value]
            qe = Env(env_up_=env)
            vs = []
            for arg in lam.args.args:
                k = parse_kind(kinds.get(arg.arg, 'int'))
                x = z3.Const(f'{arg.arg}!q{next(self.n)}', sort_of(k))
                vs.append(x); qe[arg.arg] = self.wrap(k, x)
            body = self.truth(self.eval(lam.body, qe))
            if len(a) == 3:
                lo, hi = self.int_t(self.eval(a[1], env)), self.int_t(self.eval(a[2], env))
                rng = And(*[And(lo <= x, x < hi) for x in vs])
                body = Implies(rng, body) if n == 'forall' else And(rng, body)
            if n == 'exists': return SV(BOOLK, z3.Exists(vs, body))
            if pats:
                ps = []
                for p in pats:
                    if isinstance(p, ast.List): ps.append(z3.MultiPattern(*[self.pat_term(self.eval(x, qe)) for x in p.elts]))
                    else: ps.append(self.pat_term(self.eval(p, qe)))
                try: return SV(BOOLK, z3.ForAll(vs, body, patterns=ps))
                except z3.Z3Exception: pass            # an inlined specification function is no pattern
            return SV(BOOLK, z3.ForAll(vs, body))
        if n == 'now':     # within old(...): the value after the call
            saved, (h, outer) = self.heap, env.lookup('__now__')
            self.heap = h
            try:
                ne = Env(env_up_=outer); w = env
                while w is not None and w is not outer:
                    for k, v in w.items():
                        if isinstance(v, SV) and '!q' in str(v.t) and z3.is_const(v.t): ne[k] = v
                    w = w.parent
                return self.eval(a[0], ne)
            finally: self.heap = saved
        if n == 'old':
            saved = self.heap; 
            self.heap = dict(self.old_heap)
            try:
                oe = Env(env_up_=env)
                for k, v in (self.old_env or {}).items():
                    if k in self.params or True:
                        oe[k] = v
                # quantified variables keep their meaning
                w = env
                while w is not None:
                    for k, v in w.items():
                        if isinstance(v, SV) and '!q' in str(v.t) and z3.is_const(v.t): oe[k] = v
                    w = w.parent
                oe['__now__'] = (saved, env)
                return self.eval(a[0], oe)
            finally:
                for k, v in self.heap.items():
                    if k not in saved: saved[k] = v
                    if k not in self.old_heap: self.old_heap[k] = v
                self.heap = saved
        if n in ('atloop', 'atiter'):
            saved = self.heap
            self.heap = dict(env.lookup('__loopheap__' if n == 'atloop' else '__iterheap__'))
            try: return self.eval(a[0], Env(env_up_=env, **{k: v for k, v in env.lookup('__loopenv__' if n == 'atloop' else '__iterenv__').items() if not k.startswith('__')}))
            finally:
                for k, v in self.heap.items():
                    if k not in saved: saved[k] = v
                self.heap = saved
        if n == 'fresh':
            v = self.eval(a[0], env)
            return SV(BOOLK, BIRTH(v.t) > self.fresh_base)
        if n == 'seq':     # list content as immutable sequence
            v = self.eval(a[0], env)
            return self.as_seq(v)
        if n == 'ite':
            c = simp(self.truth(self.eval(a[0], env)))
            if z3.is_true(c): return self.eval(a[1], env)
            if z3.is_false(c): return self.eval(a[2], env)
            return self.merge(c, self.eval(a[1], env), self.eval(a[2], env))
        if n == 'isa':
            v = self.eval(a[0], env)
            return SV(BOOLK, LIB['isinstance'](self, [v, self.resolve_cls(a[1])], {}).t)
        if n == 'sel':     # map application for dict content: sel(d, k)
            v = self.eval(a[0], env); k = self.eval(a[1], env)
            dom, val = self.dict_get(v)
            return self.wrap(v.k[2], z3.Select(val, self.coerce(k, v.k[1])))
        if n == 'char':
            v = self.eval(a[0], env); i = self.eval(a[1], env)
            return SV(INTK, Str().at(self.str_t(v), self.int_t(i)))
        if n == 'find' or n == 'rfind' or n == 'count':
            vs = [self.eval(x, env) for x in a]
            t, u = self.str_t(vs[0]), self.str_t(vs[1])
            b = self.int_t(vs[2]) if len(vs) > 2 else IV(0)
            en = self.int_t(vs[3]) if len(vs) > 3 else Str().mk_len(t)
            return SV(INTK, {'find': FIND, 'rfind': RFIND, 'count': COUNT}[n]()(t, u, b, en))
        if n == 'some': # some(x): the non-None content of an optional
            return self.some(self.eval(a[0], env))
        if n == 'as_kind':
            v = self.eval(a[0], env); k = parse_kind(a[1].value)
            if isinstance(v, SV) and v.k == NONEK: return self.wrap(k, z3.Const('as_kind!None', sort_of(k)))
            try: return self.wrap(k, self.coerce(v, k))
            except KindError:     # a value of another kind: unspecified, uses are guarded by isa
                if not isinstance(v, SV) or v.k[0] in ('union', 'any', 'opt'): raise
                return self.wrap(k, z3.Const(f'as_kind!{kname(v.k)}!{kname(k)}', sort_of(k)))
        raise Unsupported(f'spec builtin {n}')

    def pat_term(self, v):
        if isinstance(v, SV): 
            t = v.t
            th = Str()
            if z3.is_app(t) and t.decl().eq(th.unit): return t.arg(0)
            return t
        if isinstance(v, TupV):
            x = v.items[0]
            t = x.t
            while z3.is_app(t) and t.decl().name().startswith('T<'): t = t.arg(0)
            return t
        raise Unsupported('trigger')

    def resolve_cls(self, node):
        if isinstance(node, ast.Name):
            if node.id in self.reg.classes: return ClassV(node.id, self.class_src(node.id))
            return ClassV(node.id)
        raise Unsupported('isa')

    def call_libm(self, f, args, kw):
        o = f.obj
        if isinstance(o, tuple) and o[0] == 'gen': o = self.force_gen(o)
        if isinstance(o, TupV): k = 'tuple'
        elif isinstance(o, SV): k = {'str': 'str', 'list': 'list', 'seq': 'tuple', 'dict': 'dict', 'set': 'set', 'int': 'int', 'val': o.k[1] if o.k[0] == 'val' else ''}.get(o.k[0], o.k[0])
        else: k = type(o).__name__
        q = f'{k}.{f.name}'
        if q in self.reg.models: return self.reg.models[q](self, [o] + args, kw)
        if q in LIB: return LIB[q](self, [o] + args, kw)
        raise Unsupported(f'method {q}')

class NTV(TupV):
    __slots__ = ('name', 'fields')
    def __init__(self, name, fields, items):
        super().__init__(items); self.name, self.fields = name, fields

class LoopCtx:
    """what the loop body may change (grown on demand by restarting the exploration)"""
    def __init__(self, ex, lid, hv, node, env):
        self.lid, self.hv, self.node, self.env = lid, hv, node, env
        self.pre_heap = dict(ex.heap)
        self.pre_env = {k: v for k, v in env.items()}
        names = ex.assigned_names(node.body + ([ast.Assign([node.target], ast.Constant(0))] if isinstance(node, ast.For) else [ast.Expr(node.test)]))
        self.names = set(names)
        self.ex = ex
        self.time0 = ex.time

    def havoc(self):
        ex, hv = self.ex, self.hv
        nl = self.env.get('__nonlocal__', ())
        self.headvals = {}
        todo = set(self.names) | set(hv['vars'])
        for n in sorted(todo):
            w = self.env.parent.where(n) if (n in nl and self.env.parent) else (self.env if n in self.env else None)
            if w is None or n not in w:
                continue
            v = w[n]
            if isinstance(v, PyObj) or (isinstance(v, tuple)):
                if n in hv['vars']: raise Unsupported(f'loop variable {n} is not data')
                continue
            k = join_kinds(ex.kind_of(v), hv['vars'].get(n, NEVER)) if n in hv['vars'] else ex.kind_of(v)
            nv = self.fresh_like(ex, n, k, v)
            w[n] = nv
            self.headvals[n] = (k, nv)
        # heap
        for comp in sorted(hv['heap']):
            if comp not in ex.heap: continue
            a = ex.heap[comp]
            b = z3.Const(f'H!{comp}!{next(ex.n)}', a.sort())
            ex.heap[comp] = b
            ex.arrtime[b.decl().name()] = ex.time + 1
        for comp, refs in sorted(hv['locs'].items()):
            if comp in hv['heap'] or comp not in ex.heap: continue
            a = ex.heap[comp]
            if 'fresh' in refs:
                b = z3.Const(f'H!{comp}!{next(ex.n)}', a.sort())
                r = z3.Const('r!frame', Ref)
                excl = [r != t for key, t in refs.items() if key != 'fresh']
                ex.assume(z3.ForAll([r], Implies(And(BIRTH(r) <= self.time0, *excl), z3.Select(b, r) == z3.Select(a, r)),
                                    patterns=[z3.Select(b, r)]))
                ex.heap[comp] = b
                ex.arrtime[b.decl().name()] = ex.time + 1
            else:
                for key, t in refs.items():
                    h = ex.fresh_const('hv', a.sort().range())
                    if h.sort() == Ref: ex.born(h, ex.time + 1)
                    elif h.sort() == seq_theory(Ref).sort: ex.assume(seqborn()(h, IV(ex.time + 1)))
                    a = z3.Store(a, t, h)
                ex.heap[comp] = a
        self.headheap = dict(ex.heap)
        ex.factseen.clear()
        ex.time += 1
        self.time1 = ex.time

    def fresh_like(self, ex, n, k, v):
        nv = ex.fresh(n, k)
        if isinstance(v, SV) and isinstance(nv, SV) and v.site is not None: nv.site = v.site
        return nv

    def on_assign(self, ex, n, e):
        if e is self.env and n not in self.names and n in self.pre_env and n not in self.hv['vars']:
            self.hv['vars'][n] = NEVER; raise Restart()
        if e is not self.env and n not in self.hv['vars']:
            # nonlocal assigned by an inlined function
            f = e
            p = self.env.parent
            while p is not None:
                if p is e: raise Unsupported(f'loop modifies outer variable {n}')
                p = p.parent

    def on_write(self, ex, comp, ref):
        hv = self.hv
        if comp in hv['heap']: return
        if ref is None:
            hv['heap'].add(comp); raise Restart()
        nm = ref.decl().name() if z3.is_const(ref) else ''
        locs = hv['locs'].setdefault(comp, {})
        if nm.startswith('new!') and self.fresh_in_body(ex, ref):
            if 'fresh' not in locs: locs['fresh'] = True; raise Restart()
            return
        if self.known_before(ref):
            key = ref.sexpr()
            if key not in locs: locs[key] = ref; raise Restart()
            return
        hv['heap'].add(comp); raise Restart()

    def fresh_in_body(self, ex, ref):
        # allocated after the loop head: its BIRTH fact has a number > time1
        for t in reversed(ex.pc):
            if z3.is_eq(t) and t.arg(0).eq(BIRTH(ref)) and z3.is_int_value(t.arg(1)):
                return t.arg(1).as_long() > self.time1
        return False

    def known_before(self, ref):
        """the reference term only mentions symbols that existed before the loop"""
        heads = set()
        for n, (k, v) in self.headvals.items():
            for x in (v.items if isinstance(v, TupV) else [v]):
                if isinstance(x, SV): heads.add(str(x.t))
        stack = [ref]
        while stack:
            t = stack.pop()
            if z3.is_const(t):
                s = t.decl().name()
                if s in heads or s.startswith('hv!') or s.startswith('H!') or s.startswith('ret') or s.startswith('_i!'): return False
            if z3.is_app(t): stack.extend(t.children())
            else: return False
        return True

    def at_end(self, ex, env):
        """check that every variable changed by the body was havocked, and kinds fit"""
        for n, (k, hvv) in self.headvals.items():
            w = env.where(n)
            if w is None: raise Unsupported(f'{n} deleted in loop')
            v = w[n]
            if isinstance(v, PyObj): raise Unsupported(f'loop variable {n} becomes a non-data object')
            kv = ex.kind_of(v)
            if kv != k:
                try:
                    t = ex.coerce(v, k)
                except KindError:
                    nk = join_kinds(k, kv)
                    if k[0] == 'list' and kv[0] == 'list' and isinstance(hvv, SV): pass
                    if nk == self.hv['vars'].get(n): raise Unsupported(f'widening of {n}: {kname(k)} {kname(kv)}')
                    self.hv['vars'][n] = nk
                    raise Restart()
        for n, v in env.items():
            if n.startswith('__') or n in self.headvals: continue
            if n in self.pre_env and v is not self.pre_env[n] and n not in self.names:
                self.hv['vars'][n] = NEVER; raise Restart()

SPEC_BUILTINS = {'implies', 'iff', 'forall', 'exists', 'old', 'now', 'fresh', 'seq', 'ite', 'isa', 'sel', 'char', 'find', 'rfind', 'count', 'some', 'atloop', 'atiter', 'as_kind'}

LIB = {}
def lib(*names):
    def deco(f):
        for n in names: LIB[n] = f
        return f
    return deco

from . import lib as _lib   # noqa: E402  (registers the library models)
