import copy
from oracles.base import *
from oracles import trees as T
from DHParser.nodetree import Node, RootNode, FrozenNode
def gen(r, size): return {'t': T.gen(r, size), 't2': T.gen(r, size), 'sv': r.random() < .3, 'pos': r.choice([0, 0, 5, 17]), 'mut': [r.random(), r.random(), r.randint(0, 4)]}
def ok(c): return T.valid(c['t']) and T.valid(c.get('t2', c['t']))
def check(nd, t, base=None):
    for p in T.paths(t):
        n = T.nodeat(nd, p); s = T.at(t, p)
        eq(n.name, s[0], 'name'); eq(n.content, T.content(s), 'content'); eq(str(n), T.content(s), 'str'); eq(n.strlen(), len(T.content(s)), 'strlen')
        eq(bool(n.children), not isinstance(s[1], str), 'children')
        if not n.children: eq(str(n.result), s[1], 'leaf result')
        if base is not None: eq(n.pos, base + T.start(t, p), f'position of {s[0]} at {p}')
    expect(T.same(nd, t), f'tree is {T.dump(nd)}, expected {t}')
def basics(c):
    if not ok(c): return
    t = c['t']; nd = T.build(t, c['sv']); check(nd, t)
    expect(nd.with_pos(c['pos']) is nd, 'with_pos'); check(nd, t, c['pos'])
    rt = RootNode(T.build(t, c['sv'])); check(rt, t)
    rt.with_pos(c['pos']); check(rt, t, c['pos'])
    rt = RootNode(T.build(t, c['sv']).with_pos(c['pos'])); check(rt, t, c['pos'])
    # children added to a positioned node are positioned
    nd = T.build(t).with_pos(c['pos']); nd.result = tuple(T.build(x) for x in (t[1] if not isinstance(t[1], str) else [c['t2']]))
    check(nd, t if not isinstance(t[1], str) else [t[0], [c['t2']], t[2]], c['pos'])
    # result
    nd = Node('n', T.build(t)); eq([x.name for x in nd.children], [t[0]], 'single child'); eq(nd.content, T.content(t), 'content')
    nd = Node('n', ()); eq((nd.result, nd.children, nd.content), ('', (), ''), 'empty'); nd.result = ''; eq((nd.result, nd.children), ('', ()), 'empty')
    nd = Node('n', 'abc'); nd.result = T.build(t); eq([x.name for x in nd.children], [t[0]], 'single child'); nd.result = 'q'; eq((nd.children, nd.content), ((), 'q'), 'leaf again')
def modelpos(t, p): return T.start(t, p)
def copies(c):
    if not ok(c): return
    t, t2 = c['t'], c['t2']
    for mk in (lambda x: T.build(x, c['sv']), lambda x: T.build(x, c['sv']).with_pos(c['pos']), lambda x: RootNode(T.build(x, c['sv']).with_pos(c['pos'])), lambda x: RootNode(T.build(x))):
        nd = mk(t); cp = copy.deepcopy(nd)
        expect(T.same(cp, t), 'copy differs'); expect(cp.equals(nd) and nd.equals(cp), 'copy not equal'); eq(type(cp), type(nd), 'type')
        expect(not ({id(x) for x in T.allnodes(nd)} & {id(x) for x in T.allnodes(cp)}), 'copy shares nodes')
        for x, y in zip(T.allnodes(nd), T.allnodes(cp)):
            expect(not x.has_attr() or x.attr is not y.attr, 'copy shares an attribute dictionary'); eq(x._pos, y._pos, 'position of the copy')
        for y in T.allnodes(cp): y.attr['zzz'] = '1'
        expect(T.same(nd, t), 'original changed'); cp2 = copy.deepcopy(nd)
        for y in list(T.allnodes(cp2)):
            if not y.children: y.result = 'CHANGED'
            y.name = 'CH'
        expect(T.same(nd, t), 'original changed')
    a, b = T.build(t, c['sv']), T.build(t2)
    def eqv(x, y): return x[0] == y[0] and x[2] == y[2] and (isinstance(x[1], str) == isinstance(y[1], str)) and (x[1] == y[1] if isinstance(x[1], str) else len(x[1]) == len(y[1]) and all(eqv(p, q) for p, q in zip(x[1], y[1])))
    eq(a.equals(b), eqv(t, t2), 'equals'); eq(b.equals(a), eqv(t2, t), 'equals')
    # single changes are noticed
    m = json_copy(t); ps = list(T.paths(m)); s = T.at(m, ps[int(c['mut'][0] * len(ps))]); k = c['mut'][2]
    if k == 0: s[0] = s[0] + '_'
    elif k == 1:
        if isinstance(s[1], str): s[1] = s[1] + 'q' if c['mut'][1] < .5 or not s[1] else s[1][:-1]
        else: s[1] = s[1][:-1] or 'leaf'
    elif k == 2: s[2] = {**s[2], 'q': 'new'}
    elif k == 3:
        if isinstance(s[1], str): s[1] = [['sub', s[1], {}]]
        else: s[1] = T.content(s)
    else:
        if not isinstance(s[1], str): s[1] = s[1] + [['n', '', {}]]
        else: s[2] = {}
    b = T.build(m); eq(a.equals(b), eqv(t, m), f'equals after change {k}'); eq(b.equals(a), eqv(m, t), f'equals after change {k}')
    # attribute order
    x, y = Node('n', 'v'), Node('n', 'v'); x.attr.update({'p': '1', 'q': '2'}); y.attr.update({'q': '2', 'p': '1'})
    eq((x.equals(y), x.equals(y, True), x.equals(y, False), x.equals(copy.deepcopy(x), False)), (True, True, False, True), 'attribute order')
def json_copy(x): return [x[0], x[1] if isinstance(x[1], str) else [json_copy(y) for y in x[1]], dict(x[2])]
OPS = ['insert', 'remove', 'del', 'delslice', 'delname', 'set', 'setslice', 'setname', 'index', 'get', 'indices', 'replace', 'result']
def gend(r, size): return {'t': ['root', [T.gen(r, 1, 1, names=['a', 'b', 'c']) for _ in range(r.randint(1, 6))], {}], 'ops': [[r.choice(OPS), r.random(), r.random(), r.choice(['a', 'b', 'c', 'z'])] for _ in range(r.randint(1, 4 + size // 2))], 'pos': r.choice([-1, 0, 4])}
def edits(c):
    if not T.valid(c['t']) or isinstance(c['t'][1], str): return
    nd = T.build(c['t']); model = list(nd.children); n = [0]
    def new():
        n[0] += 1; return Node('abc'[n[0] % 3], 'n%i' % n[0])
    def exc(f, *es):
        try: return f()
        except es as e: return type(e).__name__
    for op, x, y, name in c['ops']:
        L = len(model); i = int(x * (L + 1)); j = int(y * (L + 1)); k = int(x * (2 * L + 2)) - L - 1
        before = list(model)
        match = [q for q in range(L) if model[q].name == name]
        if op == 'insert': m = new(); nd.insert(k if y < .5 else i, m); model.insert(k if y < .5 else i, m)
        elif op == 'remove' and L:
            if i < L and y < .8:
                m = model[i]; nd.remove(m); model.remove(m)
            else:
                expect(exc(lambda: nd.remove(new()), ValueError) == 'ValueError', 'remove of a foreign node')
        elif op == 'del' and L:
            def f(): del nd[k]
            def g(): del model[k]
            eq(exc(f, IndexError), exc(g, IndexError), f'del {k}')
        elif op == 'delslice' and L: del nd[i:j]; del model[i:j]
        elif op == 'delname' and L:
            def f(): del nd[name]
            r = exc(f, KeyError); eq(r, None if match else 'KeyError', 'del by name')
            model = [m for m in model if m.name != name]
        elif op == 'set' and L:
            m = new()
            def f(): nd[k] = m
            def g(): model[k] = m
            eq(exc(f, IndexError), exc(g, IndexError), f'set {k}')
        elif op == 'setslice' and L: m = [new() for _ in range(int(y * 3))]; nd[min(i, j):max(i, j)] = tuple(m) if y < .5 else m; model[min(i, j):max(i, j)] = m
        elif op == 'setname' and L:
            m = new() if y < .5 else [new() for _ in match]
            def f(): nd[name] = m
            r = exc(f, KeyError)
            if not match and isinstance(m, Node): eq(r, 'KeyError', 'set unknown name')
            else:
                for z, q in enumerate(match): model[q] = m if isinstance(m, Node) else m[z]
                if isinstance(m, Node) and len(match) > 1:     # the same node several times: make it a proper tree again
                    for z, q in enumerate(match): model[q] = new()
                    nd.result = tuple(model)
        elif op == 'index' and L:
            eq(exc(lambda: nd.index(name), ValueError), match[0] if match else 'ValueError', 'index'); eq(nd.index(model[min(i, L - 1)]), min(i, L - 1), 'index of a node')
            if i < j: w = [q for q in match if i <= q < j]; eq(exc(lambda: nd.index(name, i, j), ValueError), w[0] if w else 'ValueError', f'index {i} {j}')
        elif op == 'indices': eq(nd.indices(name), tuple(match), 'indices'); eq(nd.indices({name, 'a'}), tuple(q for q in range(L) if model[q].name in (name, 'a')), 'indices')
        elif op == 'get' and L:
            eq([id(q) for q in nd[i:j]], [id(q) for q in model[i:j]], 'slice'); eq(exc(lambda: nd[k].name, IndexError), exc(lambda: model[k].name, IndexError), 'item')
            if -L <= k < L: expect(nd[k] is model[k], 'item')
            r = exc(lambda: nd[name], KeyError)
            if not match: eq(r, 'KeyError', 'unknown name')
            elif len(match) == 1: expect(r is model[match[0]], 'by name')
            else: eq([id(q) for q in r], [id(model[q]) for q in match], 'by name')
            eq(name in nd, bool(match), 'contains'); z = Node('surrogate', ''); g = nd.get(name, z); expect(g is (model[match[0]] if match else z), 'get')
            eq([id(q) for q in nd.get(name, (z,))], [id(model[q]) for q in match] if match else [id(z)], 'get tuple'); eq(nd.get(L, z) is z, True, 'get index')
        elif op == 'replace' and L:
            q = min(i, L - 1); m = Node('rep', 'R'); m.attr['k'] = 'v'; had = dict(model[q].attr) if model[q].has_attr() else {}
            model[q].replace_by(m, merge_attr=y < .5); eq((model[q].name, model[q].content), ('rep', 'R'), 'replace_by'); eq(dict(model[q].attr), {**had, 'k': 'v'} if y < .5 else {'k': 'v'}, 'attributes after replace_by')
            model[q].name = name
        elif op == 'result': model = [new() for _ in range(int(y * 3))] + model[:2]; nd.result = tuple(model)
        eq([id(q) for q in nd.children], [id(q) for q in model], f'children after {op}')
        eq(nd.content, ''.join(q.content for q in model), f'content after {op}'); eq(nd.strlen(), sum(len(q.content) for q in model), f'strlen after {op}')
        if not model: eq(nd.result, '', f'result after {op}')
        else: eq(nd.result, nd.children, f'result after {op}')
def leafs(c):
    if not ok(c): return
    nd = Node('l', 'abc')
    for f in (lambda: nd[0], lambda: nd.insert(0, Node('x', '')), lambda: nd.remove(nd), lambda: nd.index('x'), lambda: nd.__delitem__(0), lambda: nd.__setitem__(0, nd)):
        try: f()
        except ValueError: continue
        raise Violation('item access on a leaf')
    x = Node('e', ''); x.insert(0, nd); eq(x.children, (nd,), 'insert into an empty node')
CHECKS = [('basics', gen, basics), ('copies', gen, copies), ('edits', gend, edits), ('leaf', gen, leafs)]
BATCH = {'leaf': 1}
