from oracles.base import *
from oracles import trees as T
from DHParser import nodetree as N
from DHParser.nodetree import *
from DHParser.nodetree import LEAF_PATH, NO_PATH, TOKEN_PTYPE
CH = ['x', 'y', ' ', 'ab', 'cde', '\n', 'ä', '']
NM = ['a', 'b', 'c', 'd', 'e', ':x']
def fixtext(t):
    """':Text' only as leaf"""
    if not isinstance(t[1], str): [fixtext(x) for x in t[1]]
    elif len(t[1]) % 3 == 2: t[0] = ':Text'
    return t
def tree(r, size): return fixtext(T.gen(r, size, depth=r.choice([0, 1, 2, 2, 3, 3]), names=NM, ch=CH))
def ok(t): return T.valid(t) and not any(T.at(t, p)[0] == ':Text' and not isinstance(T.at(t, p)[1], str) for p in T.paths(t))
def leaves(t, sel, ign, here=(), nm=()):
    """index paths of the selected leaves"""
    if t[0] in ign: return
    if isinstance(t[1], str):
        if sel is None or t[0] in sel: yield here
    else:
        for i, x in enumerate(t[1]): yield from leaves(x, sel, ign, here + (i,), nm)
def mk(c, nd, **kw):
    a = dict(kw)
    if c.get('sel') is not None: a['select'] = lambda p: not p[-1]._children and p[-1].name in set(c['sel'])
    if c.get('ign'): a['ignore'] = set(c['ign'])
    return ContentMapping(nd, **a)
def genm(r, size): return {'t': tree(r, size), 'sel': r.choice([None, None, ['a', 'b', ':Text'], ['a', 'b', 'c', ':Text', ':x']]), 'ign': r.choice([[], [], ['c'], ['d', 'e']]), 'rng': [r.random(), r.random()]}
def check_mapping(cm, nd, t, c, msg=''):
    lv = list(leaves(t, c.get('sel'), c.get('ign') or []))
    txt = [T.at(t, p)[1] for p in lv]
    eq(cm.content, ''.join(txt), msg + 'content'); pos = [sum(map(len, txt[:i])) for i in range(len(txt))]
    eq(list(cm.pos_list), pos, msg + 'positions'); eq(len(cm.path_list), len(lv), msg + 'number of paths')
    for p, ip in zip(cm.path_list, lv):
        chain = [T.nodeat(nd, ip[:k]) for k in range(len(ip) + 1)]
        expect(len(p) == len(chain) and all(a is b for a, b in zip(p, chain)), msg + f'path to leaf {ip}: {[x.name for x in p]}, expected {[x.name for x in chain]}')
    return lv, txt, pos
def runm(c):
    if not ok(c['t']) or not len(c['rng']) == 2: return
    t = c['t']; nd = T.build(t); cm = mk(c, nd)
    lv, txt, pos = check_mapping(cm, nd, t, c)
    L = sum(map(len, txt))
    for bad in (-1, -L - 2):
        try: cm.get_path_index(bad)
        except IndexError: pass
        else: raise Violation('negative position accepted')
    if not lv: return
    for q in range(L + 1):
        i = cm.get_path_index(q); k = cm.get_path_index(q, left_biased=True)
        eq(i, max(j for j in range(len(pos)) if pos[j] <= q), f'path index of {q}'); eq(k, max([j for j in range(len(pos)) if pos[j] < q], default=0), f'left biased path index of {q}')
        p, o = cm.get_path_and_offset(q); expect(p is cm.path_list[i] and o == q - pos[i], f'path and offset of {q}'); loc = cm.get_location(q); expect((loc.path_index, loc.offset) == (i, o) and loc.path is p, 'location')
        if q < L: expect(p[-1].content[o] == cm.content[q], f'character at {q}')
        p, o = cm.get_path_and_offset(q, left_biased=True)
        if q > 0: expect(p[-1].content[o - 1] == cm.content[q - 1], f'character before {q}')
    a, b = [int(x * (L + 1)) for x in c['rng']]
    i, k = cm.get_path_index(a), cm.get_path_index(b)
    want = list(range(i, k + 1)) if k >= i else list(range(i, k - 1, -1))
    eq([[id(n) for n in p] for p in cm.iterate_paths(a, b)], [[id(n) for n in cm.path_list[j]] for j in want], f'paths from {a} to {b}')
    if c['sel'] is None and not c['ign']:
        for p in T.paths(t):
            n = T.nodeat(nd, p); mine = [j for j, q in enumerate(lv) if q[:len(p)] == p]
            eq((cm.get_node_index(n), cm.get_node_index(n, reverse=True)), (mine[0], mine[-1]), 'node index')
            eq((cm.get_node_position(n), cm.get_node_position(n, reverse=True)), (T.start(t, p), T.start(t, p) + len(T.content(T.at(t, p)))), 'node position')
def gens(r, size): return {'t': tree(r, size), 'x': r.random(), 'y': r.random(), 'lb': r.random() < .5, 'greedy': r.random() < .5, 'pos': r.random() < .7, 'chain': r.random() < .3, 'how': r.choice(['split', 'deep', 'deep', 'full'])}
def checkpos(nd, msg):
    """positions, where they are set, agree with the content"""
    def go(n, at):
        if n._pos >= 0: eq(n._pos, at, f'{msg}: position of {n.name}')
        for x in n._children: go(x, at); at += x.strlen()
    go(nd, nd._pos if nd._pos >= 0 else 0)
def runs(c):
    t = c['t']
    if not ok(t): return
    nd = T.build(t)
    if c['pos']: nd.with_pos(0)
    ps = [p for p in T.paths(t) if p]
    if not ps: return
    p = ps[int(c['x'] * len(ps))]; path = [T.nodeat(nd, p[:k]) for k in range(len(p) + 1)]; n = path[-1]; par = path[-2]
    i = int(c['y'] * (len(n._result) + 1)); full = T.content(t)
    before = (n.content[:i] if not n._children else ''.join(x.content for x in n._children[:i]))
    attrs = dict(n.attr) if n.has_attr() else {}; names = [x.name for x in par._children]
    if c['how'] == 'split':
        left = ''.join(x.content for x in par._children[:p[-1]]) + before
        old = list(par._children); k = split_node(n, par, i, c['lb'], {'ch': '1'} if c['chain'] else None)
        eq(nd.content, full, 'content after split'); eq(''.join(x.content for x in par._children[:k]), left, f'text before the split index {k}')
        if i in (0, len(n._result) if n._result is not None else 0) and len(par._children) == len(old): expect(all(a is b for a, b in zip(old, par._children)), 'nothing to split')
        else:
            eq([x.name for x in par._children], names[:p[-1] + 1] + names[p[-1]:], 'names after split')
            for x in par._children[p[-1]:p[-1] + 2]:
                w = {**attrs, **({'ch': '1'} if c['chain'] and not n.anonymous else {})}
                eq(dict(x.attr) if x.has_attr() else {}, w, 'attributes after split')
    else:
        m = len(p); start = T.start(t, p)
        f = {'deep': deep_split, 'full': full_split}[c['how']]
        res = f(path, i, c['lb'], c['greedy'], chain_attr_name='ch' if c['chain'] else '')
        if c['how'] == 'full':
            a, b = res; expect(a is nd, 'left tree'); eq((a.content, b.content), (full[:start] + before, full[start + len(before):]), 'content after full split')
            return
        eq(nd.content, full, 'content after split'); eq(''.join(x.content for x in nd._children[:res]), full[:start] + before, f'text before the split index {res}')
    if c['pos']: checkpos(nd, 'after split')
def genk(r, size):
    return {'t': tree(r, size), 'sel': r.choice([None, None, None, ['a', 'b', ':Text', 'M0', 'M1', 'M2', 'M3', 'M4']]), 'ign': r.choice([[], [], [], ['c']]), 'greedy': r.random() < .7, 'div': r.choice([[], [], ['a'], ['a', 'b', 'c', 'd', 'e'], ['b', 'c', 'M0']]), 'chain': r.random() < .3,
            'ops': [[r.random(), r.random() if r.random() < .8 else None] for _ in range(r.randint(1, 3))], 'pos': r.random() < .5, 'map': r.random() < .8}
def runk(c):
    """sequences of markup operations"""
    t = c['t']
    if not ok(t) or t[0] == ':Text': return
    nd = T.build(t); full = T.content(t)
    if c['pos']: nd.with_pos(0)
    kw = dict(greedy=c['greedy'], divisibility={'*': set(c['div'])}, chain_attr_name='ch' if c['chain'] else '')
    cm = mk(c, nd, **kw)
    if not cm.path_list: return
    sel = cm.content; marks = []
    def selected(n):
        """text of the selected leaves below n"""
        out = []
        def go(path):
            if path[-1].name in (c['ign'] or []): return
            if not path[-1]._children:
                out.append(path[-1].content) if c['sel'] is None else None
            for x in path[-1]._children: go(path + [x])
        go([n]); return ''.join(out)
    leafstart = {}; k = 0
    for j, (x, y) in enumerate(c['ops']):
        a = int(x * (len(sel) + 1)); b = a if y is None else int(y * (len(sel) + 1)); a, b = min(a, b), max(a, b)
        if a == b: b = a
        name = f'M{j}'
        try: res = cm.markup(a, b, name)
        except ValueError as e:
            if a == b and 'not divisible' in str(e): eq(nd.content, full, 'content after refused insertion'); return
            raise
        eq(nd.content, full, f'content after markup {j}')
        marks.append((name, a, b))
        for nm, a2, b2 in marks:
            ms = [n for n in T.allnodes(nd) if n.name == nm]
            if c['sel'] is None: eq(''.join(selected(n) for n in ms), sel[a2:b2], f'text covered by the markup {nm} of [{a2},{b2}[ after operation {j}')
            if c['sel'] is None and not c['ign'] and b2 > a2 and ms: pass
            expect(not any(x2.name == nm for n in ms for x2 in list(T.allnodes(n))[1:]), f'nested {nm}')
        if c['sel'] is None:
            check_mapping(cm, nd, T.dump(nd), c, f'mapping after markup {j}: ')
        else: return
    if c['pos']: checkpos(nd, 'after markup')
def geni(r, size): return {'t': tree(r, size), 'div': r.random() < .5, 'ops': [[r.random(), r.random() < .5, r.choice(['', '', 'new'])] for _ in range(r.randint(1, 4))], 'pos': r.random() < .5}
def runi(c):
    """inserting nodes through the mapping"""
    t = c['t']
    if not ok(t): return
    nd = T.build(t)
    if c['pos']: nd.with_pos(0)
    cm = ContentMapping(nd, divisibility={'*': {'a', 'b', 'c', 'd', 'e', ':Text', ':x', 'NEW0', 'NEW1', 'NEW2', 'NEW3'} if c['div'] else set()}); full = cm.content
    for j, (x, lb, tx) in enumerate(c['ops']):
        p = int(x * (len(full) + 1)); new = Node('NEW%i' % j, tx)
        try: loc = cm.insert_node(p, new, lb)
        except ValueError as e:
            expect('not divisible' in str(e) and not c['div'], str(e)); eq(nd.content, full, 'content after refused insertion'); return
        full = full[:p] + tx + full[p:]
        eq(nd.content, full, f'content after insertion at {p}'); at = [q for q in T.paths(T.dump(nd)) if T.nodeat(nd, q) is new]; eq(len(at), 1, 'inserted once')
        eq(T.start(T.dump(nd), at[0]), p, 'place of the inserted node'); expect(any(z is new for z in loc.node._children), 'parent of the inserted node')
        check_mapping(cm, nd, T.dump(nd), {}, f'mapping after insertion {j}: ')
CHECKS = [('mapping', genm, runm), ('split', gens, runs), ('markup', genk, runk), ('insert', geni, runi)]
