import re
from oracles.base import *
from oracles import trees as T
from DHParser.nodetree import *
from DHParser import nodetree as NT
from DHParser.nodetree import Node, FrozenNode
def gen(r, size): return {'t': T.gen(r, size, names=['a', 'b', 'c', ':Text'], attrs=True), 'crit': r.choice(['a', 'b', 'z', ['a', 'c'], 'rx', 'fn', 'leaf', 'any', 'none', 'node', 'frozen', 'branch', ':Text']), 'skip': r.choice(['none', 'none', 'a', 'b', ['b', 'c'], 'fn', 'branch']),
    'root': r.random() < .5, 'rev': r.random() < .5, 'pick': r.random(), 'loc': r.random()}
def crit(k, nd0, node, path=False):
    """(selector for DHParser, predicate on nodes)"""
    if k == 'rx': return re.compile('[xy ]*'), lambda n: re.fullmatch('[xy ]*', n.content) is not None
    if k == 'fn':
        f = lambda n: len(n.content) % 2 == 0
        return ((lambda p: f(p[-1])) if path else f), f
    if k == 'leaf': return (LEAF_PATH if path else LEAF_NODE), lambda n: not n.children
    if k == 'branch': return (BRANCH_PATH if path else BRANCH_NODE), lambda n: bool(n.children)
    if k == 'any': return (ANY_PATH if path else ANY_NODE), lambda n: True
    if k == 'none': return (NO_PATH if path else NO_NODE), lambda n: False
    if k == 'node': return node, lambda n: n is node
    if k == 'frozen': return FrozenNode(node.name, node.content), lambda n: not n.children and n.name == node.name and n.content == node.content and not n.has_attr()
    if isinstance(k, list): return set(k), lambda n: n.name in k
    return k, lambda n: n.name == k
def model(t, pred, skip, root, rev):
    """paths of the matching nodes in document order"""
    out = []
    def walk(path):
        kids = path[-1].children
        for ch in (kids[::-1] if rev else kids):
            p = path + [ch]
            if pred(ch): out.append(p)
            if not skip(ch): walk(p)
    if root:
        if pred(t): out.append([t])
        if skip(t): return out
    walk([t])
    return out
def ids(p): return [[id(x) for x in q] for q in p]
def run(c):
    if not T.valid(c['t']): return
    t = T.build(c['t']); nodes = list(T.allnodes(t)); node = nodes[int(c['pick'] * len(nodes))]
    root, rev = c['root'], c['rev']
    s1, p1 = crit(c['crit'], t, node); k1, q1 = crit(c['skip'], t, node)
    s2, _ = crit(c['crit'], t, node, True); k2, _ = crit(c['skip'], t, node, True)
    want = model(t, p1, q1, root, rev)
    eq([id(x) for x in t.select(s1, root, rev, k1)], [id(p[-1]) for p in want], 'select')
    eq([id(x) for x in t.select_if(p1, root, rev, q1)], [id(p[-1]) for p in want], 'select_if')
    eq(ids(t.select_path(s2, root, rev, k2)), ids(want), 'select_path')
    eq(ids(t.select_path_if(lambda p: p1(p[-1]), root, rev, lambda p: q1(p[-1]))), ids(want), 'select_path_if')
    x = t.pick(s1, root, rev, k1); expect(x is (want[0][-1] if want else None), 'pick'); expect(t.pick_if(p1, root, rev, q1) is x, 'pick_if')
    x = t.pick_path(s2, root, rev, k2); eq([id(y) for y in x], [id(y) for y in want[0]] if want else [], 'pick_path')
    x = t.pick_path_if(lambda p: p1(p[-1]), root, rev, lambda p: q1(p[-1])); eq(None if x is None else [id(y) for y in x], [id(y) for y in want[0]] if want else None, 'pick_path_if')
    allw = model(t, lambda n: True, lambda n: False, root, rev)
    eq([id(x) for x in t.walk_tree(root, rev)], [id(p[-1]) for p in allw], 'walk_tree'); eq(ids(t.walk_tree_paths(root, rev)), ids(allw), 'walk_tree_paths')
    kids = [x for x in t.children if p1(x)]
    if rev: kids.reverse()
    eq([id(x) for x in t.select_children(s1, rev)], [id(x) for x in kids], 'select_children'); expect(t.pick_child(s1, rev) is (kids[0] if kids else None), 'pick_child')
    eq(s1 in t, any(p1(x) for x in t.children), 'contains') if c['crit'] != 'node' else None
def nav(c):
    if not T.valid(c['t']): return
    t = T.build(c['t'])
    allp = [[t]] + model(t, lambda n: True, lambda n: False, False, False)
    leaves = [p for p in allp if not p[-1].children]
    def key(p): return [id(x) for x in p]
    for p in allp:
        # successor: the nearest following sibling of the node or of its ancestors
        w = None
        for d in range(len(p) - 1, 0, -1):
            ks = p[d - 1].children; i = [k for k in range(len(ks)) if ks[k] is p[d]][0]
            if i + 1 < len(ks): w = p[:d] + [ks[i + 1]]; break
        v = None
        for d in range(len(p) - 1, 0, -1):
            ks = p[d - 1].children; i = [k for k in range(len(ks)) if ks[k] is p[d]][0]
            if i > 0: v = p[:d] + [ks[i - 1]]; break
        b4 = list(p)
        n = next_path(p); eq(n and key(n), w and key(w), 'next_path'); n = prev_path(p); eq(n and key(n), v and key(v), 'prev_path'); eq(key(p), key(b4), 'path changed')
        expect(path_sanity_check(p), 'sanity')
        eq(key(t.reconstruct_path(p[-1])), key(p), 'reconstruct_path')
        if len(p) > 1:
            expect(t.find_parent(p[-1]) is p[-2], 'find_parent')
            ks = p[-2].children; i = [k for k in range(len(ks)) if ks[k] is p[-1]][0]
            eq([id(x) for x in pred_siblings(p)], [id(x) for x in ks[:i]], 'pred_siblings'); eq([id(x) for x in pred_siblings(p, 'a', True)], [id(x) for x in ks[:i][::-1] if x.name == 'a'], 'pred_siblings reverse')
            eq([id(x) for x in succ_siblings(p)], [id(x) for x in ks[i + 1:]], 'succ_siblings'); eq([id(x) for x in succ_siblings(p, 'a', True)], [id(x) for x in ks[i + 1:][::-1] if x.name == 'a'], 'succ_siblings reverse')
            eq([id(x) for x in pred_siblings(p, {'a', 'b'})], [id(x) for x in ks[:i] if x.name in 'ab'], 'pred_siblings'); eq([id(x) for x in succ_siblings(p, {'a', 'b'})], [id(x) for x in ks[i + 1:] if x.name in 'ab'], 'succ_siblings')
            D = Node('D', ''); 
            expect(get_prev_sibling(p, D) is (ks[i - 1] if i else D), 'get_prev_sibling'); expect(get_next_sibling(p, D) is (ks[i + 1] if i + 1 < len(ks) else D), 'get_next_sibling')
            w2 = [x for x in ks[:i] if x.name != 'a']; expect(get_prev_sibling(p, D, skip='a') is (w2[-1] if w2 else D), 'get_prev_sibling skip')
            w2 = [x for x in ks[i + 1:] if x.name != 'a']; expect(get_next_sibling(p, D, skip='a') is (w2[0] if w2 else D), 'get_next_sibling skip')
        txt = t.content; k = sum(len(x[-1].content) for x in leaves[:min(i for i, l in enumerate(leaves) if key(l)[:len(p)] == key(p))]); e = k + len(p[-1].content)
        eq(foregoing_str(p), txt[:k], 'foregoing_str'); eq(ensuing_str(p), txt[e:], 'ensuing_str')
        for L in (1, 2, 3): eq(foregoing_str(p, L), txt[:k][-L:], 'foregoing_str'); eq(ensuing_str(p, L), txt[e:][:L], 'ensuing_str')
    for i, p in enumerate(leaves):
        n = next_leaf_path(p); eq(n and key(n), key(leaves[i + 1]) if i + 1 < len(leaves) else None, 'next_leaf_path')
        n = prev_leaf_path(p); eq(n and key(n), key(leaves[i - 1]) if i else None, 'prev_leaf_path')
        D = Node('D', ''); w = [q[-1] for q in leaves[i + 1:] if q[-1].name != 'a']; expect(get_next_leaf(p, D, skip='a') is (w[0] if w else D), 'get_next_leaf')
        w = [q[-1] for q in leaves[:i] if q[-1].name != 'a']; expect(get_prev_leaf(p, D, skip='a') is (w[-1] if w else D), 'get_prev_leaf')
    # locate
    pos = 0; n = len(t.content)
    for k in range(-1, n + 2):
        w = None; q = 0
        for p in leaves:
            m = len(p[-1].content)
            if q <= k < q + m: w = p
            q += m
        expect(t.locate(k) is (w[-1] if w else None), f'locate {k}'); eq(key(t.locate_path(k)), key(w) if w else [], f'locate_path {k}')
def walk(c):
    """continuing a selection from a path: all nodes behind (before) the path in document order, ancestors when they are left"""
    if not T.valid(c['t']): return
    t = T.build(c['t']); allp = [[t]] + model(t, lambda n: True, lambda n: False, False, False)
    p = allp[int(c['pick'] * len(allp))]
    s2, p1 = crit(c['crit'], t, p[-1], True); k2, q1 = crit(c['skip'], t, p[-1], True)
    for rev in (False, True):
        for inc in (False, True):
            out = []
            def sub(pp):
                if p1(pp[-1]): out.append(pp)
                if q1(pp[-1]): return
                for ch in (pp[-1].children[::-1] if rev else pp[-1].children): sub(pp + [ch])
            cur = list(p)
            if inc: sub(cur)
            while len(cur) > 1:
                par = cur[:-1]; ks = par[-1].children; i = [k for k in range(len(ks)) if ks[k] is cur[-1]][0]
                for ch in (ks[:i][::-1] if rev else ks[i + 1:]): sub(par + [ch])
                if p1(par[-1]): out.append(par)
                cur = par
            b4 = [id(x) for x in p]
            got = list(select_path(p, s2, inc, rev, k2))
            eq(ids(got), ids(out), f'select_path from a path, reverse={rev}')
            eq([id(x) for x in p], b4, 'start path changed')
            x = pick_path(p, s2, inc, rev, k2); eq(None if x is None else [id(y) for y in x], [id(y) for y in out[0]] if out else None, 'pick_path from a path')
    # along the path
    s1, p1 = crit(c['crit'], t, p[-1])
    w = [x for x in p if p1(x)]
    eq([id(x) for x in select_from_path(p, s1)], [id(x) for x in w], 'select_from_path'); eq([id(x) for x in select_from_path(p, s1, True)], [id(x) for x in w[::-1]], 'select_from_path reverse')
    expect(pick_from_path(p, s1) is (w[0] if w else None) and pick_from_path(p, s1, True) is (w[-1] if w else None), 'pick_from_path')
    ix = [i for i, x in enumerate(p) if p1(x)]
    eq([id(x) for x in path_head(p, s1)], [id(x) for x in p[:ix[0] + 1]] if ix else [], 'path_head'); eq([id(x) for x in path_head(p, s1, True)], [id(x) for x in p[:ix[-1] + 1]] if ix else [], 'path_head greedy')
    eq([id(x) for x in path_tail(p, s1)], [id(x) for x in p[ix[-1]:]] if ix else [], 'path_tail'); eq([id(x) for x in path_tail(p, s1, True)], [id(x) for x in p[ix[0]:]] if ix else [], 'path_tail greedy')
    o = allp[int(c['loc'] * len(allp))]; k = 0
    while k < min(len(o), len(p)) and o[k] is p[k]: k += 1
    a, i = find_common_ancestor(p, o); expect(a is p[k - 1] and i == k - 1, 'find_common_ancestor')
CHECKS = [('select', gen, run), ('navigate', gen, nav), ('from path', gen, walk)]
