from oracles.base import *
from oracles import trees as T
from DHParser import transform as X
from DHParser.transform import *
from DHParser.nodetree import Node, RootNode
CH = ['x', 'y', ' ', 'ab', '\n', 'ä', '', '  ']
NM = ['a', 'b', 'c', ':x', ':Text', ':Whitespace', ':Series']
def gen(r, size, attrs=None): return T.gen(r, size, depth=r.choice([1, 1, 2, 2, 3]), names=NM, ch=CH, attrs=r.random() < .2 if attrs is None else attrs)
CONDS = {'anon': X.is_anonymous, 'named': X.is_named, 'leafanon': X.is_anonymous_leaf, 'ws': X.contains_only_whitespace, 'empty': X.is_empty, 'ab': X.is_one_of({'a', 'b'}), 'c': X.is_a('c'), 'always': X.always, 'never': X.never, 'token': X.is_token, 'tok1': X.is_token({'x', 'ab'}), 'notab': X.not_one_of({'a', 'b'}), 'match': X.content_matches(r'\s*'), 'haschild': X.has_children}
OWN = {'anon': lambda t: t[0][0] == ':', 'named': lambda t: t[0][0] != ':', 'leafanon': lambda t: isinstance(t[1], str) and t[0][0] == ':', 'ws': lambda t: not T.content(t).strip(), 'empty': lambda t: isinstance(t[1], str) and not t[1], 'ab': lambda t: t[0] in 'ab', 'c': lambda t: t[0] == 'c', 'always': lambda t: True, 'never': lambda t: False, 'token': lambda t: t[0] == ':Text', 'tok1': lambda t: t[0] == ':Text' and T.content(t) in ('x', 'ab'), 'notab': lambda t: t[0] not in ('a', 'b'), 'match': lambda t: not T.content(t).strip(), 'haschild': lambda t: not isinstance(t[1], str)}
def leafids(nd): return [id(n) for n in T.allnodes(nd) if not n._children]
def pathto(nd, p): return [T.nodeat(nd, p[:k]) for k in range(len(p) + 1)]
def kept_attrs_conflict(e): return isinstance(e, ValueError) and 'Conflicting attribute values' in str(e)
def treeok(nd): 
    """results and children fit together"""
    for n in T.allnodes(nd):
        if n._children: expect(n._result is n._children or n._result == n._children, 'result and children of a branch')
        else: expect(isinstance(n._result, str), f'result of a leaf {n._result!r}')
OPS = ['replace_by_single_child', 'replace_by_children', 'reduce_single_child', 'replace_or_reduce', 'swap_nested_nodes', 'change_name', 'replace_child_names', 'flatten', 'flat1', 'collapse', 'collapse_children_if', 'merge_adjacent', 'merge_leaves', 'merge_connected', 'move_fringes', 'left_associative', 'lean_left', 'merge_treetops', 'pull_up']
def geno(r, size):
    return {'t': gen(r, size), 'at': r.random(), 'op': r.choice(OPS), 'cond': r.choice(sorted(CONDS)), 'cond2': r.choice(sorted(CONDS)), 'name': r.choice(['', 'a', 'b', 'z', ':z']), 'flag': r.random() < .5, 'side': r.choice(['left', 'right', 'both']), 'swallow': r.choice([None, None, 'c', 'ab'])}
def runo(c):
    """one restructuring transformation at one place"""
    if not T.valid(c['t']) or c['op'] not in OPS or c['cond'] not in CONDS or c['cond2'] not in CONDS or c['side'] not in ('left', 'right', 'both') or c['swallow'] not in (None, 'c', 'ab'): return
    nd = RootNode(T.build(c['t'])); ps = list(T.paths(c['t'])); p = ps[int(c['at'] * len(ps))]; path = pathto(nd, p); n = path[-1]
    t = T.at(c['t'], p); full = T.content(c['t']); cond = CONDS[c['cond']]; own = OWN[c['cond']]; op = c['op']; before = leafids(nd)
    kids = t[1] if not isinstance(t[1], str) else []; kid = list(n._children)
    nd.with_pos(0)
    samekids = lambda ks: len(ks) == len(n._children) and all(a is b for a, b in zip(ks, n._children))
    order = False
    try:
        if op == 'replace_by_single_child' or op == 'reduce_single_child':
            getattr(X, op)(path); order = True
            if len(kids) == 1:
                k = kids[0]; keep = op == 'reduce_single_child' or (t[0][0] != ':' and k[0][0] == ':')
                eq(n.name, t[0] if keep else k[0], 'name after replacement'); expect(n._result == kid[0]._result, 'result of the child'); order = False
            else: expect(T.same(nd, c['t']), 'changed although not a single child')
        elif op == 'replace_or_reduce':
            X.replace_or_reduce(path, cond)
            if len(kids) == 1: eq(n.name, kids[0][0] if own(t) and (t[0][0] == ':' or kids[0][0][0] != ':') else t[0], 'name after replace or reduce')
            else: expect(T.same(nd, c['t']), 'changed although not a single child')
        elif op == 'replace_by_children':
            X.replace_by_children(path)
            if len(p) >= 1 and kids:
                q = path[-2]; old = T.at(c['t'], p[:-1]); order = True
                eq(T.dump(q)[1], old[1][:p[-1]] + kids + old[1][p[-1] + 1:], 'children of the parent')
        elif op == 'swap_nested_nodes':
            X.swap_nested_nodes(path); order = True
            if len(kids) == 1: eq(T.dump(n), [kids[0][0], [[t[0], kids[0][1], t[2]]], kids[0][2]], 'swapped nodes')
        elif op == 'change_name': X.change_name(path, c['name'] or 'z'); eq(T.dump(n), [c['name'] or 'z', *t[1:]], 'renamed node'); order = True
        elif op == 'replace_child_names': X.replace_child_names(path, {'a': 'z', 'z': 'q', ':x': 'a'}); eq(T.dump(n), [t[0], t[1] if not kids else [[{'a': 'z', ':x': 'a'}.get(k[0], k[0]), *k[1:]] for k in kids], t[2]], 'renamed children'); order = True
        elif op in ('flatten', 'flat1'):
            rec = op == 'flatten'; X.flatten(path, cond, rec); order = True; eq([id(x) for x in path], [id(x) for x in pathto(nd, p)], 'path left by flatten')
            def fl(t):
                out = []
                for k in t[1]:
                    if not isinstance(k[1], str) and own(k): out.extend(fl(k) if rec else k[1])
                    else: out.append(k)
                return out
            if kids: eq([T.dump(k) for k in n._children], fl(t), 'flattened children')
        elif op == 'collapse': X.collapse(path); expect(not n._children, 'not collapsed'); eq(n.name, t[0], 'name')
        elif op == 'collapse_children_if':
            name = c['name'] or 'z'; X.collapse_children_if(path, cond, name)
            if kids and not any(not isinstance(k[1], str) for k in kids):
                want = []; pk = None
                for k in kids:
                    if own(k):
                        if pk is None: pk = ''
                        pk += k[1]
                    else:
                        if pk is not None: want.append((name, pk)); pk = None
                        want.append((k[0], k[1]))
                if pk is not None: want.append((name, pk))
                eq([(k.name, k.content) for k in n._children], want, 'collapsed children')
        elif op in ('merge_adjacent', 'merge_leaves'):
            if op == 'merge_leaves': X.merge_leaves(path); own = OWN['leafanon']; name = ''; sw = None
            else: name = c['name']; sw = c['swallow']; X.merge_adjacent(path, cond, name, swallow=CONDS[sw] if sw else None)
            if kids:
                want = []; pk = None
                for k in kids:
                    if own(k):
                        if pk is None: pk = []; want.append(pk)
                        pk.append(k)
                    else: pk = None; want.append([k])
                eq([k.content for k in n._children], [''.join(map(T.content, g)) for g in want], 'content of the merged children')
                for g, k in zip(want, n._children):
                    if len(g) == 1 and not (sw and own(g[0]) and OWN[sw](g[0])): eq(k.name, g[0][0], 'name of a single node')
                    if len(g) > 1: eq(k.name, name or g[0][0], 'name of merged nodes')
        elif op == 'merge_connected':
            for x in T.paths(t):
                if own(T.at(t, x)) and OWN[c['cond2']](T.at(t, x)): return
            if c['cond'] in ('ws', 'empty', 'match', 'tok1', 'haschild', 'leafanon', 'always') or c['cond2'] in ('ws', 'empty', 'match', 'tok1', 'haschild', 'leafanon', 'always') or c['name']: return
            X.merge_connected(path, cond, CONDS[c['cond2']], '', '', swallow=CONDS[c['swallow']] if c['swallow'] else None)
        elif op == 'move_fringes':
            X.move_fringes(path, cond, side=c['side'], merge=c['flag'])
            if len(p) >= 1 and kids:
                if not (n._children and False):
                    ks = list(n._children); 
                    expect(all(any(x is y for y in kid) for x in ks), 'children left over')
        elif op == 'left_associative':
            if len(kids) % 2 == 0 or any(k[0][0] == ':' or not isinstance(k[1], str) for k in kids[1::2]): return
            X.left_associative(path)
            if len(kids) >= 3:
                w = kids[0]
                for o, k in zip(kids[1::2], kids[2::2]): w = [o[0], [w, k], {}]
                eq([T.dump(k) for k in n._children], [w], 'left associative tree')
                return    # the text of the operators becomes the names of nodes
        elif op == 'lean_left':
            ops = {'a', 'b'}
            def good(t, top=True): return isinstance(t[1], list) and len(t[1]) == 2 and all(x[0] not in ops or good(x) for x in t[1][1:])
            if t[0] not in ops or not good(t): return
            X.lean_left(path, ops); order = True; expect(n._children[1].name not in ops, 'still right leaning')
        elif op == 'merge_treetops': X.merge_treetops(n)
        elif op == 'pull_up':
            if len(path) <= 2: return
            X.pull_up(path)
    except ValueError as e:
        if kept_attrs_conflict(e): return
        raise
    eq(nd.content, full, f'content after {op}'); treeok(nd)
    if order: eq(leafids(nd), before, f'leaves after {op}')
DOPS = ['lstrip', 'rstrip', 'strip', 'keep_children', 'keep_children_if', 'remove_children_if', 'remove_tokens', 'remove_children', 'remove_content', 'keep_tokens', 'keep_nodes', 'keep_content', 'remove', 'remove_if', 'remove_whitespace', 'remove_empty', 'remove_anonymous_empty', 'remove_anonymous_tokens', 'remove_infix_operator', 'remove_brackets', 'insert', 'delimit_children']
def gend(r, size): return {'t': gen(r, size), 'at': r.random(), 'op': r.choice(DOPS), 'cond': r.choice(sorted(CONDS)), 'a': r.choice([None, -3, -1, 0, 1, 2, 5]), 'b': r.choice([None, -3, -1, 0, 1, 2, 5]), 's': r.choice([None, 1, 2])}
def lst(t, own, left):
    if isinstance(t[1], str): return t
    ks = list(t[1])
    while ks:
        e = 0 if left else -1
        ks[e] = lst(ks[e], own, left)
        n = 0
        while n < len(ks) and own(ks[n] if left else ks[-1 - n]): n += 1
        if n == 0: break
        ks = ks[n:] if left else ks[:len(ks) - n]
    return [t[0], ks or '', t[2]]
def rund(c):
    """removing transformations drop exactly what fulfils the condition"""
    if not T.valid(c['t']) or c['op'] not in DOPS or c['cond'] not in CONDS or c['s'] == 0: return
    nd = T.build(c['t']).with_pos(0); ps = list(T.paths(c['t'])); p = ps[int(c['at'] * len(ps))]; path = pathto(nd, p); n = path[-1]
    t = T.at(c['t'], p); cond = CONDS[c['cond']]; own = OWN[c['cond']]; op = c['op']; kids = t[1] if not isinstance(t[1], str) else []; kid = list(n._children)
    def filt(f): return [t[0], ([k for k in kids if f(k)] or '') if kids else t[1], t[2]]
    tok = lambda k: k[0] == ':Text' and T.content(k) in ('x', 'ab')
    par = None
    if op == 'lstrip': X.lstrip(path, cond); want = lst(t, own, True)
    elif op == 'rstrip': X.rstrip(path, cond); want = lst(t, own, False)
    elif op == 'strip': X.strip(path, cond); want = lst(lst(t, own, True), own, False)
    elif op == 'keep_children': s = slice(c['a'], c['b'], c['s']); X.keep_children(path, s); want = [t[0], (kids[s] or '') if kids else t[1], t[2]]
    elif op == 'keep_children_if': X.keep_children_if(path, cond); want = filt(own)
    elif op == 'remove_children_if': X.remove_children_if(path, cond); want = filt(lambda k: not own(k))
    elif op == 'remove_tokens': X.remove_tokens(path, {'x', 'ab'}); want = filt(lambda k: not tok(k))
    elif op == 'keep_tokens': X.keep_tokens(path, {'x', 'ab'}); want = filt(tok)
    elif op == 'remove_children': X.remove_children(path, {'a', ':x'}); want = filt(lambda k: k[0] not in ('a', ':x'))
    elif op == 'keep_nodes': X.keep_nodes(path, {'a', ':x'}); want = filt(lambda k: k[0] in ('a', ':x'))
    elif op == 'remove_content': X.remove_content(path, r'[xy]*'); want = filt(lambda k: set(T.content(k)) - set('xy'))
    elif op == 'keep_content': X.keep_content(path, r'[xy]*'); want = filt(lambda k: not set(T.content(k)) - set('xy'))
    elif op == 'remove_whitespace': X.remove_whitespace(path); want = filt(lambda k: k[0] != ':Whitespace')
    elif op == 'remove_empty': X.remove_empty(path); want = filt(lambda k: not OWN['empty'](k))
    elif op == 'remove_anonymous_empty': X.remove_anonymous_empty(path); want = filt(lambda k: not (OWN['empty'](k) and k[0][0] == ':'))
    elif op == 'remove_anonymous_tokens': X.remove_anonymous_tokens(path); want = filt(lambda k: k[0] != ':Text')
    elif op == 'remove_infix_operator': X.remove_infix_operator(path); want = [t[0], kids[::2] or t[1], t[2]]
    elif op in ('remove', 'remove_if'):
        (X.remove(path) if op == 'remove' else X.remove_if(path, cond))
        if len(p) and (op == 'remove' or own(t)): n = path[-2]; q = T.at(c['t'], p[:-1]); want = [q[0], (q[1][:p[-1]] + q[1][p[-1] + 1:]) or '', q[2]]
        else: want = t
    elif op == 'remove_brackets':
        X.remove_brackets(path); D = X.LEAF_PTYPES; f = lambda k: k[0] in D or (k[0] == ':Series' and all(x[0] in D for x in (k[1] if not isinstance(k[1], str) else [])))
        i = 0; k = len(kids)
        while i < len(kids) and f(kids[i]): i += 1
        while k > 0 and f(kids[k - 1]): k -= 1
        want = [t[0], (kids[i:k] or '') if kids else t[1], t[2]]
    elif op in ('insert', 'delimit_children'):
        if not kids: return
        if op == 'insert':
            at = c['a']
            if at is None or at < -len(kids): return
            X.insert(path, at, X.node_maker('NEW', 'n')); at = min(at + len(kids) if at < 0 else at, len(kids)); want = [t[0], kids[:at] + [['NEW', 'n', {}]] + kids[at:], t[2]]
        else:
            X.delimit_children(path, X.node_maker('NEW', ',')); out = [kids[0]]
            for k in kids[1:]: out += [['NEW', ',', {}], k]
            want = [t[0], out, t[2]]
    eq(T.dump(n), want, f'tree after {op}'); treeok(nd)
    if n is path[-1] and op not in ('lstrip', 'rstrip', 'strip', 'insert', 'delimit_children'): expect(all(any(x is y for y in kid) for x in n._children), 'children have been copied')
    full = T.dump(nd); exp = c['t']
    def put(t, p, new): return new if not p else [t[0], t[1][:p[0]] + [put(t[1][p[0]], p[1:], new)] + t[1][p[0] + 1:], t[2]]
    eq(full, put(exp, p if n is path[-1] else p[:-1], want), f'rest of the tree after {op}')
def gent(r, size): return {'t': gen(r, size), 'keys': [k for k in ['a', 'b', 'c', ':x', ':Text', '*', '<', '>'] if r.random() < .5]}
def runt(c):
    """traversal calls the transformations of every node, children first"""
    if not T.valid(c['t']): return
    nd = T.build(c['t']); log = []
    def mk(k): return lambda path: log.append((k, [id(x) for x in path]))
    r = traverse(nd, {k: [mk(k)] for k in c['keys']}); expect(r is nd, 'result of traverse')
    want = []
    def go(p):
        n = T.nodeat(nd, p)
        for i in range(len(n._children)): go(p + (i,))
        ids = [id(x) for x in pathto(nd, p)]
        for k in (['<'] if '<' in c['keys'] else []) + ([n.name] if n.name in c['keys'] else ['*'] if '*' in c['keys'] else []) + (['>'] if '>' in c['keys'] else []): want.append((k, ids))
    go(()); eq(log, want, 'calls'); expect(T.same(nd, c['t']), 'tree changed')
def genp(r, size): return {'t': gen(r, size), 'tab': [[r.choice(['a', 'b', 'c', ':x', '*', '<', '>']), [r.choice(['replace_by_single_child', 'reduce_single_child', 'flatten', 'merge_leaves', 'move_ws', 'collapse', 'merge_treetops', 'replace_by_children', 'merge_ab', 'coll_ab']) for _ in range(r.randint(1, 2))]] for _ in range(r.randint(1, 3))]}
PF = {'replace_by_single_child': X.replace_by_single_child, 'reduce_single_child': X.reduce_single_child, 'flatten': X.flatten, 'merge_leaves': X.merge_leaves, 'move_ws': X.move_fringes(lambda p: p[-1].name in {':Whitespace', ':x'} and not p[-1]._children), 'collapse': X.collapse, 'merge_treetops': lambda p: X.merge_treetops(p[-1]), 'replace_by_children': X.replace_by_children, 'merge_ab': X.merge_adjacent(X.is_one_of({'a', 'b'}), 'a'), 'coll_ab': X.collapse_children_if(X.is_one_of({'a', 'b'}), 'z')}
def runp(c):
    """pipelines of restructuring transformations"""
    if not T.valid(c['t']) or any(len(x) != 2 or any(y not in PF for y in x[1]) for x in c['tab']): return
    names = [y for x in c['tab'] for y in x[1]]
    if 'move_ws' in names and ('replace_by_children' in names or any('move_ws' in x[1] and x[0] not in 'abc' for x in c['tab'])): return
    if 'replace_by_children' in names and (len(dict(c['tab'])) < len(c['tab']) or any(x[0] == '>' for x in c['tab']) or any('replace_by_children' in x[1] and (x[0] == '<' or 'replace_by_children' in x[1][:-1]) for x in c['tab'])): return
    nd = RootNode(T.build(c['t'])).with_pos(0)
    try: traverse(nd, {k: [PF[y] for y in v] for k, v in c['tab']})
    except AssertionError as e:
        if 'Conflicting attribute values' in str(e): return
        raise
    eq(nd.content, T.content(c['t']), 'content after the transformations'); treeok(nd)
CHECKS = [('restructure', geno, runo), ('remove', gend, rund), ('traverse', gent, runt), ('pipeline', genp, runp)]
