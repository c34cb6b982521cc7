from oracles.base import *
from oracles import trees as T
from DHParser import error as E
from DHParser.error import *
from DHParser.error import ErrorCode
from DHParser.nodetree import Node, RootNode
from DHParser.preprocess import SourceLocation
CODES = [0, 1, 50, 99, 100, 101, 120, 999, 1000, 1001, 1040, 9999, 10000, 10001, 10600, 20000]
def cls(c): return 0 if c < 1 else 1 if c < 100 else 2 if c < 1000 else 3 if c < 10000 else 4
def genc(r, size): return {'codes': [r.choice(CODES + [r.randint(0, 12000)]) for _ in range(r.randint(0, 4))], 'level': r.choice([1, 100, 1000, 10000])}
def runc(c):
    if not all(x >= 0 for x in c['codes']) or c['level'] < 0: return
    errs = [Error('m', i, ErrorCode(x)) for i, x in enumerate(c['codes'])]
    for e, x in zip(errs, c['codes']):
        k = cls(x)
        eq(e.code, x, 'code'); eq(e.severity, ['Notice', 'Notice', 'Warning', 'Error', 'Fatal'][k], f'severity of {x}')
        for y in (e, x, ErrorCode(x)):
            eq((is_warning(y), is_error(y), is_fatal(y)), (k < 3, k >= 3, k == 4), f'classification of {x}')
            eq(error_category(y), ['no errors', 'notices', 'warnings', 'errors', 'fatal errors'][k], f'category of {x}')
        e.line = e.column = e.end_line = e.end_column = 1
        eq(e.diagnostic_obj()['severity'], [3, 3, 2, 1, 1][k], f'LSP severity of {x}'); eq(e.diagnostic_obj()['code'], x, 'LSP code')
        expect(str(e).find(f'{e.severity} ({x})') >= 0, 'string')
    L = c['level']
    eq(has_errors(errs, ErrorCode(L)), any(x >= L for x in c['codes']), 'has_errors'); eq(has_errors(errs), any(x >= 1000 for x in c['codes']), 'has_errors')
    eq([id(e) for e in only_errors(errs, ErrorCode(L))], [id(e) for e in errs if e.code >= L], 'only_errors'); eq([id(e) for e in only_errors(errs)], [id(e) for e in errs if e.code >= 1000], 'only_errors')
def genl(r, size):
    t = T.text(r, 3 + size, ['a', 'b', '\n', 'cd', ' ', '\n\n'])
    return {'orig': [t, T.text(r, 3)], 'errs': [[r.random(), r.choice(CODES[1:]), r.randint(1, 6), r.random() < .3, r.random() < .2] for _ in range(r.randint(1, 4))], 'shift': r.randint(0, 3)}
def runl(c):
    """locating errors with a mapping to two files"""
    texts = c['orig']; sh = c['shift']
    def mp(p): return SourceLocation(f'f{p % 2}', texts[p % 2], min((p // 2) + sh, len(texts[p % 2])))
    errs = []
    for x, code, ln, pre, _ in c['errs']:
        if ln < 1: return
        e = Error('m', int(x * 2 * (len(texts[0]) + 1)), ErrorCode(code), length=ln)
        if pre: e.orig_pos = 0; e.orig_doc = 'given'; e.line = 7; e.column = 8
        errs.append(e)
    add_source_locations(errs, mp)
    for e, (x, code, ln, pre, _) in zip(errs, c['errs']):
        if pre: eq((e.orig_pos, e.orig_doc, e.line, e.column), (0, 'given', 7, 8), 'known location overwritten'); continue
        n, t, p = mp(e.pos)
        q = min(p + ln, len(t))
        lc = lambda k: (1 + t.count('\n', 0, k), k - (t.rfind('\n', 0, k) if '\n' in t[:k] else -1))
        eq((e.orig_doc, e.orig_pos), (n, p), 'original position'); eq((e.line, e.column), lc(p), 'line and column'); eq((e.end_line, e.end_column), lc(q), 'end of range')
        eq(e.code, code, 'code'); eq(e.range_obj(), {'start': {'line': lc(p)[0] - 1, 'character': lc(p)[1] - 1}, 'end': {'line': lc(q)[0] - 1, 'character': lc(q)[1] - 1}}, 'range')
    # moving an error resets its location
    e = errs[0]; e.pos = 0; eq((e.pos, e.orig_pos, e.line, e.column, e.end_line, e.end_column), (0, -1, -1, -1, -1, -1), 'location after moving'); add_source_locations([e], mp); expect(e.line >= 1, 'relocated')
    try: add_source_locations([Error('x', 10 ** 6, ERROR)], lambda p: SourceLocation('f', texts[0], p))
    except ValueError: return
    raise Violation('position outside the text located')
def gent(r, size):
    return {'t': T.gen(r, size, attrs=False), 'errs': [[r.choice(['node', 'pos', 'pos', 'new', 'dup', 'limit']), r.random(), r.random(), r.choice(CODES[1:])] for _ in range(r.randint(1, 5))], 'pre': r.random() < .2, 'copy': r.random() < .3, 'transfer': [r.random(), r.random()]}
def runt(c):
    if not T.valid(c['t']) or len(c.get('transfer', [0, 0])) != 2: return
    nd = T.build(c['t']).with_pos(0); src = nd.content
    root = RootNode(nd, src)
    nodes = list(T.allnodes(root)); leaves = [n for n in nodes if not n.children]
    model = []; where = {}
    def add(e, n):
        if any(x.code == e.code and x.pos == e.pos for x in model): return
        model.append(e); where.setdefault(id(n), []).append(e)
    for kind, x, y, code in c['errs']:
        n = nodes[int(x * len(nodes))]
        if kind == 'node':
            e = Error('m%i' % len(model), n.pos + (int(y * n.strlen()) if n.strlen() else 0), ErrorCode(code)); root.add_error(n, e); add(e, n)
        elif kind == 'new':
            k = len(root.errors); root.new_error(n, 'new', ErrorCode(code))
            e = Error('new', n.pos, ErrorCode(code))
            if not any(z.code == code and z.pos == n.pos for z in model): eq(len(root.errors), k + 1, 'new_error'); e = root.errors[-1]; eq((e.message, e.pos, e.code), ('new', n.pos, code), 'new_error')
            add(e, n)
        elif kind == 'limit':
            cnt = sum(1 for z in model if z.code == code); k = len(root.errors)
            root.new_error(n, 'lim', ErrorCode(code), limit=2)
            dup = any(z.code == code and z.pos == n.pos for z in model)
            if cnt >= 2 or dup: eq(len(root.errors), k, 'limit')
            else: eq(len(root.errors), k + 1, 'limit'); add(root.errors[-1], n)
        elif kind == 'pos':
            p = int(y * (len(src) + 1)); e = Error('p', p, ErrorCode(code)); root.add_error(None, e)
            cov = [l for l in leaves if l.pos <= p < l.pos + l.strlen()]
            if cov: add(e, cov[0])
            elif not any(z.code == code and z.pos == p for z in model):
                got = [n2 for n2 in nodes if e in root.error_nodes.get(id(n2), []) and any(z is e for z in root.error_nodes[id(n2)])]
                eq(len(got), 1, 'error at the end is attached to one node'); expect(got[0].pos <= p <= got[0].pos + got[0].strlen() and (not got[0].children), 'error at the end of the document'); add(e, got[0])
        elif kind == 'dup' and model:
            k = len(root.errors); m = model[int(x * len(model))]; root.add_error(None, Error('again', m.pos, m.code)); eq(len(root.errors), k, 'duplicate')
    if c['copy']:
        import copy
        r2 = copy.deepcopy(root); n2 = list(T.allnodes(r2)); eq([(e.pos, e.code, e.message) for e in r2.errors], [(e.pos, e.code, e.message) for e in root.errors], 'errors of the copy'); eq(r2.error_flag, root.error_flag, 'flag of the copy')
        for a, b in zip(nodes, n2): eq([(e.pos, e.code) for e in r2.error_nodes.get(id(b), [])], [(e.pos, e.code) for e in root.error_nodes.get(id(a), [])], 'errors of the copied node')
    eq([id(e) for e in root.errors], [id(e) for e in model], 'errors'); 
    s = root.errors_sorted; eq(sorted(map(id, s)), sorted(map(id, model)), 'errors_sorted'); eq([e.pos for e in s], sorted(e.pos for e in model), 'order of errors')
    eq(root.error_flag, max([e.code for e in model], default=0), 'error flag')
    for n in nodes: eq([id(e) for e in root.error_nodes.get(id(n), [])], [id(e) for e in where.get(id(n), [])], f'errors at node {n.name}')
    for n in nodes:
        w = where.get(id(n), []); got = root.node_errors(n)
        cover = [e for e in w if n.pos <= e.pos < n.pos + max(n.strlen(), 1)]
        expect(all(any(e is g for g in got) for e in cover), 'node_errors loses an error'); expect(all(any(g is e for e in w) or n.children for g in got), 'node_errors of another node')
    for e in model:
        lc = (1 + src.count('\n', 0, e.pos), e.pos - (src.rfind('\n', 0, e.pos)))
        if src: eq((e.line, e.column, e.orig_pos), (*lc, e.pos), 'location')
    try: root.error_safe(); ok = True
    except AssertionError: ok = False
    eq(ok, not any(e.code >= 1000 for e in model), 'error_safe')
    # transfer: errors keep on being reported, on the other node
    a = nodes[int(c['transfer'][0] * len(nodes))]; b = nodes[int(c['transfer'][1] * len(nodes))]
    root.transfer_errors(a, b)
    if a is not b: where.setdefault(id(b), []).extend(where.pop(id(a), []))
    for n in nodes: eq([id(e) for e in root.error_nodes.get(id(n), [])], [id(e) for e in where.get(id(n), [])], f'errors at node {n.name} after transfer')
    eq([id(e) for e in root.errors], [id(e) for e in model], 'errors after transfer')
    for n in nodes:
        w = where.get(id(n), [])
        for g in root.node_errors(n): expect(any(g is e for e in w) or n.children, 'node_errors of another node after transfer')
    # errors added to a copy and to the original afterwards are reported independently
    import copy
    twin = copy.deepcopy(root); n2 = list(T.allnodes(twin))
    known = [(e.pos, e.code) for e in root.errors]
    for j, (kind, x, y, code) in enumerate(c['errs']):
        k = int(y * len(nodes)); code = code + j % 2
        first, second = ((root, nodes), (twin, n2)) if x < .5 else ((twin, n2), (root, nodes))
        dup = (nodes[k].pos, code) in known
        for tree, ns in (first, second):
            cnt = len(tree.errors); tree.add_error(ns[k], Error('later', nodes[k].pos, ErrorCode(code)))
            eq(len(tree.errors), cnt + (not dup), 'errors reported after copying'); expect(dup or any(e is tree.errors[-1] for e in tree.error_nodes[id(ns[k])]), 'error added after copying attached')
            eq(tree.error_flag, max(e.code for e in tree.errors), 'error flag after copying')
        if not dup: known.append((nodes[k].pos, code))
def genp(r, size): return {'t': T.gen(r, size, attrs=False), 'errs': [[r.random(), r.choice(CODES[1:])] for _ in range(r.randint(1, 3))]}
def runp(c):
    """errors added before the root node has swallowed the tree"""
    if not T.valid(c['t']) or len(c.get('transfer', [0, 0])) != 2: return
    nd = T.build(c['t']).with_pos(0); src = nd.content; nodes = list(T.allnodes(nd))
    root = RootNode(); want = []; at = {}
    for x, code in c['errs']:
        n = nodes[int(x * len(nodes))]; e = Error('m', n.pos, ErrorCode(code)); root.add_error(n, e)
        if not any(z.pos == e.pos and z.code == e.code for z in want): want.append(e); at.setdefault(id(n), []).append(e)
    root.swallow(nd, src)
    eq([id(e) for e in root.errors], [id(e) for e in want], 'errors')
    for n in nodes:
        m = root if n is nd else n
        got = root.node_errors(m); w = at.get(id(n), [])
        expect(all(any(e is g for g in got) for e in w) and all(any(e is g for e in w) or n.children for g in got), 'errors of the nodes of the swallowed tree')
    for e in want:
        if src: eq((e.line, e.column), (1 + src.count('\n', 0, e.pos), e.pos - src.rfind('\n', 0, e.pos)), 'location')
FIXED = {'codes': [{'codes': list(range(i, i + 120)), 'level': l} for i in list(range(0, 1300, 120)) + [9950] for l in (1, 100, 1000, 10000)]}
CHECKS = [('codes', genc, runc), ('locations', genl, runl), ('tree', gent, runt), ('swallow', genp, runp)]
