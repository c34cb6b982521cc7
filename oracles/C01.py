import re
from oracles.base import *
from DHParser.stringview import StringView, real_indices, EMPTY_STRING_VIEW
AL = ['a', 'b', ' ', '\n', 'ab', 'ba', '\t', '\r', 'ä', '€']
def text(r, n): return ''.join(r.choice(AL) for _ in range(r.randint(0, n)))
def oi(r, n): return r.choice([None, 0, n, r.randint(-n - 2, n + 2), r.randint(0, n)])
def gen(r, size):
    t = text(r, size + 2); n = len(t)
    sl = [[r.randint(0, n), r.choice([None, r.randint(0, n)])]]
    for _ in range(r.randint(0, 2)): sl.append([oi(r, n), oi(r, n)])
    return {'text': t, 'slices': sl, 'cache': r.random() < .4, 'sub': r.choice(['', 'a', 'ab', ' ', 'b', 'aa', '\n', text(r, 3)]), 'i': oi(r, n), 'j': oi(r, n), 'other': text(r, 3),
            'chars': r.choice([' ', 'a', 'ab', ' \n', 'b ', ''])}
def build(c):
    t = c['text']; b, e = c['slices'][0]
    if e is not None and e < b: b, e = e, b
    if b > len(t): b = len(t)
    if e is not None and e > len(t): e = len(t)
    v = StringView(t, b, e); p = t[b:e]
    for b, e in c['slices'][1:]: v, p = v[b:e], p[b:e]
    return v, p
def same(a, b, m):
    if isinstance(a, (list, tuple)): return eq([str(x) for x in a], list(b), m)
    eq(a if isinstance(a, (int, bool)) else str(a), b, m)
def py(f):
    try: return f()
    except (IndexError, ValueError) as e: return type(e).__name__
def both(f, v, p, m):
    a, b = py(lambda: f(v)), py(lambda: f(p))
    same(a, b, m)
def basics(c):
    v, p = build(c)
    if c['cache']: str(v)
    eq(len(v), len(p), 'len'); eq(bool(v), bool(p), 'bool')
    eq(v == p, True, 'eq'); eq(v == c['other'], p == c['other'], 'eq str'); eq(v == StringView(c['other'] + 'x' + p, len(c['other']) + 1), True, 'eq view'); eq(v == StringView('y' + p + c['other'], 1), p == p + c['other'], 'eq view 2')
    o2 = c['text'][:len(p)]
    eq(v == StringView(c['text'], 0, len(p)), p == o2, 'eq same text')
    eq(v != p, False, 'ne'); eq(hash(v), hash(p), 'hash')
    same(v + c['other'], p + c['other'], 'add'); same(c['other'] + v, c['other'] + p, 'radd'); same(v + StringView(c['other']), p + c['other'], 'add sv')
    eq(str(v), p, 'str'); eq(str(v), p, 'str again'); eq(repr(v), repr(p), 'repr'); eq(len(v), len(p), 'len after')
    for i in range(-len(p) - 1, len(p) + 2): both(lambda x: x[i], v, p, f'item {i}')
    eq(v.get_text(), c['text'], 'text')
def slices(c):
    v, p = build(c)
    if c['cache']: str(v)
    both(lambda x: x[c['i']:c['j']], v, p, 'slice'); both(lambda x: x[c['i']:], v, p, 'slice'); both(lambda x: x[:c['j']], v, p, 'slice')
    eq(str(v), p, 'str')
def search(c):
    v, p = build(c)
    if c['cache']: str(v)
    s, i, j = c['sub'], c['i'], c['j']
    for m in ('find', 'rfind', 'count'):
        both(lambda x: getattr(x, m)(s), v, p, m); both(lambda x: getattr(x, m)(s, i), v, p, m + ' start'); both(lambda x: getattr(x, m)(s, i, j), v, p, m + ' start end')
    i0 = i or 0
    for m in ('startswith', 'endswith'):
        both(lambda x: getattr(x, m)(s), v, p, m); both(lambda x: getattr(x, m)(s, i0), v, p, m); both(lambda x: getattr(x, m)(s, i0, j), v, p, m)
    for q in {p[:2], p[-2:], p[1:]}:
        both(lambda x: (x.startswith(q), x.endswith(q)), v, p, 'prefix/suffix') if False else None
        eq((v.startswith(q), v.endswith(q)), (p.startswith(q), p.endswith(q)), 'prefix/suffix')
    eq(str(v), p, 'str')
def strip(c):
    v, p = build(c)
    if c['cache']: str(v)
    for m in ('strip', 'lstrip', 'rstrip'): both(lambda x: getattr(x, m)(c['chars']), v, p, m)
    eq(str(v.strip()), p.strip(' \n\r\t'), 'strip default'); eq(str(v.lstrip(' \n\t')), p.lstrip(' \n\t'), 'lstrip')
    q = p.replace('\r', '')
    eq(str(StringView('x' + q, 1).lstrip()), q.lstrip(' \n\t'), 'lstrip default'); eq(str(StringView('x' + q, 1).rstrip()), q.rstrip(' \n\t'), 'rstrip default')
    if c['sub']: both(lambda x: x.split(c['sub']), v, p, 'split')
    both(lambda x: x.split(), v, p, 'split()')
    both(lambda x: x.replace(c['sub'], c['other']), v, p, 'replace'); eq(str(v), p, 'str')
RX = ['a', 'b+', '', 'a*', '[ab]*', r'\s+', 'ab|b', '$', 'a(?=b)', r'\w', '(?<=a)b']
def regex(c):
    v, p = build(c)
    off = v._begin
    t = c['text']
    if c['cache']: str(v)
    for rx in RX:
        rx = re.compile(rx)
        def spans(ms): return [m.span() for m in ms]
        b, e = off, off + len(p)
        m1, m2 = v.match(rx), rx.match(t, b, e)
        eq(m1 and m1.span(), m2 and m2.span(), 'match ' + rx.pattern)
        if m1: eq(v.index(m1.end()), m1.end() - off, 'index'); eq(tuple(v.indices(m1.span())), (m1.start() - off, m1.end() - off), 'indices'); eq(p[v.index(m1.start()):v.index(m1.end())], m1.group(0), 'matched text')
        eq(spans(v.finditer(rx)), spans(rx.finditer(t, b, e)), 'finditer')
        m1, m2 = v.search(rx), rx.search(t, b, e); eq(m1 and m1.span(), m2 and m2.span(), 'search')
        for i in range(0, len(p) + 2):
            for j in (None, len(p), len(p) // 2, len(p) + 1):
                m1 = v.search(rx, i, j)
                bb = min(b + i, e); ee = e if j is None else min(b + j, e)
                m2 = rx.search(t, bb, ee)
                eq(m1 and m1.span(), m2 and m2.span(), f'search {rx.pattern} {i} {j}')
CHECKS = [('basics', gen, basics), ('slices', gen, slices), ('search', gen, search), ('strip', gen, strip), ('regex', gen, regex)]
