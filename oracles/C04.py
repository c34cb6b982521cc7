import os, functools, re
from oracles.base import *
from DHParser.preprocess import *
from DHParser.preprocess import generate_include_map, strip_tokens, make_token, srcmap_includes, BEGIN_TOKEN
from DHParser.error import Error, ErrorCode, ERROR
RX = r'include\((?P<name>[^)\n]*)\)'
NAMES = ['main.txt', 'a.txt', 'b.txt', 'sub/c.txt', 'sub/d.txt', 'e.txt']
CH = ['x', 'y', '\n', ' ', 'ab', 'ä', '12']
def plain(r, n): return ''.join(r.choice(CH) for _ in range(r.randint(0, n)))
def geni(r, size):
    """files: name -> list of parts; a part is a text or [index of the included file]; only later files are included unless circular"""
    fs = []
    n = r.randint(1, len(NAMES))
    circ = r.random() < .12
    for i in range(n):
        parts = []
        for _ in range(r.randint(0, 2 + size // 2)):
            if r.random() < .55 and (i + 1 < n or circ): parts.append([r.randint(0, n - 1) if circ else r.randint(i + 1, n - 1)])
            else: parts.append(plain(r, 4))
        fs.append(parts)
    return {'files': fs, 'once': r.random() < .25, 'comment': r.random() < .3}
def ref(frm, to):
    return os.path.relpath(to, os.path.dirname(frm) or '.')
def runi(c):
    fs = c['files']; n = len(fs)
    if not n: return
    for p in fs:
        for x in p:
            if isinstance(x, list) and (not x or not 0 <= x[0] < n): return
    texts = {}
    for i in range(n):
        t = ''
        for p in fs[i]:
            t += p if isinstance(p, str) else ('include(%s)' % ref(NAMES[i], NAMES[p[0]]) + ('#include(none)#' if c['comment'] and len(t) % 2 else ''))
        texts[NAMES[i]] = t
    class Circular(Exception): pass
    def expand(i, stack, seen):
        if i in stack: raise Circular()
        out = []; pos = 0; t = texts[NAMES[i]]
        for m in re.finditer(RX if not c['comment'] else '(?:#[^#]*#)|' + RX, t):
            if m.group(0).startswith('#'): continue
            out += [(NAMES[i], k) for k in range(pos, m.start())]
            j = NAMES.index(os.path.normpath(os.path.join(os.path.dirname(NAMES[i]), m.group('name'))))
            if c['once'] and j in seen:
                if j in stack + [i]: raise Circular()
            else:
                seen.add(j)
                out += expand(j, stack + [i], seen)
            pos = m.end()
        return out + [(NAMES[i], k) for k in range(pos, len(t))]
    def read(name): return texts[os.path.normpath(name)]
    class Reader(ReadIncludeClass):
        def read_include(self, name): return read(name)
    class Once(ReadIncludeOnce):
        def __call__(self, name): return super().__call__(os.path.normpath(name))
        def read_include(self, name): return read(name)
    if c['once']:
        o = Once(); factory = lambda: o
    else: factory = Reader
    find = gen_find_include_func(RX, '#[^#]*#' if c['comment'] else None, lambda s: s)
    # names are joined, not normalized, by the code: normalize them in the reader only
    def norm(nm): return os.path.normpath(nm)
    find2 = lambda text, begin: find(text, begin)
    try: want = expand(0, [], set())
    except Circular: want = None
    try:
        sm, got = generate_include_map(NAMES[0], texts[NAMES[0]], find2, factory)
    except ValueError as e:
        expect(want is None, f'ValueError {e} although no include is circular'); return
    except RecursionError: raise Violation('circular include not rejected')
    if want is None: raise Violation('circular include not rejected')
    eq(got, ''.join(texts[f][k] for f, k in want), 'assembled text')
    if len(sm.positions) >= 2 and not c['once']: sm.validate()
    pr = preprocess_includes(texts[NAMES[0]], NAMES[0], find2, (lambda oo=Once(): oo) if c['once'] else factory) if texts[NAMES[0]] else None
    if pr: eq(pr.preprocessed_text, got, 'preprocess_includes')
    for p, (f, k) in enumerate(want):
        for loc in [srcmap_includes(p, sm)] + ([pr.back_mapping(p)] if pr else []):
            eq((norm(loc.original_name), loc.pos), (f, k), f'position {p} of {got!r}'); eq(loc.original_text, texts[f], f'text for {p}')
            eq(loc.original_text[loc.pos], got[p], f'character {p}')
TOK = ['A', 'BEGIN', 'x1', '_']
def gent(r, size):
    return {'parts': [plain(r, 3) if r.random() < .5 else [r.choice(TOK), r.choice(['', '', 'ab', 'x y', '\n', plain(r, 3)])] for _ in range(r.randint(0, 4 + size))]}
def build(parts):
    orig = ''; tok = ''; m = []     # m: for every char of tok its original position or None
    for p in parts:
        if isinstance(p, str):
            m += range(len(orig), len(orig) + len(p)); orig += p; tok += p
        else:
            name, arg = p
            t = make_token(name, arg)
            m += [('b', len(orig))] * (2 + len(name)) + list(range(len(orig), len(orig) + len(arg))) + [('e', len(orig) + len(arg))]
            orig += arg; tok += t
    return orig, tok, m
def runt(c):
    if any(isinstance(p, list) and (len(p) != 2 or not p[0]) for p in c['parts']): return
    orig, tok, m = build(c['parts'])
    eq(strip_tokens(tok), orig, 'strip_tokens')
    sm = tokenized_to_original_mapping(tok, orig, 'f')
    pp = make_preprocessor(lambda text: (tok, []))(orig, 'f')
    eq((pp.original_text, pp.preprocessed_text), (orig, tok), 'preprocessor')
    for p, k in enumerate(m):
        for loc in (source_map(p, sm), pp.back_mapping(p)):
            eq(loc[:2], ('f', orig), 'source')
            if isinstance(k, int): eq(loc.pos, k, f'position {p} of {tok!r}'); eq(orig[loc.pos], tok[p], 'character')
            else: expect(k[1] <= loc.pos <= k[1] + 1 and loc.pos <= len(orig), f'token character {p} mapped to {loc.pos}')
    eq(source_map(len(tok), sm).pos, len(orig), 'end of text')
def genc(r, size):
    return {'parts': [plain(r, 3) for _ in range(r.randint(1, 5))], 'stages': [[[r.random(), r.choice(TOK)] for _ in range(r.randint(0, 3))] for _ in range(r.randint(1, 3))], 'err': r.random()}
def runc(c):
    """chains of preprocessors which insert characters at given places"""
    text = ''.join(c['parts'])
    stages = c['stages']
    if not stages: return
    preps = []; log = []
    def mk(ins):
        def tok(t):
            cuts = sorted((int(a * (len(t) + 1)), s) for a, s in ins)
            out = ''; last = 0
            for k, s in cuts: out += t[last:k] + make_token(s, ''); last = k
            out += t[last:]
            return out, []
        def sub(t, name):   # a second layer has to hide the tokens of the first one
            out, errs = tok(t)
            m = []; pos = 0
            cuts = sorted((int(a * (len(t) + 1)), s) for a, s in ins)
            mm = list(range(len(t)))
            res = []; last = 0
            for k, s in cuts: res += mm[last:k] + [k] * (len(s) + 3); last = k
            res += mm[last:] + [len(t)]
            log.append((t, out))
            def back(p, res=res, t=t): return SourceLocation(name, t, res[p])
            e = []
            if c['err'] < .5 and t: e = [Error('x', int(c['err'] * 2 * len(t)), ErrorCode(1000 + len(log)))]
            return PreprocessorResult(t, out, back, e)
        return sub
    fn = chain_preprocessors(*[mk(s) for s in stages])
    r = fn(text, 'doc')
    eq(r.original_text, text, 'original text')
    eq(r.preprocessed_text, log[-1][1], 'result of the chain')
    if len(stages) == 1: eq(strip_tokens(r.preprocessed_text), text, 'stripped')
    cur = [i for i in range(len(text))] + [len(text)]; wanted = []
    for (t, out), ins in zip(log, stages):
        if c['err'] < .5 and t: wanted.append(cur[int(c['err'] * 2 * len(t))])
        cuts = sorted((int(a * (len(t) + 1)), s) for a, s in ins)
        res = []; last = 0
        for k, s in cuts: res += cur[last:k] + [cur[k]] * (len(s) + 3); last = k
        cur = res + cur[last:]
    for p in range(len(r.preprocessed_text) + 1):
        loc = r.back_mapping(p)
        eq(loc.pos, cur[p], f'position {p} of the chain'); eq(loc.original_text, text, 'original text of the chain')
    eq([e.orig_pos for e in r.errors], wanted, 'locations of the errors of the preprocessors')
def genm(r, size):
    n = r.randint(2, 6); ps = sorted(r.sample(range(1, 40), n - 1))
    return {'positions': [0] + ps, 'offsets': [r.randint(0, 9) for _ in range(n)], 'files': [r.randint(0, 2) for _ in range(n)]}
def runm(c):
    ps, os_, fs = c['positions'], c['offsets'], ['f%i' % x for x in c['files']]
    if not (len(ps) == len(os_) == len(fs) >= 2) or ps[0] or any(a >= b for a, b in zip(ps, ps[1:])):
        try: SourceMap('f', ps, os_, fs, {}).validate()
        except ValueError: return
        raise Violation('validate accepts a corrupt source map')
    sm = SourceMap('f0', ps, os_, fs, {'f0': 't0', 'f1': 't1', 'f2': 't2'}); sm.validate()
    for p in range(-2, ps[-1] + 3):
        i = max([k for k in range(len(ps)) if ps[k] <= p], default=-1)
        try: loc = source_map(p, sm)
        except ValueError: expect(i < 0 or i == len(ps) - 1, f'position {p} rejected'); continue
        expect(0 <= i < len(ps) - 1, f'position {p} accepted')
        eq(loc, (fs[i], 't' + fs[i][1], min(p + os_[i], ps[i + 1] + os_[i + 1])), f'position {p}')
CHECKS = [('includes', geni, runi), ('tokens', gent, runt), ('chain', genc, runc), ('source_map', genm, runm)]
