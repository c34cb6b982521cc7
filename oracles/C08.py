from oracles.base import expect, eq
from oracles import pegs
from oracles.pegs import P
from DHParser.configuration import get_config_value, set_config_value
def outcome(t):
    return (t.as_sxpr(compact=False), [(n.name, n.pos, n.content) for n in t.select_if(lambda n: True, include_root=True)],
            sorted((int(e.code), e.pos, e.message) for e in t.errors))
def variables(g): return {k: list(v) for k, v in g.variables__.items() if v}
def run_memo(case):
    if pegs.skip(case): return
    s = case['text']
    g1, g2 = pegs.grammar(case), pegs.grammar(case)
    for p in g2.all_parsers__: p.visited = P.BLACKHOLE_SINGLETON
    for full in (False, True):
        a = outcome(g1(s, complete_match=full))
        b = outcome(g2(s, complete_match=full))
        eq(a[1], b[1], 'tree with memoization differs from the tree without')
        # where the farthest failure occurred is only a hint: memoized failures are not counted again
        hint = lambda errs: [(c, p, m) if c not in (1040, 1050) else c for c, p, m in errs]
        eq(hint(a[2]), hint(b[2]), 'errors with memoization differ from those without')
        g1, g2 = pegs.grammar(case), pegs.grammar(case)
        for p in g2.all_parsers__: p.visited = P.BLACKHOLE_SINGLETON
def run_vars(case):
    "captures, retrievals and pops against the reference"
    if pegs.skip(case): return
    s = case['text']
    r = pegs.Ref(case)
    try: end = r.m(case['root'], 0)
    except pegs.Mandatory: return
    g = pegs.grammar(case)
    t = g(s, complete_match=False)
    want = {k: list(v) for k, v in r.vars.items() if v} if end is not None else {}
    codes = {int(e.code) for e in t.errors}
    if end is None: expect(1040 in codes, f'a match was reported although the grammar does not match: {t.as_sxpr()}')
    else:
        expect(1040 not in codes, f'no match although the grammar matches up to {end}: {t.as_sxpr()}')
        eq(t.content, s[:end], 'text matched')
    stack = {1100, 1101, 1102, 1103} & codes
    leftover = any('Capture-stack not empty' in e.message for e in t.errors)
    eq(leftover, bool(want), f'"capture-stack not empty" reported; remaining values should be {want}, found {variables(g)}')
def run_reuse(case):
    "a grammar object that has been used before"
    if not isinstance(case, dict) or not all(isinstance(x, str) for x in case.get('before', [])): return
    if pegs.skip(case) or any(pegs.skip({**case, 'text': x}) for x in case['before']): return
    g = pegs.grammar(case)
    names = [p.pname for p in g.all_parsers__ if p.pname and p.pname != 'doc' and not isinstance(p, P.Forward)]
    for i, x in enumerate(case['before']):
        if i % 2 and names: g(x, sorted(names)[i % len(names)], complete_match=False)
        else: g(x, complete_match=bool(i % 3))
    for start in ['doc'] + sorted(names):
        fresh = pegs.grammar(case)
        a, b = outcome(g(case['text'], start, complete_match=True)), outcome(fresh(case['text'], start, complete_match=True))
        eq(a, b, f'parsing again with {start} after {case["before"]!r}')
def gen_memo(rng, size): return pegs.gen_case(rng, size, rng.choice(['', 'm', 'c'])) if rng.random() < .6 else pegs.gen_stack(rng, size)
def gen_vars(rng, size): return pegs.gen_case(rng, size, 'c') if rng.random() < .5 else pegs.gen_stack(rng, size)
def gen_reuse(rng, size):
    c = pegs.gen_case(rng, size, rng.choice(['', 'm', 'c', 'c'])) if rng.random() < .7 else pegs.gen_stack(rng, size)
    c['before'] = [pegs.gen_text(rng, size) for _ in range(rng.choice([1, 1, 2, 3]))]
    return c
CHECKS = [('memo', gen_memo, run_memo), ('variables', gen_vars, run_vars), ('reuse', gen_reuse, run_reuse)]
BATCH = {'memo': 30, 'variables': 60, 'reuse': 20}

def has_context(x): return isinstance(x, list) and (x[:1] in (['cap'], ['ret'], ['pop']) or any(map(has_context, x)))
def KNOWN(name, case):
    """Forward.__call__ (seed and grow) memoizes and loses captured values: cases with captures that are only wrong
    because of that, i.e. that come out right if the very same grammar is run with left-recursion-support switched off"""
    from oracles.base import run_case
    if not isinstance(case, dict) or not has_context([case.get('rules'), case.get('root')]): return None
    save = get_config_value('left_recursion')
    set_config_value('left_recursion', False)
    try: ok = run_case(dict((n, r) for n, _, r in CHECKS)[name], case) is None
    finally: set_config_value('left_recursion', save)
    return 'forward-captures' if ok else None
FIXED = {'variables': [{"rules": [["nm", "w", ["alt", ["ret", "P"], ["ser", ["cap", "Q", ["r", "."]]]]]], "root": ["ser", ["opt", ["cap", "P", ["r", "b"]]], ["ref", 0], ["ret", "Q"]], "text": "ab"}]}
