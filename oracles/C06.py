from oracles.base import expect, eq
from oracles import pegs
from oracles.pegs import P
def run(case):
    if pegs.skip(case): return
    s = case['text']
    g = pegs.grammar(case)
    for loc in range(len(s) + 1):
        want = pegs.Ref(case).m(case['root'], loc)
        g(s, complete_match=False) if loc == 0 else None
        for p in g.all_parsers__: P.reset_parser(p)
        g.tree__ = P.RootNode(); g.rollback__ = []; g.last_rb__loc__ = -2; g.suspend_memoization__ = False
        node, end = g.root_parser__(loc)
        if want is None:
            expect(node is None, f'matched {node!r} at {loc} of {s!r} although its rule does not match')
            eq(end, loc, f'location after a failure at {loc} of {s!r}')
        else:
            expect(node is not None, f'no match at {loc} of {s!r} although its rule matches up to {want}')
            eq(end, want, f'end of the match at {loc} of {s!r}')
            eq(node.content, s[loc:end], f'text matched at {loc}')
def gen(rng, size): return pegs.gen_case(rng, size)
def gen_one(rng, size):
    "one combinator over leaves"
    while True:
        e = pegs.gen_expr(rng, 1, 0)
        if len(e) > 1 and any(isinstance(x, list) for x in e[1:]): break
    return {'rules': [], 'root': rng.choice([e, e, ['zom', e], ['opt', e], ['ser', e, ['r', 'a*']]]), 'text': pegs.gen_text(rng, size)}
CHECKS = [('one combinator', gen_one, run), ('grammar', gen, run)]
BATCH = {'one combinator': 60, 'grammar': 60}
