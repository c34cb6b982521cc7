from oracles.base import expect, eq
import re
from oracles import pegs
from oracles.pegs import P
from DHParser.nodetree import tree_sanity_check, EMPTY_NODE
from DHParser.error import has_errors, ERROR
def positions(tree, s, where):
    pos = 0
    def walk(n, start):
        eq(n.pos, start, f'position of node {n.name} ({n.content!r}) in {tree.as_sxpr()} {where}')
        if n._children:
            for c in n._children: start = walk(c, start)
            return start
        return start + len(n._result)
    walk(tree, 0)
def named(tree):
    return [(n.name, n.pos, n.content) for n in tree.select_if(lambda n: n.name[0] != ':', include_root=True)]
def sane(tree, where):
    for n in tree.select_if(lambda n: True, include_root=True):
        expect(n is not EMPTY_NODE, f'placeholder in the tree {where}')
def run_match(case):
    "the matched part: all reduction levels"
    if pegs.skip(case) : return
    s = case['text']
    try: end = pegs.Ref(case).m(case['root'], 0)
    except pegs.Mandatory: return
    first = None
    for level in range(4):
        g = pegs.grammar(case, level)
        where = f'with tree reduction {level}'
        t = g(s, complete_match=False)
        if end is None:
            expect(has_errors(t.errors, ERROR), f'no error although nothing matches {where}')
            continue
        eq(t.content, s[:end], f'text of the tree {where} {t.as_sxpr()}')
        sane(t, where)
        positions(t, s, where)
        nm = named(t)
        if first is None: first = nm
        else: eq(nm, first, f'named nodes {where} differ from those without reduction')
def run_rest(case):
    "documents that are not fully matched; with skip- and resume-rules if given"
    if pegs.skip(case): return
    rules = [case.get('resume', []), case.get('skip', [])]
    if not all(isinstance(r, list) and len(r) == 3 and all(isinstance(x, str) for x in r) for rs in rules for r in rs): return
    try: rules = [{r[0]: [re.compile(r[2]) if r[1] == 'r' else r[2]] for r in rs} for rs in rules]
    except re.error: return
    if any(not x for rs in rules for v in rs.values() for x in v): return
    s = case['text']
    mand = False
    try: end = pegs.Ref(case).m(case['root'], 0)
    except pegs.Mandatory: mand = True
    for level in range(4):
        g = pegs.grammar(case, level)
        g.resume_rules__, g.skip_rules__ = rules
        where = f'with tree reduction {level}'
        t = g(s, complete_match=True)
        eq(t.content, s, f'text of the tree {where} {t.as_sxpr()}')
        if mand or end != len(s): expect(has_errors(t.errors, ERROR), f'no error reported {where}')
        else: expect(not has_errors(t.errors, ERROR), f'errors {t.errors} although the document matches {where}')
        sane(t, where)
        positions(t, s, where)
    for i, rule in enumerate(case['rules']):  # other start-parsers, namely, Forward-parsers
        if pegs.skip({**case, 'root': ['ref', i]}): continue
        names = []
        g = pegs.grammar(case, names=names)
        start = [p for p in g.all_parsers__ if isinstance(p, P.Forward) and p.parser.pname == names[i]] if names[i] else []
        if not start: continue
        g.resume_rules__, g.skip_rules__ = rules
        where = f'with rule {i} as start-parser'
        t = g(s, start[0], complete_match=True)
        eq(t.content, s, f'text of the tree {where} {t.as_sxpr()}')
        sane(t, where)
        positions(t, s, where)
def gen(rng, size): return pegs.gen_case(rng, size)
def gen_m(rng, size): return pegs.gen_case(rng, size, 'm')
def gen_r(rng, size):
    c = pegs.gen_case(rng, size, 'm')
    rule = lambda: [rng.choice(['doc', 'doc', 'x', 'y', 'z', 'u']), *rng.choice([['s', 'a'], ['s', 'b'], ['s', 'ab'], ['r', 'a'], ['r', '(?=b)'], ['r', 'b+'], ['r', '$'], ['r', r'\s']])]
    c['resume'] = [rule() for _ in range(rng.randrange(3))]; c['skip'] = [rule() for _ in range(rng.randrange(3))]
    return c
CHECKS = [('match', gen, run_match), ('rest', gen, run_rest), ('mandatory', gen_m, run_rest), ('skip and resume', gen_r, run_rest)]
BATCH = {'match': 30, 'rest': 20, 'mandatory': 20, 'skip and resume': 20}
