from oracles.base import *
from DHParser.stringview import StringView
from DHParser.toolkit import linebreaks, line_col
def gen(r, size):
    return {'text': ''.join(r.choice(['\n', '\n', 'a', 'bc', '\r', '\r\n', '\u2028', '\x0b', '']) for _ in range(r.randint(0, size * 2))), 'view': r.random() < .4}
def run(c):
    t = c['text']
    x = StringView('x\n' + t + '\ny', 2, len(t) + 2) if c['view'] else t
    lb = linebreaks(x)
    eq(list(lb), [-1] + [i for i, ch in enumerate(t) if ch == '\n'] + [len(t)], 'linebreaks')
    seen = {}
    for pos in range(len(t) + 1):
        l, col = line_col(lb, pos)
        eq(l, 1 + t.count('\n', 0, pos), f'line of {pos}')
        eq(col, pos - t.rfind('\n', 0, pos), f'column of {pos}')
        expect((l, col) not in seen, f'{(l, col)} reported for {pos} and {seen.get((l, col))}'); seen[(l, col)] = pos
    for pos in (-1, -5, len(t) + 1, len(t) + 7):
        try: r = line_col(lb, pos)
        except ValueError: continue
        raise Violation(f'position {pos} mapped to {r}')
FIXED = {'line_col': [{'text': s, 'view': v} for v in (False, True) for s in ('', '\n', 'a', 'a\n', '\na', '\n\n', 'ab\ncd', 'ab\n\ncd\n')]}
CHECKS = [('line_col', gen, run)]
