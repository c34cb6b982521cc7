from oracles.base import *
from DHParser.stringview import StringView, TextBuffer
AL = ['a', 'b', ' ', '\n', 'ab', '\n', 'ä', '\t', '€x', '\n\n']
def text(r, n): return ''.join(r.choice(AL) for _ in range(r.randint(0, n)))
def gen(r, size):
    t = text(r, size + 2)
    ops = []
    for _ in range(r.randint(0, 3 + size // 2)):
        k = r.choice(['update', 'update', 'edit', 'edits', 'change', 'snap', 'lines', 'item', 'len', 'str', 'update', 'buffer'])
        es = [[r.random(), r.random(), text(r, 3)] for _ in range(r.randint(1, 3))]
        ops.append([k, es, r.choice([-1, -1, 0, 5, 17]), r.random() < .3])
    return {'text': t, 'sv': r.random() < .3, 'ops': ops, 'v0': r.choice([0, 0, 3, -1]), 'final': r.choice(['str', 'snap', 'lines', 'len'])}
def place(t, p):
    l = t.count('\n', 0, p); return l, p - (t.rfind('\n', 0, p) + 1)
def agree(tb, t, what):
    if what == 'len': eq(len(tb), len(t), 'len')
    elif what == 'lines': eq(tb.lines(), t.count('\n') + 1, 'line count')
    elif what == 'str': eq(str(tb), t, 'str')
    elif what == 'snap': eq(str(tb.snapshot()), t, 'snapshot')
    elif what == 'buffer': eq([str(x) for x in tb.buffer], t.split('\n'), 'buffer')
    elif what == 'item':
        ls = t.split('\n')
        for i in range(-len(ls), len(ls)): eq(str(tb[i]), ls[i], f'line {i}')
        eq([str(x) for x in tb[1:]], ls[1:], 'lines 1:'); eq([str(x) for x in tb[:-1]], ls[:-1], 'lines :-1')
def run(c):
    t = c['text']; tb = TextBuffer(StringView(t) if c['sv'] else t, c['v0']); v = max(c['v0'], 0)
    eq(tb.version, v, 'version')
    for k, es, ver, sv in c['ops']:
        if k in ('update', 'edit', 'edits', 'change'):
            cur = t; eds = []
            for a, b, s in (es if k == 'edits' else es[:1]):
                p, q = sorted((int(a * (len(cur) + 1)), int(b * (len(cur) + 1))))
                (l1, c1), (l2, c2) = place(cur, p), place(cur, q)
                rep = StringView(s) if sv else s
                if k == 'update': tb.update(l1, c1, l2, c2, rep)
                eds.append({'range': {'start': {'line': l1, 'character': c1}, 'end': {'line': l2, 'character': c2}}, ('text' if k == 'change' else 'newText'): rep})
                cur = cur[:p] + s + cur[q:]
            t = cur
            v += len(eds)
            if k != 'update':
                tb.text_edits(eds if k == 'edits' else eds[0], ver)
                if ver >= 0: v = ver
            eq(tb.version, v, 'version after ' + k)
        else: agree(tb, t, k)
    for w in (c['final'], 'item', 'lines', 'len', 'str', 'snap', 'buffer', 'len', 'str'): agree(tb, t, w)
CHECKS = [('edits', gen, run)]
