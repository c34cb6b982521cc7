"""JSON trees: [name, text or list of trees, attributes] and an independent model of them"""
from DHParser.nodetree import Node
from DHParser.stringview import StringView
NAMES = ['a', 'b', 'c', 'd', ':Text', ':x', 'e']
CH = ['x', 'y', ' ', 'ab', '\n', 'ä', '']
def text(r, n=3, ch=CH): return ''.join(r.choice(ch) for _ in range(r.randint(0, n)))
def gen(r, size, depth=None, names=NAMES, ch=CH, attrs=True, txt=text):
    d = r.randint(0, 2 + size // 3) if depth is None else depth
    nm = r.choice(names)
    at = {}
    if attrs and r.random() < .3: at = {r.choice('pqr'): r.choice(['1', '2', 'v w', '']) for _ in range(r.randint(1, 2))}
    if d <= 0 or r.random() < .25: return [nm, txt(r, 3, ch), at]
    return [nm, [gen(r, size, d - 1, names, ch, attrs, txt) for _ in range(r.randint(1, 4))], at]
def valid(t):
    return (isinstance(t, list) and len(t) == 3 and isinstance(t[0], str) and t[0] != '' and isinstance(t[2], dict)
            and (isinstance(t[1], str) or (isinstance(t[1], list) and len(t[1]) > 0 and all(valid(x) for x in t[1]))))
def build(t, sv=False):
    if isinstance(t[1], str): nd = Node(t[0], StringView('<' + t[1] + '>', 1, 1 + len(t[1])) if sv else t[1])
    else: nd = Node(t[0], tuple(build(x, sv) for x in t[1]))
    if t[2]: nd.attr.update(t[2])
    return nd
def content(t): return t[1] if isinstance(t[1], str) else ''.join(content(x) for x in t[1])
def same(nd, t, attrs=True):
    """the node nd is the tree t"""
    if nd.name != t[0]: return False
    if attrs and dict(nd.attr if nd.has_attr() else {}) != t[2]: return False
    if isinstance(t[1], str): return not nd._children and not isinstance(nd.result, tuple) and str(nd.result) == t[1]
    return isinstance(nd.result, tuple) and nd.result == nd._children and len(nd._children) == len(t[1]) and all(same(a, b, attrs) for a, b in zip(nd._children, t[1]))
def dump(nd): return [nd.name, [dump(x) for x in nd._children] if nd._children else str(nd.result), dict(nd.attr if nd.has_attr() else {})]
def paths(t, here=()):
    """index paths of all nodes in document order (pre-order)"""
    yield here
    if not isinstance(t[1], str):
        for i, x in enumerate(t[1]): yield from paths(x, here + (i,))
def at(t, p):
    for i in p: t = t[1][i]
    return t
def nodeat(nd, p):
    for i in p: nd = nd._children[i]
    return nd
def allnodes(nd):
    yield nd
    for x in nd._children: yield from allnodes(x)
def start(t, p):
    """length of the content before the node at p"""
    k = 0
    for i in p:
        k += sum(len(content(x)) for x in t[1][:i]); t = t[1][i]
    return k
