"""Random parsing expressions as JSON, the real parser objects built from them and an independent interpreter.
Expression: ["t", s] ["i", s] ["r", regex] ["w", regex] ["any"] ["always"] ["never"] ["opt", e] ["zom", e] ["oom", e]
["cnt", lo, hi, e] ["ser", e...] ["alt", e...] ["int", [[lo, hi]...], e...] ["la", e] ["nla", e] ["lb", leaf] ["nlb", leaf]
["syn", e] ["nm", name, e] (name, ':name' disposable) ["ref", i] ["ser!", k, e...] (mandatory from k on)."""
import re
from oracles.base import Violation
import DHParser.parse as P
from DHParser.configuration import set_config_value, get_config_value
ALPHA = 'ab'
RX = ['a', 'b', 'a+', 'ab', '[ab]', 'a*', 'b?', '(?=a)', '', 'a|ab', 'a*b', r'\w', r'[^a]', 'b*a?', '.', r'\s*']
CAPRX = ['a', 'b', 'ab', '[ab]', 'a+', 'b+', '.', 'a|ba', '[(]+', '[ab(]']
WS = ['', ' *', r'\s*', ' +', 'c*', r'\s+']
def gen_leaf(rng):
    r = rng.random()
    if r < .45: return ['t', rng.choice(['a', 'b', 'ab', 'ba', 'aa', 'c', ' ', '', 'a', 'b'])]
    if r < .55: return ['i', rng.choice(['a', 'B', 'aB', 'Ab', '', 'ß', 'aẞ', 'Σ'])]
    if r < .8: return ['r', rng.choice(RX)]
    if r < .88: return ['w', rng.choice(WS)]
    return [rng.choice(['any', 'always', 'never', 'any'])]
def gen_expr(rng, depth, nrules, opts=''):
    if depth <= 0 or rng.random() < .12:
        if nrules and rng.random() < .25: return ['ref', rng.randrange(nrules)]
        return gen_leaf(rng)
    sub = lambda: gen_expr(rng, depth - 1, nrules, opts)
    k = rng.choice(['opt', 'zom', 'oom', 'cnt', 'ser', 'ser', 'ser', 'alt', 'alt', 'alt', 'int', 'la', 'nla', 'lb', 'nlb', 'syn', 'leaf', 'nm', 'nm']
                   + (['cap', 'cap', 'cap', 'ret', 'ret', 'pop', 'pop', 'ser', 'alt', 'opt'] if 'c' in opts else []) + (['mand'] if 'm' in opts else []) + (['drop'] if 'd' in opts else []))
    if k in ('opt', 'zom', 'oom', 'la', 'nla', 'syn'): return [k, sub()]
    if k == 'cnt':
        a = rng.choice([0, 0, 1, 1, 2, 3]); return [k, a, a + rng.choice([0, 0, 1, 2]), sub()]
    if k in ('ser', 'alt'): return [k] + [sub() for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4]))]
    if k == 'mand':
        n = rng.choice([1, 2, 2, 3]); return ['ser!', rng.randrange(n)] + [sub() for _ in range(n)]
    if k == 'int':
        n = rng.choice([1, 2, 2, 3])
        reps = []
        for _ in range(n):
            a = rng.choice([0, 1, 1, 1, 2]); reps.append([a, max(1, a + rng.choice([0, 0, 1, 2]))])
        return [k, reps] + [sub() for _ in range(n)]
    if k in ('lb', 'nlb'):
        return [k, rng.choice([['t', rng.choice(['a', 'b', 'ab', 'ba'])], ['r', rng.choice(['a', 'b', 'ab', 'b*a', '[ab]', r'\s*a'])]])]
    if k == 'cap': return ['cap', rng.choice('PPQ'), ['r', rng.choice(CAPRX)]]
    if k in ('ret', 'pop'): return [k, rng.choice('PPQ')] + ([rng.choice(['sw', 'sw', 'br'] + ['opt'] * (k == 'ret'))] if rng.random() < .3 else [])
    if k == 'nm':
        e = sub()
        return e if e[0] in ('nm', 'ref') else ['nm', rng.choice(['', '', ':']) + rng.choice('xyzuvw'), e]
    if k == 'drop': return ['drop', gen_leaf(rng)] if rng.random() < .6 else ['drop', sub()]
    return gen_leaf(rng)
def gen_text(rng, size):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, rng.randrange(1, 8 + size)])
    return ''.join(rng.choice('aaabbbbc AB\n(()ßσ') if rng.random() < .3 else rng.choice('ab') for _ in range(n))
def gen_case(rng, size, opts=''):
    nrules = rng.choice([0, 0, 0, 1, 1, 2, 3])
    d = rng.choice([1, 2, 2, 3, 3, 4])
    rules = [gen_expr(rng, d, nrules, opts) for _ in range(nrules)]
    rules = [e if e[0] in ('nm', 'ref', 'cap') else ['nm', rng.choice(['', '', ':']) + rng.choice('xyzuvw'), e] for e in rules]
    root = gen_expr(rng, d, nrules, opts)
    if 'c' in opts:
        names = used_vars([rules, root])
        for v in names[1] - names[0]: root = ['ser', ['opt', ['cap', v, ['r', rng.choice(['a', 'b', '[ab]', 'a+'])]]], root]
    c = {'rules': rules, 'root': root, 'text': gen_text(rng, size)}
    if 'c' in opts and rng.random() < .4: c['share'] = True
    return c
def gen_stack(rng, size):
    "captures followed by alternative ways of retrieving and popping them, with a text that nearly fits"
    modes = [[], [], [], ['sw'], ['br']]
    if rng.random() < .25:   # the same retrieval tried with different values at the same place
        rx = rng.choice(['[ab]', 'a', 'b', '[(]+', '[ab(]', 'a+'])
        cap = ['cap', 'P', ['r', rx]]; use = ['ret', 'P'] + rng.choice(modes + [['opt'], ['br'], ['sw']])
        inner = rng.choice([['ser', use, ['t', '']], ['ser', use, ['opt', ['t', 'a']]], ['opt', use], ['la', use], ['nla', use], ['alt', use, ['t', rng.choice('ab')]]])
        skp = rng.choice([['r', '.'], ['t', 'a'], ['t', '('], ['opt', cap], ['ser', cap, cap]])
        end = rng.choice([[['t', '!']], [['t', ';']], [['pop', 'P']], [['pop', 'P'] + use[2:3] if use[2:] != ['opt'] else ['any']], [['any'], ['any']]])
        root = ['alt', ['ser', skp, inner] + rng.choice([[['t', '!']], [['any'], ['never']], end]), ['ser', cap, inner] + end, ['ser', ['any'], inner, ['any']]]
        if rng.random() < .3: root[1], root[2] = root[2], root[1]
        h = rng.choice(['a', 'b', '(', 'ab', '(('])
        return {'rules': [], 'root': root, 'text': h + rng.choice([h, h.translate({97: 98, 98: 97, 40: 41}), 'a']) + rng.choice([h, h.translate({97: 98, 98: 97, 40: 41}), '!', ';']), 'share': True}
    rx = rng.choice(['[ab]', '[ab]', '.', '[ab(]', 'a|ba'])
    caps = [['cap', rng.choice('PPPQ'), ['r', rx]] for _ in range(rng.choice([1, 2, 2, 3]))]
    first = {}
    for c in caps: first.setdefault(c[1], c[2])
    caps = [['cap', c[1], first[c[1]]] for c in caps]
    if rng.random() < .3: caps.insert(rng.randrange(len(caps) + 1), ['t', rng.choice('ab(')])
    vs = sorted(first); uses = [[rng.choice(['pop', 'pop', 'ret']), rng.choice(vs)] + rng.choice(modes) for _ in range(rng.choice([1, 2, 2]))]
    def run():
        out = [list(rng.choice(uses)) for _ in range(rng.choice([1, 2, 2, 3]))]
        for k in range(len(out)):
            x = rng.random()
            if x < .12: out[k] = ['opt', out[k]]
            elif x < .2: out[k] = ['ser', out[k], ['t', '']]
            elif x < .26: out[k] = ['la', out[k]]
            elif x < .3: out[k] = ['nla', out[k]]
            elif x < .38: out[k] = rng.choice(caps)
        if rng.random() < .6: out.append(['t', rng.choice(';!ab')])
        return ['ser'] + out
    way = [run() for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < .3: way.insert(0, ['ser', ['t', rng.choice('ab(')]] + way[-1][1:])
    body = ['alt'] + way
    sep = [['t', ';']] if rng.random() < .5 else []
    root = ['ser'] + caps + sep + [body]
    if rng.random() < .4: root = ['alt', ['ser', rng.choice([['t', ''], ['r', '[ab(]']]), rng.choice(way), ['t', '!']], root]
    if rng.random() < .3: root = ['zom', root]
    n = len([c for c in caps if c[0] == 'cap'])
    def txt():
        h = ''.join(rng.choice('aabb(') for _ in range(len(caps))); v = h[::-1]
        if rng.random() < .3: v = v.translate({97: 98, 98: 97})
        if rng.random() < .3: v = v.replace('(', ')')
        v = v[:rng.randint(0, len(v))] if rng.random() < .3 else v
        return h + (';' if sep else '') + v + rng.choice(['', '', ';', '!', 'a', v])
    c = {'rules': [], 'root': root, 'text': txt() + (txt() if rng.random() < .3 else ''), 'share': rng.random() < .7}
    return c
def used_vars(x):
    caps, uses = set(), set()
    def walk(e):
        if isinstance(e, list):
            if len(e) == 3 and e[0] == 'cap': caps.add(e[1])
            elif len(e) in (2, 3) and e[0] in ('ret', 'pop'): uses.add(e[1])
            for y in e: walk(y)
    walk(x)
    return caps, uses

KINDS = {'t', 'i', 'r', 'w', 'any', 'always', 'never', 'opt', 'zom', 'oom', 'cnt', 'ser', 'alt', 'int', 'la', 'nla', 'lb', 'nlb', 'syn', 'nm', 'ref', 'ser!', 'drop', 'cap', 'ret', 'pop'}
def valid(e, nrules, top=False):
    try: return _valid(e, nrules)
    except (IndexError, TypeError, KeyError, re.error): return False
def _valid(e, nrules):
    if not (isinstance(e, list) and e and isinstance(e[0], str) and e[0] in KINDS): return False
    k = e[0]
    if k in ('t', 'i', 'r', 'w'):
        if not (len(e) == 2 and isinstance(e[1], str)): return False
        if k in 'rw': re.compile(e[1])
        return True
    if k in ('any', 'always', 'never'): return len(e) == 1
    if k in ('opt', 'zom', 'oom', 'la', 'nla', 'syn', 'drop'): return len(e) == 2 and _valid(e[1], nrules)
    if k == 'cnt': return len(e) == 4 and isinstance(e[1], int) and isinstance(e[2], int) and 0 <= e[1] <= e[2] and _valid(e[3], nrules)
    if k in ('ser', 'alt'): return len(e) > 1 and all(_valid(x, nrules) for x in e[1:])
    if k == 'ser!': return len(e) > 2 and isinstance(e[1], int) and 0 <= e[1] < len(e) - 2 and all(_valid(x, nrules) for x in e[2:])
    if k == 'int':
        return len(e) > 2 and len(e[1]) == len(e) - 2 and all(len(r) == 2 and 0 <= r[0] <= r[1] and r[1] > 0 for r in e[1]) and all(_valid(x, nrules) for x in e[2:])
    if k in ('lb', 'nlb'): return len(e) == 2 and e[1][0] in ('t', 'r') and _valid(e[1], nrules)
    if k == 'nm': return len(e) == 3 and isinstance(e[1], str) and re.fullmatch(':?[a-z]', e[1]) is not None and e[2][0] not in ('nm', 'ref') and _valid(e[2], nrules)
    if k == 'ref': return len(e) == 2 and isinstance(e[1], int) and 0 <= e[1] < nrules
    if k == 'cap': return len(e) == 3 and e[2][0] == 'r' and e[2][1] in CAPRX and isinstance(e[1], str) and re.fullmatch('[P-T]', e[1]) is not None
    if k in ('ret', 'pop'): return len(e) in (2, 3) and (len(e) == 2 or e[2] in ('sw', 'br') or e[2] == 'opt' and k == 'ret') and isinstance(e[1], str) and re.fullmatch('[P-T]', e[1]) is not None
    return False
def valid_case(c):
    if not isinstance(c, dict): return False
    caps, uses = used_vars([c.get('rules'), c.get('root')])
    return uses <= caps and isinstance(c, dict) and isinstance(c.get('rules'), list) and isinstance(c.get('text'), str) and all(valid(e, len(c['rules'])) for e in c['rules'] + [c.get('root')])

def meant(v, e):
    "the text that a retrieval or pop accepts for the captured value"
    if e[2:] == ['sw']: return v.translate({97: 98, 98: 97})
    if e[2:] == ['br']: return v.translate({40: 41, 91: 93, 123: 125, 60: 62})
    return v
def swapped(text, stack):
    v = stack[-1].translate({97: 98, 98: 97})
    return v if text.startswith(v) else None
class LeftRec(Exception): pass
class Exhausted(Exception): pass
class Mandatory(Exception): pass
class Ref:
    """the rules of parsing expressions, written down directly"""
    def __init__(self, case, fuel=20000):
        self.rules = case['rules']; self.s = case['text']; self.active = set(); self.fuel = fuel; self.vars = {}; self.defs = {}; self.popped_empty = False
        for e in [case['root']] + self.rules: self.collect(e)
    def collect(self, e):
        if isinstance(e, list) and e:
            for x in e[1:]: self.collect(x)
            if e[0] == 'cap': self.defs.setdefault(e[1], e[2])
    def m(self, e, i):
        saved = self.vars
        j = self.m1(e, i)
        if j is None or e[0] in ('la', 'nla'): self.vars = saved   # captures are taken back on backtracking
        return j
    def m1(self, e, i):
        self.fuel -= 1
        if self.fuel < 0: raise Exhausted
        s, k = self.s, e[0]
        if k == 't': return i + len(e[1]) if s[i:i + len(e[1])] == e[1] else None
        if k == 'i': return i + len(e[1]) if s[i:i + len(e[1])].lower() == e[1].lower() else None
        if k == 'r':
            m = re.compile(e[1]).match(s, i); return m.end() if m else None
        if k == 'w':
            m = re.compile(e[1]).match(s, i); return m.end() if m else i
        if k == 'any': return i + 1 if i < len(s) else None
        if k == 'always': return i
        if k == 'never': return None
        if k in ('syn', 'drop'): return self.m(e[1], i)
        if k == 'nm': return self.m(e[2], i)
        if k == 'opt':
            j = self.m(e[1], i); return i if j is None else j
        if k in ('zom', 'oom', 'cnt'):
            lo, hi = {'zom': (0, 10**9), 'oom': (1, 10**9)}.get(k) or (e[1], e[2])
            sub = e[3] if k == 'cnt' else e[1]
            n = 0; start = i
            while n < hi:
                j = self.m(sub, i)
                if j is None: break
                n += 1
                if j == i: n = max(n, lo); break
                i = j
            return i if n >= lo else None
        if k == 'ser':
            for x in e[1:]:
                i = self.m(x, i)
                if i is None: return None
            return i
        if k == 'ser!':
            for n, x in enumerate(e[2:]):
                i = self.m(x, i)
                if i is None:
                    if n >= e[1]: raise Mandatory
                    return None
            return i
        if k == 'alt':
            for x in e[1:]:
                j = self.m(x, i)
                if j is not None: return j
            return None
        if k == 'int':
            cnt = [0] * len(e[1]); full = [False] * len(e[1])
            while True:
                for n, x in enumerate(e[2:]):
                    if full[n]: continue
                    j = self.m(x, i)
                    if j is None: continue
                    cnt[n] += 1
                    if j == i: full[n] = True; cnt[n] = max(cnt[n], e[1][n][0])
                    if cnt[n] >= e[1][n][1]: full[n] = True
                    i = j
                    break
                else: break
            return i if all(c >= r[0] for c, r in zip(cnt, e[1])) else None
        if k == 'la': return i if self.m(e[1], i) is not None else None
        if k == 'nla': return i if self.m(e[1], i) is None else None
        if k in ('lb', 'nlb'):
            back = s[:i][::-1]
            if e[1][0] == 't': ok = back.startswith(e[1][1])
            else: ok = re.compile(e[1][1]).match(back) is not None
            return i if ok == (k == 'lb') else None
        if k == 'cap':
            j = self.m(self.defs[e[1]], i)
            if j is not None: self.vars = {**self.vars, e[1]: self.vars.get(e[1], ()) + (s[i:j],)}
            return j
        if k == 'ret':
            if not self.vars.get(e[1]) and self.m1(['cap', e[1]], i) is None: return None   # captures the value on first use
            v = meant(self.vars[e[1]][-1], e)
            return i + len(v) if s.startswith(v, i) else i if e[2:] == ['opt'] else None
        if k == 'pop':
            if not self.vars.get(e[1]): raise Exhausted
            v = meant(self.vars[e[1]][-1], e)
            if not s.startswith(v, i): return None
            self.vars = {**self.vars, e[1]: self.vars[e[1]][:-1]}
            return i + len(v)
        if k == 'ref':
            if (e[1], i) in self.active: raise LeftRec
            self.active.add((e[1], i))
            try: return self.m(self.rules[e[1]], i)
            finally: self.active.discard((e[1], i))
        raise ValueError(k)

class Builder:
    def __init__(self, case, forward=True):
        self.case = case; self.shared = {}; self.fw = [P.Forward() for _ in case['rules']]; self.names = set(); self.vars = {}
    def root(self):
        self.caps(self.case['root'])
        for e in self.case['rules']: self.caps(e)
        for f, e in zip(self.fw, self.case['rules']):
            if e[0] == 'nm':
                p = self.b(e[2])
                f.name(self.newname(e[1]), disposable=e[1][0] == ':')
                f.set(P.Synonym(p) if p.pname else p)
            else: f.set(self.b(e))
        return self.b(self.case['root'])
    def newname(self, n):
        n = n.lstrip(':')
        while n in self.names: n += 'x'
        self.names.add(n)
        return n
    def caps(self, e):
        if isinstance(e, list) and e:
            for x in e[1:]: self.caps(x)
            if e[0] == 'cap' and e[1] not in self.vars: self.vars[e[1]] = P.Capture(self.b(e[2])).name(e[1])
    def b(self, e):
        if not self.case.get('share') or not isinstance(e, list) or e[0] not in ('ret', 'pop', 'ser', 'opt', 'la', 'nla'): return self.b1(e)
        key = repr(e)
        if key not in self.shared: self.shared[key] = self.b1(e)
        return self.shared[key]
    def b1(self, e):
        k = e[0]
        if k == 't': return P.Text(e[1])
        if k == 'i': return P.IgnoreCase(e[1])
        if k == 'r': return P.RegExp(e[1])
        if k == 'w': return P.Whitespace(e[1])
        if k == 'any': return P.AnyChar()
        if k == 'always': return P.Always()
        if k == 'never': return P.Never()
        if k == 'syn': return P.Synonym(self.b(e[1]))
        if k == 'drop':
            p = self.b(e[1])
            if isinstance(p, P.Forward) or not p.disposable or p.pname: return p
            return P.Drop(p)
        if k == 'nm':
            p = self.b(e[2])
            if p.pname: p = P.Synonym(p)
            return p.name(self.newname(e[1]), disposable=e[1][0] == ':')
        if k == 'opt': return P.Option(self.b(e[1]))
        if k == 'zom': return P.ZeroOrMore(self.b(e[1]))
        if k == 'oom': return P.OneOrMore(self.b(e[1]))
        if k == 'cnt': return P.Counted(self.b(e[3]), (e[1], e[2]))
        if k == 'ser': return P.Series(*[self.b(x) for x in e[1:]])
        if k == 'ser!': return P.Series(*[self.b(x) for x in e[2:]], mandatory=e[1])
        if k == 'alt': return P.Alternative(*[self.b(x) for x in e[1:]])
        if k == 'int':
            subs = []
            for x in e[2:]:
                p = self.b(x)
                subs.append(P.Synonym(p) if any(p is q for q in subs) else p)
            return P.Interleave(*subs, repetitions=[tuple(r) for r in e[1]])
        if k == 'la': return P.Lookahead(self.b(e[1]))
        if k == 'nla': return P.NegativeLookahead(self.b(e[1]))
        if k == 'lb': return P.Lookbehind(self.b(e[1]))
        if k == 'nlb': return P.NegativeLookbehind(self.b(e[1]))
        if k == 'ref': return self.fw[e[1]]
        if k == 'cap': return self.vars[e[1]]
        if k in ('ret', 'pop'):
            cls = P.Retrieve if k == 'ret' else P.Pop
            return cls(self.vars[e[1]], {(): None, ('sw',): swapped, ('br',): P.matching_bracket, ('opt',): P.optional_last_value}[tuple(e[2:])])
        raise ValueError(k)
def grammar(case, level=None, names=None):
    b = Builder(case)
    root = b.root()
    if names is not None: names.extend(f.parser.pname for f in b.fw)
    if root.pname or isinstance(root, P.Forward): root = P.Synonym(root)
    g = P.Grammar(root.name('doc'), static_analysis=False)
    if level is not None: P.TreeReduction(g.root_parser__, level)
    return g
def skip(case):
    """the case is malformed, left-recursive or too expensive"""
    if not valid_case(case): return True
    try:
        for i in range(len(case['text']) + 1): Ref(case).m(case['root'], i)
    except (LeftRec, Exhausted): return True
    except Mandatory: return False
    return False
