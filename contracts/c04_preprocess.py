"""Contracts for source maps (property C04): module preprocess. Texts are plain strings here."""
import z3
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import add_axioms, Str, FIND, INT
from pyvc.runner import lemma
from . import common
C, S = REG.contract, REG.spec
M = 'preprocess'
P = {'props': ['C04']}
REG.record('SourceMap', M, {'original_name': 'str', 'positions': 'list[int]', 'offsets': 'list[int]', 'file_names': 'list[str]', 'originals_dict': 'dict[str,str]'})
REG.namedtuple('SourceLocation', M, [('original_name', 'str'), ('original_text', 'str'), ('pos', 'int')])
REG.namedtuple('IncludeInfo', M, [('begin', 'int'), ('length', 'int'), ('file_name', 'str')])

S('even', [('m', 'SourceMap')], 'bool', 'len(m.positions) == len(m.offsets) and len(m.positions) == len(m.file_names)')
S('incr', [('s', '[int]')], 'bool', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(s), s[i] < s[j]))')
S('sorted_', [('s', '[int]')], 'bool', 'forall(lambda i, j: implies(0 <= i and i <= j and j < len(s), s[i] <= s[j]))')
S('named', [('m', 'SourceMap')], 'bool', 'forall(lambda i: implies(0 <= i and i < len(m.file_names), m.file_names[i] in m.originals_dict))')
C(M, 'SourceMap.validate', {}, 'SourceMap', raises=[('ValueError', 'not (even(self) and len(self.positions) >= 2 and self.positions[0] == 0 and forall(lambda i: self.positions[i] < self.positions[i + 1], 0, len(self.positions) - 1))')],
  ensures=['result is self', 'even(self)', 'len(self.positions) >= 2', 'self.positions[0] == 0', 'forall(lambda i: self.positions[i] < self.positions[i + 1], 0, len(self.positions) - 1)'], **P)
C(M, 'has_includes', {'sm': 'SourceMap'}, 'bool', ensures=['result == exists(lambda i: 0 <= i and i < len(sm.file_names) and sm.file_names[i] != sm.original_name)'], **P)
LOC = lambda off: f"exists(lambda i: 0 <= i and i < len({{m}}.positions) and {{m}}.positions[i] <= position and (i + 1 == len({{m}}.positions) or position < {{m}}.positions[i + 1]) and " \
      f"result[0] == {{m}}.file_names[i] and result[1] == {{m}}.originals_dict[{{m}}.file_names[i]] and {off})"
C(M, 'source_map', {'position': 'int', 'srcmap': 'SourceMap'}, '(str,str,int)', requires=['sorted_(seq(srcmap.positions))', 'even(srcmap)', 'named(srcmap)'],
  raises=[('ValueError', 'len(srcmap.positions) == 0 or position < srcmap.positions[0] or position >= srcmap.positions[len(srcmap.positions) - 1]')],
  ensures=[LOC('i + 1 < len({m}.positions) and result[2] == min(position + {m}.offsets[i], {m}.positions[i + 1] + {m}.offsets[i + 1])').replace('{m}', 'srcmap')], **P)
C(M, 'srcmap_includes', {'position': 'int', 'inclmap': 'SourceMap'}, '(str,str,int)', requires=['sorted_(seq(inclmap.positions))', 'even(inclmap)', 'named(inclmap)'],
  raises=[('ValueError', 'len(inclmap.positions) == 0 or position < inclmap.positions[0]')],
  ensures=[LOC('result[2] == position + {m}.offsets[i]').replace('{m}', 'inclmap')], **P)

# ---- preprocessor tokens: BEGIN name DELIMITER argument END, without nesting. strip(t, r): t[r:] with every token replaced by its argument;
# copied(t, r, p): the character at p is part of the original when t is read from r on (and not of a token's frame or name)
B, D, E = (Str().unit(z3.IntVal(n)) for n in (0x1b, 0x1c, 0x1d))
S('strip', [('t', 'str'), ('r', 'int')], 'str'); S('copied', [('t', 'str'), ('r', 'int'), ('p', 'int')], 'bool'); S('welltok', [('t', 'str'), ('r', 'int')], 'bool')
th = Str(); STRIP, COPIED, WELL = z3.Function('spec.strip', th.sort, INT, th.sort), z3.Function('spec.copied', th.sort, INT, INT, z3.BoolSort()), z3.Function('spec.welltok', th.sort, INT, z3.BoolSort())
_t = z3.Const('tk_t', th.sort); _r, _p = z3.Ints('tk_r tk_p')
_i = FIND()(_t, B, _r, th.len(_t)); _d, _e = FIND()(_t, D, _i, th.len(_t)), FIND()(_t, E, _i, th.len(_t))
add_axioms('strip', ({'spec.strip'}, [z3.ForAll([_t, _r], z3.Implies(z3.And(0 <= _r, _r <= th.len(_t)), STRIP(_t, _r) ==
    z3.If(_i < 0, th.slice(_t, _r, th.len(_t)), th.cat(th.slice(_t, _r, _i), th.cat(th.slice(_t, _d + 1, _e), STRIP(_t, _e + 1))))), patterns=[z3.MultiPattern(STRIP(_t, _r), _i)])]))
def cdef(t, r, p):
    i = FIND()(t, B, r, th.len(t)); d, e = FIND()(t, D, i, th.len(t)), FIND()(t, E, i, th.len(t))
    return COPIED(t, r, p) == z3.If(i < 0, z3.And(r <= p, p < th.len(t)), z3.Or(z3.And(r <= p, p < i), z3.And(i < d, d < p, p < e), z3.And(i < e, COPIED(t, e + 1, p))))
def crange(t, r, p): return z3.Implies(z3.And(0 <= r, COPIED(t, r, p)), z3.And(r <= p, p < th.len(t)))
add_axioms('copied', ({'spec.copied'}, [z3.ForAll([_t, _r, _p], cdef(_t, _r, _p), patterns=[z3.MultiPattern(COPIED(_t, _r, _p), _i)]),
                                        z3.ForAll([_t, _r, _p], crange(_t, _r, _p), patterns=[COPIED(_t, _r, _p)])]))
@lemma('a copied character lies in the text that is read', ['C04'])
def _():
    t = z3.Const('cl_t', th.sort); r, p, q = z3.Ints('cl_r cl_p cl_q')
    # by induction on the length of the rest: r is followed by e + 1 > r
    i = FIND()(t, B, r, th.len(t)); d, e = FIND()(t, D, i, th.len(t)), FIND()(t, E, i, th.len(t))
    return [('step', [0 <= r, r <= th.len(t), cdef(t, r, p), z3.Implies(e + 1 > r, crange(t, e + 1, p))], crange(t, r, p)), ('beyond the end', [r > th.len(t), cdef(t, r, p)], z3.Not(COPIED(t, r, p)))]
add_axioms('welltok', ({'spec.welltok'}, [z3.ForAll([_t, _r], WELL(_t, _r) == z3.Or(_i < 0, z3.And(_i < _d, _d < _e, WELL(_t, _e + 1))), patterns=[z3.MultiPattern(WELL(_t, _r), _i)])]))
ST = "strip(tokenized_text, 0)"
GOOD = f"forall(lambda j, p: implies(0 <= j and j < len({{P}}) - 1 and {{P}}[j] <= p and p < {{P}}[j + 1] and copied(tokenized_text, 0, p), " \
       f"0 <= p + {{O}}[j] and p + {{O}}[j] < len({ST}) and {ST}[p + {{O}}[j]] == tokenized_text[p] and p + {{O}}[j] <= {{P}}[j + 1] + {{O}}[j + 1]))"
good = lambda p, o: GOOD.replace('{P}', p).replace('{O}', o)
R0, P0, I0 = 'atiter(positions[len(positions) - 1])', 'atiter(positions[len(positions) - 1] + o)', 'atiter(i)'
STEPS = [f'{ST}[{P0}:] == tokenized_text[{R0}:{I0}] + (tokenized_text[d + 1:e] + strip(tokenized_text, e + 1))', f'len({ST}) - {P0} >= {I0} - {R0} + e - d - 1',
  f'forall(lambda k: implies(0 <= k and k < {I0} - {R0}, {ST}[{P0}:][k] == tokenized_text[{R0} + k]))', f'forall(lambda p: implies({R0} <= p and p < {I0}, {ST}[{P0}:][p - {R0}] == tokenized_text[p]))',
  f'forall(lambda p: implies({R0} <= p and p < {I0}, {ST}[p + atiter(o)] == tokenized_text[p]))',
  f'forall(lambda p: implies(d < p and p < e, {ST}[{P0}:][{I0} - {R0} + p - d - 1] == tokenized_text[p]))',
  f'forall(lambda p: implies(d < p and p < e, {ST}[p + o + 1] == tokenized_text[p]))',
  'forall(lambda p: implies(d <= p and p <= d, tokenized_text[p] == tokenized_text[d]))',
  f'forall(lambda p: implies({R0} <= p and p <= e, copied(tokenized_text, 0, p) == (p < {I0} or d < p and p < e)))',
  f'forall(lambda p: implies({R0} <= p and p <= d and copied(tokenized_text, 0, p), p + atiter(o) < len({ST}) and {ST}[p + atiter(o)] == tokenized_text[p]))',
  f'forall(lambda p: implies(d < p and p <= e and copied(tokenized_text, 0, p), p + o + 1 < len({ST}) and {ST}[p + o + 1] == tokenized_text[p]))']
J = 'len(positions) - 3'
COP = 'copied(tokenized_text, 0, p)'
STEPS += [f'positions[{J}] == {R0} and positions[{J} + 1] == d + 1 and positions[{J} + 2] == e + 1 and offsets[{J}] == atiter(o) and offsets[{J} + 1] == o + 1 and offsets[{J} + 2] == o',
  f'forall(lambda j, p: implies(0 <= j and j < {J} and positions[j] <= p and p < positions[j + 1] and {COP}, 0 <= p + offsets[j] and p + offsets[j] < len({ST}) and {ST}[p + offsets[j]] == tokenized_text[p] and p + offsets[j] <= positions[j + 1] + offsets[j + 1]))',
  *[f'forall(lambda p: implies(positions[{J} + {k}] <= p and p < positions[{J} + {k} + 1] and {COP}, 0 <= p + offsets[{J} + {k}] and p + offsets[{J} + {k}] < len({ST}) and {ST}[p + offsets[{J} + {k}]] == tokenized_text[p] and p + offsets[{J} + {k}] <= positions[{J} + {k} + 1] + offsets[{J} + {k} + 1]))' for k in (0, 1)]]
C(M, 'tokenized_to_original_mapping', {'tokenized_text': 'str', 'original_text': 'str', 'original_name': 'str'}, 'SourceMap', requires=['welltok(tokenized_text, 0)'],
  ensures=['even(result)', 'len(result.positions) >= 2', 'result.positions[0] == 0', 'forall(lambda i: result.positions[i] < result.positions[i + 1], 0, len(result.positions) - 1)',
           'result.positions[len(result.positions) - 1] == len(tokenized_text) + 1', 'named(result)', 'forall(lambda i: implies(0 <= i and i < len(result.file_names), result.originals_dict[result.file_names[i]] == original_text))',
           good('result.positions', 'result.offsets'), f'result.offsets[len(result.offsets) - 1] == result.offsets[len(result.offsets) - 2] and len(tokenized_text) + result.offsets[len(result.offsets) - 1] == len({ST})'],
  loops=[Loop(inv=['fresh(positions) and fresh(offsets)', 'len(positions) == len(offsets) and len(positions) >= 1', 'positions[0] == 0', 'e == -2 and positions[len(positions) - 1] == 0 or e + 1 == positions[len(positions) - 1]',
                   'positions[len(positions) - 1] >= 0 and positions[len(positions) - 1] <= len(tokenized_text)', "i == find(tokenized_text, '\\x1b', positions[len(positions) - 1])", 'o == offsets[len(offsets) - 1]',
                   'forall(lambda k: positions[k] < positions[k + 1], 0, len(positions) - 1)', 'forall(lambda k: offsets[k] > offsets[k + 1], 0, len(offsets) - 1)',
                   'welltok(tokenized_text, positions[len(positions) - 1])', f'positions[len(positions) - 1] + o >= 0', f'positions[len(positions) - 1] + o <= len({ST})',
                   f'{ST}[positions[len(positions) - 1] + o:] == strip(tokenized_text, positions[len(positions) - 1])',
                   'forall(lambda p: implies(p >= positions[len(positions) - 1], copied(tokenized_text, 0, p) == copied(tokenized_text, positions[len(positions) - 1], p)))',
                   good('positions', 'offsets')], dec='len(tokenized_text) - positions[len(positions) - 1]', steps=STEPS)],
  steps=['len(positions) >= 2 and positions[len(positions) - 1] == len(tokenized_text) + 1 and offsets[len(positions) - 2] == o and offsets[len(positions) - 1] == o',
         f'{ST}[positions[len(positions) - 2] + o:] == tokenized_text[positions[len(positions) - 2]:]', f'len({ST}) == len(tokenized_text) + o',
         'forall(lambda p: implies(p >= positions[len(positions) - 2] and copied(tokenized_text, 0, p), p < len(tokenized_text)))',
         f'forall(lambda p: implies(p >= positions[len(positions) - 2] and p < len(tokenized_text), {ST}[positions[len(positions) - 2] + o:][p - positions[len(positions) - 2]] == tokenized_text[p]))',
         f'forall(lambda p: implies(p >= positions[len(positions) - 2] and p < len(tokenized_text), {ST}[p + o] == tokenized_text[p]))',
         good('positions', 'offsets').replace('j < len(positions) - 1', 'j < len(positions) - 2'), good('positions', 'offsets').replace('0 <= j and j < len(positions) - 1', '0 <= j and j == len(positions) - 2')], **P)

# the meaning of the regular expression of tokens is trusted: in a text with well-formed tokens the first match is the first token
from pyvc.theory import valsort
from pyvc.engine import PyExc
MT = valsort('Match')
MG = lambda m, a: z3.Function('match.group!' + a, MT, th.sort)(m)
@REG.regex(r'\x1b(?P<name>\w+)\x1c(?P<argument>[^\x1b\x1c\x1d]*)\x1d', 'search')
def _tok(s, p, e, some, m):
    i = FIND()(s, B, p, th.len(s)); d, e_ = FIND()(s, D, i, th.len(s)), FIND()(s, E, i, th.len(s))
    return [z3.Implies(z3.And(e == th.len(s), 0 <= p, p <= e, WELL(s, p)), z3.And(some == (i >= 0), z3.Implies(some, z3.And(z3.Function('match.start', MT, INT)(m) == i, z3.Function('match.end', MT, INT)(m) == e_ + 1, MG(m, 'argument') == th.slice(s, d + 1, e_)))))]

C(M, 'strip_tokens', {'tokenized': 'str'}, 'str', requires=['welltok(tokenized, 0)'], ensures=['result == strip(tokenized, 0)'], locals={'result': 'list[str]'},
  loops=[Loop(inv=['fresh(result)', '0 <= pos and pos <= len(tokenized)', 'welltok(tokenized, pos)', "''.join(seq(result)) + strip(tokenized, pos) == strip(tokenized, 0)", "(match is not None) == (find(tokenized, '\x1b', pos) >= 0)",
     "implies(match is not None, match.start() == find(tokenized, '\x1b', pos) and match.end() == find(tokenized, '\x1d', match.start()) + 1 and match.group('argument') == tokenized[find(tokenized, '\x1c', match.start()) + 1:match.end() - 1])"], dec='len(tokenized) - pos')], **P)

S('chained', [('ms', '[fn[(int)->(str,str,int)]]'), ('p', 'int'), ('k', 'int')], 'int', 'ite(k <= 0, p, ms[k - 1](chained(ms, p, k - 1))[2])', recursive=True)
C(M, 'apply_src_mappings', {'position': 'int', 'mappings': 'list[fn[(int)->(str,str,int)]]'}, '(str,str,int)', raises=[('AssertionError', 'len(mappings) == 0')],
  ensures=['result == mappings[len(mappings) - 1](chained(seq(mappings), position, len(mappings) - 1))', 'result[2] == chained(seq(mappings), position, len(mappings))'],
  loops=[Loop(inv=['position == chained(_it, old(position), _i)', 'implies(_i > 0, (filename, text, position) == _it[_i - 1](chained(_it, old(position), _i - 1)))'])], **P)

# ---- includes: content(name) is the text of the file; positions of the assembled text
S('content', [('name', 'str')], 'str')
from pyvc.engine import SV, NTV, STRK, INTK, TRUE, IV
from z3 import And, Implies, Or, Not
def _find(ex, f, a, kw):
    ex.V.assumptions.add('find_next_include returns the begin, length and name of an include-statement inside of the rest of the text (at least one character long), or -1')
    b, n = ex.fresh('begin', INTK), ex.fresh('length', INTK)
    t, p = ex.str_t(a[0]), ex.int_t(a[1])
    ex.assume(Or(b.t == -1, And(b.t >= p, n.t >= 1, b.t + n.t <= th.len(t))))
    return NTV('IncludeInfo', REG.namedtuples['IncludeInfo'][1], [b, n, ex.fresh('incl', STRK)])
def _factory(ex, f, a, kw): return ex.fresh('reader', ('val', 'Reader'))
def _read(ex, f, a, kw):
    ex.V.assumptions.add('include readers return the content of the file, which does not change while the document is assembled')
    if ex.nondet(): raise PyExc('OSError', where='read_include')
    return ex.spec_apply(ex.reg.specs['content'], a)
REG.callables.update({'FindNext': _find, 'ReaderFactory': _factory, 'Reader': _read})
S('normpath', [('p', 'str')], 'str')
REG.models['os.path.normpath'] = lambda ex, a, kw: ex.spec_apply(ex.reg.specs['normpath'], a)
REG.models['os.path.dirname'] = lambda ex, a, kw: SV(STRK, z3.Function('os.path.dirname', th.sort, th.sort)(ex.str_t(a[0])))
REG.models['os.path.join'] = lambda ex, a, kw: SV(STRK, z3.Function('os.path.join', th.sort, th.sort, th.sort)(ex.str_t(a[0]), ex.str_t(a[1])))
LAST = lambda x: f'{x}[len({x}) - 1]'
LEADS = "forall(lambda j, p: implies(0 <= j and j < len({m}.positions) - 1 and {m}.positions[j] <= p and p < {m}.positions[j + 1], {m}.file_names[j] in {m}.originals_dict and " \
        "0 <= p + {m}.offsets[j] and p + {m}.offsets[j] < len({m}.originals_dict[{m}.file_names[j]]) and {m}.originals_dict[{m}.file_names[j]][p + {m}.offsets[j]] == {t}[p]))"
CONT = "forall(lambda q: implies(q in {m}.originals_dict, {m}.originals_dict[q] == content(q)), kinds={{'q': 'str'}})"
def OK(m, t): return [x.format(m=m, t=t) for x in ('even({m})', 'len({m}.positions) > 0 and {m}.positions[0] == 0', 'sorted_(seq({m}.positions))', 'named({m})', CONT, LEADS)]
FRESH = lambda m: [f'fresh({m})'] + [f'fresh({m}.{x})' for x in ('positions', 'offsets', 'file_names', 'originals_dict')]
DISTINCT = ['map is not inner_map', 'map.positions is not map.offsets', 'inner_map.positions is not inner_map.offsets'] + \
  [f'map.{a} is not inner_map.{b}' for a in ('positions', 'offsets') for b in ('positions', 'offsets')] + ['map.file_names is not inner_map.file_names', 'map.file_names is not result', 'inner_map.file_names is not result', 'map.originals_dict is not inner_map.originals_dict']
TXT = "''.join(seq(result))"
STATE = ['fresh(result)', 'map.positions is not map.offsets', 'map.file_names is not result', 'source_text == content(source_name)', '0 <= original_pointer and original_pointer <= len(source_text)', f'result_pointer == len({TXT})',
  'original_offset == original_pointer - result_pointer', f'{LAST("map.positions")} == result_pointer', f'{LAST("map.offsets")} == original_offset', f'{LAST("map.file_names")} == source_name', 'source_name in map.originals_dict',
  'begin == -1 or begin >= original_pointer and length >= 1 and begin + length <= len(source_text)', 'last_begin == -1', 'normalized_name in file_names'] + FRESH('map') + OK('map', TXT)
SETINV = 'forall(lambda q: (q in file_names) == (q == normalized_name or old(q in file_names)), kinds={"q": "str"})'
same = lambda *xs: [f'seq({x}) == atloop(seq({x}))' for x in xs]
LP1 = same('map.positions', 'map.offsets') + [f'len(inner_map.{x}) == atloop(len(inner_map.{x}))' for x in ('positions', 'offsets')] + \
  [f'forall(lambda k: inner_map.{x}[k] == atloop(inner_map.{x}[k]) {op} result_pointer, 0, _i)' for x, op in (('positions', '+'), ('offsets', '-'))] + [f'forall(lambda k: inner_map.{x}[k] == atloop(inner_map.{x}[k]), _i, _n)' for x in ('positions', 'offsets')]
KQ = lambda e: f'forall(lambda q: {e}, kinds={{"q": "str"}})'
LP2 = [KQ('implies(atloop(q in map.originals_dict), q in map.originals_dict)'), KQ('implies(q in map.originals_dict, map.originals_dict[q] == content(q))'), KQ('(q in inner_map.originals_dict) == atloop(q in inner_map.originals_dict)'),
  KQ('implies(q in inner_map.originals_dict, inner_map.originals_dict[q] == content(q))'), 'forall(lambda k: _it[k] in map.originals_dict, 0, _i)']
K = '(atiter(len(map.positions)) - ite(source_delta == 0, 1, 0))'; N = 'len(inner_map.positions)'; R1 = '(atiter(result_pointer) + source_delta)'
T0 = f"atiter({TXT})"
SEG = 'map.file_names[j] in map.originals_dict and 0 <= p + map.offsets[j] and p + map.offsets[j] < len(map.originals_dict[map.file_names[j]]) and map.originals_dict[map.file_names[j]][p + map.offsets[j]] == ' + TXT + '[p]'
GSTEPS = [f'{TXT} == {T0} + source_text[atiter(original_pointer):atiter(original_pointer) + source_delta] + inner_text', f'len(map.positions) == {K} + {N}', f'len(map.offsets) == {K} + {N}', f'len(map.file_names) == {K} + {N}',
  f'forall(lambda j: implies(0 <= j and j < {K}, map.positions[j] == atiter(map.positions[j]) and map.offsets[j] == atiter(map.offsets[j]) and map.file_names[j] == atiter(map.file_names[j])))',
  f'forall(lambda j: implies({K} <= j and j < {K} + {N} - 1, map.positions[j] == inner_map.positions[j - {K}] and map.offsets[j] == inner_map.offsets[j - {K}] and map.file_names[j] == inner_map.file_names[j - {K}]))',
  f'map.positions[{K} + {N} - 1] == inner_map.positions[{N} - 1] and inner_map.positions[0] == {R1}',
  f'forall(lambda p: implies(0 <= p and p < atiter(result_pointer), {TXT}[p] == {T0}[p]))',
  f'forall(lambda p: implies(atiter(result_pointer) <= p and p < {R1}, {TXT}[p] == source_text[atiter(original_pointer) + p - atiter(result_pointer)]))',
  f'forall(lambda p: implies({R1} <= p and p < {R1} + len(inner_text), {TXT}[p] == inner_text[p - {R1}]))',
  f'forall(lambda j, p: implies(0 <= j and j < {K} - 1 and map.positions[j] <= p and p < map.positions[j + 1], {SEG}))',
  f'forall(lambda j, p: implies(0 <= j and j == {K} - 1 and map.positions[j] <= p and p < {R1}, {SEG}))',
  f'forall(lambda j, p: implies({K} <= j and j < {K} + {N} - 1 and map.positions[j] <= p and p < map.positions[j + 1], {SEG}))']
C(M, 'generate_include_map.generate_map', {'source_name': 'str', 'source_text': 'str', 'find_next': '$FindNext'}, '(SourceMap,str)', closure={'file_names': 'set[str]', 'include_reader': '$ReaderFactory'},
  requires=['source_text == content(source_name)'], modifies=['file_names[]'], raises=[('ValueError', 'True', False), ('OSError', 'True', False)],
  ensures=['not old(normpath(source_name) in file_names)', 'result[0].positions[len(result[0].positions) - 1] == len(result[1])', 'forall(lambda q: (q in file_names) == old(q in file_names), kinds={"q": "str"})'] + FRESH('result[0]') + ['result[0].positions is not result[0].offsets'] + OK('result[0]', 'result[1]'),
  steps=[f'implies(len(rest) > 0, {TXT} == "".join(seq(result)[:len(result) - 1]) + rest)',
     'implies(len(rest) > 0, len(map.positions) >= 2 and map.positions[len(map.positions) - 1] == result_pointer + len(rest))', f'forall(lambda p: implies(len(rest) > 0 and 0 <= p and p < result_pointer, {TXT}[p] == "".join(seq(result)[:len(result) - 1])[p]))',
     f'forall(lambda p: implies(len(rest) > 0 and result_pointer <= p and p < result_pointer + len(rest), {TXT}[p] == source_text[original_pointer + p - result_pointer]))',
     f'forall(lambda j, p: implies(len(rest) > 0 and 0 <= j and j < len(map.positions) - 2 and map.positions[j] <= p and p < map.positions[j + 1], {SEG}))',
     f'forall(lambda j, p: implies(len(rest) > 0 and 0 <= j and j == len(map.positions) - 2 and map.positions[j] <= p and p < map.positions[j + 1], {SEG}))'],
  locals={'result': 'list[str]'}, loops=[Loop(inv=STATE + [SETINV], steps=GSTEPS), Loop(inv=LP1), Loop(inv=LP2)], **P)
C(M, 'generate_include_map', {'original_name': 'str', 'original_text': 'str', 'find_next_include': '$FindNext', 'include_reader': '$ReaderFactory'}, '(SourceMap,str)', requires=['original_text == content(original_name)'],
  raises=[('ValueError', 'True', False), ('OSError', 'True', False)], ensures=['result[0].positions[len(result[0].positions) - 1] == len(result[1])'] + OK('result[0]', 'result[1]'), **P)
