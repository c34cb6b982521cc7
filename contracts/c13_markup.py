"""Contracts for splitting, milestones and content mappings (property C13): DHParser.nodetree"""
import z3
import pyvc.engine as E
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import *
from . import common, tree, c10_node, c14_transform, c04_preprocess
from .tree import RES, NB, PB
from .c10_node import SAMETEXT, POSKEPT
C, S, K = REG.contract, REG.spec, REG.klass
M = 'nodetree'
P = {'props': ['C13']}
P10 = {'props': ['C10', 'C13']}
NOTIN = 'ValueError'
for nm, kind, cond in (('name', 'str', '{x}.name == selector'), ('node', 'Node', '{x} is selector')):
    CN = lambda i: cond.format(x=f'self._children[{i}]')
    C(M, 'Node.index', {'self': 'Node', 'selector': kind, 'start': 'int', 'stop': 'int'}, 'int', variant=nm,
      raises=[('AssertionError', 'not (0 <= start and start < stop)'), ('ValueError', f'0 <= start and start < stop and not exists(lambda i: {CN("i")}, start, min(stop, len(self._children)))')],
      ensures=['start <= result and result < len(self._children) and result < stop', CN('result'), f'forall(lambda i: not ({CN("i")}), start, result)'],
      loops=[Loop([f'forall(lambda i: not ({CN("i")}), start, start + _i)'])], **P10)
    C(M, 'Node.__contains__', {'self': 'Node', 'selector': kind}, 'bool', variant=nm, ensures=[f'result == exists(lambda i: {CN("i")}, 0, len(self._children))'],
      loops=[Loop([f'forall(lambda i: not ({CN("i")}), 0, _i)'])], **P10)
ATTRSAME = 'forall(lambda x, k: implies({c}, hasat(x, k) == old(hasat(x, k)) and implies(hasat(x, k), at(x, k) == old(at(x, k)))), kinds={{"x": "Node", "k": "str"}})'
DK = lambda d: f'{d} is not None and k in as_kind({d}, "dict[str,str]")'
C(M, 'Node.with_attr', {'self': 'Node', 'attr_dict': '(dict[str,str],)'}, 'Node', modifies=['self._attributes', '*dict[str,str]'], requires=['implies(self._attributes is not None, self._attributes is not attr_dict[0])'],
  ensures=['result is self', 'forall(lambda k: hasat(self, k) == (old(hasat(self, k)) or k in attr_dict[0]), kinds={"k": "str"})',
           'forall(lambda k: implies(hasat(self, k), at(self, k) == ite(k in attr_dict[0], attr_dict[0][k], old(at(self, k)))), kinds={"k": "str"})',
           'forall(lambda k: (k in attr_dict[0]) == old(k in attr_dict[0]) and implies(k in attr_dict[0], attr_dict[0][k] == old(attr_dict[0][k])), kinds={"k": "str"})',
           'implies(old(self._attributes is not None), self._attributes is old(self._attributes))'], **P10)
# ---- splitting a node: the text of the node is divided between the node and its right neighbour
S('sliceidx', [('n', 'Node')], 'int', "ite(len(n._children) > 0, len(n._children), len(text(n)))")
ONCE = 'forall(lambda j: implies(old(parent._children[j]) is not node, not old(subnode(parent._children[j], node))), 0, old(len(parent._children))) and forall(lambda i, j: implies(0 <= i and i < j and j < old(len(parent._children)), old(parent._children[i]) is not old(parent._children[j])))'
EDGE = '(i == 0 or i == old(sliceidx(node)))'
R = 'parent._children[result]'
C(M, 'split_node', {'node': 'Node', 'parent': 'Node', 'i': 'int', 'left_biased': 'bool', 'chain_attr': 'dict[str,str]?'}, 'int', requires=['i <= sliceidx(node)', 'len(parent._children) <= 1073741824'],
  merge=True, raises=[('AssertionError', 'i < 0'), ('ValueError', 'i >= 0 and not (node in parent._children)')],
  modifies=['*Node._children', '*Node._result', '*Node._pos', '*Node._attributes', '*dict[str,str]'],
  ensures=[f'implies({EDGE}, forall(lambda x: x._children == old(x._children) and text(x) == old(text(x)), kinds={{"x": "Node"}}, trigger=(x._children)))',
           f'implies({EDGE}, 0 <= result and result <= len(parent._children) and (result > 0 and parent._children[result - 1] is node or result < len(parent._children) and parent._children[result] is node))',
           f'implies(not {EDGE}, 0 < result and result < len(parent._children) and len(parent._children) == old(len(parent._children)) + 1 and parent._children[result - 1] is node and fresh({R}))',
           f'implies(not {EDGE}, {R}.name == node.name and parent._children[:result] == old(parent._children)[:result] and parent._children[result + 1:] == old(parent._children)[result:])',
           f'implies(not {EDGE}, text(node) + text({R}) == old(text(node)))',
           f'implies(not {EDGE} and old(len(node._children)) == 0, text(node) == old(text(node))[:i] and len(node._children) == 0 and len({R}._children) == 0)',
           f'implies(not {EDGE} and old(len(node._children)) > 0, node._children == old(node._children)[:i] and {R}._children == old(node._children)[i:])',
           f'implies({ONCE}, text(parent) == old(text(parent)))'],
  steps=['right is not node and right is not parent and node is not parent', 'old(parent._children) == old(parent._children)[:k - 1] + (node,) + old(parent._children)[k:]', 'parent._children == old(parent._children)[:k - 1] + (node, right) + old(parent._children)[k:]',
         'implies(old(len(node._children)) > 0, old(node._children) == old(node._children)[:i] + old(node._children)[i:] and texts(old(node._children)) == old(text(node)))',
         'implies(old(len(node._children)) > 0, text(node) == texts(old(node._children)[:i]) and text(right) == texts(old(node._children)[i:]))',
         'text(node) + text(right) == old(text(node))',
         f'implies({ONCE}, texts(old(parent._children)[:k - 1]) == old(texts(parent._children[:k - 1])))', f'implies({ONCE}, texts(old(parent._children)[k:]) == old(texts(parent._children[k:])))',
         'text(parent) == texts(old(parent._children)[:k - 1]) + text(node) + text(right) + texts(old(parent._children)[k:])',
         'old(text(parent)) == old(texts(parent._children)[:k - 1])) + old(text(node)) + old(texts(parent._children[k:]))'.replace('(parent._children)[:k - 1]))', '(parent._children[:k - 1]))')], **P)
# ---- content mappings
K('ContentMapping', M, {'origin': 'Node', 'select_func': PB, 'ignore_func': PB, 'content': 'str', '_pos_list': 'list[int]', '_path_list': 'list[[Node]]', '_path_str_cache': 'dict[int,str]'})
REG.hom('pathtexts', '[[Node]]', 'str', 'e', 'text(e[len(e) - 1])', heap=('Node._children', 'Node._result'))
SELPATHS = 'ite({s}((origin,)), ((origin,),), ()) + selpaths((origin,), {s}, {g}, False)'
MAPPED = 'ite(self.ignore_func((origin,)), (), ' + SELPATHS.format(s='self.select_func', g='self.ignore_func') + ')'
C(M, 'ContentMapping._generate_mapping', {'origin': 'Node', 'stump': '[Node]'}, '(str,list[int],list[[Node]])', requires=['len(stump) == 0'], modifies=['*Node._result', '*StringView._fullstring'],
  ensures=[f'result[0] == old(pathtexts({MAPPED}))', 'len(result[1]) == len(result[2])', f'forall(lambda j: result[1][j] == old(len(pathtexts(({MAPPED})[:j]))), 0, len(result[1]))',
           f'seq(result[2]) == old({MAPPED})', SAMETEXT],
  locals={'content_list': 'list[str]', 'path_list': 'list[[Node]]', 'pos_list': 'list[int]'},
  loops=[Loop(['len(pos_list) == _i and seq(path_list) == _it[:_i]', "''.join(seq(content_list)) == old(pathtexts(_it[:_i]))", 'pos == old(len(pathtexts(_it[:_i])))', 'forall(lambda j: pos_list[j] == old(len(pathtexts(_it[:j]))), 0, _i)', SAMETEXT],
     hints=['pathtexts(_it[:_i])', 'pathtexts(_it[:_i+1])'])], **P)
NEWTEXTS = 'old(pathtexts(now(seq({l}))))'
C(M, 'ContentMapping._generate_mapping', {'origin': 'Node', 'stump': '[Node]'}, '(str,list[int],list[[Node]])', variant='stump', allow=('seq+list',), modifies=['*Node._result', '*StringView._fullstring'],
  ensures=['result[0] == old(pathtexts(now(seq(result[2]))))', 'len(result[1]) == len(result[2])', 'forall(lambda j: result[1][j] == old(len(pathtexts(now(seq(result[2]))[:j]))), 0, len(result[1]))',
           'forall(lambda j: len(result[2][j]) > 0 and result[2][j][0] is origin, 0, len(result[2]))', SAMETEXT, 'fresh(result[1]) and fresh(result[2])', 'implies(len(result[1]) > 0, result[1][0] == 0)',
           'forall(lambda j: result[1][j + 1] == result[1][j] + len(text(result[2][j][len(result[2][j]) - 1])), 0, len(result[2]) - 1)',
           'implies(len(result[2]) > 0, result[1][len(result[1]) - 1] + len(text(result[2][len(result[2]) - 1][len(result[2][len(result[2]) - 1]) - 1])) == len(result[0]))'],
  locals={'content_list': 'list[str]', 'path_list': 'list[[Node]]', 'pos_list': 'list[int]'},
  loops=[Loop(['len(pos_list) == _i and seq(path_list) == _it[:_i]', "''.join(seq(content_list)) == old(pathtexts(_it[:_i]))", 'pos == old(len(pathtexts(_it[:_i])))', 'forall(lambda j: pos_list[j] == old(len(pathtexts(_it[:j]))), 0, _i)', SAMETEXT, 'implies(_i > 0, pos_list[0] == 0)', 'forall(lambda j: ite(j + 1 < _i, pos_list[j + 1], pos) == pos_list[j] + len(text(_it[j][len(_it[j]) - 1])), 0, _i)'],
     hints=['pathtexts(_it[:_i])', 'pathtexts(_it[:_i+1])'])], **P)
PL, RESULT_IN = 'self._pos_list', '0 <= result and result < len(self._pos_list)'
SORTED = ['sorted_(seq(self._pos_list))', 'len(self._pos_list) > 0 and self._pos_list[0] == 0']
BIASED = f'({RESULT_IN} and ite(left_biased, (result == 0 or {PL}[result] < pos) and (result + 1 == len({PL}) or pos <= {PL}[result + 1]), {PL}[result] <= pos and (result + 1 == len({PL}) or pos < {PL}[result + 1])))'
C(M, 'ContentMapping.get_path_index', {'pos': 'int', 'left_biased': 'bool'}, 'int', requires=SORTED, raises=[('IndexError', 'pos < 0')],
  ensures=[RESULT_IN, BIASED, f'{PL}[result] <= pos'],
  loops=[Loop([f'0 <= path_index and path_index < len({PL}) and {PL}[path_index] <= pos', f'path_index + 1 == len({PL}) or pos <= {PL}[path_index + 1]'], dec='path_index'),
         Loop([f'0 <= path_index and path_index <= last and {PL}[path_index] <= pos and {PL}[path_index] == pivot', f'path_index == last or pos < {PL}[path_index + 1]'], dec='last - path_index')], **P)
EQL = 'len(self._pos_list) == len(self._path_list)'
LB = BIASED.replace('result', 'k')
C(M, 'ContentMapping.get_path_and_offset', {'pos': 'int', 'left_biased': 'bool', 'index_out': 'none'}, '([Node],int)', requires=SORTED + [EQL], raises=[('IndexError', 'pos < 0')],
  ensures=[f'exists(lambda k: {LB} and result[0] == self._path_list[k] and result[1] == pos - {PL}[k] and result[1] >= 0)'], **P)
C(M, 'ContentMapping.get_location', {'pos': 'int', 'left_biased': 'bool'}, '(int,[Node],int)', requires=SORTED + [EQL], raises=[('IndexError', 'pos < 0')],
  ensures=[BIASED.replace('result', 'result[0]') + ' and result[1] == self._path_list[result[0]] and result[2] == pos - self._pos_list[result[0]] and result[2] >= 0'], **P)
LBX = lambda k, p: BIASED.replace('result', k).replace('pos', p).replace('self._%s_list' % p, PL)
INORDER = f'implies(b >= a, result == seq(self._path_list)[a:b + 1]) and implies(b < a, len(result) == a - b + 1 and forall(lambda j: result[j] == self._path_list[a - j], 0, len(result)))'
C(M, 'ContentMapping.iterate_paths', {'start_pos': 'int', 'end_pos': 'int', 'left_biased': 'bool'}, yields='[Node]', requires=SORTED + [EQL], raises=[('IndexError', 'start_pos < 0 or end_pos < 0')],
  ensures=[f'exists(lambda a, b: {LBX("a", "start_pos")} and {LBX("b", "end_pos")} and {INORDER})'],
  loops=[Loop(['seq(__yield__) == seq(self._path_list)[index_a:index_a + _i]']),
         Loop(['len(__yield__) == _i and forall(lambda j: __yield__[j] == self._path_list[index_a - j], 0, _i)'])], **P)
REG.namedtuple('LocationInfo', M, [('path_index', 'int'), ('path', '[Node]'), ('offset', 'int')])
# ---- common ancestors and the renewal of a section of the mapping
ISCHILD = lambda p, x: f'exists(lambda c: {p}._children[c] is {x}, 0, len({p}._children))'
LINKED = lambda n: f'path_A[:{n}] == path_B[:{n}] and forall(lambda j: ' + ISCHILD('path_A[j]', 'path_A[j + 1]') + f', 0, {n} - 1)'
C(M, 'find_common_ancestor', {'path_A': '[Node]', 'path_B': '[Node]'}, '(Node?,int)', requires=['len(path_A) > 0 and len(path_B) > 0'],
  ensures=['(result[0] is None) == (path_A[0] is not path_B[0])', 'result[1] >= -1 and (result[1] == -1) == (result[0] is None) and result[1] < min(len(path_A), len(path_B))',
           'implies(result[0] is not None, result[0] is path_A[result[1]])', LINKED('result[1] + 1'),
           'implies(result[1] >= 0 and result[1] + 1 < len(path_A) and result[1] + 1 < len(path_B), path_A[result[1] + 1] is not path_B[result[1] + 1] or not ' + ISCHILD('path_A[result[1]]', 'path_A[result[1] + 1]') + ')'],
  locals={'last_a': 'list[Node]|Node', 'last_b': 'list[Node]|Node', 'common_ancestor': 'Node?'},
  loops=[Loop(['i == ite(_i == 0, 0, _i - 1)', '(common_ancestor is None) == (_i == 0)', LINKED('_i'),
               'implies(_i > 0, isa(last_a, Node) and isa(last_b, Node) and as_kind(last_a, "Node") is path_A[_i - 1] and as_kind(last_b, "Node") is path_A[_i - 1] and common_ancestor is path_A[_i - 1])',
               'implies(_i == 0, isa(last_a, list) and isa(last_b, list) and seq(as_kind(last_a, "list[Node]")) == (path_A[0],) and seq(as_kind(last_b, "list[Node]")) == (path_B[0],))'])], **P)

REG.hom('stumped', '[[Node]]', '[[Node]]', 'e', '(q + e,)', extra=[('q', '[Node]')])
from pyvc.theory import *
from .tree import NT, ST, HC, HR, c, r, FA, PT, TEXT
from pyvc.theory import add_axioms
from pyvc.runner import lemma
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
PTX, STU = z3.Function('spec.pathtexts', HC, HR, PT.sort, ST.sort), z3.Function('spec.stumped', PT.sort, NT.sort, PT.sort)
_ps = z3.Const('mk!paths', PT.sort); _q = z3.Const('mk!q', NT.sort); _w = z3.Function('mk.w', PT.sort, NT.sort, INT)(_ps, _q); _j = z3.Int('mk!j')
add_axioms('markup.stumped', ({'spec.stumped'}, [FA([c, r, _ps, _q], Or(PTX(c, r, STU(_ps, _q)) == PTX(c, r, _ps), And(0 <= _w, _w < PT.len(_ps), NT.len(PT.at(_ps, _w)) == 0)), PTX(c, r, STU(_ps, _q))),
    FA([_ps, _q, _j], Implies(And(0 <= _j, _j < PT.len(_ps)), PT.at(STU(_ps, _q), _j) == NT.cat(_q, PT.at(_ps, _j))), PT.at(STU(_ps, _q), _j)), FA([_ps, _q], PT.len(STU(_ps, _q)) == PT.len(_ps), STU(_ps, _q))]))

@lemma('paths with a common stump', ['C13'])
def _():
    F, G = z3.Function('lem.pathtexts', PT.sort, ST.sort), z3.Function('lem.stumped', PT.sort, NT.sort, PT.sort)
    a, b = z3.Consts('mk!a mk!b', PT.sort); e = z3.Const('mk!e', NT.sort)
    defs = [F(PT.empty) == ST.empty, FA([e], F(PT.unit(e)) == TEXT(c, r, NT.at(e, NT.len(e) - 1)), F(PT.unit(e))), FA([a, b], F(PT.cat(a, b)) == ST.cat(F(a), F(b)), F(PT.cat(a, b))),
            FA([_q], G(PT.empty, _q) == PT.empty, G(PT.empty, _q)), FA([e, _q], G(PT.unit(e), _q) == PT.unit(NT.cat(_q, e)), G(PT.unit(e), _q)), FA([a, b, _q], G(PT.cat(a, b), _q) == PT.cat(G(a, _q), G(b, _q)), G(PT.cat(a, b), _q))]
    ok = lambda sq: FA([_j], Implies(And(0 <= _j, _j < PT.len(sq)), NT.len(PT.at(sq, _j)) > 0), PT.at(sq, _j))
    at = lambda sq: And(PT.len(G(sq, _q)) == PT.len(sq), FA([_j], Implies(And(0 <= _j, _j < PT.len(sq)), PT.at(G(sq, _q), _j) == NT.cat(_q, PT.at(sq, _j))), PT.at(G(sq, _q), _j)))
    one = lambda sq: Implies(And(0 <= _j, _j < PT.len(sq)), PT.at(G(sq, _q), _j) == NT.cat(_q, PT.at(sq, _j)))
    snoc = PT.cat(_ps, PT.unit(e))
    return [('empty', defs, And(F(G(PT.empty, _q)) == F(PT.empty), PT.len(G(PT.empty, _q)) == 0)), ('texts', defs + [NT.len(e) > 0, F(G(_ps, _q)) == F(_ps)], F(G(snoc, _q)) == F(snoc)),
            ('items', defs + [at(_ps)], And(PT.len(G(snoc, _q)) == PT.len(snoc), one(snoc)))]

PTS, PSI = 'seq(self._path_list)', 'self._pos_list'
LAST = lambda p: f'text({p}[len({p}) - 1])'
STEP = lambda cond, n: f'forall(lambda j: implies({cond}, {PSI}[j] + len({LAST("self._path_list[j]")}) == ite(j + 1 < len({PSI}), {PSI}[j + 1], len(self.content))), 0, {n})'
C(M, 'ContentMapping.rebuild_mapping_slice', {'self': 'ContentMapping', 'first_index': 'int', 'last_index': 'int', 'ancestor': 'Node?'}, 'none',
  requires=['0 <= first_index and first_index <= last_index and last_index < len(self._path_list)', EQL, 'self._pos_list[0] == 0', 'forall(lambda j: len(self._path_list[j]) > 0, 0, len(self._path_list))',
            f'forall(lambda j: self.content[:{PSI}[j]] == pathtexts({PTS}[:j]) and 0 <= {PSI}[j] and {PSI}[j] <= len(self.content), 0, first_index + 1)',
            f'forall(lambda j: self.content[{PSI}[j]:] == pathtexts({PTS}[j:]) and 0 <= {PSI}[j] and {PSI}[j] <= len(self.content), last_index + 1, len({PSI}))',
            STEP('j < first_index or j > last_index', f'len({PSI})')],
  modifies=['self.content', 'self._pos_list[]', 'self._path_list[]', 'self._path_str_cache', '*Node._result', '*StringView._fullstring'], raises=[('AssertionError', 'True', False), ('IndexError', 'True', False)],
  ensures=[EQL, f'self.content == pathtexts({PTS})', STEP('True', f'len({PSI})'), 'self._pos_list[0] == 0', 'self._pos_list is old(self._pos_list) and self._path_list is old(self._path_list)', SAMETEXT],
  comps=['stumped(paths, stump)'], allow=('seq+list',), calls={'ContentMapping._generate_mapping#stump': {}},
  steps=[f'seq(self._path_list) == old({PTS})[:first_index] + seq(paths) + old({PTS})[last_index + 1:]', f'len({PSI}) == len({PTS})', f'{PSI}[first_index] == start_pos', 'offsets[len(offsets) - 1] + len(' + LAST('paths[len(paths) - 1]') + ') == start_pos + len(content) and followup_offset == start_pos + len(content)',
         f'len(self.content) == start_pos + len(content) + len(old(self.content)) - end_pos',
         f'forall(lambda j: {PSI}[j] == old(seq({PSI}))[j], 0, first_index)', f'forall(lambda j: {PSI}[first_index + j] == offsets[j], 0, len(offsets))',
         f'implies(last_index + 1 < len(old(seq({PSI}))), old(seq({PSI}))[last_index + 1] == end_pos)', f'forall(lambda j: {PSI}[first_index + len(offsets) + j] == old(seq({PSI}))[last_index + 1 + j] + start_pos + len(content) - end_pos, 0, len(old(seq({PSI}))) - last_index - 1)',
         STEP('j < first_index', f'len({PSI})'), STEP('j >= first_index and j < first_index + len(offsets)', f'len({PSI})'), STEP('j >= first_index + len(offsets)', f'len({PSI})')],
  loops=[Loop(['0 <= first_index and first_index <= old(first_index)'], dec='first_index'), Loop(['old(last_index) <= last_index and last_index <= last'], dec='last - last_index')], merge=True, **P)
