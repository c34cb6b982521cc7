"""Contracts for the restructuring transformations (property C14): DHParser.transform"""
import z3
import pyvc.engine as E
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import *
from . import common, tree, c10_node
from .tree import RES
C, S, K = REG.contract, REG.spec, REG.klass
M = 'transform'
P = {'props': ['C14']}
K('RootNode', 'nodetree', {'errors': 'list[Error]'}, bases=('Node',), truthy=True, lazy=True)
C('nodetree', 'RootNode.transfer_errors', {'self': 'RootNode', 'src': 'Node', 'dest': 'Node'}, 'none', trusted=True, raises=[('AttributeError', 'True', False)],
  note='moves error reports between nodes; a plain Node as root has no such method', **P)
SAMETEXT = 'forall(lambda x: text(x) == old(text(x)), kinds={"x": "Node"}, trigger=(text(x), old(text(x))))'
# attributes: hasat(n, k), at(n, k)
S('hasat', [('n', 'Node'), ('k', 'str')], 'bool', "n._attributes is not None and k in as_kind(n._attributes, 'dict[str,str]')")
S('at', [('n', 'Node'), ('k', 'str')], 'str', "as_kind(n._attributes, 'dict[str,str]')[k]")
MODA = ['*Node._attributes', '*dict[str,str]']
PATH = 'list[Node]'
NE = ['len(path) > 0']
VE = [('ValueError', 'True', False)]
# attributes of a node are only added
KEPT = 'forall(lambda x, k: implies(old(hasat(x, k)), hasat(x, k) and at(x, k) == old(at(x, k))), kinds={"x": "Node", "k": "str"})'
TAKEN = 'forall(lambda k: implies(old(hasat({s}, k)), hasat({d}, k) and at({d}, k) == old(at({s}, k))), kinds={{"k": "str"}})'
C(M, 'update_attr', {'dest': 'Node', 'src': 'Node|[Node]', 'root': 'Node'}, 'none', modifies=MODA, raises=VE,
  ensures=[KEPT, "implies(isa(src, Node), " + TAKEN.format(s="as_kind(src, 'Node')", d='dest') + ")",
           "implies(isa(src, tuple) and len(as_kind(src, '[Node]')) == 1, " + TAKEN.format(s="as_kind(src, '[Node]')[0]", d='dest') + ")",
           "implies(isa(src, tuple), forall(lambda j: " + TAKEN.format(s="as_kind(src, '[Node]')[j]", d='dest') + ", 0, len(as_kind(src, '[Node]'))))"],
  loops=[Loop([KEPT, 'forall(lambda j: ' + TAKEN.format(s='_it[j]', d='dest') + ', 0, _i)']),
         Loop([KEPT, KEPT.replace('old(', 'atloop('), 's._attributes is not None', 'forall(lambda j: hasat(dest, _it[j]) and at(dest, _it[j]) == at(s, _it[j]), 0, _i)'])], **P)
C(M, 'swap_attributes', {'node': 'Node', 'other': 'Node'}, 'none', modifies=['node._attributes', 'other._attributes'],
  ensures=['implies(node is not other, forall(lambda k: hasat(node, k) == old(hasat(other, k)) and hasat(other, k) == old(hasat(node, k)) and implies(hasat(node, k), at(node, k) == old(at(other, k))) and implies(hasat(other, k), at(other, k) == old(at(node, k))), kinds={"k": "str"}))'], **P)
# ------------------------------------------------------------------ conditions
def _cond(ex, f, args, kw):
    """a condition on paths: any truth value; it neither changes the tree nor the path"""
    ex.V.assumptions.add('conditions passed to transformations do not change the tree or the path')
    return ex.fresh('cond', E.parse_kind('bool'))
REG.callables['Cond'] = _cond
def _placeholder(ex):
    v = E.SV(('ref', 'Node'), z3.Const('param!G$PLACEHOLDER', Ref))
    if not ex.pure:
        ex.ref_facts(v); ex.assume(BIRTH(v.t) <= 0)
    return v
REG.globals[('nodetree', 'PLACEHOLDER')] = _placeholder
ONLY = ['len(node._children) == 1', 'node._children[0] is child']
MODT = ['*Node.name', '*Node._result', '*Node._children'] + MODA
LAST = 'path[len(path) - 1]'
for fn in ('_replace_by', '_reduce_child'):
    C(M, fn, {'node': 'Node', 'child': 'Node', 'root': 'Node'}, 'none', requires=ONLY, entry_hints=['node._children == (child,)', 'text(node) == text(child)'], modifies=['node.name', 'node._result', 'node._children'] + MODA, raises=VE,
      ensures=['node._children == old(child._children)', 'implies(len(node._children) == 0, text(node) == old(text(child)))', 'implies(len(node._children) > 0, texts(node._children) == old(texts(child._children)))', 'text(node) == old(text(node))', SAMETEXT, KEPT, TAKEN.format(s='child', d='node')]
              + (['node.name == old(node.name)'] if fn == '_reduce_child' else ["node.name == ite(old(node.name == '' or node.name[0] == ':' or (child.name != '' and child.name[0] != ':')), old(child.name), old(node.name))"]), **P)
for fn in ('replace_by_single_child', 'reduce_single_child'):
    C(M, fn, {'path': PATH}, 'none', requires=NE, modifies=MODT, raises=VE, ensures=[SAMETEXT, KEPT, 'seq(path) == old(seq(path))',
      f'implies(old(len({LAST}._children)) != 1, {LAST}._children == old({LAST}._children))', f'implies(old(len({LAST}._children)) == 1, {LAST}._children == old({LAST}._children[0]._children))'], **P)
C(M, 'replace_or_reduce', {'path': PATH, 'condition': '$Cond'}, 'none', requires=NE, modifies=MODT, raises=VE, ensures=[SAMETEXT, KEPT, 'seq(path) == old(seq(path))'], **P)
UP = 'path[len(path) - 2]'
C(M, 'replace_by_children', {'path': PATH}, 'none', requires=NE + [f'implies(len(path) > 1, {LAST} in {UP}._children)'],
  modifies=MODT, raises=VE, ensures=['seq(path) == old(seq(path))', KEPT, f'implies(old(len(path) > 1 and len({LAST}._children) > 0), texts({UP}._children) == old(texts({UP}._children)))', f'implies(len(path) > 1, text({UP}) == old(text({UP})))', SAMETEXT], **P)
C(M, 'change_name', {'path': PATH, 'name': 'str'}, 'none', requires=NE, modifies=['path[len(path) - 1].name'], ensures=[f'{LAST}.name == name'], **P)
RN = lambda o: f'ite({o} in replacements, replacements[{o}], {o})'
C(M, 'replace_child_names', {'path': PATH, 'replacements': 'dict[str,str]'}, 'none', requires=NE + [f'forall(lambda i, j: implies(0 <= i and i < j and j < len({LAST}._children), {LAST}._children[i] is not {LAST}._children[j]))'], modifies=['*Node.name'],
  ensures=[f'forall(lambda i: implies(0 <= i and i < len({LAST}._children), {LAST}._children[i].name == ' + RN(f'old({LAST}._children[i].name)') + '))', f'forall(lambda x: implies(x not in {LAST}._children, x.name == old(x.name)), kinds={{"x": "Node"}}, trigger=(x.name))'],
  loops=[Loop(['forall(lambda i: implies(0 <= i and i < _i, _it[i].name == ' + RN('old(_it[i].name)') + '))', 'forall(lambda i: implies(_i <= i and i < _n, _it[i].name == old(_it[i].name)))', 'forall(lambda x: implies(x not in _it, x.name == old(x.name)), kinds={"x": "Node"}, trigger=(x.name))'])], **P)
C(M, 'swap_nested_nodes', {'path': PATH}, 'none', requires=NE, modifies=['*Node.name', '*Node._attributes'],
  ensures=[f'implies(len({LAST}._children) == 1, {LAST}.name == old({LAST}._children[0].name) and {LAST}._children[0].name == old({LAST}.name))', f'implies(len({LAST}._children) != 1, {LAST}.name == old({LAST}.name))'], **P)
# a node with children has children afterwards
BRANCH = 'forall(lambda x: implies(old(len(x._children)) > 0, len(x._children) > 0), kinds={"x": "Node"}, trigger=(x._children))'
C(M, 'flatten', {'path': PATH, 'condition': '$Cond', 'recursive': 'bool'}, 'none', requires=NE, modifies=MODT + ['path[]'], raises=VE, ensures=['seq(path) == old(seq(path))', KEPT, BRANCH, f'texts({LAST}._children) == old(texts({LAST}._children))', f'text({LAST}) == old(text({LAST}))', SAMETEXT],
  locals={'new_result': 'list[Node]'}, loops=[Loop(['implies(_i > 0, len(new_result) > 0)', BRANCH, SAMETEXT, KEPT, 'texts(seq(new_result)) == old(texts(_it[:_i]))', 'len(path) == old(len(path)) + 1', 'seq(path)[:len(path) - 1] == old(seq(path))'])], **P)
from .tree import PB, NB
# ------------------------------------------------------------------ filtering
REG.hom('keptby', '[Node]', '[Node]', 'e', "(e,) if cond(path + (e,)) else ()", extra=[('path', '[Node]'), ('cond', PB)])
REG.hom('droppedby', '[Node]', '[Node]', 'e', "() if cond(path + (e,)) else (e,)", extra=[('path', '[Node]'), ('cond', PB)])
for fn, h in (('keep_children_if', 'keptby'), ('remove_children_if', 'droppedby')):
    C(M, fn, {'path': PATH, 'condition': PB}, 'none', requires=NE, modifies=[f'{LAST}._result', f'{LAST}._children'],
      ensures=[f'{LAST}._children == {h}(old({LAST}._children), seq(path), condition)', f'implies(old(len({LAST}._children)) == 0, {LAST}._result == old({LAST}._result))'], comps=[f'{h}({LAST}._children, seq(path), condition)'], **P)
LO, HI = f'lo_of(section.start, old(len({LAST}._children)))', f'hi_of(section.stop, old(len({LAST}._children)))'
C(M, 'keep_children', {'path': PATH, 'section': 'slice'}, 'none', requires=NE + ['section.step is None'], modifies=[f'{LAST}._result', f'{LAST}._children'],
  ensures=[f'{LAST}._children == ite({LO} <= {HI}, old({LAST}._children)[{LO}:{HI}], ())', f'implies(old(len({LAST}._children)) == 0, {LAST}._result == old({LAST}._result))'], **P)
REG.hom('others', '[Node]', '[Node]', 'e', "(e,) if e is not n else ()", extra=[('n', 'Node')])
C(M, 'remove', {'path': PATH}, 'none', modifies=['*Node._result', '*Node._children'], requires=NE,
  ensures=[f'implies(len(path) > 1, {UP}._children == others(old({UP}._children), {LAST}))', 'implies(len(path) <= 1, forall(lambda x: x._children == old(x._children), kinds={"x": "Node"}))'],
  comps=[f'others({UP}._children, {LAST})'], **P)
SUFFIX = 'forall(lambda x: len(x._children) <= old(len(x._children)) and x._children == old(x._children)[old(len(x._children)) - len(x._children):], kinds={"x": "Node"}, trigger=(x._children))'
PREFIX = 'forall(lambda x: len(x._children) <= old(len(x._children)) and x._children == old(x._children)[:len(x._children)], kinds={"x": "Node"}, trigger=(x._children))'
LEAVES = 'forall(lambda x: implies(old(len(x._children)) == 0, x._result == old(x._result)), kinds={"x": "Node"}, trigger=(x._result))'
STRIPMOD = ['*Node._result', '*Node._children']
C(M, 'lstrip', {'path': PATH, 'condition': '$Cond'}, 'none', requires=NE, modifies=STRIPMOD, ensures=[SUFFIX, LEAVES], loops=[Loop([SUFFIX, LEAVES, 'i >= 0']), Loop(['0 <= i', 'i <= L'], dec='L - i')], **P)
C(M, 'rstrip', {'path': PATH, 'condition': '$Cond'}, 'none', requires=NE, modifies=STRIPMOD, ensures=[PREFIX, LEAVES], loops=[Loop([PREFIX, LEAVES, '0 <= i', 'i <= L']), Loop(['0 <= i', 'i <= L'], dec='i')], **P)
C(M, 'collapse', {'path': PATH}, 'none', requires=NE, modifies=MODT + ['*StringView._fullstring', '*Node._pos'], ensures=[f'text({LAST}) == old(text({LAST}))', SAMETEXT, f'len({LAST}._children) == 0'], loops=[Loop([SAMETEXT])], **P)
# (the text of the tree is left to the bounded search: it needs the subtrees to be disjoint)
C(M, 'lean_left', {'path': PATH, 'operators': 'set[str]'}, 'none', requires=NE, modifies=MODT + ['*Node._pos'], raises=[('AssertionError', 'True', False)],
  ensures=['forall(lambda x: implies(old(x.name) in operators, x.name in operators), kinds={"x": "Node"})', f'{LAST}.name in operators'], **P)
