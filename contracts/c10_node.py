"""Contracts for Node (properties C10, C11)"""
from pyvc.engine import REG, LoopSpec as Loop
from . import common, tree
from .tree import RES
C, S, K = REG.contract, REG.spec, REG.klass
M = 'nodetree'
P = {'props': ['C10']}
SAMETEXT = 'forall(lambda x: text(x) == old(text(x)), kinds={"x": "Node"}, trigger=(text(x), old(text(x))))'
# if all results below the node are plain strings, then reading the content does not write
NOWRITE = 'implies(old(wf(self)), forall(lambda x: isa(x._result, str) == isa(old(x._result), str), kinds={"x": "Node"}, trigger=(x._result)))'
C(M, 'Node._leaf_data', {'self': 'Node'}, 'list[str]', modifies=['*Node._result', '*StringView._fullstring'],
  ensures=["''.join(seq(result)) == old(text(self))", SAMETEXT, NOWRITE], fresh=True,
  loops=[Loop(["''.join(seq(fragments)) == old(texts(self._children[:_i]))", SAMETEXT, NOWRITE])], variant='', locals={'fragments': 'list[str]'}, **P)
C(M, 'Node.content', {'self': 'Node'}, 'str', modifies=['*Node._result', '*StringView._fullstring'],
  ensures=["result == old(text(self))", SAMETEXT, NOWRITE], locals={'fragments': 'list[str]'},
  loops=[Loop(["''.join(seq(fragments)) == old(texts(self._children[:_i]))", SAMETEXT, NOWRITE])], **P)

C(M, 'Node.strlen', {'self': 'Node'}, 'int', ensures=['result == len(text(self))'], comps=['lambda s: len(texts(s))'], **P)
C(M, 'Node.children', {'self': 'Node'}, '[Node]', ensures=['result == self._children'], **P)
C(M, 'Node.result', {'self': 'Node'}, RES, ensures=['result == self._result'], **P)
C(M, 'Node.pos', {'self': 'Node'}, 'int', raises=[('AssertionError', 'self._pos < 0')], ensures=['result == self._pos'], **P)
C(M, 'Node.anonymous', {'self': 'Node'}, 'bool', ensures=["result == (self.name == '' or self.name[0] == ':')"], **P)
SETR = ["isa(self._result, tuple) == (len(self._children) > 0)", "implies(isa(self._result, tuple), as_kind(self._result, '[Node]') == self._children)",
   "implies(isa(old({r}), tuple) and len(self._children) == 0, isa(self._result, str) and self._result == '')",
   "implies(isa(old({r}), str), isa(self._result, str))",
   "implies(isa(old({r}), Node), self._children == (as_kind(old({r}), 'Node'),))", "implies(isa(old({r}), tuple), self._children == as_kind(old({r}), '[Node]'))",
   "implies(not isa(old({r}), Node) and not isa(old({r}), tuple), self._children == ())",
   "implies(isa(old({r}), str), self._result == old({r}))", "implies(isa(old({r}), StringView), not isa(self._result, tuple) and text(self) == view(as_kind(old({r}), 'StringView')))"]
C(M, 'Node._set_result', {'self': 'Node', 'result': RES + '|Node'}, 'none', modifies=['self._children', 'self._result'],
  ensures=[e.format(r='result') for e in SETR], **P)
P11 = {'props': ['C11', 'C10']}
C(M, 'Node.walk_tree.walk_recursive', {'nd': 'Node'}, closure={'reverse': 'bool'}, yields='Node', ensures=['result == desc(nd, reverse)'],
  loops=[Loop(['seq(__yield__) == descs(_it[:_i], reverse)'])], **P11)
C(M, 'Node.walk_tree', {'self': 'Node', 'include_root': 'bool', 'reverse': 'bool'}, yields='Node',
  ensures=['result == ite(include_root, (self,) + desc(self, reverse), desc(self, reverse))'], **P11)
from .tree import NB, PB
CL = {'match_func': NB, 'reverse': 'bool', 'skip_func': NB}
C(M, 'Node.select_if.select_if_recursive', {'nd': 'Node'}, closure=CL, yields='Node', ensures=['result == selected(nd, match_func, skip_func, reverse)'],
  loops=[Loop(['seq(__yield__) == selecteds(_it[:_i], match_func, skip_func, reverse)'])], **P11)
SELECTED = 'selected(self, {m}, {k}, reverse)'
C(M, 'Node.select_if', {'self': 'Node', 'match_func': NB, 'include_root': 'bool', 'reverse': 'bool', 'skip_func': NB}, yields='Node',
  ensures=['result == ite(include_root, ite(match_func(self), (self,), ()) + ite(skip_func(self), (), selected(self, match_func, skip_func, reverse)), selected(self, match_func, skip_func, reverse))'], **P11)
CLP = {'match_func': PB, 'reverse': 'bool', 'skip_func': PB}
C(M, 'Node.select_path_if.recursive', {'path': 'list[Node]'}, closure=CLP, yields='[Node]', requires=['len(path) > 0'],
  ensures=['result == selpaths(path, match_func, skip_func, reverse)'],
  loops=[Loop(['seq(__yield__) == selpathss(_it[:_i], path, match_func, skip_func, reverse)'])], **P11)
C(M, 'Node.select_path_if', {'self': 'Node', 'match_func': PB, 'include_root': 'bool', 'reverse': 'bool', 'skip_func': PB}, yields='[Node]',
  ensures=['result == ite(include_root, ite(match_func((self,)), ((self,),), ()) + ite(skip_func((self,)), (), selpaths((self,), match_func, skip_func, reverse)), selpaths((self,), match_func, skip_func, reverse))'], **P11)
FRAMEPOS = []
WP = ['*Node._pos']
C(M, 'Node.with_pos', {'self': 'Node', 'pos': 'int'}, 'Node', modifies=WP, raises=[('AssertionError', 'self._pos >= 0 and pos != self._pos')],
  ensures=['result is self', 'self._pos == ite(old(self._pos) >= 0 or old(pos) < 0, old(self._pos), old(pos))',
           'implies(old(pos) >= 0 and old(self._pos) < 0 and forall(lambda j: old(desc(self, False)[j]._pos) < 0, 0, len(desc(self, False)))'
           ' and forall(lambda j, k: implies(j < k, desc(self, False)[j] is not desc(self, False)[k]), 0, len(desc(self, False)))'
           ' and forall(lambda j: desc(self, False)[j] is not self, 0, len(desc(self, False))),'
           ' forall(lambda j: desc(self, False)[j]._pos == old(pos) + len(leaftexts(desc(self, False)[:j])), 0, len(desc(self, False))))',
           'forall(lambda x: implies(old(x._pos) >= 0, x._pos == old(x._pos)), kinds={"x": "Node"})'],
  loops=[Loop(['forall(lambda x: implies(old(x._pos) >= 0, x._pos == old(x._pos)), kinds={"x": "Node"})', 'pos >= 0', 'self._pos == old(pos)',
               'implies(forall(lambda j: old(_it[j]._pos) < 0, 0, len(_it)) and forall(lambda j, k: implies(j < k, _it[j] is not _it[k]), 0, len(_it)) and forall(lambda j: _it[j] is not self, 0, len(_it)),'
               ' pos == old(pos) + len(leaftexts(_it[:_i])) and forall(lambda j: _it[j]._pos == old(pos) + len(leaftexts(_it[:j])), 0, _i) and forall(lambda j: _it[j]._pos < 0, _i, len(_it)))'],
              hints=['leaftexts(_it[:_i])', 'leaftexts(_it[:_i+1])'])], **P)
C(M, 'Node.result@setter', {'self': 'Node', 'result': RES + '|Node'}, 'none', modifies=['self._children', 'self._result', '*Node._pos'],
  ensures=[e.format(r='result') for e in SETR] + ['self._pos == old(self._pos)', 'forall(lambda x: implies(old(x._pos) >= 0, x._pos == old(x._pos)), kinds={"x": "Node"})'], **P)
MODCH = ['self._children', 'self._result', '*Node._pos']
POSKEPT = ['self._pos == old(self._pos)', 'forall(lambda x: implies(old(x._pos) >= 0, x._pos == old(x._pos)), kinds={"x": "Node"})']
LEAFTEXT = 'len(self._children) == 0 and self._result'
C(M, 'Node.insert', {'self': 'Node', 'index': 'int', 'node': 'Node'}, 'none', modifies=MODCH,
  raises=[('ValueError', 'len(self._children) == 0 and len(text(self)) > 0')],
  ensures=['self._children == old(self._children)[:clampidx(index, len(old(self._children)))] + (node,) + old(self._children)[clampidx(index, len(old(self._children))):]'] + POSKEPT, **P)
C(M, 'Node.remove', {'self': 'Node', 'node': 'Node'}, 'none', modifies=MODCH, comps=['without(self._children, node)'],
  raises=[('ValueError', 'not exists(lambda i: self._children[i] is node, 0, len(self._children))')],
  ensures=['self._children == old(without(self._children, node))'] + POSKEPT, **P)
C(M, 'Node.__getitem__', {'self': 'Node', 'key': 'int'}, 'Node', variant='int',
  raises=[('ValueError', 'len(self._children) == 0 and len(text(self)) > 0'), ('IndexError', '(len(self._children) > 0 or len(text(self)) == 0) and not (-len(self._children) <= key and key < len(self._children))')],
  ensures=['result is self._children[ite(key < 0, key + len(self._children), key)]'], **P)
C(M, 'Node.__delitem__', {'self': 'Node', 'key': 'int'}, 'none', variant='int', modifies=MODCH,
  raises=[('ValueError', 'len(self._children) == 0 and len(text(self)) > 0'), ('IndexError', '(len(self._children) > 0 or len(text(self)) == 0) and not (-len(self._children) <= key and key < len(self._children))')],
  ensures=['self._children == old(self._children)[:ite(key < 0, key + len(old(self._children)), key)] + old(self._children)[ite(key < 0, key + len(old(self._children)), key) + 1:]'] + POSKEPT, **P)
C(M, 'Node.__setitem__', {'self': 'Node', 'key': 'int', 'value': 'Node'}, 'none', variant='int', modifies=MODCH,
  raises=[('ValueError', 'len(self._children) == 0'), ('IndexError', 'len(self._children) > 0 and not (-len(self._children) <= key and key < len(self._children))')],
  ensures=['len(self._children) == len(old(self._children))', 'self._children[ite(key < 0, key + len(old(self._children)), key)] is value',
           'forall(lambda i: implies(i != ite(key < 0, key + len(old(self._children)), key), self._children[i] is old(self._children)[i]), 0, len(self._children))'] + POSKEPT, **P)
for nm, kind, cond in (('name', 'str', 'x.name == criterion'), ('node', 'Node', 'x is criterion')):
    C(M, 'create_match_function', {'criterion': kind}, NB, variant=nm, ensures=[f'forall(lambda x: result(x) == ({cond}), kinds={{"x": "Node"}}, trigger=result(x))'], **P11)
C(M, 'create_match_function', {'criterion': NB}, NB, variant='fn', ensures=['result == criterion'], trusted=True,
  note='callables are returned unchanged after a check of their annotations')
C(M, 'Node.__init__', {'self': 'Node', 'name': 'str', 'result': RES + '|Node', 'leafhint': 'bool'}, 'none', modifies=['self.name', 'self._pos', 'self._children', 'self._result'],
  requires=['implies(leafhint, not isa(result, tuple) and not isa(result, Node))'],
  ensures=['self.name == name', 'self._pos == -1'] + [e.format(r='result') for e in SETR] +
          ['text(self) == ite(isa(old(result), Node), text(as_kind(old(result), "Node")), ite(isa(old(result), tuple), texts(as_kind(old(result), "[Node]")), ite(isa(old(result), str), old(result), view(as_kind(old(result), "StringView")))))'], **P)

# ------------------------------------------------------------------ attributes (values are modelled as strings)
ATTRS = {'props': ['C10', 'C14']}
C(M, 'Node.has_attr', {'self': 'Node', 'attr': 'str'}, 'bool',
  ensures=["result == (self._attributes is not None and ite(len(attr) > 0, attr in as_kind(self._attributes, 'dict[str,str]'), len(as_kind(self._attributes, 'dict[str,str]')) > 0))"], **ATTRS)
C(M, 'Node.attr', {'self': 'Node'}, 'dict[str,str]', modifies=['self._attributes'],
  ensures=['self._attributes is result', 'implies(old(self._attributes is not None), result is old(self._attributes))', 'implies(old(self._attributes is None), len(result) == 0 and fresh(result))'], **ATTRS)
