"""Contracts for the parser combinators (properties C06, C07): DHParser.parse

A sub-parser is known only by its interface contract (Parser.__call__): whether it matches at a location and where the match ends
are functions pok, pend of the parser and the location. Each combinator is proved to follow its PEG rule relative to these."""
from pyvc.engine import REG, LoopSpec as Loop, SV
from pyvc.theory import *
import z3
from . import common, tree, c10_node, c01_stringview
from .tree import RES
C, S, K = REG.contract, REG.spec, REG.klass
M = 'parse'
P = {'props': ['C06', 'C07']}
P6 = {'props': ['C06']}

S('reverse', [('s', 'str')], 'str', 's[::-1]')

def _empty_node(ex):
    """the frozen node nodetree.EMPTY_NODE: never modified"""
    v = SV(('ref', 'Node'), z3.Const('param!G$EMPTY_NODE', Ref))
    if not ex.pure:
        ex.ref_facts(v); ex.assume(BIRTH(v.t) <= 0)
        ex.V.assumptions.add('EMPTY_NODE (a frozen node) has the name ":EMPTY" and the empty string as content and is never modified')
        for e in ("v.name == ':EMPTY'", 'len(v._children) == 0', "isa(v._result, str) and v._result == ''", "text(v) == ''"):
            ex.assume(ex.spec_bool(e, E.Env(v=v)))
    return v
import pyvc.engine as E
REG.globals[('nodetree', 'EMPTY_NODE')] = _empty_node

K('Grammar', 'parse', {'text__': 'str', 'document__': 'StringView', '_reversed__': 'StringView', 'document_length__': 'int', 'last_rb__loc__': 'int', 'suspend_memoization__': 'bool',
                       'ff_pos__': 'int', 'ff_parser__': 'Parser', 'history_tracking__': 'bool', 'rollback__': 'list[(int,$Undo)]', 'variables__': 'dict[str,list[str]]', 'left_recursion__': 'bool'}, frozen=['rollback__', 'variables__', 'text__', 'document__', 'document_length__'], truthy=True,
  inv=['self.document_length__ == len(self.text__)', 'view(self.document__) == self.text__', 'self.document__._text == self.text__', 'len(view(self._reversed__)) == 0 or (self._reversed__._text == reverse(self.text__) and self._reversed__._begin == 0 and self._reversed__._end == len(self.text__))'])
K('Parser', 'parse', {'node_name': 'str', 'pname': 'str', 'disposable': 'bool', 'drop_content': 'bool', '_grammar': 'Grammar', 'visited': 'dict[int,(Node?,int)]'}, truthy=True,
  frozen=True, inv=['len(self.node_name) >= 1', 'implies(self.drop_content, self.disposable)'], alias={'_parse_proxy': '_parse'})
for c in ('LeafParser', 'CombinedParser'): K(c, 'parse', {}, bases=('Parser',), truthy=True)
REG.classes['CombinedParser'].alias.update({'_return_value': '_return_value_flatten', '_return_values': '_return_values_flatten'})
K('UnaryParser', 'parse', {'parser': 'Parser'}, frozen=True, bases=('CombinedParser',), truthy=True, inv=['self.parser._grammar is self._grammar'])
K('NaryParser', 'parse', {'parsers': '[Parser]'}, frozen=True, bases=('CombinedParser',), truthy=True,
  inv=['forall(lambda i: self.parsers[i]._grammar is self._grammar, 0, len(self.parsers))'])
for c in ('Option', 'OneOrMore', 'Synonym'): K(c, 'parse', {}, bases=('UnaryParser',), truthy=True)
K('ZeroOrMore', 'parse', {}, bases=('Option',), truthy=True)
K('Counted', 'parse', {'repetitions': '(int,int)'}, frozen=True, bases=('UnaryParser',), truthy=True, inv=['0 <= self.repetitions[0] and self.repetitions[0] <= self.repetitions[1]'])
K('Alternative', 'parse', {}, bases=('NaryParser',), truthy=True)
K('ErrorCatchingNary', 'parse', {'mandatory': 'int'}, frozen=True, bases=('NaryParser',), truthy=True)
K('Series', 'parse', {}, bases=('ErrorCatchingNary',), truthy=True)

S('pok', [('p', 'Parser'), ('loc', 'int')], 'bool')
S('pend', [('p', 'Parser'), ('loc', 'int')], 'int')
# the parser and all its descendants keep their content
S('keeps', [('p', 'Parser')], 'bool')
S('doc', [('p', 'Parser')], 'str', 'p._grammar.text__')
PR = '(Node?,int)'
INDOC = ['0 <= location', 'location <= len(doc(self))']
# frame of parsing: nodes that exist already keep name, result and children; positions, the state of the grammar and memo dictionaries change
MOD = ['*Node._pos', '*Grammar.last_rb__loc__', '*Grammar.suspend_memoization__', '*Grammar.ff_pos__', '*Grammar._reversed__']
ERR = [('ParserError', 'True', False)]
NODEOK = 'implies(result[0] is not None, wf(result[0]))'
C(M, 'Parser.__call__', {'self': 'Parser', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR,
  ensures=['(result[0] is not None) == pok(self, old(location))', 'result[1] == pend(self, old(location))', 'location <= result[1]', 'result[1] <= len(doc(self))',
           'implies(result[0] is None, result[1] == old(location))', NODEOK,
           'implies(keeps(self) and result[0] is not None, text(result[0]) == doc(self)[location:result[1]])'],
  trusted=True, note='interface of all parsers; each class is proved to fulfil it relative to its sub-parsers')

RV = [NODEOK.replace('result[0]', 'result'), 'implies(self.drop_content, text(result) == "")']
RV1 = RV + ['implies(not self.drop_content, text(result) == ite(node is None, "", text(node)))']
RVN = RV + ['implies(not self.drop_content, text(result) == texts(results))']
RQ1 = ['implies(node is not None, wf(node))']
RQN = ['wfs(results)']
for f in ('_return_value_flatten', '_return_value_no_optimization'):
    C(M, 'CombinedParser.' + f, {'self': 'CombinedParser', 'node': 'Node?'}, 'Node', requires=RQ1, ensures=RV1, **P)
C(M, 'CombinedParser._return_values_no_tree_reduction', {'self': 'CombinedParser', 'results': '[Node]'}, 'Node', requires=RQN, ensures=RVN, **P)
FLAT = ['wfs(seq(nr))', 'texts(seq(nr)) == texts(results[:_i])']
ONE = ['results == (results[0],)', 'results == ()']
FH = ['texts(results[:_i])', 'texts(results[:_i+1])']
C(M, 'CombinedParser._return_values_flatten', {'self': 'CombinedParser', 'results': '[Node]'}, 'Node', requires=RQN, ensures=RVN, locals={'nr': 'list[Node]'},
  loops=[Loop(FLAT, hints=FH)], entry_hints=ONE, **P)
C(M, 'CombinedParser._return_values_merge_treetops', {'self': 'CombinedParser', 'results': '[Node]'}, 'Node', requires=RQN, ensures=RVN, locals={'nr': 'list[Node]'},
  loops=[Loop(FLAT + ['implies(merge, forall(lambda i: len(nr[i]._children) == 0, 0, len(nr)))'], hints=FH),
         Loop(['implies(merge, atloop(merge))', 'implies(merge, forall(lambda i: len(grandchildren[i]._children) == 0, 0, _i))'])], entry_hints=ONE,
  comps=['lambda s: texts(s)'], **P)
KEPT = 'implies(not self.drop_content and keeps(self.parser) and result[0] is not None, text(result[0]) == doc(self)[old(location):result[1]])'
LOC = ['old(location) <= result[1] and result[1] <= len(doc(self))', 'implies(result[0] is None, result[1] == old(location))']
BASE = LOC + [NODEOK]
C(M, 'Option._parse', {'self': 'Option', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR,
  ensures=['result[0] is not None', 'result[1] == pend(self.parser, old(location))'] + BASE + [KEPT], **P)
# greedy repetition: the place where the repeated application of p at loc ends (an empty match ends the repetition)
S('star', [('p', 'Parser'), ('loc', 'int')], 'int', 'ite(pok(p, loc) and pend(p, loc) > loc, star(p, pend(p, loc)), loc)', recursive=True)
# k mandatory repetitions (an empty match can be repeated any number of times); -1: failure
S('times', [('p', 'Parser'), ('loc', 'int'), ('k', 'int')], 'int',
  'ite(k <= 0, loc, ite(not pok(p, loc), -1, ite(pend(p, loc) <= loc, loc, times(p, pend(p, loc), k - 1))))', recursive=True)
# up to k further repetitions
S('upto', [('p', 'Parser'), ('loc', 'int'), ('k', 'int')], 'int', 'ite(k > 0 and pok(p, loc) and pend(p, loc) > loc, upto(p, pend(p, loc), k - 1), loc)', recursive=True)
RES_OK = 'wfs(results)'
RTEXT = 'implies(keeps(self.parser), texts(results) == doc(self)[old(location):location])'
INV = ['old(location) <= location and location <= len(doc(self))', RES_OK, RTEXT]
C(M, 'infinite_loop_warning', {'parser': 'Parser', 'node': 'Node?', 'location': 'int'}, 'none', trusted=True, note='adds a warning to the tree of the grammar', **P)
C(M, 'ZeroOrMore._parse', {'self': 'ZeroOrMore', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR, locals={'results': '[Node]'},
  loops=[Loop(INV + ['star(self.parser, location) == star(self.parser, old(location))'], dec='len(doc(self)) - location')],
  ensures=['result[0] is not None', 'result[1] == star(self.parser, old(location))'] + BASE + [KEPT], **P)
C(M, 'OneOrMore._parse', {'self': 'OneOrMore', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR, locals={'results': '[Node]'},
  loops=[Loop(INV + ['star(self.parser, location) == star(self.parser, old(location))', 'match_flag == (location > old(location))'], dec='len(doc(self)) - location')],
  ensures=['(result[0] is not None) == pok(self.parser, old(location))', 'result[1] == star(self.parser, old(location))'] + BASE + [KEPT], **P)
C(M, 'Counted._parse', {'self': 'Counted', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR, locals={'results': '[Node]'},
  loops=[Loop(INV + ['location_ == location', 'times(self.parser, location, self.repetitions[0] - _i) == times(self.parser, old(location), self.repetitions[0])']),
         Loop(INV + ['times(self.parser, old(location), self.repetitions[0]) >= 0',
               'implies(location_ == location, upto(self.parser, location, self.repetitions[1] - self.repetitions[0] - _i) == upto(self.parser, times(self.parser, old(location), self.repetitions[0]), self.repetitions[1] - self.repetitions[0]))',
              'location_ == location'])],
  ensures=['(result[0] is not None) == (times(self.parser, old(location), self.repetitions[0]) >= 0)',
           'result[1] == ite(result[0] is not None, upto(self.parser, times(self.parser, old(location), self.repetitions[0]), self.repetitions[1] - self.repetitions[0]), old(location))'] + BASE + [KEPT], **P)
NKEPT = 'implies(not self.drop_content and forall(lambda i: keeps(self.parsers[i]), 0, len(self.parsers)) and result[0] is not None, text(result[0]) == doc(self)[old(location):result[1]])'
C(M, 'Alternative._parse', {'self': 'Alternative', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR,
  loops=[Loop(['forall(lambda i: not pok(self.parsers[i], location), 0, _i)', 'location == old(location)'])],
  ensures=['(result[0] is not None) == exists(lambda i: pok(self.parsers[i], old(location)), 0, len(self.parsers))',
           'implies(result[0] is not None, exists(lambda i: pok(self.parsers[i], old(location)) and forall(lambda j: not pok(self.parsers[j], old(location)), 0, i) and result[1] == pend(self.parsers[i], old(location)), 0, len(self.parsers)))'] + BASE + [NKEPT], **P)
# the place where the parsers from the k-th on end if applied one after the other at loc, -1: one of them fails
S('seqend', [('ps', '[Parser]'), ('k', 'int'), ('loc', 'int')], 'int',
  'ite(k >= len(ps), loc, ite(pok(ps[k], loc), seqend(ps, k + 1, pend(ps[k], loc)), -1))', recursive=True)
NTEXT = 'implies(forall(lambda i: keeps(self.parsers[i]), 0, len(self.parsers)), texts(seq(results)) == doc(self)[location:location_])'
SERINV = ['location <= location_ and location_ <= len(doc(self))', 'wfs(seq(results))', NTEXT, 'seqend(self.parsers, _i, location_) == seqend(self.parsers, 0, location)']
C(M, 'Series._quick_parse', {'self': 'Series', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR, locals={'results': 'list[Node]'},
  loops=[Loop(SERINV)],
  ensures=['(result[0] is not None) == (seqend(self.parsers, 0, old(location)) >= 0)', 'result[1] == ite(result[0] is not None, seqend(self.parsers, 0, old(location)), old(location))'] + BASE + [NKEPT], **P)

# ------------------------------------------------------------------ parsers that read the document themselves
K('Text', 'parse', {'text': 'str', 'len': 'int'}, frozen=True, bases=('Parser',), truthy=True, inv=['self.len == len(self.text)'])
# IgnoreCase.text is in lower case and may differ in length from the text that was given
K('IgnoreCase', 'parse', {'text': 'str', 'len': 'int'}, frozen=True, bases=('Parser',), truthy=True, inv=['self.len >= 0'])
K('RegExp', 'parse', {'regexp': '$Regex'}, frozen=True, bases=('Parser',), truthy=True)
K('Whitespace', 'parse', {'keep_comments': 'bool'}, frozen=True, bases=('RegExp',), truthy=True)
for c in ('AnyChar', 'Always', 'Never'): K(c, 'parse', {}, bases=('Parser',), truthy=True)
LKEPT = 'implies(not self.drop_content and result[0] is not None, text(result[0]) == doc(self)[old(location):result[1]])'
DROP = 'implies(self.drop_content and result[0] is not None, text(result[0]) == "")'
LEAF = BASE + [LKEPT, DROP]
def here(s): return s.replace('HERE', 'doc(self)[old(location):min(old(location)+self.len, len(doc(self)))]')
C(M, 'Text._parse', {'self': 'Text', 'location': 'int'}, PR, requires=INDOC,
  ensures=[here('(result[0] is not None) == (HERE == self.text)'), 'result[1] == ite(result[0] is not None, old(location) + self.len, old(location))'] + LEAF, **P)
C(M, 'IgnoreCase._parse', {'self': 'IgnoreCase', 'location': 'int'}, PR, requires=INDOC,
  ensures=[here('(result[0] is not None) == (HERE.lower() == self.text)'),
           here('result[1] == ite(result[0] is not None and (self.text != "" or not self.disposable or self.drop_content), old(location) + len(HERE), old(location))')] + LEAF, **P)
RXM = 'self.regexp.match(doc(self), old(location))'
RXEND = 'ite(RXM is None or (RXM.group(0) == "" and self.disposable), old(location), RXM.end())'.replace('RXM', RXM)
C(M, 'RegExp._parse', {'self': 'RegExp', 'location': 'int'}, PR, requires=INDOC,
  ensures=[f'(result[0] is not None) == ({RXM} is not None)', f'result[1] == {RXEND}'] + LEAF, **P)
C(M, 'Whitespace._parse', {'self': 'Whitespace', 'location': 'int'}, PR, requires=INDOC,
  ensures=['result[0] is not None', f'result[1] == {RXEND}'] + BASE + [LKEPT, 'implies(self.drop_content and not self.keep_comments, text(result[0]) == "")'], **P)
C(M, 'AnyChar._parse', {'self': 'AnyChar', 'location': 'int'}, PR, requires=INDOC,
  ensures=['(result[0] is not None) == (old(location) < len(doc(self)))', 'result[1] == ite(result[0] is not None, old(location) + 1, old(location))'] + BASE + [LKEPT], **P)
C(M, 'Always._parse', {'self': 'Always', 'location': 'int'}, PR, requires=INDOC, ensures=['result[0] is not None', 'result[1] == old(location)'] + LEAF, **P)
C(M, 'Never._parse', {'self': 'Never', 'location': 'int'}, PR, requires=INDOC, ensures=['result[0] is None', 'result[1] == old(location)'], **P)

# ------------------------------------------------------------------ lookahead, lookbehind, synonym
K('FlowParser', 'parse', {}, bases=('UnaryParser',), truthy=True)
K('Lookahead', 'parse', {}, bases=('FlowParser',), truthy=True)
K('NegativeLookahead', 'parse', {}, bases=('Lookahead',), truthy=True)
K('Lookbehind', 'parse', {'regexp': '$Regex?', 'text': 'str'}, frozen=True, bases=('FlowParser',), truthy=True)
K('NegativeLookbehind', 'parse', {}, bases=('Lookbehind',), truthy=True)
C(M, 'FlowParser.match', {'self': 'FlowParser', 'bool_value': 'bool|$Match|none'}, 'bool|$Match|none', ensures=['iff(result, bool_value)'], **P)
NEGM = dict(modifies=['*Grammar.ff_pos__'], ensures=['iff(result, not bool_value)'])
C(M, '_negative_match', {'grammar': 'Grammar', 'bool_value': 'bool|$Match|none'}, 'bool', **NEGM, **P)
for c in ('Lookahead', 'Lookbehind'):
    C(M, f'Negative{c}.match', {'self': f'Negative{c}', 'bool_value': 'bool|$Match|none'}, 'bool', **NEGM, **P)
ZERO = ['result[1] == old(location)'] + BASE + ['implies(result[0] is not None, text(result[0]) == "")']
for v, neg in (('Lookahead', ''), ('NegativeLookahead', 'not ')):
    C(M, 'Lookahead._parse', {'self': v, 'location': 'int'}, PR, variant=v, requires=INDOC, modifies=MOD, raises=ERR,
      ensures=[f'(result[0] is not None) == ({neg}pok(self.parser, old(location)))'] + ZERO, **P)
C(M, 'Synonym._parse', {'self': 'Synonym', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR,
  ensures=['(result[0] is not None) == pok(self.parser, old(location))', 'result[1] == pend(self.parser, old(location))'] + BASE + [KEPT, DROP], **P)
C(M, 'Grammar.reversed__', {'self': 'Grammar'}, 'StringView', modifies=['self._reversed__'], ensures=['result._begin == 0 and result._end == len(self.text__)', 'result._text == reverse(self.text__)'], **P)
# lookbehind parsers look at the reversed text before the location
for v, neg in (('Lookbehind', ''), ('NegativeLookbehind', 'not ')):
    C(M, 'Lookbehind._parse', {'self': v, 'location': 'int'}, PR, variant=v, requires=INDOC, modifies=['*Grammar.ff_pos__', '*Grammar._reversed__'],
      ensures=[f'(result[0] is not None) == ({neg}ite(self.regexp is None, len(self.text) <= old(location) and reverse(doc(self))[len(doc(self)) - old(location):len(doc(self)) - old(location) + len(self.text)] == self.text, self.regexp.match(reverse(doc(self)), len(doc(self)) - old(location), len(doc(self))) is not None))'] + ZERO, **P)

# ------------------------------------------------------------------ sequences with mandatory items
K('SmartRE', 'parse', {'pattern': 'str'}, frozen=True, bases=('CombinedParser',), truthy=True)
C(M, 'is_context_sensitive', {'parser': 'Parser'}, 'bool', trusted=True, note='only used for the wording of error messages', **P)
C(M, 'Parser.__str__', {'self': 'Parser'}, 'str', ensures=['len(result) >= 1'], trusted=True, note='only used for the wording of error messages', **P)
C(M, 'Parser.repr', {'self': 'Parser'}, 'str', ensures=['len(result) >= 1'], trusted=True, note='only used for the wording of error messages', **P)
C(M, 'ErrorCatchingNary.get_reentry_point', {'self': 'ErrorCatchingNary', 'location': 'int'}, '(int,Node)', requires=INDOC, modifies=MOD,
  ensures=['-1 <= result[0]', 'location + result[0] <= len(doc(self))', 'wf(result[1])', 'fresh(result[1])', 'result[1]._pos == -1', 'len(result[1]._children) == 0',
           'implies(forall(lambda i: keeps(self.parsers[i]), 0, len(self.parsers)), text(result[1]) == doc(self)[location:location+max(result[0], 0)])'], trusted=True,
  note='search of a place to continue after an error (skip rules: user-supplied functions and parsers)', **P)
C(M, 'ErrorCatchingNary.mandatory_violation', {'self': 'ErrorCatchingNary', 'location': 'int', 'failed_on_lookahead': 'bool', 'expected': 'str', 'reloc': 'int', 'err_node': 'Node'},
  '(Error,int)', requires=INDOC, modifies=MOD, ensures=['result[1] == old(location) + max(reloc, 0)'], trusted=True, note='creates the error and adds it to the tree', **P)
C(M, 'ErrorCatchingNary.error_result', {'self': 'ErrorCatchingNary', 'node': 'Node', 'results': '[Node]', 'location': 'int'}, 'Node', requires=['wf(node)', 'wfs(results)', 'location >= 0'],
  modifies=['*Node._pos'], ensures=['wf(result)'], trusted=True, **P)
K('ParserError', 'parse', {'parser': 'Parser', 'node': 'Node', 'node_orig_len': 'int', 'location': 'int', 'error': 'Error', 'first_throw': 'bool'}, truthy=True)
C(M, 'ParserError.__init__', {'self': 'ParserError', 'parser': 'Parser', 'node': 'Node', 'node_orig_len': 'int', 'location': 'int', 'error': 'Error', 'first_throw': 'bool'}, 'none',
  trusted=True, note='stores its arguments', **P)
ALLKEEP = 'forall(lambda i: keeps(self.parsers[i]), 0, len(self.parsers))'
C(M, 'Series._parse', {'self': 'Series', 'location': 'int'}, PR, requires=INDOC, modifies=MOD, raises=ERR, locals={'results': 'list[Node]', 'error': 'Error?'}, unbound={'reloc': 'int'},
  loops=[Loop(['location <= location_ and location_ <= len(doc(self))', 'wfs(seq(results))', NTEXT, 'location == old(location)', 'mandatory == self.mandatory',
               'implies(error is None, seqend(self.parsers, _i, location_) == seqend(self.parsers, 0, location))',
               'implies(error is not None, seqend(self.parsers, 0, location) < 0)', 'implies(error is not None, reloc >= 0)'])],
  ensures=['implies(seqend(self.parsers, 0, old(location)) >= 0, result[0] is not None and result[1] == seqend(self.parsers, 0, old(location)))',
           'implies(result[0] is None, seqend(self.parsers, 0, old(location)) < 0)'] + BASE + [NKEPT], **P)

# ------------------------------------------------------------------ merging of anonymous leaves
PEND = 'ite(tail_is_anonymous_leaf, texts(seq(merged)) + join(seq(bunch)) + text(tail), texts(seq(merged)))'
C(M, 'CombinedParser._return_values_merge_leaves', {'self': 'CombinedParser', 'results': '[Node]'}, 'Node', requires=RQN, ensures=RVN,
  locals={'nr': 'list[Node]', 'merged': 'list[Node]', 'bunch': 'list[str]'}, unbound={'tail': 'Node', 'pos': 'int'}, modifies=['*Node._pos'],
  loops=[Loop(FLAT, hints=FH),
         Loop(['fresh(bunch)', 'wfs(seq(merged))', 'implies(tail_is_anonymous_leaf, wf(tail) and len(tail._children) == 0)', 'implies(not tail_is_anonymous_leaf, len(bunch) == 0)',
               'implies(_i > 0, len(merged) > 0 or tail_is_anonymous_leaf)', "texts(seq(nr)[:_i]) == " + PEND.replace('join(seq(bunch))', "''.join(seq(bunch))")],
              hints=['texts(seq(nr)[:_i])', 'texts(seq(nr)[:_i+1])', 'seq(merged) == (merged[0],)'])], entry_hints=ONE, **P)
