"""Contracts for memoization and the context-sensitive parsers (property C08): DHParser.parse"""
import pyvc.engine as E
from pyvc.engine import REG, NONE, LoopSpec as Loop
from pyvc.theory import *
from . import c06_parse
from .c06_parse import PR, INDOC, ERR, NODEOK
C, S, K = REG.contract, REG.spec, REG.klass
M = 'parse'
P = {'props': ['C08']}
REG.callables['Undo'] = lambda ex, f, args, kw: (ex.havoc_comp('L$Str', seq_theory(Str().sort).sort), ex.V.assumptions.add('the functions on the rollback stack only change lists of captured strings (Capture._rollback, Pop._rollback or no effect)'), NONE)[-1]
RB = 'list[(int,$Undo)]'
TOP = lambda g, o='': f'{g}.last_rb__loc__ == ite(len({g}.rollback__) > 0, {g}.rollback__[len({g}.rollback__) - 1][0], -2)'
C(M, 'Grammar.push_rollback__', {'self': 'Grammar', 'location': 'int', 'func': '$Undo'}, 'none', modifies=['self.rollback__[]', 'self.last_rb__loc__', 'self.suspend_memoization__'],
  ensures=['seq(self.rollback__) == old(seq(self.rollback__)) + ((location, func),)', 'self.last_rb__loc__ == location', 'self.suspend_memoization__'], **P)
C(M, 'Grammar.rollback_to__', {'self': 'Grammar', 'location': 'int'}, 'none', modifies=['self.rollback__[]', 'self.last_rb__loc__', '*list[str]'],
  ensures=['len(self.rollback__) <= old(len(self.rollback__))', 'seq(self.rollback__) == old(seq(self.rollback__))[:len(self.rollback__)]',
           'implies(len(self.rollback__) > 0, self.rollback__[len(self.rollback__) - 1][0] < location)',
           'forall(lambda i: old(seq(self.rollback__))[i][0] >= location, len(self.rollback__), old(len(self.rollback__)))', TOP('self')],
  loops=[Loop(['len(self.rollback__) <= old(len(self.rollback__))', 'seq(self.rollback__) == old(seq(self.rollback__))[:len(self.rollback__)]',
               'forall(lambda i: old(seq(self.rollback__))[i][0] >= location, len(self.rollback__), old(len(self.rollback__)))'], dec='len(self.rollback__)')], **P)

# ------------------------------------------------------------------ memoization
# A result that was computed without setting suspend_memoization__ depends on the place in the document only: pok, pend (see c06_parse).
# agree: the result r is the one of parser p at loc
S('agree', [('p', 'Parser'), ('loc', 'int'), ('r', PR)], 'bool', '(r[0] is not None) == pok(p, loc) and r[1] == pend(p, loc)')
# only such results are in the memo dictionary of a parser
S('memo_ok', [('p', 'Parser')], 'bool', 'forall(lambda l: implies(l in p.visited, agree(p, l, p.visited[l]) and l <= p.visited[l][1] and p.visited[l][1] <= len(doc(p)) and implies(p.visited[l][0] is not None, wf(p.visited[l][0])) and implies(p.visited[l][0] is None, p.visited[l][1] == l)), kinds={"l": "int"}, trigger=(p.visited[l]))')
MEMO = ['memo_ok(self)']
MODM = c06_parse.MOD + ['*Grammar.ff_parser__', '*list[(int,$Undo)]', '*list[str]', '*dict[int,(Node?,int)]']
AGREE = ['implies(not self._grammar.suspend_memoization__, agree(self, old(location), result))']
OKN = [NODEOK, 'old(location) <= result[1] and result[1] <= len(doc(self))', 'implies(result[0] is None, result[1] == old(location))']
C(M, 'Parser._parse', {'self': 'Parser', 'location': 'int'}, PR, requires=INDOC, modifies=MODM, raises=ERR, ensures=AGREE + OKN + MEMO, trusted=True,
  note='interface: a result that does not depend on the place alone (captured variables, left recursion) comes with suspend_memoization__ set', **P)
C(M, 'Parser._handle_parsing_error', {'self': 'Parser', 'pe': 'ParserError', 'location': 'int'}, PR, modifies=MODM, raises=ERR, ensures=AGREE + OKN + MEMO, trusted=True,
  note='error recovery: the result counts as the result of the parser at this place', **P)
C(M, 'Parser._handle_recursion_error', {'self': 'Parser', 'location': 'int'}, PR, modifies=MODM, trusted=True, ensures=OKN, note='RecursionError of the interpreter: stops at the end of the document', **P)
C(M, 'Parser.__call__', {'self': 'Parser', 'location': 'int'}, PR, variant='memo', requires=INDOC + MEMO + ['not self._grammar.history_tracking__'], modifies=MODM, raises=ERR,
  ensures=AGREE + OKN + MEMO + ['implies(old(self._grammar.suspend_memoization__), self._grammar.suspend_memoization__)'], **P)
K('NoMemoizationParser', 'parse', {}, bases=('LeafParser',), truthy=True)
LEAFAGREE = ['agree(self, old(location), result)']
C(M, 'Parser._parse', {'self': 'LeafParser', 'location': 'int'}, PR, variant='leaf', requires=INDOC, modifies=MODM, raises=ERR, ensures=LEAFAGREE + OKN + MEMO, trusted=True,
  note='interface of leaf parsers: they read the document only', **P)
C(M, 'Parser._handle_parsing_error', {'self': 'LeafParser', 'pe': 'ParserError', 'location': 'int'}, PR, variant='leaf', modifies=MODM, raises=ERR, ensures=LEAFAGREE + OKN + MEMO, trusted=True, note='error recovery', **P)
LEAFCALLS = {'Parser._parse#leaf': {}, 'Parser._handle_parsing_error#leaf': {}}
C(M, 'LeafParser.__call__', {'self': 'LeafParser', 'location': 'int'}, PR, requires=INDOC + MEMO, modifies=MODM, raises=ERR, calls=LEAFCALLS,
  ensures=LEAFAGREE + OKN + MEMO, **P)
C(M, 'NoMemoizationParser.__call__', {'self': 'Parser', 'location': 'int'}, PR, requires=INDOC + MEMO, modifies=MODM, raises=ERR, ensures=AGREE + OKN + MEMO, **P)

# ------------------------------------------------------------------ captured variables
K('ContextSensitive', 'parse', {}, bases=('UnaryParser',), truthy=True)
K('Capture', 'parse', {}, bases=('ContextSensitive',), truthy=True)
K('Retrieve', 'parse', {'match': '$MatchFunc'}, frozen=True, bases=('ContextSensitive',), truthy=True, inv=['len(self.parser.pname) > 0'])
K('Pop', 'parse', {'values': 'list[str]'}, frozen=True, bases=('Retrieve',), truthy=True)
HERE = 'self._grammar.variables__'
UNDOABLE = '{old} == old(seq(self._grammar.rollback__)) + (({loc}, {fn}),)'
C(M, 'ContextSensitive._rollback_location', {'self': 'ContextSensitive', 'location': 'int', 'location_': 'int'}, 'int', requires=['location <= location_'],
  ensures=['result == ite(location < location_, location, location - 1)'], **P)
STACK = 'self._grammar.variables__[self.pname]'
C(M, 'Capture._rollback', {'self': 'Capture'}, 'str', requires=[f'self.pname in {HERE}', f'len({STACK}) > 0'], modifies=[f'{STACK}[]'],
  ensures=[f'seq({STACK}) == old(seq({STACK}))[:old(len({STACK})) - 1]'], **P)
C(M, 'Capture._parse', {'self': 'Capture', 'location': 'int'}, PR, requires=INDOC + [f'self.pname in {HERE}', 'len(self.pname) > 0', 'not self.parser.drop_content'],
  modifies=c06_parse.MOD + ['*Node._result', '*StringView._fullstring', f'{STACK}[]', 'self._grammar.rollback__[]'], raises=ERR,
  ensures=['(result[0] is not None) == pok(self.parser, old(location))', 'implies(result[0] is not None, result[1] == pend(self.parser, old(location)))', 'implies(result[0] is None, result[1] == old(location))', NODEOK,
           f'implies(result[0] is None, seq({STACK}) == old(seq({STACK})) and seq(self._grammar.rollback__) == old(seq(self._grammar.rollback__)))',
           'implies(result[0] is not None, self._grammar.suspend_memoization__)',
           f'implies(result[0] is not None, len({STACK}) == old(len({STACK})) + 1 and seq({STACK})[:old(len({STACK}))] == old(seq({STACK})))',
           f'implies(result[0] is not None and keeps(self.parser), {STACK}[old(len({STACK}))] == doc(self)[old(location):result[1]])',
           f'implies(result[0] is not None, len(self._grammar.rollback__) == old(len(self._grammar.rollback__)) + 1 and self._grammar.rollback__[old(len(self._grammar.rollback__))][1] == self._rollback)',
           f'implies(result[0] is not None, self._grammar.last_rb__loc__ < result[1] and self._grammar.last_rb__loc__ <= old(location) and self._grammar.last_rb__loc__ == self._grammar.rollback__[old(len(self._grammar.rollback__))][0])'], **P)

# ------------------------------------------------------------------ retrieving captured variables
TOPV = 'seq(stack)[len(stack) - 1]'
C(M, 'last_value', {'text': 'StringView', 'stack': 'list[str]'}, 'str?', variant='view',
  ensures=[f'result == ite(len(stack) > 0, ite(view(text).startswith({TOPV}), {TOPV}, None), None)'], **P)
C(M, 'optional_last_value', {'text': 'StringView', 'stack': 'list[str]'}, 'str?', variant='view', raises=[('IndexError', 'len(stack) == 0')],
  ensures=[f"result == ite(view(text).startswith({TOPV}), {TOPV}, '')"], **P)
BR = f"{TOPV}.replace('(', ')').replace('[', ']').replace('{{', '}}').replace('<', '>')".replace('{{', '{').replace('}}', '}')
C(M, 'matching_bracket', {'text': 'StringView', 'stack': 'list[str]'}, 'str?', variant='view', raises=[('IndexError', 'len(stack) == 0')],
  ensures=[f"result == ite(view(text).startswith({BR}), {BR}, None)"], **P)
def _match(ex, f, args, kw):
    """a match function of the kind MatchVariableFunc: yields None or a string at the beginning of the text; IndexError, if there is no value"""
    ex.V.assumptions.add('match functions passed to Retrieve, Pop read the text and the captured strings only and yield None or a string the text starts with (as last_value, optional_last_value, matching_bracket do), or raise IndexError')
    env = E.Env(text=args[0], stack=args[1])
    if ex.check_sat([ex.spec_bool('len(stack) == 0', env)]) != z3.unsat and ex.nondet():
        ex.assume(ex.spec_bool('len(stack) == 0', env)); raise E.PyExc('IndexError', where='raised by the match function')
    r = ex.fresh('matched', E.parse_kind('str?'))
    ex.assume(ex.spec_bool('implies(r is not None, view(text).startswith(r))', E.Env(text=args[0], stack=args[1], r=r)))
    return r
REG.callables['MatchFunc'] = _match

VARS = 'self._grammar.variables__[self.symbol_pname]'
C(M, 'Retrieve.symbol_pname', {'self': 'Retrieve'}, 'str', ensures=['result == self.parser.pname'], **P)
C(M, 'Retrieve.get_node_name', {'self': 'Retrieve'}, 'str', ensures=["result == ite(self.disposable or len(self.node_name) == 0, self.parser.pname, self.node_name)"], **P)
C(M, 'dsl_error', {'parser': 'Parser', 'node': 'Node', 'error_str': 'str', 'error_code': 'int'}, 'none', trusted=True, note='error report', **P)
RSPEC = ['old(location) <= result[1] and result[1] <= len(doc(self))', 'implies(result[0] is None, result[1] == old(location))', NODEOK,
         "implies(result[0] is not None and not self.drop_content, text(result[0]) == doc(self)[old(location):result[1]])"]
C(M, 'Retrieve.retrieve_and_match', {'self': 'Retrieve', 'location': 'int'}, PR, requires=INDOC + [f'self.parser.pname in {HERE}'],
  modifies=['*Node._pos'], ensures=RSPEC, **P)
NOUNDO = "implies({c}, seq(self._grammar.variables__[self.symbol_pname]) == old(seq(self._grammar.variables__[self.symbol_pname])))"
OLDSTACK, OLDRB = f'old(seq({VARS}))', 'old(seq(self._grammar.rollback__))'
PUSHED = ['self._grammar.suspend_memoization__', f'len(self._grammar.rollback__) == len({OLDRB}) + 1 and seq(self._grammar.rollback__)[:len({OLDRB})] == {OLDRB}',
          f'self._grammar.last_rb__loc__ == self._grammar.rollback__[len({OLDRB})][0]', 'self._grammar.last_rb__loc__ <= old(location)',
          'implies(result[1] > old(location), self._grammar.last_rb__loc__ == old(location))', 'self._grammar.last_rb__loc__ >= old(location) - 1']
MODR = ['*Node._pos', 'self._grammar.rollback__[]', 'self._grammar.last_rb__loc__', 'self._grammar.suspend_memoization__']
C(M, 'Pop._rollback', {'self': 'Pop'}, 'none', requires=[f'self.parser.pname in {HERE}', 'len(self.values) > 0', f'self.values is not {VARS}'], modifies=[f'{VARS}[]', 'self.values[]'],
  ensures=[f'seq({VARS}) == {OLDSTACK} + (old(seq(self.values))[old(len(self.values)) - 1],)', 'seq(self.values) == old(seq(self.values))[:old(len(self.values)) - 1]'], **P)
POPPED = f'result[0] is not None and len({OLDSTACK}) > 0'
C(M, 'Pop._parse', {'self': 'Pop', 'location': 'int'}, PR, requires=INDOC + [f'self.parser.pname in {HERE}', f'self.values is not {VARS}'],
  modifies=MODR + [f'{VARS}[]', 'self.values[]'],
  ensures=RSPEC + PUSHED + [f'implies({POPPED}, seq({VARS}) == {OLDSTACK}[:len({OLDSTACK}) - 1] and seq(self.values) == old(seq(self.values)) + ({OLDSTACK}[len({OLDSTACK}) - 1],))',
    f'implies({POPPED}, self._grammar.rollback__[len({OLDRB})][1] == self._rollback)',
    f'implies(not ({POPPED}), seq({VARS}) == {OLDSTACK} and seq(self.values) == old(seq(self.values)))'], **P)
C(M, 'Retrieve._parse', {'self': 'Retrieve', 'location': 'int'}, PR, requires=INDOC + [f'self.parser.pname in {HERE}'],
  modifies=MODM, raises=ERR,
  ensures=RSPEC[:3] + [f'implies(len({OLDSTACK}) > 0, seq({VARS}) == {OLDSTACK})', 'self._grammar.suspend_memoization__',
                   'self._grammar.last_rb__loc__ <= old(location)', 'self._grammar.last_rb__loc__ >= old(location) - 1'], **P)

# ------------------------------------------------------------------ left recursion
K('Forward', 'parse', {'recursion_counter': 'dict[int,int]', 'cycle_reached': 'bool'}, bases=('UnaryParser',), truthy=True)
REG.classes['Grammar'].fields['history__'] = E.parse_kind('list[any]')
FWD = ['implies(l in self.visited, l <= self.visited[l][1] and self.visited[l][1] <= len(doc(self)) and implies(self.visited[l][0] is not None, wf(self.visited[l][0])) and implies(self.visited[l][0] is None, self.visited[l][1] == l)']
VB = 'forall(lambda l: ' + FWD[0] + ') , kinds={"l": "int"}, trigger=(self.visited[l]))'
C(M, 'Forward.__call__', {'self': 'Forward', 'location': 'int'}, PR, requires=INDOC + [VB, 'memo_ok(self.parser)', 'not self._grammar.history_tracking__', 'forall(lambda l: implies(l in self.recursion_counter, self.recursion_counter[l] >= 0), kinds={"l": "int"})'],
  modifies=MODM + ['*Grammar.history__', '*list[any]', '*dict[int,int]'], raises=ERR, ensures=OKN, calls={'Parser.__call__#memo': {}},
  loops=[Loop(['memo_ok(self.parser)', 'result[0] is not None and wf(result[0])', 'location <= result[1] and result[1] <= len(doc(self))', 'depth >= 1'], dec='len(doc(self)) - result[1]'),
         Loop(['len(self._grammar.rollback__) >= 0'], dec='len(self._grammar.rollback__)')], **P)
