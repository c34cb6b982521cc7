"""Contracts for errors (property C05): DHParser.error, RootNode error bookkeeping"""
from pyvc.engine import REG, LoopSpec as Loop
from . import common, c03_linecol
C, S, K = REG.contract, REG.spec, REG.klass
M = 'error'
P = {'props': ['C05']}

K('Error', 'error', {'message': 'str', '_pos': 'int', 'code': 'int', 'orig_pos': 'int', 'orig_doc': 'str', 'line': 'int', 'column': 'int', 'length': 'int',
                     'end_line': 'int', 'end_column': 'int', 'related': '[Error]'}, truthy=True)
S('code_of', [('x', 'Error|int')], 'int', 'x.code if isa(x, Error) else x')

C(M, 'Error.severity', {'self': 'Error'}, 'str',
  ensures=["(result == 'Notice') == (self.code < 100)", "(result == 'Warning') == (100 <= self.code and self.code < 1000)",
           "(result == 'Error') == (1000 <= self.code and self.code < 10000)", "(result == 'Fatal') == (10000 <= self.code)"], **P)
for f, e in (('is_warning', 'result == (code_of(code) < 1000)'), ('is_error', 'result == (code_of(code) >= 1000)'), ('is_fatal', 'result == (code_of(code) >= 10000)')):
    C(M, f, {'code': 'Error|int'}, 'bool', ensures=[e.replace('code_of(code)', 'code_of(old(code))')], **P)
C(M, 'error_category', {'code': 'Error|int'}, 'str',
  ensures=["(result == 'no errors') == (code_of(old(code)) < 1)", "(result == 'notices') == (1 <= code_of(old(code)) and code_of(old(code)) < 100)",
           "(result == 'warnings') == (100 <= code_of(old(code)) and code_of(old(code)) < 1000)",
           "(result == 'errors') == (1000 <= code_of(old(code)) and code_of(old(code)) < 10000)",
           "(result == 'fatal errors') == (10000 <= code_of(old(code)))"], **P)
C(M, 'has_errors', {'messages': '[Error]', 'level': 'int'}, 'bool',
  ensures=['result == exists(lambda i: messages[i].code >= level, 0, len(messages))'],
  loops=[Loop(['forall(lambda i: messages[i].code < level, 0, _i)'])], **P)
REG.hom('at_least', '[Error]', '[Error]', 'e', '(e,) if e.code >= lv else ()', heap=('Error.code',), extra=[('lv', 'int')])
C(M, 'only_errors', {'messages': '[Error]', 'level': 'int'}, '[Error]', ensures=['result == at_least(messages, level)'], comps=['at_least(messages, level)'], **P)
C(M, 'Error.__eq__', {'self': 'Error', 'other': 'Error'}, 'bool', ensures=['result == (self.code == other.code and self._pos == other._pos)'], **P)
C(M, 'Error.__hash__', {'self': 'Error'}, 'int', ensures=['result == hash((self.code, self._pos))'], **P)
C(M, 'Error.pos', {'self': 'Error'}, 'int', ensures=['result == self._pos'], **P)

# the error e is located by its position p in the original text t
S('at_linecol', [('line', 'int'), ('col', 'int'), ('t', 'str'), ('p', 'int')], 'bool',
  'line == 1 + nls(t, p) and 1 <= col and col <= p + 1 and find(t, "\\n", p + 1 - col, p) == -1 and (p + 1 - col == 0 or t[p - col] == "\\n")')
S('located', [('e', 'Error'), ('m', 'fn[(int)->(str,str,int)]')], 'bool',
  'e.orig_doc == m(e._pos)[0] and e.orig_pos == m(e._pos)[2] and 0 <= e.orig_pos and e.orig_pos <= len(m(e._pos)[1])'
  ' and at_linecol(e.line, e.column, m(e._pos)[1], e.orig_pos)'
  ' and e.orig_pos + e.length <= len(m(e._pos)[1]) and e.length >= 0 and at_linecol(e.end_line, e.end_column, m(e._pos)[1], e.orig_pos + e.length)')
SAME = ' and '.join(f'e.{f} == old(e.{f})' for f in ('orig_doc', 'orig_pos', 'line', 'column', 'length', 'end_line', 'end_column'))
C(M, 'add_source_locations', {'errors': '[Error]', 'source_mapping': 'fn[(int)->(str,str,int)]'}, 'none',
  requires=['forall(lambda i: errors[i].length >= 1, 0, len(errors))'],
  raises=[('ValueError', 'exists(lambda i: errors[i]._pos < 0 or (errors[i].orig_pos < 0 and not (0 <= source_mapping(errors[i]._pos)[2] and source_mapping(errors[i]._pos)[2] <= len(source_mapping(errors[i]._pos)[1]))), 0, len(errors))', False)],
  modifies=['*Error.orig_doc', '*Error.orig_pos', '*Error.line', '*Error.column', '*Error.length', '*Error.end_line', '*Error.end_column'],
  locals={'lb_dict': 'dict[str,list[int]]'}, opaque=['islb'], calls={'line_col#table': {'t': 'orig_text'}},
  loops=[Loop(steps=['forall(lambda e: implies(e != err, e.orig_pos == atiter(e.orig_pos) and located(e, source_mapping) == atiter(located(e, source_mapping))), kinds={"e": "Error"})',
                     'implies(old(err.orig_pos) < 0, located(err, source_mapping))'], inv=['forall(lambda j: errors[j].orig_pos >= 0, 0, _i)',
               'forall(lambda e: implies(old(e.orig_pos) >= 0 or e.orig_pos < 0, '+SAME+'), kinds={"e": "Error"})',
               'forall(lambda e: implies(old(e.orig_pos) < 0 and e.orig_pos >= 0, located(e, source_mapping)), kinds={"e": "Error"})',
               'forall(lambda k: implies(k in lb_dict, islb(lb_dict[k], k) and len(lb_dict[k]) >= 2 and lb_dict[k][len(lb_dict[k]) - 1] == len(k)), kinds={"k": "str"})'])],
  ensures=['forall(lambda i: implies(old(errors[i].orig_pos) < 0, located(errors[i], source_mapping)), 0, len(errors))',
           'forall(lambda e: implies(old(e.orig_pos) >= 0, '+SAME+'), kinds={"e": "Error"})'], **P)
C(M, 'Error.__init__', {'self': 'Error', 'message': 'str', 'pos': 'int', 'code': 'int', 'line': 'int', 'column': 'int', 'length': 'int', 'related': '[Error]', 'orig_pos': 'int', 'orig_doc': 'str'}, 'none',
  requires=['pos >= 0', 'code >= 0', 'length >= 1'], modifies=['self.*'],
  ensures=['self.message == message and self._pos == pos and self.code == code and self.length == length and self.orig_pos == orig_pos and self.orig_doc == orig_doc', 'self.line == line and self.column == column'],
  trusted=True, note='field-wise initialisation; the code argument is an int subclass (ErrorCode), which the engine does not model', **P)
