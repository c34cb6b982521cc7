"""Contracts for DHParser/stringview.py (property C01, C02)"""
from pyvc.engine import REG, LoopSpec as Loop
from . import common
C, K, S = REG.contract, REG.klass, REG.spec
M = 'stringview'
P = {'props': ['C01']}

S('clampidx', [('i', 'int'), ('n', 'int')], 'int', 'ite(i >= 0, ite(i > n, n, i), ite(i + n < 0, 0, i + n))')
S('lo_of', [('o', 'int?'), ('n', 'int')], 'int', 'ite(o is None, 0, clampidx(some(o), n))')
S('hi_of', [('o', 'int?'), ('n', 'int')], 'int', 'ite(o is None, n, clampidx(some(o), n))')
# Python semantics of text[a:b] for arbitrary (already real) bounds
S('pyslice', [('s', 'str'), ('a', 'int'), ('b', 'int')], 'str', "ite(a <= b, s[a:b], '')")
# the string denoted by a view
S('view', [('v', 'StringView')], 'str', 'v._text[v._begin:v._end]')

K('StringView', M, {'_text': 'str', '_begin': 'int', '_end': 'int', '_len': 'int', '_fullstring': 'str'},
  frozen=['_text', '_begin', '_end', '_len'],
  inv=['0 <= self._begin and self._begin <= self._end and self._end <= len(self._text)',
       'self._len == self._end - self._begin',
       "self._fullstring == '' or self._fullstring == view(self)"])

C(M, 'pack_index', {'index': 'int', 'length': 'int'}, 'int', requires=['length >= 0'],
  ensures=['result == clampidx(index, length)', '0 <= result and result <= length'], **P)
C(M, 'fast_real_indices', {'begin': 'int?', 'end': 'int?', 'length': 'int'}, '(int,int)', requires=['length >= 0'],
  ensures=['result[0] == lo_of(begin, length)', 'result[1] == hi_of(end, length)',
           '0 <= result[0] and result[0] <= length and 0 <= result[1] and result[1] <= length'], **P)
C(M, 'real_indices', {'begin': 'int?', 'end': 'int?', 'length': 'int'}, '(int,int)', requires=['length >= 0'],
  ensures=['result[0] == lo_of(begin, length)', 'result[1] == hi_of(end, length)'], **P)
C(M, 'first_char', {'text': 'str', 'begin': 'int', 'end': 'int', 'chars': 'str'}, 'int',
  requires=['0 <= begin and begin <= len(text)', '0 <= end and end <= len(text)'],
  ensures=['begin <= result and (result <= end or result == begin)',
           'forall(lambda k: text[k] in chars, begin, result)',
           'result >= end or not text[result] in chars'],
  loops=[Loop(['old(begin) <= begin and (begin <= end or begin == old(begin))', 'forall(lambda k: text[k] in chars, old(begin), begin)'], 'end - begin')], **P)
C(M, 'last_char', {'text': 'str', 'begin': 'int', 'end': 'int', 'chars': 'str'}, 'int',
  requires=['0 <= begin and begin <= len(text)', '0 <= end and end <= len(text)'],
  ensures=['result <= end and (result >= begin or result == end)',
           'forall(lambda k: text[k] in chars, result, end)',
           'result <= begin or not text[result - 1] in chars'],
  loops=[Loop(['end <= old(end) and (end >= begin or end == old(end))', 'forall(lambda k: text[k] in chars, end, old(end))'], 'end - begin')], **P)

C(M, 'StringView.__init__', {'text': 'str', 'begin': 'int?', 'end': 'int?'}, 'none',
  ensures=['self._text == text', 'self._begin == lo_of(begin, len(text))', 
           'self._end == ite(lo_of(begin, len(text)) <= hi_of(end, len(text)), hi_of(end, len(text)), self._begin)',
           'view(self) == pyslice(text, lo_of(begin, len(text)), hi_of(end, len(text)))', "self._fullstring == ''"], **P)
C(M, 'StringView.__bool__', {}, 'bool', ensures=["result == (view(self) != '')"], **P)
C(M, 'StringView.__len__', {}, 'int', ensures=["result == len(view(self))"], **P)
C(M, 'StringView.__str__', {}, 'str', ensures=["result == view(self)"], modifies=['self._fullstring'], **P)
C(M, 'StringView.__eq__', {'other': 'StringView'}, 'bool', ensures=["result == (view(self) == view(other))"],
  modifies=['self._fullstring', 'other._fullstring'], variant='sv', **P)
C(M, 'StringView.__eq__', {'other': 'str'}, 'bool', ensures=["result == (view(self) == other)"],
  modifies=['self._fullstring'], variant='str', **P)
C(M, 'StringView.__add__', {'other': 'str'}, 'str', ensures=["result == view(self) + other"],
  modifies=['self._fullstring'], variant='str', **P)
C(M, 'StringView.__radd__', {'other': 'str'}, 'str', ensures=["result == other + view(self)"],
  modifies=['self._fullstring'], variant='str', **P)
C(M, 'StringView.__add__', {'other': 'StringView'}, 'StringView', ensures=["view(result) == view(self) + view(other)"],
  modifies=['self._fullstring', 'other._fullstring'], variant='sv', **P)
C(M, 'StringView.__radd__', {'other': 'StringView'}, 'StringView', ensures=["view(result) == view(other) + view(self)"],
  modifies=['self._fullstring', 'other._fullstring'], variant='sv', **P)
C(M, 'StringView.__getitem__', {'index': 'slice'}, 'StringView',
  ensures=['view(result) == pyslice(view(self), lo_of(index.start, len(view(self))), hi_of(index.stop, len(view(self))))',
           'result._text == self._text', 'result._begin == self._begin + lo_of(index.start, len(view(self)))',
           'result._end == self._begin + ite(lo_of(index.start, len(view(self))) <= hi_of(index.stop, len(view(self))), hi_of(index.stop, len(view(self))), lo_of(index.start, len(view(self))))'], fresh=True, variant='slice', **P)
C(M, 'StringView.__getitem__', {'index': 'int'}, 'StringView',
  raises=[('IndexError', 'index >= len(view(self)) or index < -len(view(self))')],
  ensures=['view(result) == view(self)[ite(index < 0, index + len(view(self)), index):ite(index < 0, index + len(view(self)), index) + 1]'], fresh=True, variant='int', **P)
C(M, 'StringView.get_text', {}, 'str', ensures=['result == self._text'], **P)

V = 'view(self)'; N = 'len(view(self))'
# results of find/rfind/count for arbitrary start/end arguments: Python semantics of the plain string
for fn, dflt in (('find', '-1'), ('rfind', '-1'), ('count', '0')):
    C(M, f'StringView.{fn}', {'sub': 'str', 'start': 'int?', 'end': 'int?'}, 'int',
      ensures=[f'result == {V}.{fn}(sub, start, end)'], **P)
for fn, arg in (('startswith', 'prefix'), ('endswith', 'suffix')):
    C(M, f'StringView.{fn}', {arg: 'str', 'start': 'int', 'end': 'int?'}, 'bool',
      ensures=[f'result == {V}.{fn}({arg}, start, end)'], **P)
C(M, 'StringView.__hash__', {}, 'int', ensures=[f'result == hash({V})'], modifies=['self._fullstring'], **P)
C(M, 'StringView.replace', {'old': 'str', 'new': 'str'}, 'str', ensures=[f'result == {V}.replace(old, new)'], modifies=['self._fullstring'], **P)
C(M, 'StringView.index', {'absolute_index': 'int'}, 'int', ensures=['result == absolute_index - self._begin'], **P)
C(M, 'StringView.indices', {'absolute_indices': '[int]'}, '[int]',
  ensures=['len(result) == len(absolute_indices)', 'forall(lambda i: result[i] == absolute_indices[i] - self._begin, 0, len(result))'], **P)
# regular expressions are run on the underlying text, with the viewed section as bounds
C(M, 'StringView.match', {'regex': '$Regex', 'flags': 'int'}, '$Match?', ensures=['result == regex.match(self._text, self._begin, self._end)'], **P)
C(M, 'StringView.finditer', {'regex': '$Regex'}, '[$Match]', ensures=['result == regex.finditer(self._text, self._begin, self._end)'], **P)
S('insection', [('v', 'StringView'), ('o', 'int?'), ('d', 'int')], 'int',
  'ite(o is None, d, ite(some(o) < 0, v._begin, ite(v._begin + some(o) > v._end, v._end, v._begin + some(o))))')
C(M, 'StringView.search', {'regex': '$Regex', 'start': 'int?', 'end': 'int?'}, '$Match?',
  ensures=['result == regex.search(self._text, insection(self, start, self._begin), insection(self, end, self._end))'], **P)
# stripping: exactly the maximal prefix/suffix of characters from `chars` is dropped
for fn in ('strip', 'lstrip', 'rstrip'):
    l, r = fn != 'rstrip', fn != 'lstrip'
    ens = ['result._text == self._text', 'self._begin <= result._begin and result._end <= self._end',
           'forall(lambda k: self._text[k] in chars, self._begin, result._begin)' if l else 'result._begin == self._begin',
           'forall(lambda k: self._text[k] in chars, result._end, self._end)' if r else 'result._end == self._end']
    if l: ens.append('result._begin == result._end or not self._text[result._begin] in chars')
    if r: ens.append('result._begin == result._end or not self._text[result._end - 1] in chars')
    C(M, f'StringView.{fn}', {'chars': 'str'}, 'StringView', ensures=ens, **P)
REG.hom('views', '[StringView]', '[str]', 'v', '(view(v),)')
C(M, 'StringView.split', {'sep': 'str'}, 'list[str]', requires=["self._fullstring != ''", "sep != ''"],
  ensures=['seq(result) == view(self).split(sep)'], variant='cached', modifies=['self._fullstring'], **P)
C(M, 'StringView.split', {'sep': 'none'}, 'list[str]',
  ensures=['seq(result) == view(self).split()'], modifies=['self._fullstring'], variant='nosep', **P)
C(M, 'StringView.split', {'sep': 'str'}, 'list[StringView]', requires=["self._fullstring == ''", "sep != ''"],
  ensures=['views(seq(result)) == splitfrom(view(self), sep, 0)'],
  loops=[Loop(['0 <= k and k <= len(view(self))', 'i == find(view(self), sep, k)',
               'views(seq(pieces)) + splitfrom(view(self), sep, k) == splitfrom(view(self), sep, 0)'],
              'len(view(self)) - k')], variant='fresh', locals={'pieces': 'list[StringView]'}, **P)
