"""Specification functions and assumed contracts shared by all contract modules"""
from pyvc.engine import REG
S = REG.spec
# str.split(sep) for a non-empty separator (trusted definition of the builtin): the pieces of s[k:]
S('splitfrom', [('s', 'str'), ('sep', 'str'), ('k', 'int')], '[str]',
  "ite(find(s, sep, k) < 0 or len(sep) == 0, (s[k:],), (s[k:find(s, sep, k)],) + splitfrom(s, sep, find(s, sep, k) + len(sep)))", recursive=True)
