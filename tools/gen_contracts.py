#!/usr/bin/env python3-vt
"""writes /verif/CONTRACTS.md: functions under contract and trusted contracts per property (run with python3-vt)"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from pyvc import runner as R
R.load()
base = json.load(open(os.path.join(HERE, 'baseline.json')))
cs = R.all_contracts()
props = sorted({p for c in cs.values() for p in c.props} | {p for ps, _ in R.LEMMAS.values() for p in ps})
out = ['# Functions under contract', '', 'Generated by tools/gen_contracts.py. Number of discharged obligations in brackets; a function may have several contracts (`#variant`).', '']
for p in props:
    mine = [c for c in cs.values() if p in c.props]
    pr = [c for c in mine if not c.trusted and not c.inline]
    n = sum(base.get(c.name, {}).get('obligations', 0) for c in pr)
    out += [f'## {p}: {len(pr)} contracts, {n} obligations', '']
    out += ['Proved: ' + ', '.join(f"{c.name} ({base.get(c.name, {}).get('obligations', '-')})" for c in pr), '']
    t = [c for c in mine if c.trusted]
    if t: out += ['Trusted: ' + '; '.join(f'{c.name}' + (f' - {c.note}' if c.note else '') for c in t), '']
    l = [k for k, (ps, _) in R.LEMMAS.items() if p in ps]
    if l: out += ['Lemmas: ' + ', '.join(l), '']
t = [c for c in cs.values() if c.trusted and not c.props]
if t: out += ['## Trusted contracts used by several properties', ''] + [f'- {c.name}' + (f': {c.note}' if c.note else '') for c in t]
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out) + '\n')
