"""Contracts for configuration values (property C16): module configuration. The variables of the module are the state;
THREAD_LOCALS stands for the thread-local store as the running thread sees it (threading.local, trusted)."""
import z3
from pyvc.engine import REG, LoopSpec as Loop
C, S, K = REG.contract, REG.spec, REG.klass
M = 'configuration'
P = {'props': ['C16']}
VAL = 'int|bool|str|[str]'
DICT = f'dict[str,{VAL}]'
K('NoDefault', M, {})
K('Lock', 'ext', {'held': 'bool'}); REG.locks['Lock'] = 'held'; REG.aged |= {'local'}
K('local', 'ext', {'config': f'{DICT}?'}, unset=['config!'])
for n, k in (('CONFIG_PRESET', DICT), ('ACCESSING_PRESETS', 'bool'), ('PRESETS_CHANGED', 'bool'), ('THREAD_LOCALS', 'local?'),
             ('ALLOWED_PRESET_VALUES', 'dict[str,(int,int)|set[str]]'), ('access_lock', 'Lock?')): REG.globalvar(M, n, k)
from pyvc.engine import SV, NONE
@REG.model('threading.Lock')
def _lock(ex, a, kw):
    r = ex.new_ref('Lock'); v = SV(('ref', 'Lock'), r)
    ex.setattr(v, 'held', SV(('bool',), z3.BoolVal(False))); return v
@REG.model('threading.local')
def _local(ex, a, kw):
    v = SV(('ref', 'local'), ex.new_ref('local'))
    ex.setattr(v, 'config', NONE); return v

S('lockfree', [], 'bool', 'access_lock is None or not access_lock.held')
C(M, 'get_access_lock', {}, 'Lock', modifies=['global access_lock'],
  ensures=['access_lock is not None', 'result is access_lock', 'implies(old(access_lock) is not None, access_lock is old(access_lock))', 'implies(old(access_lock) is None, not result.held)'], **P)
C(M, 'access_thread_locals', {}, 'local', modifies=['global THREAD_LOCALS'],
  ensures=['THREAD_LOCALS is not None', 'result is THREAD_LOCALS', 'implies(old(THREAD_LOCALS) is not None, THREAD_LOCALS is old(THREAD_LOCALS))', 'implies(old(THREAD_LOCALS) is None, result.config is None and fresh(result))'], **P)
C(M, 'is_accessing_presets', {}, 'bool', ensures=['result == ACCESSING_PRESETS'], **P)

ST_ = "THREAD_LOCALS is not None and THREAD_LOCALS.config is not None"
# the values set in (or already loaded by) the running thread, and the presets
S('has', [('k', 'str')], 'bool', f"{ST_} and k in THREAD_LOCALS.config")
S('own', [('k', 'str')], VAL, "THREAD_LOCALS.config[k]")
S('state', [], 'bool', f"implies({ST_}, THREAD_LOCALS.config is not CONFIG_PRESET) and 'multicore_pool' in CONFIG_PRESET and 'syncfile_path' in CONFIG_PRESET")
CFG = ['global THREAD_LOCALS', '*local.config']
SAME = ['forall(lambda q: has(q) == old(has(q)), kinds={"q": "str"})', 'forall(lambda q: implies(has(q), own(q) == old(own(q))), kinds={"q": "str"})']
C(M, '_config_dict', {}, DICT, modifies=CFG, requires=['state()'],
  ensures=[ST_, 'result is THREAD_LOCALS.config', 'result is not CONFIG_PRESET',
           'forall(lambda q: (q in result) == old(has(q)), kinds={"q": "str"})', 'forall(lambda q: implies(q in result, result[q] == old(own(q))), kinds={"q": "str"})'], **P)

# ---- presets. The way of starting processes is a constant of the running interpreter; files and pickling are trusted: what is read back
# from the file that propagates presets to other processes is some dictionary that has the two variables this mechanism needs.
from pyvc.theory import Str, valsort, strlit, parse_kind
START = z3.Const('multiprocessing.start_method', Str().sort)
S('startmethod', [], 'str')
S('propagated', [], 'bool', "startmethod() != 'fork' or CONFIG_PRESET['multicore_pool'] == 'InterpreterPool'")
from pyvc.theory import add_axioms
add_axioms('startmethod', ({'spec.startmethod'}, [z3.Function('spec.startmethod', Str().sort)() == START]))
from pyvc.engine import PyExc, BOOLK, STRK
REG.models['multiprocessing.get_start_method'] = lambda ex, a, kw: SV(STRK, START)
@REG.model('open')
def _open(ex, a, kw):
    if ex.nondet(): raise PyExc('FileNotFoundError', where='open')
    return ex.fresh('file', ('val', 'File'))
@REG.model('pickle.load')
def _load(ex, a, kw):
    k = parse_kind(DICT); d = ex.new_dict(k[1], k[2])
    dom, val = ex.dict_get(d)
    ex.dict_put(d, ex.fresh_const('loaded.dom', dom.sort()), ex.fresh_const('loaded.val', val.sort()))
    for n in ('multicore_pool', 'syncfile_path'): ex.assume(z3.Select(ex.dict_get(d)[0], strlit(n)))
    return d
for n in ('pickle.dump', 'atexit.register', 'File.close'): REG.models[n] = lambda ex, a, kw: NONE
REG.models['os.path.exists'] = lambda ex, a, kw: ex.fresh('exists', BOOLK)
C(M, 'get_syncfile_path', {'mp_method': 'str'}, 'str', trusted=True)
C(M, 'remove_cfg_tempfile', {'filename': 'str'}, 'none', trusted=True)
UNCH = ["forall(lambda q: implies(q != 'syncfile_path', (q in CONFIG_PRESET) == old(q in CONFIG_PRESET)), kinds={'q': 'str'})",
        "forall(lambda q: implies(q != 'syncfile_path' and q in CONFIG_PRESET, CONFIG_PRESET[q] == old(CONFIG_PRESET[q])), kinds={'q': 'str'})"]
C(M, 'access_presets', {}, 'none', modifies=['global ACCESSING_PRESETS', 'global CONFIG_PRESET'], requires=['state()'],
  raises=[('AssertionError', 'ACCESSING_PRESETS or propagated()', False)], ensures=['ACCESSING_PRESETS', 'not old(ACCESSING_PRESETS)', 'state()',
  'implies(not old(propagated()), CONFIG_PRESET is old(CONFIG_PRESET))'], **P)
C(M, 'finalize_presets', {'fail_on_error': 'bool'}, 'none', modifies=['global ACCESSING_PRESETS', 'global PRESETS_CHANGED', 'CONFIG_PRESET{}'], requires=['state()'],
  raises=[('AssertionError', 'not ACCESSING_PRESETS or fail_on_error and PRESETS_CHANGED and propagated()', False), ('FileNotFoundError', 'propagated() and PRESETS_CHANGED', False)],
  ensures=['not ACCESSING_PRESETS', 'old(ACCESSING_PRESETS)', 'state()', 'CONFIG_PRESET is old(CONFIG_PRESET)'] + UNCH, **P)

# ---- allowed values
S('ok', [('key', 'str'), ('value', VAL)], 'bool', '''key not in ALLOWED_PRESET_VALUES or permitted(ALLOWED_PRESET_VALUES[key], value)''')
TUP, SEQ, SET = "as_kind(a, '(int,int)')", "as_kind(value, '[str]')", "as_kind(a, 'set[str]')"
S('permitted', [('a', '(int,int)|set[str]'), ('value', VAL)], 'bool', f"""ite(isa(a, tuple),
    ite(isa(value, bool), {TUP}[0] <= ite(as_kind(value, 'bool'), 1, 0) and ite(as_kind(value, 'bool'), 1, 0) <= {TUP}[1],
        isa(value, int) and {TUP}[0] <= as_kind(value, 'int') and as_kind(value, 'int') <= {TUP}[1]),
    not {SET} or ite(isa(value, str), as_kind(value, 'str') in {SET},
        isa(value, tuple) and forall(lambda i: implies(0 <= i and i < len({SEQ}), {SEQ}[i] in {SET}))))""", heap=['set[str]'])
C(M, 'validate_value', {'key': 'str', 'value': VAL}, 'none', raises=[('ValueError', 'not ok(key, value)', False), ('TypeError', 'not ok(key, value)', False)],
  ensures=['ok(key, value)'], loops=[Loop(inv=["forall(lambda i: implies(0 <= i and i < _i, _it[i] in as_kind(allowed, 'set[str]')))"])], **P)

# ---- presets are read and written only between access_presets() and finalize_presets(); a preset that is set is also set in the running thread
S('preset', [('k', 'str')], VAL, 'CONFIG_PRESET[k]')
S('newname', [('key', 'str')], 'str', "ite(key not in CONFIG_PRESET and key == 'ast_serialization', 'AST_serialization', ite(key not in CONFIG_PRESET and key == 'cst_serialization', 'CST_serialization', key))")
KEEP = ['CONFIG_PRESET is old(CONFIG_PRESET)', 'forall(lambda q: (q in CONFIG_PRESET) == old(q in CONFIG_PRESET), kinds={"q": "str"})', 'forall(lambda q: implies(q in CONFIG_PRESET, preset(q) == old(preset(q))), kinds={"q": "str"})']
OTHERS = ['forall(lambda q: implies(q != NAME, has(q) == old(has(q))), kinds={"q": "str"})', 'forall(lambda q: implies(q != NAME and has(q), own(q) == old(own(q))), kinds={"q": "str"})']
others = lambda name: [x.replace('NAME', name) for x in OTHERS]
N = 'ite(allow_new_key, key, old(newname(key)))'
LOCK = ['global access_lock']
C(M, 'set_config_value', {'key': 'str', 'value': VAL, 'allow_new_key': 'bool'}, 'none', modifies=CFG + LOCK + [f'*{DICT}', '*Lock.held'], requires=['state()', 'lockfree()'],
  raises=[('ValueError', 'not ok(ite(allow_new_key, key, newname(key)), value) or not allow_new_key and newname(key) not in CONFIG_PRESET and not has(newname(key))', False),
          ('TypeError', 'not ok(ite(allow_new_key, key, newname(key)), value)', False)],
  ensures=['state()', 'lockfree()', f'has({N})', f'own({N}) == value', ] + KEEP + others(N), **P)
MOD = CFG + LOCK + [f'*{DICT}', '*Lock.held']
KEEPX = lambda name: ['CONFIG_PRESET is old(CONFIG_PRESET)', f'forall(lambda q: implies(q != {name}, (q in CONFIG_PRESET) == old(q in CONFIG_PRESET)), kinds={{"q": "str"}})',
                      f'forall(lambda q: implies(q != {name} and q in CONFIG_PRESET, preset(q) == old(preset(q))), kinds={{"q": "str"}})']
C(M, 'set_preset_value', {'key': 'str', 'value': VAL, 'allow_new_key': 'bool'}, 'none', modifies=MOD + ['global PRESETS_CHANGED'], requires=['state()', 'lockfree()'],
  raises=[('AssertionError', "not ACCESSING_PRESETS or key == 'multicore_pool'", False), ('ValueError', 'not ok(ite(allow_new_key, key, newname(key)), value) or not allow_new_key and newname(key) not in CONFIG_PRESET', False),
          ('TypeError', 'not ok(ite(allow_new_key, key, newname(key)), value)', False)],
  ensures=['old(ACCESSING_PRESETS)', "key != 'multicore_pool'", 'ACCESSING_PRESETS', 'PRESETS_CHANGED', 'state()', 'lockfree()', f'{N} in CONFIG_PRESET', f'preset({N}) == value', f'has({N})', f'own({N}) == value'] + KEEPX(N) + others(N), **P)
C(M, 'get_preset_value', {'key': 'str', 'default': 'NoDefault'}, VAL, raises=[('AssertionError', 'not ACCESSING_PRESETS', False), ('KeyError', 'key not in CONFIG_PRESET', False)],
  ensures=['ACCESSING_PRESETS', 'key in CONFIG_PRESET and result == preset(key)'], requires=['default is NO_DEFAULT'], **P)
C(M, 'get_preset_value', {'key': 'str', 'default': VAL}, VAL, raises=[('AssertionError', 'not ACCESSING_PRESETS', False)],
  ensures=['ACCESSING_PRESETS', 'result == ite(key in CONFIG_PRESET, preset(key), default)'], variant='default', **P)
S('fnmatches', [('name', 'str'), ('pat', 'str')], 'bool')
@REG.model('fnmatch.fnmatchcase')
def _fnm(ex, a, kw): return SV(BOOLK, ex.spec_apply(ex.reg.specs['fnmatches'], a).t)
C(M, 'get_preset_values', {'key_pattern': 'str'}, DICT, raises=[('AssertionError', 'not ACCESSING_PRESETS', False)],
  ensures=['ACCESSING_PRESETS', 'fresh(result)', 'result is not CONFIG_PRESET', 'forall(lambda q: (q in result) == (q in CONFIG_PRESET and fnmatches(q, key_pattern)), kinds={"q": "str"})',
           'forall(lambda q: implies(q in result, result[q] == preset(q)), kinds={"q": "str"})'], **P)
C(M, 'reset_config_dict', {}, 'none', modifies=CFG + [f'*{DICT}'], requires=['state()'], ensures=['state()', 'forall(lambda q: not has(q), kinds={"q": "str"})'] + KEEP, **P)
C(M, 'add_config_values', {'configuration': DICT}, 'none', modifies=MOD, requires=['state()', 'lockfree()', f"implies({ST_}, THREAD_LOCALS.config is not configuration)"],
  ensures=['state()', 'lockfree()', 'forall(lambda q: has(q) == (old(has(q)) or old(q in configuration)), kinds={"q": "str"})',
           'forall(lambda q: implies(has(q), own(q) == ite(old(q in configuration), old(configuration[q]), old(own(q)))), kinds={"q": "str"})'] + KEEP, **P)
# ---- reading: the value set in this thread or, at the first access, the preset of that moment; later changes of presets are not seen
LOADED = ['forall(lambda q: implies(old(has(q)), has(q) and own(q) == old(own(q))), kinds={"q": "str"})',
          "forall(lambda q: implies(q != 'syncfile_path' and not old(has(q)), has(q) == (not old(has(key)) and q in CONFIG_PRESET) and implies(has(q), own(q) == preset(q))), kinds={'q': 'str'})"]
NOTPROP = ['implies(not old(propagated()), CONFIG_PRESET is old(CONFIG_PRESET))', 'implies(old(has(key)), CONFIG_PRESET is old(CONFIG_PRESET))']
LDLOOP = Loop(inv=[ST_, 'cfg is THREAD_LOCALS.config', 'cfg is not CONFIG_PRESET', 'CONFIG_PRESET is atloop(CONFIG_PRESET)',
                   'forall(lambda q: (q in CONFIG_PRESET) == atloop(q in CONFIG_PRESET), kinds={"q": "str"})', 'forall(lambda q: implies(q in CONFIG_PRESET, preset(q) == atloop(preset(q))), kinds={"q": "str"})',
                   'forall(lambda q: implies(atloop(has(q)), has(q) and own(q) == atloop(own(q))), kinds={"q": "str"})',
                   'forall(lambda i: implies(0 <= i and i < _i, has(_it[i])))',
                   'forall(lambda q: implies(has(q) and not atloop(has(q)), q in CONFIG_PRESET and own(q) == preset(q)), kinds={"q": "str"})'])
G = dict(modifies=MOD + ['global ACCESSING_PRESETS', 'global CONFIG_PRESET', 'global PRESETS_CHANGED'], requires=['state()', 'lockfree()'], loops=[LDLOOP], **P)
ASX = ('AssertionError', 'not has(key) and (ACCESSING_PRESETS or propagated())', False)
FNF = ('FileNotFoundError', 'not has(key) and propagated() and PRESETS_CHANGED', False)
C(M, 'get_config_value', {'key': 'str', 'default': 'NoDefault'}, VAL, raises=[ASX, FNF, ('KeyError', 'not has(key)', False)],
  ensures=['state()', 'lockfree()', 'implies(old(has(key)), result == old(own(key)))', "implies(key != 'syncfile_path' and not old(has(key)), key in CONFIG_PRESET and result == preset(key))", 'has(key) and own(key) == result'] + LOADED + NOTPROP,
  **dict(G, requires=G['requires'] + ['default is NO_DEFAULT']))
C(M, 'get_config_value', {'key': 'str', 'default': VAL}, VAL, raises=[ASX, FNF], variant='default',
  ensures=['state()', 'lockfree()', 'implies(old(has(key)), result == old(own(key)))', "implies(key != 'syncfile_path' and not old(has(key)), result == ite(key in CONFIG_PRESET, preset(key), default))"] + LOADED + NOTPROP, **G)
Q, NM = z3.Const('q!fn', Str().sort), z3.Function('spec.fnmatches', Str().sort, Str().sort, z3.BoolSort())
add_axioms('fnmatches *', ({'spec.fnmatches'}, [z3.ForAll([Q], NM(Q, strlit('*')), patterns=[NM(Q, strlit('*'))])]))
S('anymatch', [('q', 'str'), ('p', 'str'), ('ps', '[str]'), ('n', 'int')], 'bool', 'fnmatches(q, p) or exists(lambda i: 0 <= i and i < n and fnmatches(q, ps[i]))', recursive=True)
K1 = lambda s: f"forall(lambda q: {s}, kinds={{'q': 'str'}})"
LPK = [K1('has(q) == atloop(has(q))'), K1('implies(has(q), own(q) == atloop(own(q)))'), K1('(q in CONFIG_PRESET) == atloop(q in CONFIG_PRESET)'), K1('implies(q in CONFIG_PRESET, preset(q) == atloop(preset(q)))')]
C(M, 'get_config_values', {'key_pattern': 'str', 'additional_patterns': '[str]'}, DICT, raises=[('AssertionError', 'ACCESSING_PRESETS or propagated()', False), ('FileNotFoundError', 'propagated() and PRESETS_CHANGED', False)],
  modifies=G['modifies'], requires=G['requires'],
  ensures=['state()', 'lockfree()', 'fresh(result)', 'implies(not old(propagated()), CONFIG_PRESET is old(CONFIG_PRESET))',
           K1("implies(q != 'syncfile_path', (q in result) == (anymatch(q, key_pattern, additional_patterns, len(additional_patterns)) and (old(has(q)) or q in CONFIG_PRESET)))"),
           K1("implies(q != 'syncfile_path' and q in result, result[q] == ite(old(has(q)), old(own(q)), preset(q)))"),
           K1("implies(old(has(q)), has(q) and own(q) == old(own(q)))"), K1("implies(q != 'syncfile_path' and not old(has(q)), has(q) == (q in result) and implies(has(q), own(q) == preset(q)))")],
  loops=[Loop(inv=LPK + ['fresh(presets)', 'presets is not CONFIG_PRESET', 'CONFIG_PRESET is atloop(CONFIG_PRESET)', K1('(q in presets) == (anymatch(q, key_pattern, additional_patterns, _i) and q in CONFIG_PRESET)'), K1('implies(q in presets, presets[q] == preset(q))')]),
         Loop(inv=LPK + [K1('(q in presets) == atloop(q in presets)'), K1('implies(q in presets, presets[q] == atloop(presets[q]))'), 'fresh(cfg_values)', 'cfg is THREAD_LOCALS.config and THREAD_LOCALS is not None and cfg is not cfg_values and presets is not cfg_values', 
                   K1('(q in cfg_values) == (_i > 0 and anymatch(q, key_pattern, additional_patterns, _i - 1) and has(q))'), K1('implies(q in cfg_values, cfg_values[q] == own(q))')])], **P)
