import threading, fnmatch
from oracles.base import *
import DHParser.configuration as cfg
KEYS = ['AST_serialization', 'CST_serialization', 'default_serialization', 'max_parser_dropouts', 'x.alpha', 'x.beta', 'xml_attribute_error_handling', 'optimizations', 'y.num',
        'debug_parallel_execution', 'x.flag', 'deprecation_policy']
ALLOWED = {'x.beta': frozenset({'a', 'b', 'c'}), 'y.num': (2, 7)}
VALUES = {'AST_serialization': ['XML', 'json', 'sxpr', 'bad'], 'CST_serialization': ['XML', '', 'wrong'], 'default_serialization': ['sxpr', 'tree', 'nope', ''],
          'max_parser_dropouts': [0, 1, 5, 'many'], 'x.alpha': [1, 'q', None, 0, '', False], 'x.beta': ['a', 'b', 'z', ['a', 'b'], ['a', 'z'], ''], 'xml_attribute_error_handling': ['ignore', 'fix', 'no'],
          'optimizations': [[], ['alternative'], ['foo'], ['sequence', 'literal']], 'y.num': [2, 7, 1, 8, 4, 'x', 2.5, 7.01], 'debug_parallel_execution': ['commandline', 'bad'], 'x.flag': [True, 0],
          'deprecation_policy': ['warn', 'fail', 'ignore', '']}
UNKNOWN = ['nonsense', 'z.undefined', 'x.gamma']
PATTERNS = ['*', 'x.*', '*serialization', 'x.beta', 'y.*', 'AST*', 'none*', 'x.[ab]*', 'max_parser_dropouts']
def gen(r, size):
    ops = []
    for _ in range(r.randint(1, 4 + size)):
        k = r.choice(KEYS)
        w = r.choice(['get', 'get', 'set', 'set', 'preset', 'getmany', 'getmany', 'unknown', 'getdefault', 'add', 'presets', 'nested', 'thread', 'closed', 'newkey', 'reset', 'old'])
        ops.append([w, k, r.choice(VALUES[k]), [r.choice(PATTERNS) for _ in range(r.randint(1, 3))], r.choice(UNKNOWN)])
    return ops
def conv(k, v): return frozenset(v) if isinstance(v, list) else v
def ok(k, v):
    al = cfg.ALLOWED_PRESET_VALUES.get(k)
    if not al: return True
    if isinstance(al, tuple): return isinstance(v, (int, float)) and al[0] <= v <= al[1]
    if isinstance(v, (frozenset, list, set)): return all(x in al for x in v)
    return v in al
SAVED = dict(cfg.CONFIG_PRESET)
def raises(f, *exc):
    try: r = f()
    except exc: return True
    except Exception as e: raise Violation(f'{type(e).__name__} instead of {[x.__name__ for x in exc]}: {e}')
    return False
class Box: pass
def run(ops):
    cfg.CONFIG_PRESET.clear(); cfg.CONFIG_PRESET.update(SAVED)
    cfg.CONFIG_PRESET.update({'x.alpha': 'preset', 'x.beta': 'a', 'y.num': 3, 'x.flag': False})
    cfg.ALLOWED_PRESET_VALUES.update(ALLOWED)
    cfg.ACCESSING_PRESETS = False; cfg.PRESETS_CHANGED = False
    presets = dict(cfg.CONFIG_PRESET)
    err = []
    def body(ops, depth):
        # model of this thread: values it has fixed so far
        th = {}
        def fill():
            for k, v in presets.items(): th.setdefault(k, v)
        def read(k, *d):
            if k in th: return th[k]
            fill()
            return th[k] if k in th else (d[0] if d else KeyError)
        for w, k, v, pats, unk in ops:
            v = conv(k, v)
            if w == 'get': eq(cfg.get_config_value(k), read(k), f'get {k}')
            elif w == 'getdefault':
                eq(cfg.get_config_value(k, 'DFLT'), read(k), f'get {k} default')
                eq(cfg.get_config_value(unk, 'DFLT'), read(unk, 'DFLT'), f'get {unk} default'); eq(cfg.get_config_value(unk, None), read(unk, None), f'get {unk} default None')
            elif w == 'unknown':
                e = read(unk)
                if e is KeyError: expect(raises(lambda: cfg.get_config_value(unk), KeyError), f'unknown {unk} read')
                else: eq(cfg.get_config_value(unk), e, f'get {unk}')
                if unk not in presets and unk not in th:
                    expect(raises(lambda: cfg.set_config_value(unk, 1), ValueError), f'unknown variable {unk} set')
                    cfg.access_presets()
                    expect(raises(lambda: cfg.set_preset_value(unk, 1), ValueError), f'unknown preset {unk} set')
                    cfg.finalize_presets()
                    expect(unk not in cfg.CONFIG_PRESET and cfg.get_config_value(unk, 'no') == 'no', 'unknown variable created')
                    fill()
            elif w == 'newkey':
                cfg.set_config_value(unk, v, allow_new_key=True); th[unk] = v; eq(cfg.get_config_value(unk), v, 'new key')
            elif w == 'set':
                bad = raises(lambda: cfg.set_config_value(k, v), ValueError, TypeError)
                eq(bad, not ok(k, v), f'set {k}={v!r} rejected')
                if not bad: th[k] = v
                e = read(k); eq(cfg.get_config_value(k), e, f'{k} after set {v!r}')
            elif w == 'preset':
                cfg.access_presets()
                bad = raises(lambda: cfg.set_preset_value(k, v), ValueError, TypeError)
                eq(bad, not ok(k, v), f'preset {k}={v!r} rejected')
                if not bad: presets[k] = v; th[k] = v
                eq(cfg.get_preset_value(k), presets[k], f'preset {k}')
                cfg.finalize_presets()
            elif w == 'presets':
                cfg.access_presets()
                eq(cfg.get_preset_values(pats[0]), {a: b for a, b in presets.items() if fnmatch.fnmatchcase(a, pats[0])}, 'preset values')
                eq(cfg.get_preset_value(k, 'D'), presets[k], 'preset'); eq(cfg.get_preset_value('no.such', 'D'), 'D', 'preset default')
                cfg.finalize_presets()
            elif w == 'nested':
                cfg.access_presets(); expect(cfg.is_accessing_presets(), 'not accessing')
                expect(raises(cfg.access_presets, AssertionError), 'nested access'); cfg.finalize_presets(); expect(not cfg.is_accessing_presets(), 'still accessing')
                expect(raises(cfg.finalize_presets, AssertionError), 'finalize without access')
            elif w == 'closed':
                b4 = dict(cfg.CONFIG_PRESET)
                expect(raises(lambda: cfg.set_preset_value(k, presets[k]), AssertionError), 'preset set without access'); expect(raises(lambda: cfg.get_preset_value(k), AssertionError), 'preset read without access')
                expect(raises(lambda: cfg.get_preset_values('*'), AssertionError), 'presets read without access'); eq(cfg.CONFIG_PRESET, b4, 'presets changed')
            elif w == 'getmany':
                got = cfg.get_config_values(*pats)
                want = {}
                for a in list({**presets, **th}):
                    if any(fnmatch.fnmatchcase(a, p) for p in pats):
                        want[a] = th[a] if a in th else presets[a]
                th.update(want)
                eq(got, want, f'get_config_values{tuple(pats)}')
                for a in want: eq(cfg.get_config_value(a), want[a], f'{a} after get_config_values')
            elif w == 'add':
                cfg.add_config_values({k: presets[k], 'x.added': v}); th[k] = presets[k]; th['x.added'] = v
                eq(cfg.get_config_value('x.added'), v, 'added')
            elif w == 'reset': cfg.reset_config_dict(); th.clear()
            elif w == 'old':
                v2 = v if k == 'AST_serialization' else 'XML'
                bad = raises(lambda: quiet(lambda: cfg.set_config_value('ast_serialization', v2)), ValueError)
                eq(bad, not ok('AST_serialization', v2), 'renamed key')
                if not bad: th['AST_serialization'] = v2
                e = read('AST_serialization'); eq(cfg.get_config_value('AST_serialization'), e, 'renamed key')
            elif w == 'thread' and depth < 1:
                t = threading.Thread(target=guard, args=([o for o in ops if o[0] != 'thread'], depth + 1)); t.start(); t.join()
                if err: return
        eq(dict(cfg.CONFIG_PRESET), presets, 'presets at the end')
        for k in sorted(presets):
            e = read(k); eq(cfg.get_config_value(k), e, f'{k} at the end')
    def guard(ops, depth):
        try: body(ops, depth)
        except Violation as e: err.append(str(e))
        except Exception as e: err.append(f'unexpected {type(e).__name__}: {e}')
    t = threading.Thread(target=guard, args=(ops, 0)); t.start(); t.join()
    cfg.CONFIG_PRESET.clear(); cfg.CONFIG_PRESET.update(SAVED); cfg.ACCESSING_PRESETS = False
    for k in ALLOWED: cfg.ALLOWED_PRESET_VALUES.pop(k, None)
    if err: raise Violation(err[0])
def quiet(f):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): return f()
CHECKS = [('history', gen, run)]
