import json
from oracles.base import *
from DHParser.toolkit import json_dumps, json_encode_string, json_rpc, JSONstr, JSONnull
CH = ['a', '"', '\\', '\n', '\r', '\t', '\b', '\f', '\x00', '\x01', '\x1f', '\x7f', '\u2028', 'ä', '😀', '/', '{', '}', ':', ',', '[', ']', ' ', '\x0b', '\x1b', 'u0041', '\x85', "'", '<', 'null', '\x0e', '\x0f', '\x10', '\x12', '\x15', '\x1e']
CH += [chr(i) for i in range(32)]
def s(r, n=4): return ''.join(r.choice(CH) for _ in range(r.randint(0, n)))
def val(r, d):
    k = r.randint(0, 12 if d > 0 else 8)
    if k <= 1: return s(r)
    if k == 2: return r.choice([0, 1, -1, 17, 2**53 + 1, -2**70, 10**30, r.randint(-1000, 1000)])
    if k == 3: return r.choice([0.0, 1.5, -2.25, 1e300, 1e-7, 1e16, 3.0, 0.1, 1.7976931348623157e308, 5e-324, r.random()])
    if k == 4: return True
    if k == 5: return False
    if k == 6: return None
    if k == 7: return r.choice([[], {}, ''])
    if k == 8: return s(r)
    if k <= 10: return [val(r, d - 1) for _ in range(r.randint(0, 4))]
    return {s(r): val(r, d - 1) for _ in range(r.randint(0, 4))}
def gen(r, size): return {'v': val(r, 1 + size // 3), 'ser': [r.random() < .3 for _ in range(12)]}
def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b
def partial(v, ser, i=[0]):
    i[0] += 1
    if ser[i[0] % len(ser)]: return JSONnull if v is None and i[0] % 2 else JSONnull() if v is None else JSONstr(json.dumps(v, indent=(None, 2)[i[0] % 2], ensure_ascii=i[0] % 3 == 0))
    if isinstance(v, list): return [partial(x, ser) for x in v] if i[0] % 3 else tuple(partial(x, ser) for x in v)
    if isinstance(v, dict): return {k: partial(x, ser) for k, x in v.items()}
    return v
def nulls(v, n=[0]):
    if v is None:
        n[0] += 1; return (None, JSONnull, JSONnull())[n[0] % 3]
    if isinstance(v, list): return [nulls(x) for x in v]
    if isinstance(v, dict): return {k: nulls(x) for k, x in v.items()}
    return v
def back(t, v, what):
    expect(isinstance(t, str), what + ' is no string')
    try: w = json.loads(t)
    except ValueError as e: raise Violation(f'{what}: not valid JSON: {t[:200]!r}: {e}')
    expect(same(w, v), f'{what}: {t[:300]!r} read back as {w!r} instead of {v!r}')
def run(c):
    v = c['v']
    ser = c['ser'] or [False]
    back(json_dumps(v), v, 'json_dumps'); back(json_dumps(v, partially_serialized=True), v, 'json_dumps partially serialized')
    back(json_dumps(nulls(v)), v, 'JSONnull'); back(json_dumps(nulls(v), partially_serialized=True), v, 'JSONnull partially serialized')
    back(json_dumps(partial(v, ser), partially_serialized=True), v, 'json_dumps with serialized parts')
    back(json_dumps(JSONstr(json.dumps(v)), partially_serialized=True), v, 'JSONstr')
    back(json_rpc('m', partial(v, ser), 7), {'jsonrpc': '2.0', 'method': 'm', 'params': v, 'id': 7}, 'json_rpc')
    back(json_rpc('m', v, None, False), {'jsonrpc': '2.0', 'method': 'm', 'params': v}, 'json_rpc')
    back(json_rpc('m', v, 0), {'jsonrpc': '2.0', 'method': 'm', 'params': v, 'id': 0}, 'json_rpc id 0')
def gens(r, size): return s(r, 6 + size)
def runs(x):
    t = json_encode_string(x)
    back(t, x, 'json_encode_string')
    expect(not any(ord(ch) < 32 for ch in t), f'control character in {t!r}')
    i = 1; b = t[1:-1]; k = 0
    while k < len(b):
        expect(b[k] != '"', f'unescaped quotation mark in {t!r}')
        k += 2 if b[k] == '\\' else 1
def custom(x):
    class C:
        def __init__(self, v): self.v = v
    class Enc(json.JSONEncoder):
        def default(self, o): return {'c': o.v}
    back(json_dumps([C(x), x], cls=Enc, partially_serialized=True), [{'c': x}, x], 'custom encoder'); back(json_dumps([C(x), x], cls=Enc), [{'c': x}, x], 'custom encoder')
FIXED = {'string': [chr(i) for i in range(0, 300)] + ['"', '\\', '\\"', '"\\', '\ud800']}
CHECKS = [('string', gens, runs), ('value', gen, run), ('custom', gens, custom)]
