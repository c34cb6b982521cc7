"""Bounded, seeded search on the real code. Each module Cxx.py defines CHECKS = [(name, gen, run)]:
gen(rng, size) -> JSON-able case, run(case) raises Violation (or any exception) if the property fails on that case;
optional FIXED = {name: [cases]} are always tried first, KNOWN(name, case) -> id of a listed finding or None."""
import sys, os, json, time, random, signal, traceback, importlib
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
sys.dont_write_bytecode = True

class Violation(Exception): pass
class Timeout(BaseException): pass

def expect(cond, msg=''):
    if not cond: raise Violation(msg)
def eq(a, b, msg=''):
    if not (a == b): raise Violation(f'{msg}: got {a!r}, expected {b!r}'[:1500])

def _alarm(*_): raise Timeout()

def run_case(fn, case, limit=20):
    """None or a description of the failure"""
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try: fn(case)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e: return str(e) or 'violated'
    except Timeout: return f'no result within {limit} s'
    except (KeyboardInterrupt, MemoryError): raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        return f'unexpected {type(e).__name__}: {e} at {tb[-1].filename.split("/")[-1]}:{tb[-1].lineno}'[:1500]
    return None

def shrink(gen_smaller, fn, case, msg, deadline):
    """generic structural shrinking of JSON cases"""
    def variants(x):
        if isinstance(x, str):
            for i in range(len(x)): yield x[:i] + x[i + 1:]
        elif isinstance(x, list):
            for i in range(len(x)): yield x[:i] + x[i + 1:]
            for i in range(len(x)):
                for v in variants(x[i]): yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k in x:
                for v in variants(x[k]): yield {**x, k: v}
        elif isinstance(x, int) and not isinstance(x, bool) and x:
            yield 0
            if abs(x) > 1: yield x // 2
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for v in variants(case):
            if time.time() > deadline: break
            m = run_case(fn, v, 5)
            if m is not None and same_kind(m, msg):
                case, msg, improved = v, m, True
                break
    return case, msg
def same_kind(a, b): return a.split(':')[0][:25] == b.split(':')[0][:25]

def main(prop, seed, budget, tier):
    t0 = time.time()
    try: mod = importlib.import_module('oracles.' + prop)
    except BaseException as e:
        return {'evaluations': 0, 'distinct': 0, 'failure': {'check': 'import', 'case': None, 'message': f'the code cannot be imported: {type(e).__name__}: {e}'}, 'known': [], 'samples': [], 'wall': 0}
    known_fn = getattr(mod, 'KNOWN', lambda n, c: None)
    fixed = getattr(mod, 'FIXED', {})
    rng = random.Random(seed)
    n = 0; seen = set(); per = {}; known = {}; failures = []
    samples = []
    def one(name, run, case):
        nonlocal n
        n += 1
        per[name] = per.get(name, 0) + 1
        h = hash((name, json.dumps(case, sort_keys=True)))
        if h not in seen:
            seen.add(h)
            if len(samples) < 12 and per[name] in (3, 40): samples.append({'check': name, 'case': case})
        msg = run_case(run, case)
        if msg is None: return None
        k = known_fn(name, case)
        if k: known.setdefault(k, {'check': name, 'case': case, 'message': msg}); return None
        return msg
    fail = None
    for name, gen, run in mod.CHECKS:
        for case in fixed.get(name, []):
            msg = one(name, run, case)
            if msg: fail = (name, run, case, msg); break
        if fail: break
    size = 1
    while not fail and time.time() - t0 < budget:
        for name, gen, run in mod.CHECKS:
            for _ in range(getattr(mod, 'BATCH', {}).get(name, 20)):
                case = gen(rng, min(1 + size // 6, 12))
                msg = one(name, run, case)
                if msg: fail = (name, run, case, msg); break
            if fail or time.time() - t0 > budget * 1.3: break
        size += 1
    out = {'evaluations': n, 'distinct': len(seen), 'per_check': per, 'samples': samples, 'known': known, 'failure': None, 'rounds': size}
    if fail:
        name, run, case, msg = fail
        case2, msg2 = shrink(None, run, case, msg, time.time() + 15)
        if known_fn(name, case2): case2, msg2 = case, msg
        out['failure'] = {'check': name, 'case': case2, 'message': msg2}
    out['wall'] = time.time() - t0
    return out

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--replay')
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.modules['oracles.base'] = sys.modules['__main__']
    sys.setrecursionlimit(5000)
    if a.replay:
        r = json.load(open(a.replay))
        mod = importlib.import_module('oracles.' + a.prop)
        run = [f for n, g, f in mod.CHECKS if n == r['check']][0]
        m = run_case(run, r['case'])
        print('reproduced: ' + m if m else 'not reproduced'); sys.exit(1 if m else 0)
    r = main(a.prop, a.seed, a.budget, a.tier)
    s = json.dumps(r, default=repr)
    if a.out: open(a.out, 'w').write(s)
    else: print(s[:3000])
