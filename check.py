#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough] [--seed N] [--update-baseline]   (see DESIGN.md)"""
import sys, os, json, time, subprocess, argparse, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
VENV = '/opt/venv/bin/python'

def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                r = json.loads(l); out[r['id']] = r
    return out

def closure_of(R, prop):
    """contracts tagged with the property; the contracts they rely on are added after the first round"""
    return [c for c in R.all_contracts().values() if prop in c.props and not c.trusted and not c.inline]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--update-baseline', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-oracle', action='store_true'); ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    evdir = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    budget = a.budget or (25 if a.tier == 'quick' else 240)
    # 1. bounded search on the real code, in the background
    orc = None; tmp = None
    if os.path.exists(os.path.join(HERE, 'oracles', prop + '.py')) and not a.no_oracle and not a.update_baseline:
        tmp = tempfile.mkdtemp(prefix='verif-')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=os.environ.get('PYVC_REPO', '/repo'), LC_ALL='C.UTF-8', TERM='dumb')
        orc = subprocess.Popen([VENV, '-W', 'ignore', os.path.join(HERE, 'oracles', 'base.py'), prop, '--seed', str(a.seed), '--budget', str(budget),
                                '--tier', a.tier, '--out', os.path.join(tmp, 'out.json')], cwd=tmp, env=env, stdout=subprocess.DEVNULL,
                               stderr=open(os.path.join(tmp, 'err'), 'w'), stdin=subprocess.DEVNULL)
    # 2. proofs
    bpath = os.path.join(HERE, 'baseline.json')
    base = json.load(open(bpath)) if os.path.exists(bpath) else {}
    results = {}; lem = {}
    fatal = None
    try:
        from pyvc import runner as R
        R.load()
        todo = closure_of(R, prop)
        done = set()
        prog = (lambda r: print(f"  {r['status']:12}{r['name']} {r['discharged']}/{r['obligations']} {r['time']:.1f}s {r['note'][:150]}" +
                ''.join(f"\n      {f['status']} line {f['line']} {f['kind']}: {f['obligation']} [{f['why'][:80]}]" for f in r['failed']), flush=True)) if a.v else None
        jobs = [('l', n, None) for n, (ps, _) in R.LEMMAS.items() if prop in ps]
        first = True
        while todo or first:
            jobs += [('c', c.name, base.get(c.name, {}).get('fp')) for c in todo]
            done |= {c.name for c in todo}
            jobs.sort(key=lambda j: -base.get(j[1], {}).get('obligations', 0))      # long ones first
            res = R.run_jobs(jobs, progress=prog)
            for k, r in res.items(): (lem if k in R.LEMMAS else results)[k] = r
            used = set().union(*[set(r.get('used', ())) for r in results.values()]) if results else set()
            AC = R.all_contracts()
            todo = [AC[n] for n in sorted(used - done) if n in AC and not AC[n].trusted and not AC[n].inline]
            jobs = []; first = False
    except Exception as e:       # the sources cannot even be read: decided by the search alone
        import traceback
        fatal = f'{type(e).__name__}: {e}'
        if a.v: traceback.print_exc()
    if a.update_baseline:
        for n, r in results.items():
            base[n] = {'status': r['status'], 'fp': r.get('fp'), 'dep': r.get('dep'), 'obligations': r['obligations']}
        json.dump(base, open(bpath, 'w'), indent=1, sort_keys=True)
        bad = [n for n, r in results.items() if r['status'] != 'proved']
        print(f'{prop}: baseline updated, {len(results) - len(bad)} proved, not proved: {bad}')
        return 0
    # 3. verdict
    failing, undecided = [], []
    for n, r in results.items():
        b = base.get(n)
        if r['status'] == 'proved': continue
        if not b or b['status'] != 'proved':
            undecided.append((n, 'not proved on the unchanged tree either')); continue
        fs = [f for f in r['failed'] if f['status'] == 'failed']
        same = (b.get('fp') or {}).get('loops') == (r.get('fp') or {}).get('loops')
        if b.get('dep') and b['dep'] == r.get('dep'):        # nothing these obligations are made from has changed: the solver did not find the proof this time
            undecided.append((n, 'source unchanged, proof not found again within the limits')); continue
        if r['status'] == 'failed' and fs and same and not r.get('nospec'):
            failing.append((n, r, fs))
        else:
            undecided.append((n, r['status'] + ': ' + (r['note'] or '; '.join(f['obligation'] for f in r['failed'][:3]))[:300]))
    ores = None
    if orc is not None:
        try: orc.wait(timeout=budget + 120)
        except subprocess.TimeoutExpired: orc.kill()
        try: ores = json.load(open(os.path.join(tmp, 'out.json')))
        except Exception:
            err = open(os.path.join(tmp, 'err')).read()[-1500:]
            ores = {'evaluations': 0, 'distinct': 0, 'failure': None, 'known': {}, 'samples': [], 'crash': err}
        subprocess.call(['rm', '-rf', tmp])
    known = known_findings()
    out_lines = []; code = 0
    rep = lambda tag: os.path.join(evdir, 'replays', f'{prop}-{tag}.json')
    if ores:
        for k, v in (ores.get('known') or {}).items():
            if k in known and known[k]['property'] == prop: out_lines.append(f'KNOWN-FINDING: property={prop} {known[k]["what"]}')
            elif not ores['failure']: ores['failure'] = v
        if ores['failure']:
            f = dict(ores['failure'], property=prop, kind='input', replay_cmd=f'{VENV} /verif/oracles/base.py {prop} --replay <this file>',
                     failed_obligations=[{'function': n, 'obligations': fs} for n, r, fs in failing])
            json.dump(f, open(rep('input'), 'w'), indent=1, default=repr)
            print(f"{prop}: {f['check']}: {f['message']}\n  input: {json.dumps(f['case'], default=repr)[:600]}")
            for n, r, fs in failing: print(f"  failed obligation in {n}: {fs[0]['obligation']}")
            out_lines.append(f'VIOLATION property={prop} replay={rep("input")}'); code = 1
    if failing and code == 0:
        json.dump({'property': prop, 'kind': 'obligation', 'failed': [{'function': n, 'obligations': fs, 'source': r.get('fp')} for n, r, fs in failing]},
                  open(rep('obligation'), 'w'), indent=1)
        for n, r, fs in failing:
            for f in fs[:4]: print(f"{prop}: {n}: obligation failed at line {f['line']}: {f['obligation']}  [{f['why'][:160]}]")
        out_lines.append(f'VIOLATION property={prop} replay={rep("obligation")} no-failing-input-found'); code = 1
    # 4. evidence
    proved = [n for n, r in results.items() if r['status'] == 'proved']
    nobl = sum(r['obligations'] for r in results.values()) + sum(r['obligations'] for r in lem.values())
    ndis = sum(r['discharged'] for r in results.values()) + sum(r['discharged'] for r in lem.values())
    assum = sorted(set().union(*[set(r['assumptions']) for r in results.values()])) if results else []
    backends = {}
    for r in list(results.values()) + list(lem.values()):
        for b, k in (r.get('backends') or {}).items(): backends[b] = backends.get(b, 0) + k
    backends['simplifier'] = max(0, ndis - sum(backends.values()))
    man = {}
    try: man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}.get(prop, {})
    except Exception: pass
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': f'python3-vt check.py {prop} --tier {a.tier}',
           'trusted_base': ['z3 (Python API of python3-vt)', 'pyvc: symbolic execution of the ASTs read from /repo, library models in pyvc/lib.py, sequence theory in pyvc/theory.py'],
           'functions_under_contract': len(results), 'functions_proved': proved,
           'functions_not_proved': [f'{n}: {w}' for n, w in undecided] + [f'{n}: failed' for n, _, _ in failing],
           'lemmas_proved': [n for n, r in lem.items() if r['status'] == 'proved'],
           'solver_seconds': round(sum(r['solver'] for r in results.values()), 2), 'paths': sum(r.get('paths', 0) for r in results.values()), 'discharged_by': backends}
    if ores:
        cov.update(evaluations=ores['evaluations'], distinct_nontrivial=ores['distinct'], rule='bounded stand-in and replay search: generated cases run on the real code against an independent oracle (oracles/' + prop + '.py); '
                   'counted as non-trivial if distinct as JSON', samples=ores['samples'][:6], per_check=ores.get('per_check', {}))
        if ores.get('crash'): cov['search_crash'] = ores['crash']
    if fatal: cov['proof_error'] = fatal
    if not cov.get('samples') : cov['samples'] = [{'function': n, 'obligations': r['obligations']} for n, r in list(results.items())[:5]]
    cov['explanation'] = (f'{len(proved)} of {len(results)} functions under contract proved for all inputs ({ndis} of {nobl} obligations discharged by z3); '
                          + (f'in addition {ores["evaluations"]} bounded executions of the real code (not counted as proof)' if ores else ''))
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': man.get('level', 'proof'), 'coverage': cov,
          'assumptions': assum + ['integers are mathematical (as in Python); termination is proved only for loops with a decreasing measure, not for recursion'],
          'wall_s': round(time.time() - t0, 2), 'violations': code}
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1, default=repr)
    print(f"{prop}: {cov['explanation']}" + (f"; undecided: {[n for n, _ in undecided]}" if undecided else '') + (f"; search crashed: {ores['crash'][-300:]}" if ores and ores.get('crash') else ''))
    for l in out_lines: print(l)
    return code

if __name__ == '__main__':
    sys.exit(main())
