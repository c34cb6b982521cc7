#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: BUGS.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source)].
Makes seeded/<id>/ after confirming in a scratch copy of /repo: patch applies, stable tests pass, demo passes without and fails with it; then runs the check."""
import sys, os, json, subprocess, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base.get('tests') or base.get('stable') or base.get('pass') or base
    return b
def one(b, checkonly=False):
    i = b['id']; d = f'{HERE}/seeded/{i}'; log = []
    tmp = tempfile.mkdtemp(prefix='plant-'); c = tmp + '/repo'
    try:
        sh(f'cp -a /repo {c}')
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            s = open(f'{c}/{f}').read()
            if s.count(old) != 1: return i, f'edit text occurs {s.count(old)} times in {f}: {old[:60]!r}'
            open(f'{c}/{f}', 'w').write(s.replace(old, new))
        p = sh(f'git -C {c} diff').stdout
        open(d + '/patch.diff', 'w').write(p)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository: exits 0 if the guarantee holds\nD=$(cd "$(dirname "$0")" && pwd)\n'
              'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 TERM=dumb\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'cd /repo && timeout 250 bash {d}/demo.sh'); r1 = sh(f'cd {c} && timeout 250 bash {d}/demo.sh')
        log.append(f'demo {r0.returncode}/{r1.returncode} {r1.stdout[-150:]} {r1.stderr.strip()[-150:]}')
        if r0.returncode: log.append('FAILS ON UNCHANGED: ' + r0.stderr[-300:])
        if not checkonly:
            s = open('/opt/vp/test.sh').read().replace('/repo', c).replace('"$WORK' + c, '"$WORK/repo').replace('$WORK' + c, '$WORK/repo')
            open(tmp + '/test.sh', 'w').write(s)
            t = sh(f'bash {tmp}/test.sh {tmp}/out.json')
            o = json.load(open(tmp + '/out.json'))
            bad = broken(o)
            log.append('tests ok' if not bad else f'TESTS BROKEN: {bad[:6]}')
        e = dict(os.environ, PYVC_REPO=c, VERIF_SEED='1')
        for p in b.get('checks', [b['prop']]):
            r = sh(f'cd {HERE} && timeout 850 python3-vt check.py {p}', env=e)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            log.append(f'check {p}: {"CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode}' + (' (proof only)' if v and 'no-failing' in v[0] else '') + '\n' + '\n'.join('      ' + l[:200] for l in r.stdout.splitlines()[:6]))
        return i, '\n   '.join(log)
    finally: shutil.rmtree(tmp, ignore_errors=True)
def names(o, want):
    for k in ('passed', 'pass', 'ok'):
        if k in o: return set(o[k])
    return {k for k, v in (o.get('tests') or o).items() if v in ('passed', 'pass', True)}
def broken(o):
    b = base
    must = set(b.get('stable') or b.get('passed') or b.get('tests') or [])
    return sorted(must - names(o, 1))
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]; ns = {}
    exec(open(a[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(a) == 1 or b['id'] in a[1:]]
    with cf.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(lambda b: one(b, '-c' in sys.argv), bugs): print(f'== {i}\n   {m}', flush=True)
