"""Runs the proof obligations of one property in worker processes and reports a verdict per contract."""
import os, sys, time, json, ast, hashlib, importlib, multiprocessing as mp, traceback, tempfile, subprocess, shutil
import z3
from . import engine as E
from .engine import REG, Verifier, Unsupported, MissingName, solver, simp
from .theory import relevant_axioms, KindError, guarded
from . import source as SRC

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load(modules=None):
    if modules is None:
        modules = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and f != '__init__.py')
    for m in modules: importlib.import_module('contracts.' + m)

def all_contracts():
    return {c.name: c for cs in REG.contracts.values() for c in cs}

# -------------------------------------------------------------- fingerprints

def strip_doc(node):
    import copy
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return node

def fingerprint(c):
    node = SRC.get_function(c.module, c.qual)[0]
    if node is None: return None
    if isinstance(node, ast.Lambda): return {'hash': hashlib.sha1(ast.dump(node).encode()).hexdigest()[:12], 'loops': [], 'locals': []}
    loops = []
    names = []
    def walk(n, d):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.For, ast.While)): loops.append(f'{type(x).__name__}{d}'); walk(x, d + 1)
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)): walk(x, d)
            else:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names: names.append(x.id)
                walk(x, d)
    walk(node, 0)
    return {'hash': hashlib.sha1(ast.dump(strip_doc(node)).encode()).hexdigest()[:12], 'loops': loops,
            'locals': [a.arg for a in node.args.args] + names}

_SKEL = {}
def skeleton():
    """everything of the loaded modules which is outside of functions"""
    if 'h' not in _SKEL:
        out = []
        def walk(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if n.args.defaults or n.args.kw_defaults: out.append(f'{n.name} {[d and ast.dump(d) for d in n.args.defaults + n.args.kw_defaults]}')
                    continue
                if isinstance(n, ast.ClassDef):
                    out.append(f'{n.name} {[ast.dump(b) for b in n.bases]} {sorted((x.name, [ast.dump(d) for d in x.decorator_list]) for x in n.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)))}'); walk(n.body)
                elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): out.append(ast.dump(n))
        for m in sorted(SRC._modules): out.append('module ' + m); walk(SRC._modules[m].tree.body)
        _SKEL['h'] = hashlib.sha1(repr(out).encode()).hexdigest()
    return _SKEL['h']

def dep(c, inlined):
    """identifies all of the source which the obligations of c are made from"""
    node = SRC.get_function(c.module, c.qual)[0]
    return hashlib.sha1(repr([ast.dump(strip_doc(node)), sorted(ast.dump(strip_doc(n)) for n in inlined.values()), skeleton()]).encode()).hexdigest()[:16]

# ------------------------------------------------------------------ one contract

BACKENDS = (('z3', ['z3', 'smt.mbqi=false', 'auto_config=false']), ('z3-new', ['z3-new', 'smt.mbqi=false', 'auto_config=false']), ('z3', ['z3', 'smt.mbqi=false']), ('z3-new', ['z3-new', 'smt.mbqi=false']))
SOLVED = {}     # back end -> number of obligations it discharged in this process

def external(s, timeout):
    """the query of solver s, given to the z3 releases of the sandbox side by side: name of the one that refutes it, or None"""
    fd, path = tempfile.mkstemp('.smt2', 'pyvc')
    procs = []
    try:
        with os.fdopen(fd, 'w') as f: f.write(s.to_smt2())
        for name, cmd in BACKENDS:
            if shutil.which(cmd[0]): procs.append((name, subprocess.Popen(cmd + [f'-T:{max(1, int(timeout))}', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout + 2
        open_ = list(procs)
        while open_ and time.time() < end:
            for item in list(open_):
                if item[1].poll() is not None:
                    open_.remove(item)
                    if item[1].stdout.read().split()[:1] == ['unsat']: return item[0]
            time.sleep(0.01)
        return None
    finally:
        for _, p in procs:
            if p.poll() is None: p.kill()
            p.wait()
        os.unlink(path)

def discharge(o, timeout):
    goal = simp(o.goal)
    if z3.is_true(goal): return 'proved', '', 0.0
    t0 = time.time()
    why = ''
    def query(pc, to):
        s = solver(int(to * 1000))
        for a in relevant_axioms(pc + [o.goal]): s.add(a)
        s.add(*pc); s.add(z3.Not(o.goal))
        return s
    def done(name):
        SOLVED[name] = SOLVED.get(name, 0) + 1
        return 'proved', '', time.time() - t0
    # a postcondition may follow from the preconditions and the postconditions before it alone (fewer hypotheses)
    for pc, to in ([(o.pc, timeout / 3), (o.core, timeout / 3)] if o.core is not None else [(o.pc, timeout / 2)]):
        s = query(pc, to); r = s.check()
        if r == z3.unsat: return done('z3 (API)')
        if pc is o.core: continue
        if r == z3.sat: return 'failed', 'sat: ' + str(s.model())[:600], time.time() - t0
        why = s.reason_unknown()
        if 'incomplete' in why:
            name = external(query(pc, 5), 5)
            return done(name) if name else ('failed', 'unknown: ' + why, time.time() - t0)
    for pc in [o.pc] + ([o.core] if o.core is not None else []):
        name = external(query(pc, timeout), timeout * 2)
        if name: return done(name)
    return 'timeout', 'unknown: ' + why, time.time() - t0

def verify(c, base=None, timeout=6, limit=240):
    res = {'name': c.name, 'status': '?', 'obligations': 0, 'discharged': 0, 'failed': [], 'assumptions': [], 'time': 0.0,
           'solver': 0.0, 'paths': 0, 'note': ''}
    t0 = time.time()
    try:
        fp = fingerprint(c)
        res['fp'] = fp
        if fp is None:
            res.update(status='missing', note=f'function {c.qual} not found'); return res
        rename = {}
        while True:
            try:
                V = Verifier(c, rename=rename)
                obls = V.explore()
                break
            except MissingName as e:
                if rename or not base: raise
                old, new = base.get('locals', []), fp['locals']
                if len(old) == len(new): rename = {a: b for a, b in zip(old, new) if a != b}
                else:
                    rename = match_names(old, new)
                if not rename: raise
        res['paths'] = V.npaths; res['dep'] = dep(c, V.inlined)
        res['assumptions'] = sorted(V.assumptions)
        res['nospec'] = sorted(getattr(V, 'nospec', ()))
        res['used'] = sorted(getattr(V, 'used', ()))
        res['obligations'] = len(obls)
        again = []
        for o in obls:
            if time.time() - t0 > limit:
                res['failed'].append({'obligation': o.name, 'line': o.line, 'kind': o.kind, 'status': 'timeout', 'why': 'time budget of the function exceeded'})
                continue
            st, why, dt = discharge(o, timeout)
            res['solver'] += dt
            if st == 'proved': res['discharged'] += 1
            elif st == 'timeout': again.append((o, why))
            else: res['failed'].append({'obligation': o.name, 'line': o.line, 'kind': o.kind, 'status': st, 'why': why[:700]})
        for o, why in again:         # once more with more time
            st = 'timeout'
            if len(again) <= 6 and time.time() - t0 < limit - 60:
                st, why, dt = discharge(o, timeout * 3)
                res['solver'] += dt
            if st == 'proved': res['discharged'] += 1
            else: res['failed'].append({'obligation': o.name, 'line': o.line, 'kind': o.kind, 'status': st, 'why': why[:700]})
        res['backends'] = dict(SOLVED); SOLVED.clear()
        # vacuity: some path must reach an end with a consistent path condition
        live = 0
        for pc in getattr(V, 'ends', [])[:6]:
            s = solver(1500)
            for a in relevant_axioms(pc): s.add(a)
            s.add(*pc)
            if s.check() != z3.unsat: live += 1; break
        res['live'] = live
        if not res['failed']:
            res['status'] = 'proved' if obls and live else 'vacuous'
        elif any(f['status'] == 'failed' for f in res['failed']): res['status'] = 'failed'
        else: res['status'] = 'timeout'
    except (Unsupported, KindError) as e:
        res.update(status='unsupported', note=str(e)[:300])
    except RecursionError:
        res.update(status='unsupported', note='recursion limit')
    except Exception as e:
        res.update(status='unsupported', note='verifier error: ' + repr(e)[:200] + ' ' + traceback.format_exc()[-400:])
    res['time'] = time.time() - t0
    return res

def match_names(old, new):
    """old -> new local names when the lists differ in length: names only in one of them, matched in order"""
    a = [x for x in old if x not in new]; b = [x for x in new if x not in old]
    return dict(zip(a, b)) if len(a) == len(b) else {}

# ------------------------------------------------------------------ scheduling

def _child(conn, kind, key, base):
    try:
        if kind == 'c':
            r = verify(all_contracts()[key], base)
        else:
            r = verify_lemma(key)
        conn.send(r)
    except BaseException as e:
        try: conn.send({'name': key, 'status': 'unsupported', 'note': 'worker: ' + repr(e)[:200], 'obligations': 0, 'discharged': 0, 'failed': [], 'assumptions': [], 'time': 0, 'solver': 0})
        except Exception: pass
    conn.close()

def run_jobs(jobs, nproc=7, limit=330, progress=None):
    """jobs: (kind, key, base) -> {key: result}"""
    ctx = mp.get_context('fork')
    pending = list(jobs); running = []; out = {}
    while pending or running:
        while pending and len(running) < nproc:
            kind, key, base = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, kind, key, base), daemon=True)
            p.start(); b.close()
            running.append((p, a, key, time.time()))
        for item in list(running):
            p, a, key, t0 = item
            done = False
            if a.poll(0):
                try: out[key] = a.recv()
                except EOFError: out[key] = dead(key, 'worker died')
                done = True
            elif not p.is_alive():
                out[key] = dead(key, 'worker died'); done = True
            elif time.time() - t0 > limit:
                p.kill(); out[key] = dead(key, f'no answer within {limit} s', 'timeout'); done = True
            if done:
                p.join(2)
                if p.is_alive(): p.kill()
                a.close(); running.remove(item)
                if progress: progress(out[key])
        time.sleep(0.005)
    return out

def dead(key, note, status='timeout'):
    return {'name': key, 'status': status, 'note': note, 'obligations': 0, 'discharged': 0, 'failed': [], 'assumptions': [], 'time': 0.0, 'solver': 0.0}

# ------------------------------------------------------------------ lemmas

LEMMAS = {}
def lemma(name, props):
    """decorator: fn() -> list of (label, hypotheses, goal); proved from the basic axioms (derived axioms excluded)"""
    def deco(f):
        LEMMAS[name] = (set(props), f); return f
    return deco

def verify_lemma(name):
    from . import theory as TH
    t0 = time.time()
    res = {'name': 'lemma ' + name, 'status': 'proved', 'obligations': 0, 'discharged': 0, 'failed': [], 'assumptions': [], 'time': 0.0, 'solver': 0.0, 'paths': 1, 'note': '', 'used': [], 'live': 1}
    TH.DERIVED_OFF = True
    try:
        for label, hyps, goal in LEMMAS[name][1]():
            res['obligations'] += 1
            s = solver(4000)
            for a in relevant_axioms(list(hyps) + [goal]): s.add(a)
            s.add(*[guarded(h) for h in hyps]); s.add(z3.Not(goal))
            name = 'z3 (API)' if s.check() == z3.unsat else external(s, 25)
            if name: res['discharged'] += 1; SOLVED[name] = SOLVED.get(name, 0) + 1
            else: res['status'] = 'failed'; res['failed'].append({'obligation': label, 'line': 0, 'kind': 'lemma', 'status': 'failed', 'why': s.reason_unknown()})
    finally: TH.DERIVED_OFF = False
    res['backends'] = dict(SOLVED); SOLVED.clear()
    res['time'] = res['solver'] = time.time() - t0
    return res
