"""check runner:  run.py <ID> [quick|thorough]"""
import sys, os, time, json, subprocess, traceback, importlib.util, hashlib, multiprocessing, signal, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
import z3
import irparse, vcg, discharge
from vcg import *
import stdmodel, harness

CLANG = ['clang++', '-std=gnu++17', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off',
         '-gline-tables-only', '-fno-discard-value-names', '-w']
SRC_INC = ['core', 'kokkos', 'pack', 'algorithm', 'expression', 'logging', 'parser', 'testing-support']

KOKKOS = {'vp': True, 'src': 'driver.cpp', 'flags': ['-I/opt/vp/compat', '-DOMPI_SKIP_MPICXX', '-DKOKKOS_ENABLE_CXX17', '-DEKAT_DEFAULT_BFB', '-fopenmp'],
          'libs': ['-lkokkoscore', '-fopenmp', '-ldl']}   # native build of a shared driver against the real Kokkos

# same driver against the executable Kokkos contract of stubs/ (for code that needs a newer Kokkos than the installed one)
KSTUB = {'vp': True, 'src': 'driver.cpp', 'stubs': True, 'flags': ['-DVP_STUB_NATIVE', '-I/opt/vp/compat', '-DOMPI_SKIP_MPICXX', '-DEKAT_DEFAULT_BFB'], 'libs': ['-ldl']}

class ToolError(Exception): pass

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.build = os.path.join(VERIF, '.build', pid)
        self.pdir = os.path.join(VERIF, 'props', pid)
        os.makedirs(self.build, exist_ok=True)
        self.assumptions = []
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    @property
    def thorough(self): return self.tier == 'thorough'

    def incs(self, stubs=True):
        o = []
        if stubs: o += ['-I' + os.path.join(VERIF, 'stubs')]
        o += ['-I%s/src/%s' % (REPO, d) for d in SRC_INC] + ['-I' + self.pdir, '-I' + os.path.join(VERIF, 'props', 'common')]
        return o

    def compile(self, src, defs=(), name=None, stubs=True, flags=()):
        """C++ -> LLVM IR from the current tree; always rebuilt"""
        if not os.path.isabs(src): src = os.path.join(self.pdir, src)
        name = name or os.path.splitext(os.path.basename(src))[0]
        h = hashlib.md5(repr((src, defs, flags)).encode()).hexdigest()[:8]
        out = os.path.join(self.build, '%s-%s-%d.ll' % (name, h, os.getpid()))
        p = subprocess.run(CLANG + self.incs(stubs) + ['-D' + d for d in defs] + list(flags) + [src, '-o', out + '.0'], capture_output=True, text=True)
        if p.returncode:
            raise ToolError('clang failed on %s:\n%s' % (src, p.stderr[:4000]))
        p = subprocess.run(['opt', '-S', '-passes=mem2reg,loop-simplify,lcssa', out + '.0', '-o', out], capture_output=True, text=True)
        if p.returncode: raise ToolError('opt failed: ' + p.stderr[:2000])
        os.unlink(out + '.0')
        m = irparse.parse_file(out)
        os.unlink(out)
        return m

    def exec(self, mod, fmode='uf', name=''):
        ex = Exec(mod, fmode, name)
        ex.inputs = {}
        stdmodel.install(ex); harness.install(ex)
        ex.deadline = time.time() + (700 if self.thorough else 420)
        return ex

class Task:
    """one unit of proof: fn(ctx) -> Exec or list of Exec holding the obligations"""
    def __init__(self, name, fn, bounded=None, replay=None):
        self.name = name; self.fn = fn; self.bounded = bounded; self.replay = replay

STRINGS = ['-D_GLIBCXX_ASSERTIONS']   # bodies of std::basic_string are then part of the IR (libstdc++ code is executed, not assumed), and element accesses check their bounds
# flags to extract against the installed Kokkos headers instead of the contract in stubs/ (its code is then executed, not assumed)
REALK = ['-DOMPI_SKIP_MPICXX', '-DKOKKOS_ENABLE_CXX17', '-DEKAT_DEFAULT_BFB', '-I/opt/vp/compat', '-I' + os.path.join(VERIF, 'stubs', 'omp'), '-fopenmp']

def harness_tasks(ctx, src='driver.cpp', defs=(), fmode='uf', setup=None, only=None, prefix='', flags=(), group=None, bounded=None, realk=False):
    """one task per contract entry (VP_HARNESS) of a driver; compiled once, from the current tree.
    fmode: 'uf' | 'real' | function(entry name) -> mode"""
    try: mod = ctx.compile(src, defs, flags=list(flags) + (REALK if realk else []), stubs=not realk)
    except ToolError as e:
        def bad(c, e=e): raise e
        return [Task(prefix + 'extract', bad)]
    mod.demangled_cache = None
    names = [n for n in mod.functions if n.startswith('h_') and not mod.functions[n].decl]
    probe = Exec(mod); probe.demangle_all(); dem = probe.demangled
    out = []
    def mk(n):
        def fn(c):
            fm = fmode(n[2:]) if callable(fmode) else fmode
            ex = c.exec(mod, fm, n[2:]); ex.demangled = dem
            if setup: setup(ex, n[2:])
            o = ex.call(n, [], State(), TRUE)
            for g, s, x in o.excs: ex.oblige(g, False, 'post: no exception escapes', 'post')
            return ex
        return fn
    def mkgroup(ns):
        fns = [mk(n) for n in ns]
        return lambda c: [f(c) for f in fns]
    names = [n for n in names if not only or re.search(only, n[2:])]
    if group:
        gs = {}
        for n in names: gs.setdefault(group(n[2:]), []).append(n)
        for k, ns in gs.items(): out.append(Task(prefix + k, mkgroup(ns), bounded))
    else:
        for n in names: out.append(Task(prefix + n[2:], mk(n), bounded))
    return out

def lean_task(ctx, fname):
    """the lemmas the solver is given as facts, checked by Lean: one obligation per theorem"""
    path = os.path.join(VERIF, 'lemmas', fname)
    txt = open(path).read()
    names = re.findall(r'^theorem\s+(\S+)', txt, re.M)
    t0 = time.time()
    err = None
    if re.search(r'\bsorry\b|\baxiom\b|native_decide', txt): err = 'sorry/axiom in ' + fname
    else:
        p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=400, cwd=os.path.join(VERIF, 'lemmas'))
        if p.returncode or 'sorry' in p.stdout: err = (p.stdout + p.stderr)[:1500]
    dt = time.time() - t0
    return {'obs': [{'name': 'lemma ' + n, 'kind': 'lemma', 'loc': 'lemmas/' + fname, 'fn': None, 'status': 'unknown' if err else 'proved', 'backend': 'lean',
                     'time': dt / max(1, len(names)), 'model': None, 'reason': err, 'ex': fname, 'goal': None} for n in names]}

def run_task(ctx, task, conn):
    t0 = time.time()
    res = {'task': task.name, 'obs': [], 'undecided': [], 'tool': None, 'functions': [], 'contracts': [], 'stats': {}, 'cover': []}
    try:
        exs = task.fn(ctx)
        if isinstance(exs, dict):
            res['obs'] = exs['obs']; exs = []
        if not isinstance(exs, (list, tuple)): exs = [exs]
        fns = set(); cons = set(); ni = 0; unr = 0
        for ex in exs:
            t1 = time.time()
            discharge.discharge(ex, quick_ms=ctx_opt(ctx, 'quick_ms', 4000), full_s=ctx_opt(ctx, 'full_s', 20 if not ctx.thorough else 60),
                                deadline=ctx.t0 + ctx_opt(ctx, 'budget', 480 if not ctx.thorough else 780), stop_after=6)
            for o in ex.obs:
                res['obs'].append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'fn': o.fn and ex.dem(o.fn), 'status': o.status,
                                   'backend': o.backend, 'time': o.time, 'model': o.model, 'reason': o.reason, 'ex': ex.name,
                                   'goal': str(o.goal)[:600] if o.status != 'proved' else None})
            fns |= {ex.dem(f) for f in ex.stats['functions']}
            cons |= {ex.dem(f) for f in ex.stats['contracts_used']}
            ni += ex.stats['instrs']; unr += ex.stats['unrolled']
            # vacuity: the facts gathered on the way (preconditions included) must not be contradictory
            for nm, g in getattr(ex, 'covers', []):
                s = z3.Solver(); s.set('timeout', 10000)
                for f in ex.facts: s.add(f)
                s.add(B(g.z() if isinstance(g, Guard) else g))
                r = s.check()
                res['cover'].append((nm, str(r)))
        res['functions'] = sorted(fns); res['contracts'] = sorted(cons)
        res['stats'] = {'instructions': ni, 'unrolled': unr}
    except Undecided as e:
        res['undecided'].append(str(e))
        if os.environ.get('VP_DEBUG'): traceback.print_exc()
    except IRError as e:
        res['undecided'].append('IR: ' + str(e))
    except ToolError as e:
        res['undecided'].append('extraction: ' + str(e))
    except Exception as e:
        res['undecided'].append('generator failure: ' + ''.join(traceback.format_exception_only(e)).strip())
        res['trace'] = traceback.format_exc()
        if os.environ.get('VP_DEBUG'): traceback.print_exc()
    res['time'] = time.time() - t0
    try:
        conn.send(json.loads(json.dumps(res, default=str)))
    finally:
        conn.close()

OPTS = {}
def ctx_opt(ctx, k, d): return OPTS.get(k, d)

def run_tasks(ctx, tasks, jobs=8):
    pend = list(tasks); running = []; results = {}
    limit = 840
    while pend or running:
        while pend and len(running) < jobs:
            t = pend.pop(0)
            a, b = multiprocessing.Pipe(duplex=False)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    a.close()
                    run_task(ctx, t, b)
                finally:
                    os._exit(0)
            b.close(); running.append((t, pid, a, time.time()))
        for r in list(running):
            t, pid, a, st = r
            done = False
            try:
                if a.poll(0.02):
                    results[t.name] = a.recv(); done = True
            except EOFError:
                results[t.name] = {'task': t.name, 'obs': [], 'undecided': ['worker died (memory or crash)'], 'tool': None, 'functions': [], 'contracts': [], 'cover': [], 'stats': {}, 'time': time.time() - st}; done = True
            if not done and time.time() - ctx.t0 > limit * (0.68 if not ctx.thorough else 0.9):
                try: os.killpg(pid, signal.SIGKILL)
                except Exception: os.kill(pid, signal.SIGKILL)
                results[t.name] = {'task': t.name, 'obs': [], 'undecided': ['time budget exhausted'], 'tool': None, 'functions': [], 'contracts': [], 'cover': [], 'stats': {}, 'time': time.time() - st}; done = True
            if done:
                try: os.waitpid(pid, 0)
                except Exception: pass
                running.remove(r)
        time.sleep(0.01)
    return [results[t.name] for t in tasks]

# native replay ------------------------------------------------------------------
class Native:
    def __init__(self, ctx, spec):
        self.ctx = ctx; self.spec = spec; self.exe = None; self.err = None
    def buildit(self):
        if self.exe or self.err: return self.exe
        sp = self.spec; ctx = self.ctx
        src = os.path.join(ctx.pdir, sp.get('src', 'native.cpp'))
        exe = os.path.join(ctx.build, 'native')
        cmd = [sp.get('cxx', 'g++'), '-std=gnu++17', '-O1', '-g', '-ffp-contract=off', '-w'] + (['-DVP_NATIVE'] if sp.get('vp') else []) + sp.get('flags', [])
        cmd += ctx.incs(sp.get('stubs', False)) + [src] + [os.path.join(REPO, s) for s in sp.get('srcs', [])] + ['-o', exe] + sp.get('libs', [])
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: self.err = p.stderr[:3000]; return None
        self.exe = exe; return exe
    def run(self, args, timeout=20):
        if not self.buildit(): return None, 'native harness does not build: ' + (self.err or '')
        try:
            p = subprocess.run([self.exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'')[-2000:] if isinstance(e.stdout, bytes) else ''
        return p.returncode, p.stdout[-4000:] + p.stderr[-2000:]

def run_native_case(nat, args):
    """True when the real code violates the property on this concrete case"""
    rc, out = nat.run(['case'] + list(args))
    if rc is None: return False, out
    if rc == 'timeout': return True, 'does not terminate within 20 s\n' + str(out)
    return rc != 0, out

def main():
    sys.modules['run'] = sys.modules[__name__]      # the specs import this module by its name
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else (os.environ.get('VERIF_TIER') or 'quick')
    ctx = Ctx(pid, tier)
    path = os.path.join(ctx.pdir, 'spec.py')
    spec = importlib.util.spec_from_file_location('spec_' + pid, path)
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    OPTS.update(getattr(mod, 'OPTIONS', {}))
    tasks = mod.tasks(ctx)
    tasks += [Task('lemmas:' + f, lambda c, f=f: lean_task(c, f)) for f in getattr(mod, 'LEAN', [])]
    only = os.environ.get('VP_TASK')
    if only: tasks = [t for t in tasks if re.search(only, t.name)]
    results = run_tasks(ctx, tasks)
    tool = [r for r in results if r['tool']]
    total = sum(len(r['obs']) for r in results)
    proved = sum(1 for r in results for o in r['obs'] if o['status'] == 'proved')
    failed = [(r, o) for r in results for o in r['obs'] if o['status'] != 'proved']
    und = [(r, u) for r in results for u in r['undecided']]
    vac = [(r, c) for r in results for c in r['cover'] if c[1] == 'unsat']
    empty = [r for r in results if not r['obs'] and not r['undecided'] and not r['tool']]
    backends = {}
    for r in results:
        for o in r['obs']: backends[o['backend'] or 'none'] = backends.get(o['backend'] or 'none', 0) + 1
    boundednames = {t.name for t in tasks if t.bounded}
    wall = time.time() - ctx.t0
    cov = {
        'obligations': sum(len(r['obs']) for r in results if r['task'] not in boundednames) + sum(len(r['undecided']) for r in results),
        'discharged': sum(1 for r in results if r['task'] not in boundednames for o in r['obs'] if o['status'] == 'proved'),
        'checker_cmd': 'python3-vt engine/run.py %s %s' % (pid, tier),
        'trusted_base': getattr(mod, 'TRUSTED', []) + BASE_TRUST,
        'backends': backends,
        'solver_seconds': round(sum(o['time'] or 0 for r in results for o in r['obs']), 2),
        'functions_under_contract': getattr(mod, 'CONTRACTED', []),
        'functions_executed': sorted({f for r in results for f in r['functions'] if 'ekat' in f})[:400],
        'assumed_contracts_used': sorted({f for r in results for f in r['contracts']})[:200],
        'tasks': [{'name': r['task'], 'obligations': len(r['obs']), 'proved': sum(1 for o in r['obs'] if o['status'] == 'proved'),
                   'by_kind': count([o['kind'] for o in r['obs']]), 'seconds': round(r['time'], 2), 'cover': r['cover'],
                   'bounded': next((t.bounded for t in tasks if t.name == r['task']), None), 'ir_instructions': r['stats'].get('instructions')} for r in results],
    }
    bn = [r for r in results if r['task'] in boundednames]
    if bn: cov['bounded_obligations_not_counted'] = sum(len(r['obs']) for r in bn)
    ev = {'property': pid, 'tier': tier, 'seed': ctx.seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + GEN_ASSUME, 'wall_s': round(wall, 2), 'violations': 0}

    nat = Native(ctx, mod.NATIVE) if hasattr(mod, 'NATIVE') else None
    viol = None
    if tool:
        write_ev(ctx, ev)
        for r in tool: print('TOOL-ERROR in %s: %s' % (r['task'], r['tool']))
        sys.exit(2)
    if vac or empty:
        for r, c in vac: print('VACUOUS: %s: %s is unreachable' % (r['task'], c[0]))
        for r in empty: print('EMPTY: %s generated no obligation' % r['task'])
    if failed or und or vac or empty:
        for r, o in failed[:12]:
            print('UNDISCHARGED %s [%s] %s at %s in %s: %s %s' % (o['status'], r['task'], o['name'], o['loc'], str(o['fn'])[:150], o.get('reason') or '', json.dumps(o['model'])[:400] if o['model'] else ''))
        for r, u in und[:12]: print('UNDECIDED [%s] %s' % (r['task'], u))
        viol = report(ctx, mod, nat, failed, und, vac, empty, tasks)
    else:
        # conformance of the assumed contracts / specification on the real build (never counted as proof)
        if nat and getattr(mod, 'CONFORM', True):
            secs = 5 if tier == 'quick' else 60
            rc, out = nat.run(['search', secs, ctx.seed], timeout=secs * 4 + 60)
            line = [l for l in (out or '').split('\n') if l.startswith('CASES')] if rc is not None else []
            cov['conformance_runs_of_spec_on_real_build'] = line[0] if line else str(rc)
            if rc not in (0, None):
                fl = [l for l in str(out).split('\n') if l.startswith('FAIL ')]
                viol = {'obligation': 'conformance of the executable specification with the real build (assumed contracts)', 'native': fl[:1] or str(out)[-800:], 'found': bool(fl) or rc == 'timeout'}
                if rc is None: viol = None
            elif rc is None:
                cov['conformance_runs_of_spec_on_real_build'] = 'native harness did not build: ' + str(nat.err)[:300]
    kf = known_findings(pid)
    code = 0
    if viol is not None:
        ev['violations'] = 1
        rp = os.path.join(VERIF, '.build', pid, 'replay.json')
        with open(rp, 'w') as f: json.dump(viol, f, indent=1, default=str)
        rel = os.path.relpath(rp, VERIF)
        ev['violation'] = {k: v for k, v in viol.items() if k in ('obligation', 'native', 'found', 'case')}
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol.get('found') else ' no-failing-input-found'))
        code = 1
    for k in kf: print(k)
    write_ev(ctx, ev)
    print('%s %s: %d obligations, %d discharged, %.1f s (%s)' % (pid, tier, total, proved, time.time() - ctx.t0, backends))
    sys.exit(code)

def count(l):
    d = {}
    for x in l: d[x] = d.get(x, 0) + 1
    return d

BASE_TRUST = ['clang 18 front end and mem2reg/loop-simplify/lcssa (C++ -> LLVM IR)', 'engine/irparse.py, engine/vcg.py (obligation generator)', 'z3 5.3.2 / cvc5 1.1.2']
GEN_ASSUME = ['distinct memory regions handed to a function do not overlap unless the contract says so',
              'no data is read through a type other than the one it was written with, except the byte splits the generator models']

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and ('property=%s ' % pid) in l: out.append(l)
    return out

def write_ev(ctx, ev):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev['wall_s'] = round(time.time() - ctx.t0, 2)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

def default_case(task, model, ob):
    return [[ob['ex']] + ['%s=%s' % (k, v) for k, v in model.items() if isinstance(v, (int, bool)) or re.fullmatch(r'-?[0-9]+(/[0-9]+)?(\.[0-9]+)?', str(v))]]

def report(ctx, mod, nat, failed, und, vac, empty, tasks):
    first = failed[0] if failed else None
    v = {'property': ctx.pid, 'found': False, 'failed_obligations': [dict(o, task=r['task']) for r, o in failed[:20]],
         'undecided': [{'task': r['task'], 'reason': u, 'trace': r.get('trace')} for r, u in und[:20]], 'vacuous': [str(x) for x in vac + empty][:5]}
    if first: v['obligation'] = '%s [%s] at %s (%s)' % (first[1]['name'], first[0]['task'], first[1]['loc'], first[1]['status'])
    elif und: v['obligation'] = 'undecided: ' + und[0][1]
    else: v['obligation'] = 'vacuous or empty task'
    if nat is None: return v
    # 1. the verifier's counterexamples
    cases = []
    to_case = getattr(mod, 'to_case', None) or (default_case if getattr(mod, 'NATIVE', {}).get('vp') else None)
    if to_case:
        for r, o in failed:
            if o['model']:
                try:
                    for c in to_case(r['task'], o['model'], o) or []:
                        if c not in cases: cases.append(c)
                except Exception as e:
                    v.setdefault('case_errors', []).append(repr(e))
    for c in cases[:20]:
        bad, out = run_native_case(nat, c)
        if bad:
            v['found'] = True; v['case'] = c; v['native'] = out; v['source'] = 'verifier counterexample replayed on the real code'
            v['command'] = [nat.exe, 'case'] + [str(x) for x in c]
            print('REPLAY (counterexample): %s -> %s' % (' '.join(map(str, c)), str(out).strip()[:400]))
            return v
    # 2. guided concrete search on the real code for the failed obligation
    secs = 60 if ctx.tier == 'quick' else 120
    if getattr(mod, 'NATIVE', {}).get('vp'):
        for h in list(dict.fromkeys(o['ex'] for r, o in failed if o.get('ex')))[:6]:
            rc, out = nat.run(['search', 6, ctx.seed, h], timeout=90)
            fl = [l for l in str(out).split('\n') if l.startswith('FAIL ')]
            if fl:
                v['found'] = True; v['native'] = fl[0]; v['source'] = 'concrete search on the real code'; v['command'] = [nat.exe, 'search', '6', str(ctx.seed), h]
                print('REPLAY (search): ' + v['native'][:500]); return v
    rc, out = nat.run(['search', secs, ctx.seed], timeout=secs * 3 + 60)
    if rc is None: v['native_error'] = out; print(out[:1500]); return v
    fl = [l for l in str(out).split('\n') if l.startswith('FAIL ')]
    if fl or rc == 'timeout' or (isinstance(rc, int) and rc < 0):
        v['found'] = True; v['native'] = fl[0] if fl else 'exit status %s: %s' % (rc, str(out)[-600:]); v['source'] = 'concrete search on the real code'
        v['command'] = [nat.exe, 'search', str(secs), str(ctx.seed)]
        print('REPLAY (search): ' + v['native'][:500])
    return v

if __name__ == '__main__':
    main()
