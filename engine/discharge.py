"""Discharging obligations: z3 (in process), then z3 with sliced hypotheses, then cvc5."""
import time, subprocess, os, tempfile
import z3
from terms import *
from vcg import has_quant
import ctxsimp

def symbols(t, cache):
    k = t.get_id()
    r = cache.get(k)
    if r is not None: return r[0]
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() == 0 or True):
                if d.arity() == 0 or not d.name().startswith(('fadd', 'fsub', 'fmul', 'fdiv', 'flt', 'feq', 'isnan')):
                    out.add(d.name())
            st += x.children()
    cache[k] = (out, t)
    return out

def slice_facts(facts, goal_syms, cache, hops):
    sel = set(); syms = set(goal_syms)
    for _ in range(hops):
        ns = set(syms); ch = False
        for i, f in enumerate(facts):
            if i in sel: continue
            s = symbols(f, cache)
            if s & syms:
                sel.add(i); ns |= s; ch = True
        syms = ns
        if not ch: break
    return [facts[i] for i in sorted(sel)]

def eval_inputs(m, inputs):
    out = {}
    for n, t in inputs.items():
        try:
            if isinstance(t, int): out[n] = t; continue
            v = m.eval(t, model_completion=True)
            out[n] = v.as_long() if z3.is_int_value(v) else (z3.is_true(v) if z3.is_bool(v) else str(v))
        except Exception as e:
            out[n] = '?'
    return out

def cvc5_check(hyps, neg, timeout):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(neg)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    txt = txt.replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        r = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    return r

def z3cli_check(hyps, neg, timeout, opts=()):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(neg)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(s.to_smt2())
    try:
        p = subprocess.run(['z3-new', '-T:%d' % int(timeout), *opts, f.name], capture_output=True, text=True, timeout=timeout + 5)
        r = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    return r

def discharge(ex, quick_ms=3000, full_s=20, deadline=None, stop_after=None):
    """decide every pending obligation of ex; returns counts"""
    inc = z3.Solver(); inc.set('timeout', quick_ms)
    light = z3.Solver(); light.set('timeout', 500)
    arith = z3.Solver(); arith.set('timeout', 1500)
    n = 0
    cache = {}
    bad = 0
    memo = {}
    def memory(e):
        """mentions arrays, floating point or uninterpreted functions"""
        stk = [e]; seen_ = []
        k = e.get_id()
        if k in memo: return memo[k][0]
        vis = set()
        res = False
        while stk:
            x = stk.pop(); i = x.get_id()
            if i in vis: continue
            vis.add(i)
            if i in memo:
                if memo[i][0]: res = True; break
                continue
            if z3.is_quantifier(x) or x.sort_kind() not in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT): res = True; break
            if x.num_args() and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED): res = True; break
            stk += x.children()
        memo[k] = (res, e)
        return res
    seen = {}
    for o in ex.obs:
        if o.status: continue
        t0 = time.time()
        if deadline and t0 > deadline:
            o.status = 'unknown'; o.reason = 'time budget exhausted'; bad += 1; continue
        if stop_after and bad >= stop_after:
            o.status = 'unknown'; o.reason = 'not attempted after earlier failures'; continue
        while n < o.nfacts:
            f = ex.facts[n]; n += 1
            inc.add(f)
            if not ex.heavy(f): light.add(f); arith.add(f)
            elif not memory(f): arith.add(f)
        gz = o.guard.z(); goal = o.goal
        neg = B(not_(goal)) if goal is not False else z3.BoolVal(True)
        gl = list(o.guard.lits)
        key = (B(gz).get_id(), B(goal).get_id())
        if key in seen and seen[key].status == 'proved':
            o.status = 'proved'; o.backend = seen[key].backend; o.time = 0; continue
        seen[key] = o
        r = None
        # cheap attempts with fewer hypotheses (a subset of the facts: sound)
        lits = [B(l) for l in gl]
        if not memory(neg):
            for sol, keep in ((light, lambda l: not ex.heavy(l)), (arith, lambda l: not memory(l))):
                if sol is light and ex.heavy(neg): continue
                sol.push()
                for l in lits:
                    if keep(l): sol.add(l)
                sol.add(neg)
                try: r = sol.check()
                except z3.Z3Exception: r = z3.unknown
                sol.pop()
                if r == z3.unsat: break
        if r == z3.unsat:
            o.status = 'proved'; o.backend = 'z3'; o.time = time.time() - t0; continue
        if goal is not False and ctxsimp.nonlinear(neg):
            try: ok = ctxsimp.attempt(ex.facts[:o.nfacts] + gl, B(goal))
            except Exception as e:
                ok = False
                if os.environ.get('VP_DEBUG'): print('ctxsimp:', type(e).__name__, e)
            if ok: o.status = 'proved'; o.backend = 'z3+algebra'; o.time = time.time() - t0; continue
        inc.push()
        for l in gl: inc.add(l)
        inc.add(neg)
        try: r = inc.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat:
            o.status = 'proved'; o.backend = 'z3'
        else:
            if r == z3.sat:
                o.status = 'failed'; o.backend = 'z3'
                o.model = eval_inputs(inc.model(), getattr(ex, 'inputs', {}))
        inc.pop()
        if o.status is None:
            hyps = ex.facts[:o.nfacts] + [l for l in gl]
            # specialised: sliced
            gs = set(symbols(neg, cache))
            for l in gl: gs |= symbols(l, cache)
            for hops, tmo in ((1, full_s / 3), (3, full_s / 2)):
                sl = slice_facts(ex.facts[:o.nfacts], gs, cache, hops)
                s = z3.Solver(); s.set('timeout', int(tmo * 1000))
                for h in sl: s.add(h)
                for l in gl: s.add(l)
                s.add(neg)
                try: r = s.check()
                except z3.Z3Exception: r = z3.unknown
                if r == z3.unsat: o.status = 'proved'; o.backend = 'z3-sliced'; break
                if r == z3.sat and len(sl) == o.nfacts:
                    o.status = 'failed'; o.backend = 'z3'; o.model = eval_inputs(s.model(), getattr(ex, 'inputs', {})); break
            if o.status is None:
                s = z3.Solver(); s.set('timeout', int(full_s * 1000))
                for h in hyps: s.add(h)
                s.add(neg)
                try: r = s.check()
                except z3.Z3Exception: r = z3.unknown
                if r == z3.unsat: o.status = 'proved'; o.backend = 'z3'
                elif r == z3.sat:
                    o.status = 'failed'; o.backend = 'z3'; o.model = eval_inputs(s.model(), getattr(ex, 'inputs', {}))
            if o.status is None:
                try:
                    sl = slice_facts(ex.facts[:o.nfacts], gs, cache, 3)
                    r = cvc5_check(sl + gl, neg, full_s)
                except Exception as e:
                    r = 'unknown'
                if r == 'unsat': o.status = 'proved'; o.backend = 'cvc5'
            if o.status is None:
                o.status = 'unknown'; o.reason = 'no back end decided it'
        o.time = time.time() - t0
        if os.environ.get('VP_DEBUG') and o.time > 1: print('SLOW', round(o.time, 1), o.status, o.backend, o.name[:200])
        if o.status != 'proved': bad += 1
    return bad
