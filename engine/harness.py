"""Builtins used by contract entries (props/common/vp.hpp) and by the assumed Kokkos contract (stubs/),
and the rule for parallel loops.

Parallel loop rule (vp_parfor lo hi f ctx):
  1. obligations of the body for a generic iteration i, lo<=i<hi;
  2. non-interference: for i != i', nothing iteration i writes is read or written by iteration i'
     (so every schedule gives the result of any sequential order);
  3. effect: written arrays become fresh; for every iteration of interest f (vp_focus) the elements
     it writes hold the values it writes; for every element of interest k (vp_watch) either it is
     unchanged or it holds what some iteration in range wrote.
"""
import z3
from terms import *
import vcg
from vcg import *
from terms import sub

def cstr(ex, c, p):
    r, o = ex.single(p)
    b = getattr(r, 'symbacking', None) or {}
    s = []
    while True:
        v = b.get(o)
        if v is None or v[2] == 0: break
        s.append(chr(v[2] & 255)); o += 1
        if len(s) > 200: break
    return ''.join(s)

def boolv(x):
    if isinstance(x, bool) or (isinstance(x, z3.AstRef) and z3.is_bool(x)): return x
    return not_(eq(x, 0))

def named_int(ex, nm, lo, hi):
    k = ('named', nm)
    if k in ex.inputs_k: return ex.inputs_k[k]
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi: ex.inputs_k[k] = lo; return lo
    v = z3.Int(nm)
    ex.inputs_k[k] = v; ex.inputs[nm] = v
    if isinstance(lo, int) and isinstance(hi, int): ex.declare_range(v, lo, hi)
    else:
        ex.rng.declare(v, lo if isinstance(lo, int) else ex.rng.get(lo)[0], hi if isinstance(hi, int) else ex.rng.get(hi)[1])
        ex.fact(z3.And(v >= I(lo), v <= I(hi)))
    return v

def nm_i(nm, i):
    if isinstance(i, int): return nm if i < 0 else '%s.%d' % (nm, i)
    raise Undecided('symbolic lane index of an input')

KINDS = {0: ('f64', 8), 1: ('f32', 4), 2: ('i', 4), 3: ('i', 8), 4: ('i', 1)}

def install(ex):
    ex.inputs_k = {}
    ex.covers = []
    ex.pardepth = 0
    A = ex.add_contract
    def h_int(c): return named_int(c.ex, cstr(c.ex, c, c.args[0]), c.ex.toint(c.args[1]), c.ex.toint(c.args[2]))
    A('vp_int', h_int); A('vp_size', h_int)
    def h_inti(c): return named_int(c.ex, nm_i(cstr(c.ex, c, c.args[0]), c.ex.toint(c.args[1])), c.ex.toint(c.args[2]), c.ex.toint(c.args[3]))
    A('vp_inti', h_inti)
    def h_f(kind):
        def h(c):
            nm = nm_i(cstr(c.ex, c, c.args[0]), c.ex.toint(c.args[1]))
            k = ('named', nm, kind)
            if k not in ex.inputs_k:
                ex.inputs_k[k] = z3.Const(nm, ex.fsort(kind)); ex.inputs[nm] = ex.inputs_k[k]
            return ex.inputs_k[k]
        return h
    A('vp_f64i', h_f('f64')); A('vp_f32i', h_f('f32'))
    A('vp_same_f64', lambda c: eqf(c.args[0], c.args[1])); A('vp_same_f32', lambda c: eqf(c.args[0], c.args[1]))
    A('vp_isnan_f64', lambda c: c.ex.fisnan(c.args[0])); A('vp_isnan_f32', lambda c: c.ex.fisnan(c.args[0]))
    A('vp_implies', lambda c: implies(boolv(c.args[0]), boolv(c.args[1])))
    A('vp_and', lambda c: and_(boolv(c.args[0]), boolv(c.args[1])))
    A('vp_or', lambda c: or_(boolv(c.args[0]), boolv(c.args[1])))
    def h_check(c):
        c.ex.oblige(c.g, boolv(c.args[0]), 'post: ' + cstr(c.ex, c, c.args[1]), 'post', c.fr, c.dbg); return UNDEF
    A('vp_check', h_check)
    def h_bounds(c):
        c.ex.oblige(c.g, boolv(c.args[0]), cstr(c.ex, c, c.args[1]), 'memory', c.fr, c.dbg); return UNDEF
    A('vp_bounds', h_bounds)
    def h_assume(c): c.ex.assume(c.g, boolv(c.args[0])); return UNDEF
    A('vp_assume', h_assume); A('vp_lemma', h_assume)
    def h_cover(c): c.ex.covers.append((cstr(c.ex, c, c.args[1]), c.g.conj(boolv(c.args[0])))); return UNDEF
    A('vp_cover', h_cover)
    def h_arr(c):
        nm = cstr(c.ex, c, c.args[0]); n = c.ex.toint(c.args[1]); kind = c.ex.toint(c.args[2])
        k = ('arr', nm)
        if k not in ex.inputs_k:
            ks = KINDS[kind]
            r = ex.new_region(nm, 'array', mul(n, ks[1]), elem=ks); ex.inputs_k[k] = r
        return P1(ex.inputs_k[k], 0)
    A('vp_arr', h_arr)
    def h_alloc(c):
        n, b, kind = c.ex.toint(c.args[0]), c.ex.toint(c.args[1]), c.ex.toint(c.args[2])
        c.require(cmp('ge', n, 0), 'allocation size is not negative')
        if kind not in KINDS: raise Undecided('allocation of an unknown element type')
        ks = KINDS[kind]
        r = ex.new_region('view', 'array', b, elem=ks); r.fresh_local = True
        inv = getattr(ex, 'view_inv', {}).get(kind)
        if inv is not None: r.elem_inv = inv; c.require(inv(0), 'zero is a value for the elements')
        hk = (ks[0], ks[1], 0)
        c.st.arrs[(r.id, hk)] = z3.K(z3.IntSort(), z3.IntVal(0) if ks[0] == 'i' else ex.fconst(0.0, ks[0]))
        return P1(r, 0)
    A('vp_alloc', h_alloc)
    def h_aok(c): c.ex.abort_ok = True; return UNDEF
    A('vp_abort_ok', h_aok)
    A('vp_kokkos_abort', h_abort)
    A('vp_concurrency', lambda c: named_int(c.ex, 'concurrency', 1, 1 << 20))
    A('omp_get_thread_num', lambda c: named_int(c.ex, 'omp_thread', 0, (1 << 20) - 1))
    A('vp_barrier', lambda c: UNDEF); A('vp_single_begin', lambda c: UNDEF); A('vp_single_end', lambda c: UNDEF)
    def h_focus(c):
        t = tuple(c.ex.toint(a) for a in c.args); ex.focus = getattr(ex, 'focus', []) + [t]; return UNDEF
    A('vp_focus', h_focus); A('vp_focus2', h_focus); A('vp_focus3', h_focus); A('re:^vp_focus[4-8]$', h_focus)
    def h_unfocus(c): ex.focus = []; ex.watch = []; ex.focus_rem = None; return UNDEF
    A('vp_unfocus', h_unfocus)
    def h_watch(c):
        ex.watch = getattr(ex, 'watch', []) + [ex.single(c.args[0])]; return UNDEF
    A('vp_watch', h_watch)
    def h_watch_last(c):
        ex.watch = getattr(ex, 'watch', []) + [x[:2] for x in getattr(ex, 'focus_writes', [])]
        ex.watch_vals = [(r, off, hk, k, ex.select(ex.get_arr(c.st, r, hk), k)) for r, off, hk, k in getattr(ex, 'focus_writes', [])]
        return UNDEF
    A('vp_watch_last', h_watch_last)
    def h_kept(c):
        m = cstr(ex, c, c.args[0])
        for r, off, hk, k, old in getattr(ex, 'watch_vals', []):
            e = eqf(ex.select(ex.get_arr(c.st, r, hk), k), old)
            c.require(e, m); ex.assume(c.g, e)
        return UNDEF
    A('vp_watched_kept', h_kept)
    A('vp_parfor', parfor); A('vp_parfor_md', parfor_md)

def h_abort(c):
    """Kokkos::abort does not return: reaching it is a violated precondition unless the entry allows it"""
    if getattr(c.ex, 'abort_ok', False):
        c.ex.aborts = getattr(c.ex, 'aborts', []) + [c.g]
    else: c.ex.oblige(c.g, False, 'kernel requirement holds (Kokkos::abort not reached)', 'unreachable', c.fr, c.dbg)
    c.g = FALSE
    return UNDEF

def eqf(a, b):
    if a is b or a.eq(b): return True
    return a == b

def shared_log(log, existing):
    out = []; seen = set()
    for kind_, r, off, size, kind, g in log:
        if r.id not in existing or r.const: continue
        key = (kind_, r.id, off if isinstance(off, int) else off.get_id(), size if isinstance(size, int) else size.get_id(), kind, tuple(l.get_id() for l in g.lits))
        if key in seen: continue
        seen.add(key); out.append((kind_, r, off, size, kind, g))
    return out

def run_body(ex, c, fn, ctx, i, silent):
    """execute the body at iteration i (or tuple of indices) from the current state; returns (outcome, log)"""
    idx = list(i) if isinstance(i, tuple) else [i]
    st = c.st.clone()
    g = c.g
    no = len(ex.obs)
    oldlog, ex.log = ex.log, []
    if silent: ex.probing += 1
    ex.pardepth += 1
    try:
        out = ex.call(fn, [ctx] + idx, st, g, c.fr, c.dbg, ('void',), [('ptr',)] + [('i', 64)] * len(idx))
    finally:
        ex.pardepth -= 1
        if silent: ex.probing -= 1
        log, ex.log = ex.log, oldlog
    return out, log

def parfor(c):
    ex = c.ex
    lo, hi = ex.toint(c.args[0]), ex.toint(c.args[1])
    fp, ctx = c.args[2], c.args[3]
    r, _ = ex.single(fp)
    fn = r.fn
    existing = set(ex.regions)
    d = ex.pardepth
    def rangefact(i): return and_(cmp('ge', i, lo), cmp('lt', i, hi))
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= getattr(ex, 'par_unroll', 4):
        # few iterations: run them all, and still prove that they do not interfere
        st0 = c.st
        logs = []
        if hi <= lo: return UNDEF
        for i in range(lo, hi):
            out, log = run_body(ex, c, fn, ctx, i, False)
            if out.excs: raise Undecided('exception in a parallel loop')
            logs.append(shared_log(log, existing))
            if ex.log is not None: ex.log += [l for l in log if l[1].id in existing]
            c.st = out.st; c.g = out.g
            if c.g.is_false(): return UNDEF
        for a in range(len(logs)):
            for b in range(a + 1, len(logs)): interference(ex, c, logs[a], logs[b], TRUE)
        return UNDEF
    rl = ex.rng.get(lo)[0] if not isinstance(lo, int) else lo
    rh = ex.rng.get(hi)[1] if not isinstance(hi, int) else hi
    def itervar(nm):
        i = ex.fresh_int(nm, None); ex.rng.declare(i, rl, None if rh is None else rh - 1)
        return i, i, rangefact(i)
    def at(f): return f, f, rangefact(f)
    def body(cc, trip, quiet, xs=None, s0=None): return run_body(ex, cc, fn, ctx, trip[0], quiet)
    c.st = par_effect(ex, c, itervar, at, body, existing, sub(hi, lo), 'parallel', bool(ex.probing), '', lambda l: l, d)
    return UNDEF

def parfor_md(c):
    """a loop over a box of index tuples, all iterations independent: vp_parfor_md(rank, lo, hi, body, ctx)"""
    ex = c.ex
    R = ex.toint(c.args[0])
    rd = lambda p, k: ex.toint(ex.load(c.g, c.st, ('i', 64), ex.padd(p, 8 * k), c.fr, c.dbg))
    lo = [rd(c.args[1], k) for k in range(R)]; hi = [rd(c.args[2], k) for k in range(R)]
    fn = ex.single(c.args[3])[0].fn; ctx = c.args[4]
    existing = set(ex.regions)
    pad = lambda t: tuple(list(t) + [0] * (8 - len(t)))
    def rangefact(t): return and_(*[and_(cmp('ge', t[k], lo[k]), cmp('lt', t[k], hi[k])) for k in range(R)])
    def itervar(nm):
        t = []
        for k in range(R):
            i = ex.fresh_int('%s%d' % (nm, k), None); rl, rh = ex.rng.get(lo[k])[0] if not isinstance(lo[k], int) else lo[k], ex.rng.get(hi[k])[1] if not isinstance(hi[k], int) else hi[k]
            ex.rng.declare(i, rl, None if rh is None else rh - 1); t.append(i)
        t = pad(t); return t, t, rangefact(t)
    def at(f):
        t = pad(f); return t, t, rangefact(t)
    def body(cc, trip, quiet, xs=None, s0=None): return run_body(ex, cc, fn, ctx, trip[0], quiet)
    empty = or_(*[cmp('le', hi[k], lo[k]) for k in range(R)])
    count = 0 if empty is True else 1 if empty is False else ite(empty, 0, 1)
    ex.md_rank = R
    try: c.st = par_effect(ex, c, itervar, at, body, existing, count, 'parallel', bool(ex.probing), '', lambda l: l, ex.pardepth)
    finally: ex.md_rank = None
    return UNDEF

def same_iter(a, b): return and_(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(a, tuple) else eq(a, b)

def same_val(a, b): return a == b if isinstance(a, int) and isinstance(b, int) else (not isinstance(a, int) and not isinstance(b, int) and a.eq(b))

def focus_values(ex):
    """the iterations of interest here, each with the tuples left for the loops inside: a tuple names one
    iteration of each loop of a nest, in any order"""
    rem = ex.focus_rem if getattr(ex, 'focus_rem', None) is not None else getattr(ex, 'focus', [])
    if getattr(ex, 'md_rank', None): return [(t, []) for t in rem if len(t) == ex.md_rank]
    out = []
    for t in rem:
        for k, v in enumerate(t):
            rest = t[:k] + t[k + 1:]
            for o in out:
                if same_val(o[0], v):
                    if not any(len(r) == len(rest) and all(same_val(x, y) for x, y in zip(r, rest)) for r in o[1]): o[1].append(rest)
                    break
            else: out.append((v, [rest]))
    return out

def par_effect(ex, c, itervar, at, body, existing, count, how, quiet, lname, keep, d=None):
    """obligations and effect of a loop with independent iterations; returns the state after it"""
    g0 = c.g; st0 = c.st
    # generic iteration
    t1 = itervar('i'); c.g = g0.conj(t1[2])
    if c.g.is_false(): c.g = g0; return c.st
    rem0 = getattr(ex, 'focus_rem', None)
    # inside the generic iteration the inner loops may stand for any of theirs
    allv = [()]
    for f, rest in focus_values(ex): allv = allv + [r for r in rest if r not in allv]
    ex.focus_rem = allv[1:]
    try: out, log1 = body(c, t1, quiet)
    finally: ex.focus_rem = rem0
    if out.excs: raise Undecided('exception in a %s loop' % how)
    l1 = keep(shared_log(log1, existing))
    save = (ex.focus if hasattr(ex, 'focus') else [], getattr(ex, 'watch', []))
    if any(l[0] == 'w' for l in l1) and not quiet:
        # second generic iteration
        t2 = itervar('j'); c.g = g0.conj(t2[2])
        ex.focus, ex.watch, ex.focus_rem = [], [], None
        out2, log2 = body(c, t2, True)
        ex.focus, ex.watch = save; ex.focus_rem = rem0
        l2 = keep(shared_log(log2, existing))
        interference(ex, c, l1, l2, g0.conj(t1[2]).conj(t2[2]).conj(not_(same_iter(t1[0], t2[0]))))
    c.g = g0
    # effect
    written = {}
    for kind_, r, off, size, kind, g in l1:
        if kind_ != 'w': continue
        if r.kind != 'array': raise Undecided('%s loop writes %s, which is not an array' % (how, r.name))
        if kind == 'mem': kind, size = r.elem
        hk, idx = ex.heap_idx(g, r, off, size, kind, c.fr, c.dbg)
        written[(r.id, hk)] = r
    st1 = st0.clone()
    new = {}
    for key, r in written.items():
        old = ex.get_arr(st0, r, key[1])
        n = z3.Array(ex.fresh_name(r.name), z3.IntSort(), ex.sort_of(key[1][0]))
        new[key] = n; st1.arrs[key] = n
        # an empty range changes nothing
        ex.assume(g0, implies(cmp('le', count, 0), n == old))
    passlog = list(l1); fw = []
    for f, rest in (focus_values(ex) if new else []):
        tf = at(f)
        gf = g0.conj(tf[2])
        if gf.is_false(): continue
        c.g = gf
        ex.focus_rem = rest
        try: of, lf = body(c, tf, True)
        finally: ex.focus_rem = rem0
        lf = keep(shared_log(lf, existing))
        passlog += lf
        for kind_, r, off, size, kind, g in lf:
            if kind_ != 'w': continue
            if kind == 'mem': raise Undecided('block write in a %s loop' % how)
            hk, idx = ex.heap_idx(g, r, off, size, kind, c.fr, c.dbg)
            post = ex.select(ex.get_arr(of.st, r, hk), idx); fw.append((r, off, hk, idx))
            ex.assume(g, z3.Select(new[(r.id, hk)], I(idx)) == post)
    for r, off in getattr(ex, 'watch', []):
        for key in list(new):
            if key[0] != r.id: continue
            hk = key[1]
            _, k = ex.heap_idx(g0, r, off, hk[1], hk[0], c.fr, c.dbg)
            ts = itervar('w')
            c.g = g0.conj(ts[2])
            if c.g.is_false(): continue
            ex.focus_rem = []
            osx, ls = body(c, ts, True)
            ex.focus_rem = rem0
            post = ex.select(ex.get_arr(osx.st, r, hk), k)
            old = ex.select(ex.get_arr(st0, r, hk), k)
            ex.assume(g0, or_(z3.Select(new[key], I(k)) == old, and_(ts[2], z3.Select(new[key], I(k)) == post)))
    c.g = g0
    if not quiet: ex.focus_writes = fw
    if ex.log is not None: ex.log += passlog
    return st1

def interference(ex, c, l1, l2, g):
    if ex.probing: return
    for k1, r1, o1, s1, kd1, g1 in l1:
        for k2, r2, o2, s2, kd2, g2 in l2:
            if r1 is not r2 or (k1 == 'r' and k2 == 'r'): continue
            gg = g
            for l in list(g1.lits) + list(g2.lits): gg = gg.conj(l)
            if gg.is_false(): continue
            if isinstance(s1, int) and isinstance(s2, int) and s1 == s2 and r1.kind == 'array':
                d1, d2 = divexact(o1, s1), divexact(o2, s2)
                if d1 is not None and d2 is not None:
                    ex.oblige(gg, not_(eq(d1, d2)), 'different iterations do not touch the same element of %s' % r1.name, 'race', c.fr, c.dbg); continue
            ex.oblige(gg, or_(cmp('le', add(o1, s1), o2), cmp('le', add(o2, s2), o1)), 'different iterations do not touch the same element of %s' % r1.name, 'race', c.fr, c.dbg)
