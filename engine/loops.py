"""Rules for loops whose trip count is symbolic and that carry no explicit invariant.

 * counted loop recognition: the loop leaves only through a comparison of a linear induction variable
   with a bound that does not change (an obligation); the set of iterations is then exact;
 * independent iterations: obligations for a generic iteration, non-interference of two different
   iterations on arrays (local scalars are havocked at the start of every iteration), effect exactly as
   for a parallel loop (harness.par_effect);
 * fold: a loop that carries scalars and writes no array is summarised by fresh results; two folds over
   the same number of iterations whose start values agree and whose steps agree on one arbitrary
   (Skolem) iteration and one arbitrary accumulator have equal results (induction over iterations).
"""
import z3
from terms import *
import vcg
from vcg import *
import harness

class Abs:
    """what harness.par_effect needs"""
    def __init__(self, ex, fr, g, st, dbg): self.ex = ex; self.fr = fr; self.g = g; self.st = st; self.dbg = dbg

def defs_in(fr, L):
    d = {}
    for b in L.blocks:
        for p in fr.f.blocks[b].phis: d[p.res] = (b, p)
        for i in fr.f.blocks[b].ins:
            if i.res is not None: d[i.res] = (b, i)
    return d

class Counted: pass

def recognise(ex, fr, L, ph):
    """syntactic part: returns Counted(P, d, pred, bound operand, chain) or None"""
    f = fr.f
    chain = [L.header]; b = L.header
    for _ in range(6):
        t = f.blocks[b].ins[-1]
        if t.op == 'invoke': n = t.a['normal'] if 'normal' in t.a else None
        elif t.op == 'br' and t.a.get('c') is None: n = f.blocks[b].succs()[0]
        else: break
        if n is None or n not in L.blocks or n == L.header: return None
        chain.append(n); b = n
    t = f.blocks[b].ins[-1]
    if t.op != 'br': return None
    succ = f.blocks[b].succs()
    if len(succ) != 2: return None
    ins_ = [s in L.blocks for s in succ]
    if ins_ == [True, True] or ins_ == [False, False]: return None
    # no other normal exit
    for x in L.blocks:
        if x == b: continue
        tx = f.blocks[x].ins[-1]
        for s in f.blocks[x].succs():
            if s in L.blocks: continue
            if tx.op == 'invoke' and s != (tx.a.get('normal')): continue
            if f.blocks[s].ins[-1].op == 'unreachable': continue
            if reaches_only_unwind(f, s): continue
            return None
    D = defs_in(fr, L)
    c = t.a['c']
    if c[0] != 'local' or c[1] not in D: return None
    neg = not ins_[0]
    ic = D[c[1]][1]
    while ic.op == 'bin' and ic.a['o'] == 'xor' and ic.a['y'] in (('int', 1), ('true',), ('int', -1)):
        neg = not neg
        if ic.a['x'][0] != 'local' or ic.a['x'][1] not in D: return None
        ic = D[ic.a['x'][1]][1]
    if ic.op != 'icmp': return None
    hp = {p.res: p for p in f.blocks[L.header].phis}
    def phi_of(v):
        if v[0] != 'local': return None
        if v[1] in hp: return v[1]
        if v[1] in D and D[v[1]][1].op == 'cast' and D[v[1]][1].a['o'] in ('sext', 'zext'): return phi_of(D[v[1]][1].a['x'])
        return None
    pred = ic.a['pred']
    x, y = ic.a['x'], ic.a['y']
    P = phi_of(x); bound = y
    if P is None:
        P = phi_of(y); bound = x
        if P is None: return None
        pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}[pred]
    elif phi_of(y) is not None: return None
    if neg: pred = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}[pred]
    if pred == 'eq': return None
    p = hp[P]
    if p.ty[0] != 'i': return None
    d = step_of(f, L, D, p)
    if d is None or d == 0: return None
    if pred[1:] in ('lt', 'le') and d < 0: return None
    if pred[1:] in ('gt', 'ge') and d > 0: return None
    if pred == 'ne' and abs(d) != 1: return None
    r = Counted(); r.P = P; r.d = d; r.pred = pred; r.bound = bound; r.bty = ic.ty; r.chain = chain; r.phi = p; r.D = D
    return r

def reaches_only_unwind(f, s):
    seen = set(); st = [s]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        t = f.blocks[b].ins[-1]
        if t.op == 'ret': return False
        st += f.blocks[b].succs()
        if len(seen) > 40: return False
    return True

def step_of(f, L, D, p):
    d = None
    for v, b in p.a['inc']:
        if b not in L.blocks: continue
        if v[0] != 'local' or v[1] not in D: return None
        i = D[v[1]][1]
        if i.op != 'bin' or i.a['o'] not in ('add', 'sub'): return None
        x, y = i.a['x'], i.a['y']
        if i.a['o'] == 'add' and y == ('local', p.res): x, y = y, x
        if x != ('local', p.res) or y[0] != 'int': return None
        s = y[1] if i.a['o'] == 'add' else -y[1]
        w = p.ty[1]
        s &= (1 << w) - 1
        if s >= 1 << (w - 1): s -= 1 << w
        if d is not None and d != s: return None
        d = s
    return d

def silent(ex, fr, fn):
    """run fn without recording obligations, path exits or log entries; facts are kept by the caller's choice"""
    nf, no = len(ex.facts), len(ex.obs)
    ex.probing += 1
    oldlog, ex.log = ex.log, []
    nr, ne = len(fr.rets), len(fr.excs)
    env = dict(fr.env)
    try: return fn()
    finally:
        ex.probing -= 1; ex.log = oldlog
        del fr.rets[nr:]; del fr.excs[ne:]
        fr.env = env

def peek(ex, fr, L, cl, g, st, ph):
    """value of the bound at loop entry"""
    v = cl.bound
    if v[0] != 'local' or v[1] not in cl.D: return ex.val(fr, cl.bty, v)
    nf, no = len(ex.facts), len(ex.obs)
    def go():
        ex.run_blocks(fr, L, {L.header: [Edge(g, st.clone(), dict(ph))]}, set(cl.chain))
        return ex.val(fr, cl.bty, v)
    return silent(ex, fr, go)

def concrete(ex, fr, L, g, st, ph):
    """the number of iterations is a known number: the integers it starts from are, and so is the first exit test"""
    if any(not isinstance(v, int) for p in fr.f.blocks[L.header].phis for v in [ph[p.res]] if p.ty[0] == 'i'): return False
    b = L.header; chain = [b]
    for _ in range(6):
        t = fr.f.blocks[b].ins[-1]
        if t.op == 'br' and t.a.get('c') is not None: break
        n = t.a.get('normal') if t.op == 'invoke' else fr.f.blocks[b].succs()[0] if t.op == 'br' else None
        if n is None or n not in L.blocks or n == L.header: return False
        chain.append(n); b = n
    else: return False
    c = fr.f.blocks[b].ins[-1].a['c']
    def go():
        ex.run_blocks(fr, L, {L.header: [Edge(g, st.clone(), dict(ph))]}, set(chain))
        return ex.val(fr, ('i', 1), c)
    v = silent(ex, fr, go)
    return isinstance(v, (bool, int))

def auto_loop(ex, fr, L, g, st, ph):
    """None: not applicable (unroll); otherwise the list of exits"""
    cl = fr.f.__dict__.setdefault('_counted', {}).get(L.header, 0) if hasattr(fr.f, '__dict__') else 0
    if cl == 0:
        cl = recognise(ex, fr, L, ph)
        if hasattr(fr.f, '__dict__'): fr.f._counted[L.header] = cl
    if cl is None: return None
    v0 = ph[cl.P]
    if isinstance(v0, (Bits, Pieces)): return None
    v0 = ex.toint(v0)
    if isinstance(v0, int) and cl.bound[0] == 'int': return None
    Y = ex.toint(peek(ex, fr, L, cl, g, st, ph)) if True else None
    if isinstance(v0, int) and isinstance(Y, int): return None
    pred, d = cl.pred, cl.d
    # normalise to a half-open set of values of the induction variable
    if pred[0] == 'u':
        if not (ex.in_rng(v0, 0, 1 << 63, g) and ex.in_rng(Y, 0, 1 << 63, g)): return None
    if pred[1:] == 'le': Yx = add(Y, 1)
    elif pred[1:] == 'ge': Yx = sub(Y, 1)
    else: Yx = Y
    dist = sub(Yx, v0) if d > 0 else sub(v0, Yx)       # values strictly between, in units of 1
    a, b = ex.rng.get(dist) if not isinstance(dist, int) else (dist, dist)
    if b is not None and b <= getattr(ex, 'small_trip', 16) * abs(d): return None
    if pred == 'ne': ex.oblige(g, cmp('ge', dist, 0), 'the loop reaches its bound', 'termination', fr)
    lname = 'loop %d of %s' % (L.ordinal, ex.dem(fr.f.name).split('(')[0][:80])
    if abs(d) == 1: N = ite(cmp('gt', dist, 0), dist, 0)
    else:
        N = ex.fresh_int('trip', None, 0, None)
        k = abs(d)
        ex.assume(g, and_(cmp('ge', mul(k, N), dist), or_(eq(N, 0), cmp('lt', mul(k, sub(N, 1)), dist)), implies(cmp('le', dist, 0), eq(N, 0))))
    v0lo, v0hi = ex.rng.get(v0) if not isinstance(v0, int) else (v0, v0)
    ylo, yhi = ex.rng.get(Yx) if not isinstance(Yx, int) else (Yx, Yx)
    phis = fr.f.blocks[L.header].phis
    env0 = dict(fr.env)
    def itervar(nm):
        """fresh iteration: (value of the induction variable, iteration number, range condition)"""
        if abs(d) == 1:
            i = ex.fresh_int(nm, None)
            if d > 0:
                ex.rng.declare(i, v0lo, None if yhi is None else yhi - 1)
                return i, sub(i, v0), and_(cmp('ge', i, v0), cmp('lt', i, Yx))
            ex.rng.declare(i, None if ylo is None else ylo + 1, v0hi)
            return i, sub(v0, i), and_(cmp('le', i, v0), cmp('gt', i, Yx))
        it = ex.fresh_int(nm, None, 0, None if b is None else max(0, (b - 1) // abs(d)))
        i = ex.fresh_int(nm + 'v', None)
        if d > 0: ex.rng.declare(i, v0lo, None if yhi is None else yhi - 1)
        else: ex.rng.declare(i, None if ylo is None else ylo + 1, v0hi)
        return i, it, and_(eq(i, add(v0, mul(d, it))), cmp('ge', it, 0), cmp('lt', it, N))
    def at(f):
        """iteration whose induction variable has the value f"""
        if abs(d) == 1:
            if d > 0: return f, sub(f, v0), and_(cmp('ge', f, v0), cmp('lt', f, Yx))
            return f, sub(v0, f), and_(cmp('le', f, v0), cmp('gt', f, Yx))
        it = ex.fresh_int('fi', None)
        return f, it, and_(eq(f, add(v0, mul(d, it))), cmp('ge', it, 0), cmp('lt', it, N))
    existing = set(ex.regions)
    # ---- what the body modifies
    mods = {}; ind = {cl.P: d}; order = []
    def havoc(s, names=None):
        s = s.clone()
        for key in order:
            if key[0] != 'cell': continue
            _, rid, off = key; size, kind = mods[key]
            c = s.wcells(rid)
            if kind == 'p':
                old = ex.read_cells(ex.regions[rid], c, off, size, kind)
                if isinstance(old, Ptr) and len(old.alts) == 1 and old.alts[0][1].kind not in ('null', 'bad'):
                    ex.write_cells(c, off, size, kind, P1(old.alts[0][1], ex.fresh_int('hv.off')))
                else: ex.write_cells(c, off, size, kind, BADP)
            else:
                v = names.get(key) if names else None
                if v is None: v = ex.fresh_kind('hv', kind, size)
                ex.write_cells(c, off, size, kind, v)
        return s
    def run(s, gg, pv):
        fr.env = dict(env0)
        return ex.run_blocks(fr, L, {L.header: [Edge(gg, s, pv)]}, L.blocks)
    nf = len(ex.facts)
    for rnd in range(12):
        i, it, rf = itervar('pr')
        gg = g.conj(rf)
        if gg.is_false(): break
        pv = {}
        for p in phis:
            if p.res == cl.P: pv[p.res] = i
            elif p.res in ind: pv[p.res] = phi_at(ex, ph[p.res], ind[p.res], it, p)
            else: pv[p.res] = ex.havoc_phi(p, ph[p.res], 'pr.' + p.res)
        ex.qpush(); memo_rng = dict(ex.rng.var)
        log = []
        def go():
            r = run(havoc(st), gg, dict(pv))
            log.extend(ex.log); return r
        save = (getattr(ex, 'focus', []), getattr(ex, 'watch', []), getattr(ex, 'focus_rem', None))
        ex.focus, ex.watch, ex.focus_rem = [], [], None
        try:
            backs, exits = silent(ex, fr, go)
            new = False
            for kind_, r, off, size, kind, gx in log:
                if kind_ != 'w' or r.id not in existing: continue
                if r.kind == 'array':
                    mods[('arr', r.id)] = r; continue
                if kind == 'mem':
                    offs = [(o, s, k) for o, (s, k, v) in (backs[0].st.cells.get(r.id, {}) if backs else {}).items() if isinstance(off, int) and off <= o < off + size]
                elif isinstance(off, int): offs = [(off, size, kind)]
                else:
                    l, c0 = lin(off)
                    offs = [(o, size, kind) for o in range(c0 % size, r.size - size + 1, size)]
                for o, s, k in offs:
                    key = ('cell', r.id, o)
                    if key not in mods: mods[key] = (s, k); order.append(key); new = True
            for bk in backs:
                for k, v in bk.st.ghost.items():
                    if v is not st.ghost.get(k): raise Undecided('%s changes ghost state and has no invariant' % lname)
            if backs and not new:
                bg, bst, bph, _ = ex.merge_edges(backs)
                for p in phis:
                    if p.res in ind: continue
                    if p.ty[0] == 'i' and p.ty[1] > 1 and not isinstance(bph[p.res], (Bits, Pieces)):
                        s = step_of(fr.f, L, cl.D, p)
                        if s is None:
                            dd = z3.simplify(I(bph[p.res]) - I(pv[p.res]))
                            if z3.is_int_value(dd): s = dd.as_long()
                        if s is not None: ind[p.res] = s; new = True
                    elif p.ty[0] == 'ptr' and isinstance(bph[p.res], Ptr) and len(bph[p.res].alts) == 1 and bph[p.res].alts[0][1] is pv[p.res].alts[0][1]:
                        dd = z3.simplify(I(bph[p.res].alts[0][2]) - I(pv[p.res].alts[0][2]))
                        if z3.is_int_value(dd): ind[p.res] = dd.as_long(); new = True
        finally:
            ex.focus, ex.watch, ex.focus_rem = save
            del ex.facts[nf:]
            ex.qpop(); ex.rng.var = memo_rng; ex.rng.memo.clear()
        if not new: break
    else: raise Undecided('%s: modified state not found' % lname)
    arrays = [r for k, r in mods.items() if k[0] == 'arr']
    carried = [p for p in phis if p.res not in ind]
    for p in carried:
        if p.ty[0] == 'ptr' or isinstance(ph[p.res], (Bits, Pieces)): return None
    # ---- body(i): outcome state, log
    def mkphis(i, it, xs=None):
        pv = {}
        for p in phis:
            if p.res == cl.P: pv[p.res] = i
            elif p.res in ind: pv[p.res] = phi_at(ex, ph[p.res], ind[p.res], it, p)
            else:
                v = xs.get(('phi', p.res)) if xs else None
                pv[p.res] = v if v is not None else ex.havoc_phi(p, ph[p.res], 'hv.' + p.res)
        return pv
    last = {}
    def body(c, trip, quiet, xs=None, s0=None):
        i, it, rf = trip
        pv = mkphis(i, it, xs)
        s = havoc(s0 if s0 is not None else c.st, xs)
        gg = c.g
        if isinstance(i, int) is False and p_width(cl) < 64:
            pass
        nr, ne = len(fr.rets), len(fr.excs)
        oldlog, ex.log = ex.log, []
        if quiet: ex.probing += 1
        ex.pardepth += 1
        try:
            backs, exits = run(s, gg, dict(pv))
            if not quiet:
                for p in phis:
                    if p.res in ind and backs:
                        bg, bst, bph, _ = ex.merge_edges(backs)
                        want = phi_next(pv[p.res], ind[p.res])
                        got = bph[p.res]
                        if p.ty[0] == 'ptr': ex.oblige(bg, eq(got.alts[0][2], want), '%s: induction variable' % lname, 'invariant', fr)
                        else: ex.oblige(bg, eq(got, want), '%s: induction variable' % lname, 'invariant', fr)
                if cl.bound[0] == 'local' and cl.bound[1] in cl.D:
                    ex.oblige(gg, eq(ex.toint(ex.val(fr, cl.bty, cl.bound)), Y), '%s: the bound does not change' % lname, 'invariant', fr)
        finally:
            ex.pardepth -= 1
            if quiet: ex.probing -= 1
            log, ex.log = ex.log, oldlog
        for e in [x for x in fr.rets[nr:]] + [x for x in fr.excs[ne:]]:
            eg = e[0] if isinstance(e, tuple) else e.g
            if not ex.infeasible(eg): raise Undecided('%s may leave the function' % lname)
        del fr.rets[nr:]; del fr.excs[ne:]
        for tgt, e in exits:
            if not ex.infeasible(e.g): raise Undecided('%s has a second exit' % lname)
        out = Abs(ex, fr, None, None, None)
        if not backs:
            out.g = FALSE; out.st = s; out.phis = pv
        else:
            bg, bst, bph, _ = ex.merge_edges(backs)
            out.g = bg; out.st = bst; out.phis = bph
        out.excs = []
        last['pv'] = pv
        return out, log
    c = Abs(ex, fr, g, st, fr.lastdbg)
    st1 = harness.par_effect(ex, c, itervar, at, body, existing, N, 'sequential', bool(ex.probing), lname,
                             lambda log: [l for l in log if l[1].kind == 'array'])
    fr.env = dict(env0)
    # ---- carried scalars
    comps = [('phi', p.res) for p in carried] + [k for k in order if mods[k][1] in ('i', 'f64', 'f32')]
    res = {}
    def kind_of(k):
        if k[0] == 'phi':
            ty = [p for p in phis if p.res == k[1]][0].ty
            return (ty[0], ty[1] if len(ty) > 1 else 0)
        return (mods[k][1], mods[k][0])
    def init_of(k):
        if k[0] == 'phi': return ph[k[1]]
        return ex.read_cells(ex.regions[k[1]], st.cells.get(k[1], {}), k[2], mods[k][0], mods[k][1])
    names = {}
    st2 = st1.clone()
    for k in comps:
        if k[0] == 'phi': v = ex.havoc_phi([p for p in phis if p.res == k[1]][0], ph[k[1]], 'fold.' + k[1])
        else: v = ex.fresh_kind('fold', mods[k][1], mods[k][0])
        names[k] = v
        ini = init_of(k)
        if ini is not UNDEF and not isinstance(ini, (Bits, Pieces, Ptr)):
            ex.assume(g, implies(eq(N, 0), eqv(v, ini)))
    st2 = havoc(st2, names)
    if comps and not arrays:
        fold = Abs(ex, fr, g, st, fr.lastdbg)
        fold.N = N; fold.comps = comps; fold.kind_of = kind_of; fold.init_of = init_of; fold.names = names
        fold.d = d; fold.v0 = v0; fold.env0 = env0; fold.at_it = lambda it: (add(v0, mul(d, it)), it, True)
        def body_at(itn, xs, gg):
            sv = fr.env
            cc = Abs(ex, fr, gg, st, fr.lastdbg)
            i = add(v0, mul(d, itn))
            try: o, lg = body(cc, (i, itn, True), True, xs, st)
            finally: fr.env = sv
            return o
        def post_of(o, k):
            if k[0] == 'phi': return o.phis[k[1]]
            return ex.read_cells(ex.regions[k[1]], o.st.cells.get(k[1], {}), k[2], mods[k][0], mods[k][1])
        fold.body_at = body_at; fold.post_of = post_of
        register_fold(ex, fold)
    # ---- exit at iteration N
    pvN = {}
    for p in phis:
        if p.res == cl.P:
            if abs(d) == 1: pvN[p.res] = ite(cmp('gt', dist, 0), Yx, v0)
            else: pvN[p.res] = add(v0, mul(d, N))
        elif p.res in ind: pvN[p.res] = phi_at(ex, ph[p.res], ind[p.res], N, p)
        else: pvN[p.res] = names[('phi', p.res)]
        if not isinstance(pvN[p.res], (int, Ptr)) and p.ty[0] == 'i' and p.ty[1] > 1:
            w = p.ty[1]
            if not ex.in_rng(pvN[p.res], -(1 << (w - 1)), (1 << (w - 1)) - 1):
                ex.assume(g, z3.And(pvN[p.res] >= -(1 << (w - 1)), pvN[p.res] <= (1 << (w - 1)) - 1))
    fr.env = dict(env0)
    backs, exits = ex.run_blocks(fr, L, {L.header: [Edge(g, st2, pvN)]}, set(cl.chain))
    fr.env.update({k: v for k, v in pvN.items()})
    exits = [(t, e) for t, e in exits if t not in L.blocks]
    return exits

def eqv(a, b):
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.sort() == b.sort(): return True if a.eq(b) else a == b
    return eq(a, b)

def p_width(cl): return cl.phi.ty[1]

def phi_at(ex, v0, step, it, p):
    if p.ty[0] == 'ptr':
        c, r, o = v0.alts[0]; return P1(r, add(o, mul(step, it)))
    return add(ex.toint(v0), mul(step, it))

def phi_next(v, step):
    if isinstance(v, Ptr): return add(v.alts[0][2], step)
    return add(v, step)

def register_fold(ex, f):
    scope = ex.folds[-1] if getattr(ex, 'folds', None) else None
    if scope is None: ex.folds = [[]]; scope = ex.folds[-1]
    for h in scope: relate(ex, h, f)
    scope.append(f)

def deps(ex, f, out, xs):
    """components that some step actually reads"""
    ids = {v.get_id(): k for k, v in xs.items() if isinstance(v, z3.AstRef)}
    posts = {k: f.post_of(out, k) for k in f.comps}
    used = set()
    for k, t in posts.items():
        if not isinstance(t, z3.AstRef): continue
        stk = [t]; seen = set()
        while stk:
            e = stk.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if e.get_id() in ids: used.add(ids[e.get_id()])
            stk += e.children()
    return posts, used

def relate(ex, a, b):
    g = a.g
    for l in b.g.lits: g = g.conj(l)
    if g.is_false(): return
    if len(ex.folds) > 4: return
    # the accumulators of each, found on a trial iteration
    itn = ex.fresh_int('fk', None, 0, None)
    gi = g.conj(cmp('lt', itn, a.N))
    def fresh(f, k):
        kd = f.kind_of(k)
        if kd[0] in ('f64', 'f32'): return ex.fresh_float('fx', kd[0])
        if kd[0] == 'i':
            if k[0] == 'phi': return ex.fresh_bool('fx') if kd[1] == 1 else ex.fresh_int('fx', kd[1])
            return ex.fresh_kind('fx', 'i', kd[1])
        return None
    nf = len(ex.facts)
    def acc(f):
        xs = {k: fresh(f, k) for k in f.comps}
        ex.folds.append([]); n = len(ex.facts)
        try: o = f.body_at(itn, xs, gi)
        finally: ex.folds.pop()
        posts, used = deps(ex, f, o, xs)
        del ex.facts[n:]
        return [k for k in f.comps if k in used]
    if not hasattr(a, 'acc'): a.acc = acc(a)
    if not hasattr(b, 'acc'): b.acc = acc(b)
    ka, kb = [a.kind_of(k)[0] for k in a.acc], [b.kind_of(k)[0] for k in b.acc]
    if not ka or ka != kb: return
    xa = {k: fresh(a, k) for k in a.comps}
    xb = {k: fresh(b, k) for k in b.comps}
    for p, q in zip(a.acc, b.acc): xb[q] = xa[p]
    ex.folds.append([])
    try:
        oa = a.body_at(itn, xa, gi); ob = b.body_at(itn, xb, gi)
    finally: ex.folds.pop()
    conds = [eq(a.N, b.N)]
    for p, q in zip(a.acc, b.acc):
        ia, ib = a.init_of(p), b.init_of(q)
        ta, tb = a.post_of(oa, p), b.post_of(ob, q)
        if UNDEF in (ia, ib, ta, tb) if not isinstance(ia, z3.AstRef) and not isinstance(ib, z3.AstRef) else False: return
        conds.append(eqv(ia, ib))
        conds.append(implies(and_(cmp('ge', itn, 0), cmp('lt', itn, a.N)), eqv(ta, tb)))
    c = and_(*conds)
    if c is False: return
    for p, q in zip(a.acc, b.acc): ex.assume(g, implies(c, eqv(a.names[p], b.names[q])))
