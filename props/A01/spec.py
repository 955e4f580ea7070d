from run import *
import z3
NATIVE = KSTUB
def setup(ex, n):
    """Rows 0..it are eliminated after it steps forward (pivots p, factors m, right hand sides e); rows n-1-it.. are solved (x) after it steps backward."""
    kind, SD, SX = re.search(r'_([df])_(\d+)_(\d+)$', n).groups(); SD, SX = int(SD), int(SX); size = {'d': 8, 'f': 4}[kind]; kind = {'d': 'f64', 'f': 'f32'}[kind]
    hk = (kind, size, 0); W = {a: (SX if a in ('X', 'e', 'x') else SD) for a in ('dl', 'd', 'du', 'X', 'm', 'p', 'e', 'x')}
    def cols(lc, key, w):
        """membership of the columns that this loop writes"""
        cs = set()
        for o in lc.woffs[key]:
            l, c = lin(o)
            if c % size or any(v[0] % (w * size) for v in l.values()): raise Undecided('column of %s' % o)
            cs.add(c // size % w)
        if cs == set(range(w)): return lambda k: True
        return lambda k: or_(*[(I(k) % w) == c for c in sorted(cs)])
    def inv(lc):
        reg = {a: ex.inputs_k[('arr', a)] for a in W}; rid = {r.id: a for a, r in reg.items()}; nn = ex.inputs['n']
        inp = lambda a, k: z3.Select(ex.arr0((reg[a].id, hk)), I(k)) 
        ints = [(p, lc.ind[p]) for p in lc.phis if p in lc.ind and not isinstance(lc.phis[p], Ptr) and isinstance(lc.ind[p], int)]
        steps = {s for p, s in ints}
        if steps not in ({1}, {-1}): raise Undecided('loop of an unknown shape %s' % steps)
        fwd = steps == {1}
        lc.closed = {}
        for key in lc.mods:
            if key[0] != 'arr': continue
            a = rid.get(key[1]); w = W.get(a); old = lc.st0.arrs.get((key[1], key[2]))
            if old is None: old = ex.get_arr(lc.st0, ex.regions[key[1]], key[2])
            if fwd:
                to = {'d': 'p', 'dl': 'm', 'X': 'e'}.get(a)
                if to is None: raise Undecided('elimination writes %s' % ex.regions[key[1]].name)
                lc.closed[key] = lambda k, w=w, to=to, old=old, lo=(w if a == 'dl' else 0), cs=cols(lc, key, w): ite(and_(cs(k), cmp('ge', k, lo), cmp('lt', k, mul(add(lc.it, 1), w))), inp(to, k), ex.select(old, k))
            else:
                if a != 'X': raise Undecided('substitution writes %s' % ex.regions[key[1]].name)
                lc.closed[key] = lambda k, w=w, old=old, cs=cols(lc, key, w): ite(and_(cs(k), cmp('ge', k, mul(sub(nn, add(lc.it, 1)), w))), inp('x', k), ex.select(old, k))
        # the defining equations of the row that comes next
        r = add(lc.it, 1) if fwd else sub(nn, add(lc.it, 2))
        for rr in (r, sub(r, 1)) if fwd else (r, add(r, 1)):
            for c in range(SX):
                q = add(mul(rr, SD), c % SD); k = add(mul(rr, SX), c); inr = and_(cmp('ge', rr, 0), cmp('lt', rr, nn))
                fs = [inp('p', q) != 0, implies(cmp('gt', rr, 0), and_(inp('dl', q) == inp('m', q) * inp('p', sub(q, SD)), inp('d', q) == inp('p', q) + inp('m', q) * inp('du', sub(q, SD)), inp('X', k) == inp('e', k) + inp('m', q) * inp('e', sub(k, SX)))),
                      implies(eq(rr, 0), and_(inp('d', q) == inp('p', q), inp('X', k) == inp('e', k))),
                      implies(eq(rr, sub(nn, 1)), inp('x', k) == inp('e', k) / inp('p', q)), implies(cmp('lt', rr, sub(nn, 1)), inp('x', k) == (inp('e', k) - inp('du', q) * inp('x', add(k, SX))) / inp('p', q))]
                for f in fs: ex.assume(lc.g, implies(inr, f))
        return [('the rows passed exist', cmp('le', add(lc.it, 1), nn))]
    inv.symbolic = True
    ex.loop_specs.append((r'thomas|tridiag', None, inv))
def tasks(ctx): return harness_tasks(ctx, fmode='real', setup=setup, defs=('NDEBUG',))
TRUSTED = []
ASSUMPTIONS = ['real arithmetic: rounding is not considered', 'no pivot vanishes (diagonally dominant matrices)', 'systems of up to 2^28 numbers and at least one row', 'one to four numbers per row (right hand sides and pack lanes): column counts are instantiated, the number of rows is not']
CONTRACTED = ['ekat::tridiag::thomas (team; one matrix and one, many right hand sides; many matrices)', 'ekat::tridiag::bfb', 'ekat::tridiag::impl::thomas_factorize', 'thomas_solve', 'thomas_a1x1', 'thomas_a1xm', 'thomas_amxm', 'bfb_thomas_factorize', 'bfb_thomas_solve']
