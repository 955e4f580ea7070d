from run import *
import z3
NATIVE = KSTUB
LEAN = ['dyadic.lean']
M = z3.Function('divides', z3.IntSort(), z3.IntSort(), z3.BoolSort()); P = z3.Function('pow2', z3.IntSort(), z3.BoolSort()); L = z3.Function('lowbit', z3.IntSort(), z3.IntSort())
def setup(ex, n):
    """At distance os every row r that os divides satisfies the equation that couples it to rows r-os and r+os, every other row the one at the distance at which it was left (its lowest bit); going up, the rows that 2 os divides hold the solution."""
    name, kind, SD, SX = re.search(r'(\w+)_([df])_(\d+)_(\d+)$', n).groups(); SD, SX = int(SD), int(SX); size = {'d': 8, 'f': 4}[kind]; kind = {'d': 'f64', 'f': 'f32'}[kind]
    cols = {'eachA': [0, 2], 'eachB': [1]}.get(name, list(range(SX)))
    ex.div_nonzero = True
    cur = {}
    def inv(lc):
        reg = {a: ex.inputs_k[('arr', a)] for a in ('dl', 'd', 'du', 'X', 'x')}; N, R = ex.inputs['n'], ex.inputs['i']; fact = lambda f: ex.fact(f)
        at = lambda a, r, c, st=None: ex.load_region(lc.g, st or lc.st, reg[a], mul(add(mul(r, SD if a in ('dl', 'd', 'du') else SX), c % SD if a in ('dl', 'd', 'du') else c), size), size, kind)
        def row(r, o, c):   # the equation of row r at distance o
            return at('X', r, c) == ite(cmp('ge', r, o), at('dl', r, c) * at('x', sub(r, o), c), z3.RealVal(0)) + at('d', r, c) * at('x', r, c) + ite(cmp('lt', add(r, o), N), at('du', r, c) * at('x', add(r, o), c), z3.RealVal(0))
        def solved(r, c): return at('X', r, c) == at('x', r, c)
        inr = lambda r: and_(cmp('ge', r, 0), cmp('lt', r, N))
        # facts of divisibility and powers of two (lemmas/dyadic.lean)
        def lem(k, r):
            m, m2 = M(I(k), I(r)), M(2 * I(k), I(r)); f = []
            f += [M(1, I(r)), M(I(k), 0), M(I(k), I(k)), m == M(I(k), I(r) + I(k)), z3.Implies(m2, m), z3.Implies(z3.And(I(k) > 0, m2), z3.Not(M(2 * I(k), I(r) + I(k)))), z3.Implies(z3.And(m, z3.Not(m2)), M(2 * I(k), I(r) + I(k))), m2 == M(2 * I(k), I(r) + 2 * I(k)),
                  P(1), z3.Implies(P(I(k)), z3.And(I(k) >= 1, P(2 * I(k)))), z3.Implies(z3.And(P(I(k)), I(k) > 1), z3.And(I(k) == 2 * (I(k) / 2), P(I(k) / 2))), z3.Implies(z3.And(P(I(k)), m, z3.Not(m2)), L(I(r)) == I(k))]
            for x in f: fact(x)
        def gap(k, r, s): fact(z3.Implies(z3.And(M(I(k), I(r)), M(I(k), I(s)), I(r) < I(s)), I(r) + I(k) <= I(s)))
        outer = lc.L.parent is None; out = []; others = [c for c in range(SX) if c not in cols]
        for c in others: out.append(('the columns of other threads', implies(inr(R), at('X', R, c) == at('X', R, c, lc.st0))))
        if outer:
            osp = [p for p in lc.phis if p not in lc.ind and not isinstance(lc.phis[p], Ptr)]
            if len(osp) != 1: raise Undecided('loop over distances of an unknown shape')
            os = lc.phis[osp[0]]; down = lc.phis0[osp[0]] == 1 if isinstance(lc.phis0[osp[0]], int) else False
            lc.down = down
            if getattr(lc, 'generic', False): cur.update(os=os, down=down); ex.rng.declare(os, 0, 1 << 28)   # by the invariant on the distance
            for r in (R, 0, os, sub(R, os)): lem(os, r)
            if down:
                out.append(('the distance is a power of two', and_(cmp('ge', os, 1), P(I(os)), or_(eq(os, 1), cmp('lt', os, N)))))
                rows = [R] + ([0, os] if getattr(lc, 'generic', False) else [])
                if getattr(lc, 'generic', False): gap(os, 0, R); gap(os, os, R); lem(os, os)
                for r in rows:
                    for c in cols:
                        out.append(('the equations of the rows at the distance', implies(and_(inr(r), M(I(os), I(r))), row(r, os, c))))
                        out.append(('the equations of the rows left', implies(and_(inr(r), not_(M(I(os), I(r)))), row(r, L(I(r)), c))))
            else:
                pre = cur.get('os')
                out.append(('the distance is a power of two or nothing', and_(or_(eq(os, 0), P(I(os))), cmp('ge', os, 0), cmp('lt', os, N))))
                if pre is not None: lem(pre, R); lem(pre, 0); gap(pre, 0, R); gap(pre, pre, R); lem(pre, pre)
                for c in cols:
                    done = or_(eq(os, 0), M(2 * I(os), I(R)))
                    for nm, cond in ((('first', eq(R, 0)),) if pre is None else (('first, alone', and_(eq(R, 0), cmp('ge', pre, N))), ('first of two', and_(eq(R, 0), cmp('lt', pre, N))))) + (('later', not_(eq(R, 0))),): out.append(('solved rows, ' + nm, implies(and_(inr(R), done, cond), solved(R, c))))
                    out.append(('the equations of the rows to come', implies(and_(inr(R), not_(done)), row(R, L(I(R)), c))))
        else:
            ip = [p for p in lc.phis if not isinstance(lc.phis[p], Ptr) and not isinstance(lc.ind.get(p), int)]
            cp = [p for p in lc.phis if not isinstance(lc.phis[p], Ptr) and isinstance(lc.ind.get(p), int)]
            if len(ip) != 1: raise Undecided('loop over rows of an unknown shape %s' % lc.ind)
            i = lc.phis[ip[0]]; g = getattr(lc, 'generic', False)
            op = [lc.fr.env[p.res] for p in lc.fr.f.blocks[lc.L.parent.header].phis if p.ty[0] == 'i' and p.res in lc.fr.env]
            if len(op) != 1: raise Undecided('loop over distances of an unknown shape')
            os = op[0]; st = mul(os, 2); down = lc.phis0[ip[0]] == 0 if isinstance(lc.phis0[ip[0]], int) else False
            rows = [R] + ([i, sub(i, os), add(i, os)] if g else [])
            for r in rows + [sub(R, os), add(R, os)]: lem(os, r)
            lem(os, 0); lem(st, R); lem(st, i)
            if cp:      # a count kept beside the row: row = stride * count
                if len(cp) != 1 or lc.ind[cp[0]] != 1: raise Undecided('loop over rows with counts of an unknown shape')
                t = lc.phis[cp[0]]; Q = z3.Function('times', z3.IntSort(), z3.IntSort(), z3.IntSort()); k = I(st)
                for f in (Q(k, 0) == 0, Q(k, I(t) + 1) == Q(k, I(t)) + k, z3.Implies(k > 0, (I(t) >= (I(N) + k - 1) / k) == (Q(k, I(t)) >= I(N)))): fact(f)
                out.append(('the count of rows', and_(cmp('ge', t, 0), eq(i, Q(k, I(t))))))
            if down:
                gap(st, R, i); gap(st, i, R); gap(st, 0, R); gap(st, 0, i); gap(os, 0, R)
                out.append(('the row is one of the next distance', and_(cmp('ge', i, 0), M(I(st), I(i)), cmp('lt', i, add(N, st)))))
                for r in rows:
                    for c in cols:
                        a = and_(inr(r), M(I(st), I(r)), cmp('lt', r, i)); now = eq(add(r, st), i)
                        cs = [not_(now)] if g else [not_(now)] + [and_(now, x, y) for x in (eq(r, 0), not_(eq(r, 0))) for y in (cmp('ge', add(r, os), N), and_(cmp('lt', add(r, os), N), cmp('ge', add(r, st), N)), cmp('lt', add(r, st), N))]
                        if g: out.append(('rows of the next distance', implies(a, row(r, st, c))))
                        else:
                            for x in cs: out.append(('rows of the next distance', implies(and_(a, x), row(r, st, c))))
                        out.append(('rows of this distance', implies(and_(inr(r), M(I(os), I(r)), not_(a)), row(r, os, c))))
                        out.append(('rows left', implies(and_(inr(r), not_(M(I(os), I(r)))), row(r, L(I(r)), c))))
            else:
                gap(st, add(R, os), add(i, os)); gap(st, add(i, os), add(R, os)); gap(os, 0, R); gap(st, 0, R); gap(os, 0, i)
                out.append(('the row is one of this distance', and_(cmp('ge', i, os), M(I(os), I(i)), not_(M(I(st), I(i))), cmp('lt', i, add(N, st)))))
                for r in rows:
                    for c in cols:
                        a = and_(inr(r), M(I(os), I(r)), not_(M(I(st), I(r))), cmp('lt', r, i)); b = and_(inr(r), M(I(st), I(r))); now = eq(add(r, st), i)
                        out.append(('rows of the last distance', implies(b, solved(r, c))))
                        if g: out.append(('rows solved', implies(a, solved(r, c))))
                        else:
                            for x in (not_(now), and_(now, cmp('lt', add(r, os), N)), and_(now, cmp('ge', add(r, os), N))): out.append(('rows solved', implies(and_(a, x), solved(r, c))))
                        out.append(('rows to come', implies(and_(inr(r), not_(a), not_(b)), row(r, L(I(r)), c))))
        return out
    inv.symbolic = True; inv.opaque = True
    ex.loop_specs.append((r'tridiag', None, inv))
def tasks(ctx): return harness_tasks(ctx, fmode='real', setup=setup, defs=('NDEBUG',))
TRUSTED = []
ASSUMPTIONS = ['real arithmetic: rounding is not considered', 'no divisor vanishes (diagonally dominant matrices)', 'systems of up to 2^28 numbers and at least one row', 'one to three columns: column counts are instantiated, the number of rows is not', 'teams: one thread, or threads that share no row of a matrix (many matrices)']
CONTRACTED = ['ekat::tridiag::cr (one matrix and one, many right hand sides; many matrices)']
