from run import *
import z3
NATIVE = dict(KSTUB, flags=KSTUB['flags'] + ['-DEKAT_ENABLE_GPU'])
TY = dict(d=('f64', 8), f=('f32', 4), i=('i', 4), l=('i', 8))
def setup(ex, n):
    kind, size = TY[n.split(':')[-1][-1]]
    def inv(lc):
        """pointer position p (start of what is left) and the number c of entries left"""
        al = []
        def pos(x):
            o = x.alts[0][2]; d = divexact(o, size)
            if d is not None: return d
            al.append(z3.simplify(I(o) % size == 0)); return I(o) / size
        ps = [p for p in lc.phis.values() if isinstance(p, Ptr)]
        cs = [c for c in lc.phis.values() if not isinstance(c, Ptr)]
        if len(ps) == 2 and not cs:      # [first, last) kept as two pointers
            p, q = [pos(x) for x in ps]; cnt = sub(q, p); r = ps[0].alts[0][1]
        elif len(ps) == 1 and len(cs) == 1:
            r = ps[0].alts[0][1]; p = pos(ps[0]); cnt = cs[0]
        elif not ps and len(cs) == 2:    # two numbers: lower bound and count
            raise Undecided('upper_bound loop of an unknown shape')
        else: raise Undecided('upper_bound loop of an unknown shape %s' % lc.phis)
        I_, B, E, V = ex.inputs['i'], ex.inputs['b'], ex.inputs['e'], ex.inputs_k[('arr', 'v')]
        a = lambda j: ex.load_region(lc.g, lc.st, ex.inputs_k[('arr', 'a')], mul(j, size), size, kind)
        v = ex.load_region(lc.g, lc.st, V, 0, size, kind)
        le = lambda x, y: cmp('le', x, y) if kind == 'i' else ex.fcmp('ole', x, y)
        for j in (sub(p, 1), add(p, cnt)):    # the array ascends: instances
            inr = and_(cmp('ge', j, B), cmp('lt', j, E))
            ex.assume(lc.g, implies(and_(inr, cmp('le', I_, j)), le(a(I_), a(j)))); ex.assume(lc.g, implies(and_(inr, cmp('ge', I_, j)), le(a(j), a(I_))))
        lc.measure = cnt
        return [('the position is that of an entry', and_(*al))] * bool(al) + [('the remaining entries lie in the range', and_(cmp('ge', p, B), cmp('ge', cnt, 0), cmp('le', add(p, cnt), E))),
                ('entries before are at most the value', implies(cmp('lt', I_, p), le(a(I_), v))),
                ('entries after are greater', implies(cmp('ge', I_, add(p, cnt)), not_(le(a(I_), v))))]
    if not n.split(':')[-1].startswith('ub0'): ex.loop_specs.append((r'upper_bound<', None, inv))
def tasks(ctx): return harness_tasks(ctx, fmode='real', setup=setup, defs=('NDEBUG', 'EKAT_ENABLE_GPU'), prefix='own:') + harness_tasks(ctx, fmode='real', setup=setup, defs=('NDEBUG',), flags=STRINGS, prefix='host:')
TRUSTED = []
ASSUMPTIONS = ['the array ascends and holds no NaN', 'up to 2^31-1 entries']
CONTRACTED = ['ekat::upper_bound (its own loop, as device builds compile it, and as host builds compile it: std::upper_bound)']
