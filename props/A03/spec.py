from run import *
import z3
NATIVE = KSTUB
def setup(ex, n):
    T = {'d': ('f64', 8), 'f': ('f32', 4)}[n.split(':')[-1].split('_')[1][0]]; kind, size = T
    def ub(c):
        """contract of upper_bound (property K02): the range ascends; instances of strict ascent between the segment looked for and the result"""
        X = ex.inputs_k[('arr', 'x1')]; km1 = ex.inputs['km1']; j = ex.inputs['j']
        (r0, o0), (r1, o1) = ex.single(c.args[0]), ex.single(c.args[1])
        c.require(r0 is X and r1 is X and o0 == 0, 'upper_bound: the range is the given column')
        m = divexact(o1, size); 
        if m is None: raise Undecided('upper_bound: end of the range')
        c.require(and_(cmp('ge', m, 0), cmp('le', m, km1)), 'upper_bound: the range ascends')
        v = ex.load(c.g, c.st, (kind,), c.args[2], c.fr, c.dbg)
        x = lambda k: ex.load_region(c.g, c.st, X, mul(k, size), size, kind)
        r = ex.fresh_int('ub'); ex.assume(c.g, and_(cmp('ge', r, 0), cmp('le', r, m)))
        ex.assume(c.g, implies(cmp('gt', r, 0), ex.fcmp('ole', x(sub(r, 1)), v))); ex.assume(c.g, implies(cmp('lt', r, m), ex.fcmp('olt', v, x(r))))
        ks = [j, add(j, 1), sub(r, 1), r, 0, sub(km1, 1)]
        for a in ks:
            for b in ks:
                if a is not b: ex.assume(c.g, implies(and_(cmp('ge', a, 0), cmp('lt', a, b), cmp('lt', b, km1)), ex.fcmp('olt', x(a), x(b))))
        lt = lambda a, b: ex.fcmp('olt', a, b)
        for cond, val in ((lt(v, x(0)), 0), (not_(lt(v, x(sub(km1, 1)))), km1), (and_(not_(lt(v, x(j))), lt(v, x(add(j, 1)))), add(j, 1))):   # cuts
            cut = implies(and_(eq(m, km1), cond), eq(r, val))
            c.require(cut, 'upper_bound: the result in terms of the segment'); ex.assume(c.g, cut)
        return P1(X, mul(r, size))
    ex.add_contract('re:upper_bound<', ub)
    ex.view_inv = {2: lambda v: and_(cmp('ge', v, 0), cmp('lt', v, ex.inputs['km1']))}   # the index map: every entry is the number of a given level
def tasks(ctx): return harness_tasks(ctx, fmode='real', setup=setup, defs=('NDEBUG',))
TRUSTED = ['ekat::upper_bound by its contract, property K02', 'Kokkos::View, parallel_for over TeamVectorRange/ThreadVectorRange, TeamPolicy: assumed contracts in stubs/ (a parallel loop is its independent iterations)', 'ekat::TeamPolicyFactory: property K03; repack, scalarize: property P06 (executed here)']
ASSUMPTIONS = ['floating-point arithmetic is treated as real arithmetic', 'the given coordinates ascend strictly, at least two of them; up to 2^20 levels, 1024 columns']
CONTRACTED = ['ekat::LinInterp (constructor, setup, setup_impl, lin_interp, lin_interp_impl, both overloads each)']
