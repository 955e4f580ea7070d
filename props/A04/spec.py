from run import *
import z3
NATIVE = KSTUB
FS = dict(f64=8, f32=4)
def setup(ex, n):
    """Sums in any order: the sum of the (modified) accumulators of a loop grows like the running sum S of the entries it has passed."""
    h = n.split(':')[-1]
    if h.startswith('s_'): return
    kind = {'d': 'f64', 'f': 'f32'}[re.search(r'_([df])\d*$', h).group(1)]; size = FS[kind]
    N = int(re.search(r'(\d*)$', h).group(1) or 1)
    def inv(lc):
        cnt = [p for p in lc.phis if p in lc.ind and not isinstance(lc.phis[p], Ptr)]
        fl = [p for p in lc.phis if p not in cnt]
        cells = sorted((m[1], m[2]) for m in lc.mods.values() if m[0] == 'cell' and m[4] == kind)
        if len(cnt) != 1 or any(m[0] == 'arr' for m in lc.mods.values()): raise Undecided('reduction loop of an unknown shape')
        rd = lambda st, r, o: ex.read_cells(ex.regions[r], st.cells[r], o, size, kind)
        now = [rd(lc.st, r, o) for r, o in cells] + [lc.phis[p] for p in fl]; ini = [rd(lc.st0, r, o) for r, o in cells] + [lc.phis0[p] for p in fl]
        if len(now) not in (1, N): raise Undecided('reduction loop with %d accumulators' % len(now))
        sc = len(now)
        S = lambda k: ex.load_region(lc.g, lc.st, ex.inputs_k[('arr', 'S')], mul(k, size), size, kind)
        a = lambda k: ex.load_region(lc.g, lc.st, ex.inputs_k[('arr', 'a')], mul(k, size), size, kind)
        k0, k = [mul(x, sc) for x in (lc.phis0[cnt[0]], lc.phis[cnt[0]])]
        for j in range(sc):
            i = add(k, j); ex.assume(lc.g, implies(cmp('lt', i, ex.inputs['n']), S(add(i, 1)) == S(i) + a(i)) if N == 1 else implies(cmp('lt', i, mul(ex.inputs['n'], N)), S(add(i, 1)) == S(i) + a(i)))
        return [('the range is not passed', or_(eq(lc.it, 0), cmp('le', k, ex.inputs['e']))), ('the accumulators hold the sum of the entries passed', z3.Sum(*now) - z3.Sum(*ini) == S(k) - S(k0))]
    def unroll(lc): pass
    unroll.unroll = True
    ex.loop_specs.append((r'^void Kokkos::parallel_reduce<', None, inv))
    if N > 1: ex.loop_specs.append((r'view_reduction<|reduce_sum<', None, unroll))
def tasks(ctx): return harness_tasks(ctx, fmode='uf', only='^s_', defs=('NDEBUG', 'EKAT_DEFAULT_BFB')) + harness_tasks(ctx, fmode='real', only='^p_', setup=setup, defs=('NDEBUG', 'EKAT_DEFAULT_BFB'))
TRUSTED = ['Kokkos::parallel_reduce over TeamThreadRange: every contribution exactly once, starting from the reduction identity, result known to the whole team (stubs/)']
ASSUMPTIONS = ['reductions that are not serialized: sums are compared in real arithmetic, since the order is free', 'up to 2^30 entries']
CONTRACTED = ['ekat::impl::parallel_reduce', 'ekat::impl::view_reduction (scalar, packed)', 'ekat::ReductionUtils (parallel_reduce, view_reduction)']
