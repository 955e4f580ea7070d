from run import *
import z3, itertools
from terms import *
import harness
from vcg import *
NATIVE = KOKKOS

def tr(c, c2f, three):
    """contract of ekat::transpose (proved by K01): every element goes to its transposed position"""
    ex = c.ex
    sp, dp = c.args[0], c.args[1]
    n = [ex.toint(a) for a in c.args[2:]]
    ni, nk, nj = n[0], n[1], n[2] if three else None
    el = None
    total0 = mul(ni, nk) if not three else mul(mul(ni, nk), nj)
    def real(p):
        out = []
        for cc, r, o in p.alts:
            if r.kind in ('null', 'bad'):
                if not c.g.conj(cc).is_false(): ex.oblige(c.g.conj(cc), cmp('le', total0, 0), 'pre: transpose: no elements behind a null pointer', 'precondition', c.fr, c.dbg)
            else: out.append((cc, r, o))
        return Ptr(out)
    sp, dp = real(sp), real(dp)
    for cc, r, o in list(sp.alts) + list(dp.alts):
        if r.kind != 'array': raise Undecided('transpose of something that is not an array')
        el = el or r.elem
    if el is None: raise Undecided('transpose: element type unknown')
    for cc, r, o in list(sp.alts) + list(dp.alts):
        if r.elem is None: r.elem = el
        elif r.elem[:2] != el[:2]: raise Undecided('transpose between different element types')
    kind, size = el[:2]
    hk = (kind, size, 0)
    tot = mul(ni, nk) if not three else mul(mul(ni, nk), nj)
    c.require(and_(cmp('ge', ni, 0), cmp('ge', nk, 0), True if not three else cmp('ge', nj, 0)), 'extents are not negative')
    c.require(cmp('le', tot, (1 << 31) - 1), 'number of elements is an int')
    g0 = c.g
    def idx(r, o, g): return ex.heap_idx(g, r, o, size, kind, c.fr, c.dbg)[1]
    for ptr, what in ((sp, 'source'), (dp, 'destination')):
        for cc, r, o in ptr.alts:
            g = g0.conj(cc)
            if g.is_false(): continue
            ex.oblige(g, and_(cmp('ge', o, 0), cmp('le', add(o, mul(size, tot)), r.size)), 'pre: transpose: all elements of the %s are accessible' % what, 'precondition', c.fr, c.dbg)
            if ex.log is not None: ex.log.append(('w' if ptr is dp else 'r', r, o, mul(size, tot), 'mem', g))
            fr_ = c.st.ghost.get(('flag', 'freed', r.id), False)
            ex.oblige(g, not_(fr_), 'pre: transpose: live memory', 'precondition', c.fr, c.dbg)
    for c1, r1, o1 in sp.alts:
        for c2, r2, o2 in dp.alts:
            if r1 is r2: ex.oblige(g0.conj(c1).conj(c2), False, 'pre: transpose: source and destination are different arrays', 'precondition', c.fr, c.dbg)
    def src(k):
        v = None
        for cc, r, o in sp.alts:
            x = z3.Select(ex.get_arr(c.st, r, hk), I(add(idx(r, o, g0), k)))
            v = x if v is None else z3.If(B(cc), x, v)
        return v
    dst = {}
    for cc, r, o in dp.alts:
        new = z3.Array(ex.fresh_name(r.name), z3.IntSort(), ex.sort_of(kind)); old = ex.get_arr(c.st, r, hk)
        dst[r.id] = (cc, r, o, new, old)
    facts = []
    for t in getattr(ex, 'focus', []):
        for p in itertools.permutations(t, 3 if three else 2):
            if three:
                i, k, j = p
                ci, fi = add(add(mul(mul(nk, nj), i), mul(k, nj)), j), add(add(mul(mul(ni, nk), j), mul(k, ni)), i)
                rng = and_(cmp('ge', i, 0), cmp('lt', i, ni), cmp('ge', k, 0), cmp('lt', k, nk), cmp('ge', j, 0), cmp('lt', j, nj))
            else:
                i, k = p
                ci, fi = add(mul(nk, i), k), add(mul(ni, k), i)
                rng = and_(cmp('ge', i, 0), cmp('lt', i, ni), cmp('ge', k, 0), cmp('lt', k, nk))
            s, d = (ci, fi) if c2f else (fi, ci)
            v = src(s)
            for cc, r, o, new, old in dst.values():
                ex.assume(g0.conj(cc), implies(rng, harness.eqf(z3.Select(new, I(add(idx(r, o, g0), d))), v)))
    for cc, r, o, new, old in dst.values():
        c.st.arrs[(r.id, hk)] = new if cc is True else z3.If(B(cc), new, old)
    return UNDEF

def setup(ex, name):
    for e in (0, 1):
        for three in (False, True):
            ex.add_contract(r're:^void ekat::transpose<\(ekat::TransposeDirection::Enum\)%d, .*>\([^)]*\*, [^)]*\*, int, int%s\)$' % (e, ', int' if three else ''), lambda c, e=e, three=three: tr(c, e == 0, three))

def tasks(ctx): return harness_tasks(ctx, fmode='uf', setup=setup)
TRUSTED = ['Kokkos::View (LayoutRight), deep_copy and mirrors in host space, as stated executably in stubs/Kokkos_Core.hpp; std::vector is the real libstdc++ code']
ASSUMPTIONS = ['1-d lengths up to 2^20, 2-d extents up to 4096, 3-d up to 512 per dimension', 'host arrays do not overlap', 'sizes passed match the arrays', 'host memory space (the configuration that builds here): mirror views alias their view']
CONTRACTED = ['ekat::host_to_device (1d/2d/3d, uniform or per-array sizes, packed or scalar views, with or without transposition)', 'ekat::device_to_host (same)', 'ekat::transpose (by its contract, proved under K01)']
