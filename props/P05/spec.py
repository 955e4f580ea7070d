from run import *
NATIVE = KSTUB
def tasks(ctx):
    fm = lambda n: 'real' if n.startswith('adj') else 'uf'
    return harness_tasks(ctx, fmode=fm) + harness_tasks(ctx, defs=('NDEBUG',), fmode=fm, only='^ishift', prefix='ndebug:')
TRUSTED = ['Kokkos::View (LayoutRight, unmanaged): index map and extents, as stated executably in stubs/Kokkos_Core.hpp']
ASSUMPTIONS = ['view extents at most 4096 per dimension (512 for ranks 4 and 5)', 'pack indices are within the view (for index_and_shift in release builds, the shifted ones too)',
               'adj_diff: exact arithmetic (floating-point rounding not modelled); gathers are bit-for-bit']
CONTRACTED = ['ekat::index (ranks 1-5)', 'ekat::index_and_shift', 'ekat::adj_diff (packs, scalars, view overload)']
