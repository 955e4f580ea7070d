from run import *
NATIVE = KSTUB
def tasks(ctx):
    return harness_tasks(ctx)
TRUSTED = ['Kokkos::View (LayoutRight, unmanaged): index map, extents and conversions, as stated executably in stubs/Kokkos_Core.hpp']
ASSUMPTIONS = ['array lengths at most INT_MAX minus the pack size; view extents at most 4096 each (index products stay in 64 bits)', 'views are contiguous with LayoutRight']
CONTRACTED = ['ekat::PackInfo (all members)', 'ekat::npack', 'ekat::scalarize, ScalarizeHelper (ranks 1-4)', 'ekat::repack (ranks 1-3, from packs and from scalars)', 'ekat::ScalarizedDataType']
