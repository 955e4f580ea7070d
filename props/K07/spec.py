from run import *
NATIVE = KSTUB
def setup(ex, n): ex.max_unroll = 300
def tasks(ctx): return harness_tasks(ctx, fmode='uf', setup=setup, flags=STRINGS)
TRUSTED = ['Kokkos::View (LayoutRight, unmanaged): index map and extents, as stated executably in stubs/Kokkos_Core.hpp (the header needs Kokkos 4, the installed one is 3.7)']
ASSUMPTIONS = ['the original view is contiguous with LayoutRight, extents between 1 and 128 (16 for rank 4 and more)']
CONTRACTED = ['ekat::ViewBroadcast::setup, extent, operator() (ranks 1-8)', 'ekat::broadcast']
