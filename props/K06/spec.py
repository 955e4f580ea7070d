from run import *
NATIVE = KOKKOS
def tasks(ctx): return harness_tasks(ctx, fmode='uf', realk=True)
TRUSTED = []   # the headers of the installed Kokkos (View, ViewMapping, subview) are part of the verified text
ASSUMPTIONS = ['extents between 1 and 128 (16 for rank 4 to 6); slices within the view, as the interface requires']
CONTRACTED = ['ekat::subview (leading indices, ranks 1-6)', 'ekat::subview_1 (ranks 2-6)', 'ekat::subview multi-slice (ranks 1-6, every dimension)']
