from run import *
NATIVE = KOKKOS
def tasks(ctx): return harness_tasks(ctx, fmode='uf')
TRUSTED = []
ASSUMPTIONS = ['the number of elements is representable as int (2-d: up to 46340 x 46340, 3-d: up to 1290 per dimension), as the interface (int indices) requires', 'source and destination do not overlap']
CONTRACTED = ['ekat::transpose<direction> (2-d, 3-d)', 'ekat::transpose(...,direction) (2-d, 3-d)']
