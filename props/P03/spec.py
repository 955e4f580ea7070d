from run import *
NATIVE = KOKKOS
def tasks(ctx):
    return harness_tasks(ctx, fmode=lambda n: 'real' if n.startswith('rsums') else 'uf', flags=('-DEKAT_DEFAULT_BFB',), group=lambda n: n.split('_')[0] + '_' + n.split('_')[-1][-2:])
TRUSTED = ['std::min/max of the host library are inlined from libstdc++ and not trusted']
ASSUMPTIONS = ['serialized sums and extrema: floating-point operations uninterpreted, so the order of the operations is part of what is proved',
               'sums that are not serialized: exact arithmetic (the rounding of a reordered sum is not bounded)',
               'integer sums do not overflow']
CONTRACTED = ['ekat::reduce_sum (all overloads)', 'ekat::min/max over lanes, masked and not', 'ekat::shift_left/shift_right (pack and scalar)', 'ekat::range']
