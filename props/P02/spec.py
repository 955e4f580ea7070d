from run import *
NATIVE = KOKKOS
def tasks(ctx):
    return harness_tasks(ctx, group=lambda n: n.split('_')[0] + '_' + n.split('_')[-1][-2:])
TRUSTED = ['Kokkos::isnan, std::min/max of the host library']
ASSUMPTIONS = ['floating-point comparison and arithmetic are uninterpreted functions of their operands (bit-for-bit agreement with the scalar expression)',
               'integer lanes are in ranges where the scalar expression does not overflow; integer divisors are not zero']
CONTRACTED = ['ekat::Mask (construct, set, [], any, all, none, &&, ||, !, ==)', 'ekat_masked_loop', 'comparisons of packs and scalars', 'isnan(Pack)', 'Pack::set and the masked Pack constructors', 'where_expression<Pack>, where_expression<scalar>', 'scalar op= where_expression']
