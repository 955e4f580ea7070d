from run import *
NATIVE = KOKKOS
def tasks(ctx):
    return harness_tasks(ctx, group=lambda n: n.split('_')[0] + '_' + n.split('_')[-1][-2:])
TRUSTED = ['Kokkos mathematical functions and std::pow/min/max of the host library: pure functions of their arguments']
ASSUMPTIONS = ['floating-point arithmetic is uninterpreted: lanes are compared bit for bit with the scalar expression',
               'integer lanes are in ranges where the scalar expression does not overflow; integer divisors are not zero']
CONTRACTED = ['ekat::Pack constructors, operator[], =, +=, -=, *=, /=, update, add', 'ekat::operator+,-,*,/ on packs and scalars', 'unary -', 'min/max/abs/exp/log/sqrt/pow/square/cube on packs']
