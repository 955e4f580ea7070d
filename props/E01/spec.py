from run import *
NATIVE = KSTUB
def tasks(ctx): return harness_tasks(ctx, fmode='uf', flags=STRINGS)
TRUSTED = ['Kokkos::View, RangePolicy, MDRangePolicy and parallel_for: assumed contracts in stubs/ (the headers need a newer Kokkos than the installed one); a parallel loop is its independent iterations', 'Kokkos math functions: pure functions of their arguments']
ASSUMPTIONS = ['operands of one expression have the same extents (the interface states it; evaluate only checks the first operand)', 'integer operands for which the scalar formula does not overflow', 'extents up to 128 (8 for ranks 4 to 8)', 'the result does not overlap the operands']
CONTRACTED = ['ekat::evaluate (ranks 0-8)', 'ekat::ViewExpression', 'ekat::BinaryExpression, NegateExpression', 'ekat::BinaryPredicateExpression', 'ekat::ConditionalExpression, if_then_else', 'ekat::{Pow,Max,Min,Sqrt,Exp,Log,Sin,Cos}Expression']
