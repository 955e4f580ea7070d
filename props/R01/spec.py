from run import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': [], 'libs': []}
def setup(ex, n):
    st = {'n': 0}
    def fly(c): st['n'] = c.args[0]; return UNDEF
    def stop(c): c.g = FALSE; return UNDEF      # Kokkos::abort does not return
    ex.add_contract('vp_stop', stop)
    ex.add_contract('vp_in_flight', fly); ex.add_contract('_ZSt19uncaught_exceptionsv', lambda c: st['n'])
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=STRINGS) + harness_tasks(ctx, setup=setup, flags=STRINGS, defs=('NDEBUG',), prefix='release:')
TRUSTED = []
ASSUMPTIONS = ['std::uncaught_exceptions gives the number of exceptions in flight', 'texts are dropped']
CONTRACTED = ['EKAT_REQUIRE (1, 2, 3 arguments), EKAT_REQUIRE_MSG, EKAT_ERROR_MSG, EKAT_ASSERT, EKAT_ASSERT_MSG', 'ekat::throw_exception', 'EKAT_KERNEL_REQUIRE, EKAT_KERNEL_ASSERT (and _MSG)']
