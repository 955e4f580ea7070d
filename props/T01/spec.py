from run import *
NATIVE = dict(KSTUB)
def setup(ex, n):
    def text(c):      # the text that is printed is dropped
        p = c.args[0]; st = lambda ty, o, v: c.ex.store(c.g, c.st, ty, c.ex.padd(p, o) if o else p, v, c.fr, c.dbg)
        st(('ptr',), 0, c.ex.padd(p, 16)); st(('i', 64), 8, 0); st(('i', 8), 16, 0); return UNDEF
    ex.add_contract(r're:^std::(__cxx11::)?basic_string<.*> std::operator\+<char', text)
    ex.add_contract('re:^ekat::kokkos_config_string', text)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=STRINGS)
TRUSTED = ['Kokkos::initialize, finalize and is_initialized: assumed contract (running or not, started once)']
ASSUMPTIONS = ['bounded: up to three arguments out of eight texts', 'the printed text is dropped', 'a session is not started again after it was stopped (Kokkos forbids it)']
CONTRACTED = ['ekat::initialize_kokkos_session (both), finalize_kokkos_session, ekat_impl::initialize_kokkos']
