from run import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': ['-include', 'typeinfo'], 'libs': []}
def setup(ex, n):
    def text(c):      # the text of messages is dropped
        p = c.args[0]; st = lambda ty, o, v: c.ex.store(c.g, c.st, ty, c.ex.padd(p, o) if o else p, v, c.fr, c.dbg)
        st(('ptr',), 0, c.ex.padd(p, 16)); st(('i', 64), 8, 0); st(('i', 8), 16, 0); return UNDEF
    ex.add_contract(r're:^std::(__cxx11::)?basic_string<.*> std::operator\+<char', text)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=['-I' + os.path.join(VERIF, 'stubs', 'map')] + STRINGS)
TRUSTED = []
ASSUMPTIONS = ['std::map by the contract in stubs/map/map (three arbitrary distinct keys, the rest counted)', 'keys and products of one type; the text of error messages is dropped']
CONTRACTED = ['ekat::Factory: register_product, create, has_product, clean_up, register_size, instance']
