from run import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': [], 'libs': []}
def setup(ex, n):
    def text(c):      # the text of messages is dropped
        p = c.args[0]; st = lambda ty, o, v: c.ex.store(c.g, c.st, ty, c.ex.padd(p, o) if o else p, v, c.fr, c.dbg)
        st(('ptr',), 0, c.ex.padd(p, 16)); st(('i', 64), 8, 0); st(('i', 8), 16, 0); return UNDEF
    ex.add_contract(r're:^std::(__cxx11::)?basic_string<.*> std::operator\+<char', text)
    # one std::type_info object per type; their names are not looked at
    ex.add_contract(r're:^std::type_info::operator==', lambda c: c.ex.icmp('eq', ('ptr',), c.args[0], c.args[1], c.g))
    ex.add_contract(r're:^std::type_info::operator!=', lambda c: not_(c.ex.icmp('eq', ('ptr',), c.args[0], c.args[1], c.g)))
    def tname(c):
        r = c.ex.new_region('type name', 'cells', 1); p = P1(r, 0); c.ex.store(c.g, c.st, ('i', 8), p, 0, c.fr, c.dbg); r.const = True; return p
    ex.add_contract(r're:^std::type_info::name\(\) const', tname)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=['-I' + os.path.join(VERIF, 'stubs', 'nodemap')] + STRINGS)
TRUSTED = []
ASSUMPTIONS = ['std::map by the contract in stubs/nodemap/map (two arbitrary distinct names; the rest is not touched); std::any and std::string are executed (libstdc++)', 'one std::type_info object per type', 'names of one arbitrary character', 'the text of error messages is dropped']
CONTRACTED = ['ekat::ParameterList: constructors, operator=, get (const, non-const, default), set, isParameter, isSublist, isType, sublist (const, non-const), import, param_names, sublist_names']
