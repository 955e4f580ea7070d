"""Assumed contracts on the C++ standard library and runtime (dependencies of EKAT).

Only functions that EKAT calls are listed.  std::string is modelled exactly (length and
character array, one buffer region per string object); streams are opaque unless a property
says otherwise."""
import re
import z3
from terms import *
import vcg
from vcg import *

def ret0(c): return c.args[0]
def noop(c): return UNDEF

def op_new(c):
    n = c.ex.toint(c.args[0])
    r = c.ex.new_region('heap', 'cells' if isinstance(n, int) else 'array', n)
    r.fresh_local = True; r.heap = True
    return P1(r, 0)

def op_delete(c):
    p = c.args[0]
    if isinstance(p, Bits): p = p.v
    for cc, r, o in p.alts:
        if r.kind in ('null',): continue
        k = ('flag', 'freed', r.id)
        old = c.st.ghost.get(k, False)
        c.ex.oblige(c.g.conj(cc), not_(old), 'no double delete', 'memory', c.fr, c.dbg)
        c.st.ghost[k] = or_(old, cc)
    return UNDEF

def install(ex):
    A = ex.add_contract
    A('re:^(std::(runtime_error|logic_error|invalid_argument|out_of_range|bad_cast|exception|length_error|bad_any_cast|bad_alloc))::(runtime_error|logic_error|invalid_argument|out_of_range|bad_cast|exception|length_error|bad_any_cast|bad_alloc|~.*)\\(', noop)
    A('_Znwm', op_new); A('_Znam', op_new)
    A('_ZdlPv', op_delete); A('_ZdlPvm', op_delete); A('_ZdaPv', op_delete); A('_ZdaPvm', op_delete)
    A('_ZSt19uncaught_exceptionsv', lambda c: 0)
    for n in ('logic_error', 'runtime_error', 'invalid_argument', 'out_of_range', 'length_error'):
        pass
    def thrower(t):
        def h(c):
            c.excs.append((c.g, c.st, Exc(c.ex.typeid(t), BADP))); c.g = FALSE
            return UNDEF
        return h
    A('_ZSt20__throw_length_errorPKc', thrower('St12length_error'))
    A('_ZSt19__throw_logic_errorPKc', thrower('St11logic_error'))
    A('_ZSt20__throw_out_of_rangePKc', thrower('St12out_of_range'))
    A('_ZSt24__throw_out_of_range_fmtPKcz', thrower('St12out_of_range'))
    A('_ZSt17__throw_bad_allocv', thrower('St9bad_alloc'))
    A('_ZSt28__throw_bad_array_new_lengthv', thrower('St9bad_alloc'))
    A('_ZSt16__throw_bad_castv', thrower('St8bad_cast'))
    A('_ZSt25__throw_bad_function_callv', thrower('St17bad_function_call'))
    # streams used to format messages: opaque
    A('re:^std::basic_ostream<.*>& std::operator<<', ret0)
    A('re:^std::(basic_ostream|ostream)(<.*>)?::(operator<<|put|write|flush)', ret0)
    A('re:^std::basic_ostream<.*>& std::(endl|flush|ends)', ret0)
    A('re:^std::.*basic_(o|i)?stringstream<.*>::(basic_(o|i)?stringstream|~basic_(o|i)?stringstream)', noop)
    def gassert(c):
        c.ex.oblige(c.g, False, 'library precondition (__glibcxx_assert)', 'memory', c.fr, c.dbg); c.g = FALSE
        return UNDEF
    A('re:^std::__glibcxx_assert_fail', gassert)
    # message texts are dropped: str() gives the empty string (a valid std::string object: pointer, length, local buffer)
    def ss_str(c):
        p = c.args[0]
        c.ex.store(c.g, c.st, ('ptr',), p, c.ex.padd(p, 16), c.fr, c.dbg)
        c.ex.store(c.g, c.st, ('i', 64), c.ex.padd(p, 8), 0, c.fr, c.dbg)
        c.ex.store(c.g, c.st, ('i', 8), c.ex.padd(p, 16), 0, c.fr, c.dbg)
        return UNDEF
    A('re:^std::.*basic_(o|i)?stringstream<.*>::str\\(\\) const$', ss_str)
    A('_ZTW', noop)
    A('memcmp', memcmp); A('strlen', strlen); A('memchr', memchr)
    A('printf', lambda c: 0); A('puts', lambda c: 0); A('putchar', lambda c: 0); A('fprintf', lambda c: 0)

def byte(c, p):
    v = c.ex.toint(c.ex.load(c.g, c.st, ('i', 8), p, c.fr, c.dbg))
    return v % 256 if isinstance(v, int) else ite(cmp('lt', v, 0), add(v, 256), v)

def memcmp(c):   # the sign is that of the difference of the first two bytes that differ
    n = c.ex.toint(c.args[2])
    if not isinstance(n, int) or n > 256: raise Undecided('memcmp of a symbolic number of bytes')
    r = 0
    for i in reversed(range(n)):
        a, b = byte(c, c.ex.padd(c.args[0], i)), byte(c, c.ex.padd(c.args[1], i))
        if isinstance(a, int) and isinstance(b, int): r = a - b if a != b else r
        else: r = ite(eq(a, b), r, sub(a, b))
    return r

def memchr(c):
    n = c.ex.toint(c.args[2]); w = c.ex.toint(c.args[1])
    if not isinstance(n, int) or not isinstance(w, int): raise Undecided('memchr of symbolic bytes')
    for i in range(n):
        p = c.ex.padd(c.args[0], i); a = byte(c, p)
        if not isinstance(a, int): raise Undecided('memchr of symbolic bytes')
        if a == w % 256: return p
    return vcg.NULLP
def strlen(c):
    r, o = c.ex.single(c.args[0])
    if (r.const or r.kind == 'cells') and isinstance(o, int):
        n = 0
        while True:
            v = c.ex.toint(c.ex.load(c.g, c.st, ('i', 8), P1(r, o + n), c.fr, c.dbg))
            if not isinstance(v, int): raise Undecided('strlen of a symbolic string')
            if v == 0: return n
            n += 1
    raise Undecided('strlen of a symbolic string')
