from run import *
import z3, ratspec
from fractions import Fraction
from ratspec import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': ['-I/opt/vp/compat'], 'libs': []}
SV = z3.Function('scaling', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), RS)   # the number a scaling factor stands for (C02)
class SF:
    def __init__(self, c, p):
        self.b = ratspec.read(c, p); self.e = ratspec.read(c, p, 16); self.v = SV(self.b.n, self.b.d, self.e.n, self.e.d); self.c = c
        ex = c.ex; ex.fact(z3.Implies(z3.And(self.e.n == 1, self.e.d == 1), self.v == self.b.v)); ex.fact(z3.Implies(self.b.v > 0, self.v > 0))
        q = [z3.simplify(I(x)) for x in (self.b.n, self.b.d, self.e.n, self.e.d)]     # a literal number
        if all(z3.is_int_value(x) for x in q):
            n, d, e, k = [x.as_long() for x in q]
            if n > 0 and d > 0 and k == 1 and abs(e) < 40: w = Fraction(n, d) ** e; ex.fact(self.v == z3.RealVal(str(w)))
def sfout(c, p, v):
    ex = c.ex; w = [ex.fresh_int('s', 64) for _ in range(4)]
    for k, x in enumerate(w): ex.store(c.g, c.st, ('i', 64), ex.padd(p, 8 * k) if k else p, x, c.fr, c.dbg)
    r = SF(c, p); c.assume(z3.And(r.b.d >= 1, r.e.d >= 1, CAN(r.b.n, r.b.d), CAN(r.e.n, r.e.d), r.v == v, z3.Implies(v > 0, r.b.v > 0))); return r
def setup(ex, n):
    ratspec.install(ex); A = ex.add_contract; f = ex.fact
    one = lambda o, a, b: f(z3.And(z3.Implies(b == 1, o(a, b) == a), *([z3.Implies(a == 1, o(a, b) == b), T(b, a) == T(a, b)] if o is T else []), z3.Implies(z3.And(a > 0, b > 0), o(a, b) > 0)))
    def bop(o):
        def h(c):
            out_, a, b = c.args[0], SF(c, c.args[1]), SF(c, c.args[2])
            c.require(z3.And(a.b.v > 0, b.b.v > 0), 'positive scalings'); one(o, a.v, b.v); sfout(c, out_, o(a.v, b.v)); return UNDEF
        return h
    SS = r'\(ekat::ScalingFactor const&, ekat::ScalingFactor const&\)$'
    A(r're:ekat::operator\*' + SS, bop(T)); A(r're:ekat::operator/' + SS, bop(D))
    def eq_(neg):
        def h(c):
            a, b = SF(c, c.args[0]), SF(c, c.args[1]); r = a.v == b.v; return z3.Not(r) if neg else r
        return h
    A(r're:ekat::operator==' + SS, eq_(False)); A(r're:ekat::operator!=' + SS, eq_(True))
    def spow(c):
        a, p = SF(c, c.args[1]), ratspec.read(c, c.args[2]); c.require(a.b.v > 0, 'positive scaling'); f(z3.Implies(a.v > 0, RP(a.v, p.v) > 0)); sfout(c, c.args[0], RP(a.v, p.v)); return UNDEF
    A(r're:ekat::pow\(ekat::ScalingFactor const&, ekat::RationalConstant const&\)', spow)
    def make(c):    # a rational, or base and exponent
        b = ratspec.read(c, c.args[1]); e = ratspec.read(c, c.args[2]) if len(c.args) > 2 else None; ex = c.ex
        if e is not None: c.require(z3.And(b.n > 0, e.n != 0), 'base and exponent of a positive number')
        for k, x in enumerate((b.n, b.d) + ((e.n, e.d) if e else (1, 1))): ex.store(c.g, c.st, ('i', 64), ex.padd(c.args[0], 8 * k) if k else c.args[0], x, c.fr, c.dbg)
        return UNDEF
    A(r're:^ekat::ScalingFactor::ScalingFactor\(ekat::RationalConstant const&(, ekat::RationalConstant const&)?\)', make)
    # texts: the contents of the names are not looked at
    def text(c):
        p = c.args[0]
        for k in range(128): c.ex.store(c.g, c.st, ('i', 8), c.ex.padd(p, k) if k else p, c.ex.fresh_int('ch', 8) if k < 127 else 0, c.fr, c.dbg)
        return UNDEF
    A(r're:ekat::units::Units::concat_repr', text); A(r're:ekat::units::Units::to_array', text); A(r're:::string_repr<128>\(\) const', text)
    def sview(c): return [c.ex.fresh_int('len', 64, 0, 127), c.args[0]]
    A(r're:ekat::units::Units::string_repr\(\) const', sview)
    A(r're:basic_string_view<.*>::basic_string_view\(char const\*\)', lambda c: (c.ex.store(c.g, c.st, ('i', 64), c.args[0], c.ex.fresh_int('len', 64, 0, 127), c.fr, c.dbg), c.ex.store(c.g, c.st, ('ptr',), c.ex.padd(c.args[0], 8), c.args[1], c.fr, c.dbg), UNDEF)[2])
    A(r're:ekat::units::Units::has_symbol\(\) const', lambda c: c.ex.fresh_bool('symbol'))
    # predicates of the specification
    def rc_is(c):
        r, a, b = [ratspec.read(c, p) for p in c.args[:3]]; op = c.args[3]; v = a.v + b.v if op == 0 else a.v - b.v if op == 1 else T(a.v, b.v); return z3.And(r.d >= 1, CAN(r.n, r.d), r.v == v)
    A('rc_is', rc_is)
    def sf_is(c):
        r, a, b = [SF(c, p) for p in c.args[:3]]; o = T if c.args[3] == 0 else D; one(o, a.v, b.v); return r.v == o(a.v, b.v)
    A('sf_is', sf_is)
    A('sf_pow_is', lambda c: SF(c, c.args[0]).v == RP(SF(c, c.args[1]).v, ratspec.read(c, c.args[2]).v))
    def rc_same(c):
        a, b = [ratspec.read(c, p) for p in c.args]; unique(c, a, b); return a.v == b.v
    A('rc_same', rc_same); A('sf_same', lambda c: SF(c, c.args[0]).v == SF(c, c.args[1]).v)
    def canon_(c): r = ratspec.read(c, c.args[0]); return z3.And(r.d >= 1, CAN(r.n, r.d))
    A('rc_canon', canon_)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=STRINGS)
TRUSTED = []
ASSUMPTIONS = ['rational constants and scaling factors by the contracts proved in C01 and C02 (positive scalings, products that fit in 64 bits)', 'names fit in their 127 characters; their text is not looked at']
CONTRACTED = ['ekat::units::Units constructors, rename, is_dimensionless, is_scaled', 'operator* / == != pow sqrt on Units, ScalingFactor, RationalConstant', 'the named units (compile-time values)']
