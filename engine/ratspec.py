"""Contracts of ekat::RationalConstant (proved by C01), over the real value V(num,den)=num/den; used by C02 and C03."""
import z3
from vcg import *
from terms import *
RS, IS = z3.RealSort(), z3.IntSort()
V = z3.Function('V', IS, IS, RS)                 # the quotient num/den
CAN = z3.Function('canonical', IS, IS, z3.BoolSort())
RP = z3.Function('rpow', RS, RS, RS)             # real powers of positive numbers
T = z3.Function('times', RS, RS, RS); D = z3.Function('over', RS, RS, RS)
MAXI = (1 << 63) - 1
R0, R1 = z3.RealVal(0), z3.RealVal(1)
def fits(e): return z3.And(e >= -MAXI, e <= MAXI)
class Rat:
    def __init__(self, ex, n, d):
        self.n, self.d = I(n), I(d); self.v = V(self.n, self.d)
        # lemmas: unique representation, sign, integers
        for f in (z3.Implies(self.d >= 1, z3.And((self.v > 0) == (self.n > 0), (self.v == 0) == (self.n == 0), (self.v < 0) == (self.n < 0))), z3.Implies(self.d == 1, z3.And(self.v == z3.ToReal(self.n), CAN(self.n, self.d))),
                  z3.Implies(z3.And(CAN(self.n, self.d), self.n == 0), self.d == 1)): ex.fact(f)
def read(c, p, off=0):
    ld = lambda o: c.ex.toint(c.ex.load(c.g, c.st, ('i', 64), c.ex.padd(p, o) if o else p))
    return Rat(c.ex, ld(off), ld(off + 8))
def out(c, v):
    """a canonical result of value v"""
    n, d = c.ex.fresh_int('rn', 64), c.ex.fresh_int('rd', 64, 1)
    r = Rat(c.ex, n, d); c.assume(z3.And(d >= 1, CAN(n, d), r.v == v)); return r
def unique(c, a, b): c.assume(z3.Implies(z3.And(a.d >= 1, b.d >= 1, CAN(a.n, a.d), CAN(b.n, b.d)), (a.v == b.v) == z3.And(a.n == b.n, a.d == b.d)))
def canon(c, *rs):
    for r in rs: c.require(z3.And(r.d >= 1, CAN(r.n, r.d)), 'canonical rational')
def install(ex):
    A = ex.add_contract; NS = r'ekat::'
    def ctor(c):
        n, d = I(c.ex.toint(c.args[1])), I(c.ex.toint(c.args[2]))
        c.throw(d == 0, 'St16invalid_argument'); r = out(c, V(n, d)); Rat(c.ex, n, d)
        c.assume(z3.Implies(d == 1, z3.And(r.n == n, r.d == 1)))     # unique representation, at an integer
        c.assume(z3.Implies(z3.And(n == 1, d >= 1), z3.And(r.n == 1, r.d == d)))   # and at the inverse of one
        c.ex.store(c.g, c.st, ('i', 64), c.args[0], r.n, c.fr, c.dbg); c.ex.store(c.g, c.st, ('i', 64), c.ex.padd(c.args[0], 8), r.d, c.fr, c.dbg)
        return UNDEF
    A(r're:^ekat::RationalConstant::RationalConstant<[a-z ]+, void>\([a-z ]+, [a-z ]+\)', ctor)
    def binop(f, zero=False):
        def h(c):
            a, b = read(c, c.args[0]), read(c, c.args[1]); canon(c, a, b)
            if zero: c.throw(b.n == 0, 'St16invalid_argument')
            r = out(c, f(c, a, b)); return [r.n, r.d]
        return h
    def times(c, a, b):
        t = T(a.v, b.v); c.assume(z3.And(z3.Implies(z3.And(a.v > 0, b.v > 0), t > 0), z3.Implies(z3.Or(a.v == 0, b.v == 0), t == 0), T(b.v, a.v) == t, z3.Implies(b.v == 1, t == a.v), z3.Implies(a.v == 1, t == b.v))); return t
    def over(c, a, b):
        t = D(a.v, b.v); c.assume(z3.And(z3.Implies(z3.And(a.v > 0, b.v > 0), t > 0), z3.Implies(a.v == 0, t == 0), z3.Implies(b.v == 1, t == a.v))); return t
    RC = r'\(ekat::RationalConstant const&, ekat::RationalConstant const&\)$'
    A(r're:ekat::operator\+' + RC, binop(lambda c, a, b: a.v + b.v)); A(r're:ekat::operator-' + RC, binop(lambda c, a, b: a.v - b.v))
    A(r're:ekat::operator\*' + RC, binop(times)); A(r're:ekat::operator/' + RC, binop(over, True))
    def neg(c):
        a = read(c, c.args[0]); canon(c, a); r = out(c, -a.v); c.assume(z3.And(r.n == -a.n, r.d == a.d)); return [r.n, r.d]
    A(r're:^ekat::RationalConstant::operator-\(\) const', neg)
    def equal(neg):
        def h(c):
            a, b = read(c, c.args[0]), read(c, c.args[1]); canon(c, a, b); unique(c, a, b)
            e = a.v == b.v; return z3.Not(e) if neg else e
        return h
    A(r're:ekat::operator==' + RC, equal(False)); A(r're:ekat::operator!=' + RC, equal(True))
    def power(c):
        x, p = read(c, c.args[0]), I(c.ex.toint(c.args[1])); canon(c, x)
        c.throw(z3.And(x.n == 0, p <= 0), 'St16invalid_argument')
        v = c.ex.fresh_name('pw'); v = z3.Real(v)
        c.assume(z3.Implies(x.v > 0, z3.And(v == RP(x.v, z3.ToReal(p)), v > 0)))
        r = out(c, v); return [r.n, r.d]
    A(r're:RationalConstant>::type ekat::pow<(int|long long|long)>\(ekat::RationalConstant const&', power)
