from run import *
import z3, ratspec
from ratspec import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'], 'libs': []}
LEAN = ['rpow.lean']
TR = z3.ToReal
class SF:
    def __init__(self, c, p): self.b = ratspec.read(c, p); self.e = ratspec.read(c, p, 16); self.v = RP(self.b.v, self.e.v)
def setup(ex, n):
    ratspec.install(ex)
    f = ex.fact
    def zero(b): f(z3.Implies(b > 0, RP(b, R0) == 1)); f(RP(R1, R1) == 1)
    def pos(b, e): f(z3.Implies(b > 0, RP(b, e) > 0))
    def one(b): f(z3.Implies(b > 0, RP(b, R1) == b))
    def laws(a, b, op):
        """lemmas/rpow.lean at these operands"""
        x, y, e, g = a.b.v, b.b.v, a.e.v, b.e.v; s = (e + g) if op is T else (e - g); p = z3.And(x > 0, y > 0)
        A, B_ = RP(x, TR(a.e.n * b.e.d)), RP(y, TR(b.e.n * a.e.d))
        f(z3.Implies(x > 0, RP(x, s) == op(RP(x, e), RP(x, g)))); f(z3.Implies(p, RP(op(x, y), e) == op(RP(x, e), RP(y, e))))
        f(z3.Implies(z3.And(p, a.e.d >= 1, b.e.d >= 1), RP(op(A, B_), V(I(1), a.e.d * b.e.d)) == op(RP(x, e), RP(y, g))))
        f(z3.Implies(p, z3.And(op(x, y) > 0, A > 0, B_ > 0))); f(z3.Implies(z3.And(A > 0, B_ > 0), op(A, B_) > 0))
        f(z3.Implies(z3.And(a.e.d >= 1, b.e.d >= 1), z3.And(a.e.d * b.e.d >= 1, V(I(1), a.e.d * b.e.d) > 0)))
        for q in (x, y, op(x, y), op(A, B_)): zero(q)
    def bop(op):
        def h(c):
            r, a, b = [SF(c, p) for p in c.args]; laws(a, b, op)
            if op is T: laws(b, a, op); f(T(a.v, b.v) == T(b.v, a.v)); f(T(a.b.v, b.b.v) == T(b.b.v, a.b.v))
            return r.v == op(a.v, b.v)
        return h
    ex.add_contract('sf_mul', bop(T)); ex.add_contract('sf_div', bop(D))
    def same(c):
        a, b = [SF(c, p) for p in c.args]; f(z3.Implies(z3.And(a.b.v > 0, b.b.v > 0, a.e.d >= 1, b.e.d >= 1), (RP(a.b.v, TR(a.e.n * b.e.d)) == RP(b.b.v, TR(b.e.n * a.e.d))) == (a.v == b.v))); return a.v == b.v
    ex.add_contract('sf_same', same)
    def spow(c):
        r, a, p = SF(c, c.args[0]), SF(c, c.args[1]), ratspec.read(c, c.args[2]); zero(a.b.v); f(z3.Implies(a.b.v > 0, RP(a.v, p.v) == RP(a.b.v, T(a.e.v, p.v)))); return r.v == RP(a.v, p.v)
    ex.add_contract('sf_pow', spow)
    def root(c):
        r, a = [SF(c, p) for p in c.args]; h = RP(a.b.v, D(a.e.v, z3.RealVal(2))); zero(a.b.v); f(z3.Implies(a.b.v > 0, T(h, h) == a.v)); f(T(R1, R1) == 1); return T(r.v, r.v) == a.v
    ex.add_contract('sf_sqrt', root)
    def canon_(c): r = ratspec.read(c, c.args[0]); return z3.And(r.d >= 1, CAN(r.n, r.d))
    ex.add_contract('rc_canon', canon_)
    def fit(c):
        a, b = [SF(c, p) for p in c.args]; return z3.And(fits(a.e.n * b.e.d), fits(b.e.n * a.e.d), fits(a.e.d * b.e.d))
    ex.add_contract('sf_fits', fit)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=STRINGS)
TRUSTED = ['instantiation of the lemmas of lemmas/rpow.lean (the lemmas themselves are checked by Lean 4 + Mathlib in every run)']
ASSUMPTIONS = ['rational constants by the contract proved in C01: exact whenever the products formed fit in 64 bits', 'the products of exponent numerators and denominators fit in 64 bits', 'positive bases for the algebra (construction: any base)']
CONTRACTED = ['ekat::ScalingFactor constructors, check_and_adjust, operator*=, one, zero', 'operator* / == != pow sqrt on ScalingFactor and RationalConstant', 'ekat::prefixes']
