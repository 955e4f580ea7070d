"""C01: rational constants are exact and canonical.

Spec functions (mathematical): GCD(a,b) on naturals, POW(x,k).
Lemmas used (each is a statement about naturals/integers, machine checked by Lean in lemmas/rational.lean).
"""
from run import *
z = z3
GCD = z.Function('GCD', z.IntSort(), z.IntSort(), z.IntSort())
POW = z.Function('POW', z.IntSort(), z.IntSort(), z.IntSort())
MAX = (1 << 63) - 1

CONTRACTED = ['ekat::gcd<long long>', 'ekat::gcd<int>', 'ekat::pow<int>(RationalConstant,int)', 'ekat::pow<long long>(RationalConstant,long long)',
              'RationalConstant constructors', 'operator+ - * / == != unary-']
LEAN = ['rational.lean']
TRUSTED = ['instantiation of the lemmas of lemmas/rational.lean (the lemmas themselves are checked by Lean 4 + Mathlib in every run)']
ASSUMPTIONS = ['every value handed to an operator is canonical (what the constructor establishes; the fields are public)',
               'the products and sums the operation forms fit in 64 bits (stated in the property)']

def lemma_gcd(ex, a, b):
    """instances of the gcd lemmas for a,b>=0, not both zero"""
    g = GCD(a, b)
    ex.fact(z.Implies(z.And(a >= 0, b >= 0, z.Or(a > 0, b > 0)),
            z.And(g >= 1, a == g * (a / g), b == g * (b / g), GCD(a / g, b / g) == 1,
                  z.Implies(a > 0, z.And(g <= a, a / g >= 1)), z.Implies(b > 0, z.And(g <= b, b / g >= 1)))))
    ex.fact(g == GCD(b, a))
    ex.fact(z.Implies(z.And(a > 0, b == 0), g == a))
    ex.fact(z.Implies(z.And(a == 0, b > 0), g == b))
    return g

def gcd_contract(c):
    a, b = I(c.args[0]), I(c.args[1])
    c.require(z.And(a >= 0, b >= 0), 'gcd of non negative numbers')
    c.ex.uid += 1
    g = lemma_gcd(c.ex, a, b)
    r = c.ex.fresh_int('gcd', 64)
    c.assume(z.Implies(z.And(a >= 0, b >= 0), r == g))
    return r

GCDRX = r're:^(long long|int|.*) ekat::gcd<(long long|int|long)>\('

def new_exec(ctx, name, contracts=True):
    ex = ctx.exec(ctx.compile('driver.cpp'), 'uf', name)
    if contracts: ex.add_contract(GCDRX, gcd_contract)
    return ex

def inp(ex, name, lo=-MAX, hi=MAX):
    v = z.Int(name); ex.declare_range(v, lo, hi); ex.inputs[name] = v
    return v

def canon(ex, r, n, d):
    """canonical rational in region r"""
    ex.fact(d >= 1)
    ex.fact(GCD(z.If(n >= 0, n, -n), d) == 1)
    lemma_gcd(ex, z.If(n >= 0, n, -n), d)

def rat(ex, st, name):
    n, d = inp(ex, name + 'n'), inp(ex, name + 'd', 1)
    r = ex.new_region(name, 'cells', 16)
    ex.store(TRUE, st, ('i', 64), P1(r, 0), n); ex.store(TRUE, st, ('i', 64), P1(r, 8), d)
    canon(ex, r, n, d)
    return P1(r), n, d

def fits(e): return z.And(e >= -MAX, e <= MAX)

def out_canon(ex, o, g, st, num, den):
    ex.oblige(g, den >= 1, 'post: denominator positive', 'post')
    ex.oblige(g, GCD(z.If(num >= 0, num, -num), den) == 1, 'post: lowest terms', 'post')

def read(ex, g, st, p):
    return I(ex.toint(ex.load(g, st, ('i', 64), p))), I(ex.toint(ex.load(g, st, ('i', 64), ex.padd(p, 8))))

def no_throw(ex, out, msg='post: no exception'):
    for g, s, x in out.excs: ex.oblige(g, False, msg, 'post')

def t_gcd(ctx):
    ex = new_exec(ctx, 'gcd', False)
    name = ex.find(r' ekat::gcd<long long>\(')[0]
    a, b = inp(ex, 'a', 0), inp(ex, 'b', 0)
    ex.covers = [('precondition of gcd', z.And(a > 0, b > 0))]
    # definition of the mathematical gcd at (a,b), instantiated
    ex.fact(GCD(a, 0) == a)
    ex.fact(z.Implies(b > 0, GCD(a, b) == GCD(b, a % b)))
    first = [True]
    def rec(c):
        if first[0]:
            first[0] = False; return NotImplemented
        x, y = I(c.args[0]), I(c.args[1])
        c.require(z.And(x >= 0, y >= 0), 'gcd of non negative numbers')
        c.ex.oblige(c.g, y < b, 'measure decreases', 'termination', c.fr, c.dbg)
        r = c.ex.fresh_int('gcd', 64); c.assume(r == GCD(x, y)); return r
    ex.add_contract(GCDRX, rec)
    out = ex.call(name, [a, b], State(), TRUE)
    no_throw(ex, out)
    ex.oblige(out.g, I(out.val) == GCD(a, b), 'post: result is the greatest common divisor', 'post')
    return ex

def t_ctor(ctx, entry='e_ctor', w=64):
    ex = new_exec(ctx, entry)
    lim = (1 << (w - 1)) - 1
    n, d = inp(ex, 'n', -lim, lim), inp(ex, 'd', -lim, lim)
    o = ex.new_region('o', 'cells', 16)
    ex.covers = [('nonzero denominator', z.And(n < 0, d < -1))]
    out = ex.call(entry, [P1(o), n, d], State(), TRUE)
    num, den = read(ex, out.g, out.st, P1(o))
    ex.oblige(out.g, d != 0, 'post: a zero denominator does not return', 'post')
    for g, s, x in out.excs: ex.oblige(g, d == 0, 'post: throws only for a zero denominator', 'post')
    g = out.g
    A, Dd = z.If(n >= 0, n, -n), z.If(d >= 0, d, -d)
    ex.oblige(g, z.And(num * d == n * den), 'post: value is n/d', 'post')
    out_canon(ex, o, g, out.st, num, den)
    return ex

def t_one(ctx):
    ex = new_exec(ctx, 'e_one_arg'); n = inp(ex, 'n'); o = ex.new_region('o', 'cells', 16)
    out = ex.call('e_one_arg', [P1(o), n], State(), TRUE)
    num, den = read(ex, out.g, out.st, P1(o)); no_throw(ex, out)
    lemma_gcd(ex, z.If(n >= 0, n, -n), z.IntVal(1))
    ex.oblige(out.g, z.And(num == n, den == 1), 'post: value is n/1', 'post')
    return ex

def t_op(ctx, op):
    ex = new_exec(ctx, 'e_' + op)
    st = State(); o = ex.new_region('o', 'cells', 16)
    pa, an, ad = rat(ex, st, 'a')
    un = op == 'neg'
    args = [P1(o), pa]
    if not un:
        pb, bn, bd = rat(ex, st, 'b'); args.append(pb)
    pre = []
    if op in ('add', 'sub'):
        s = an * bd + ad * bn if op == 'add' else an * bd - ad * bn
        pre = [fits(an * bd), fits(ad * bn), fits(s), fits(ad * bd)]; N, D = s, ad * bd
    elif op == 'mul': pre = [fits(an * bn), fits(ad * bd)]; N, D = an * bn, ad * bd
    elif op == 'div': pre = [fits(an * bd), fits(ad * bn)]; N, D = an * bd, ad * bn
    elif un: N, D = -an, ad
    for p in pre: ex.fact(p)
    ex.covers = [('operands whose products fit', z.And(an == 3, ad == 2))]
    out = ex.call('e_' + op, args, st, TRUE)
    num, den = read(ex, out.g, out.st, P1(o))
    g = out.g
    if op == 'div':
        ex.oblige(g, bn != 0, 'post: division by zero does not return', 'post')
        for eg, s, x in out.excs: ex.oblige(eg, bn == 0, 'post: throws only when dividing by zero', 'post')
    else: no_throw(ex, out)
    # unfold the products the code forms (purely propositional help: same terms)
    ex.oblige(g, num * D == N * den, 'post: exact value', 'post')
    out_canon(ex, o, g, out.st, num, den)
    # frame: operands unchanged
    for p, x, y in ([(pa, an, ad)] if un else [(pa, an, ad), (pb, bn, bd)]):
        q, r = read(ex, g, out.st, p)
        ex.oblige(g, z.And(q == x, r == y), 'frame: operand unchanged', 'frame')
    return ex

def t_eq(ctx, op):
    ex = new_exec(ctx, 'e_' + op); st = State()
    pa, an, ad = rat(ex, st, 'a'); pb, bn, bd = rat(ex, st, 'b')
    for p in [fits(an * bd), fits(ad * bn)]: ex.fact(p)
    out = ex.call('e_' + op, [pa, pb], st, TRUE); no_throw(ex, out)
    v = out.val
    if op == 'ne': v = not_(v)
    # lemma unique_repr: canonical representations of equal values coincide
    ex.fact(z.Implies(an * bd == ad * bn, z.And(an == bn, ad == bd)))
    ex.oblige(out.g, v == z.And(an == bn, ad == bd), 'post: equality decides equality of values', 'post')
    return ex

def t_pow(ctx, which):
    ex = new_exec(ctx, 'e_pow_' + which); st = State()
    ity = {'i': 'int', 'l': 'long long'}[which]
    w = 32 if which == 'i' else 64
    name = ex.find(r'ekat::RationalConstant>::type ekat::pow<%s>\(' % ity)[0]
    pa, xn, xd = rat(ex, st, 'x')
    lim = (1 << (w - 1)) - 1
    p = z.Int('p'); ex.declare_range(p, -lim, lim); ex.inputs['p'] = p
    n_ = z.If(xn >= 0, xn, -xn)
    # exact result for p>=0: POW(xn,p)/POW(xd,p); representable by hypothesis
    ap = z.If(p >= 0, p, -p)
    ex.fact(fits(POW(xn, ap))); ex.fact(fits(POW(xd, ap)))
    # definition of powers at the used points
    def defs(b, k):
        ex.fact(POW(b, z.IntVal(0)) == 1); ex.fact(POW(b, z.IntVal(1)) == b)
        ex.fact(z.Implies(k >= 2, z.And(
            z.Implies(k % 2 == 0, POW(b, k) == POW(b * b, k / 2)),
            z.Implies(k % 2 == 1, POW(b, k) == b * POW(b * b, k / 2)),
            # |b|^2 <= |b|^k and |b|^(2*floor(k/2)) <= |b|^k for integers
            b * b <= z.If(POW(b, k) >= 0, POW(b, k), -POW(b, k)),
            z.If(POW(b * b, k / 2) >= 0, POW(b * b, k / 2), -POW(b * b, k / 2)) <= z.If(POW(b, k) >= 0, POW(b, k), -POW(b, k)))))
        ex.fact(z.Implies(k == 0, POW(b, k) == 1)); ex.fact(z.Implies(k == 1, POW(b, k) == b))
    defs(xn, ap); defs(xd, ap)
    # the reciprocal 1/x is (sign) xd / |xn|: powers of a negated base
    sgn = z.If(xn < 0, z.If(ap % 2 == 0, 1, -1), 1)
    ex.fact(POW(z.If(xn < 0, -xd, xd), ap) == sgn * POW(xd, ap))
    ex.fact(POW(n_, ap) == sgn * POW(xn, ap))
    ex.fact(POW(xd, ap) >= 1)
    ex.fact(z.Implies(xn != 0, POW(n_, ap) >= 1))
    ex.fact(z.Implies(z.And(xn == 0, ap > 0), POW(xn, ap) == 0))
    # coprime_pow
    def coprime_pow(a, b, k): ex.fact(z.Implies(z.And(b >= 1, GCD(z.If(a >= 0, a, -a), b) == 1), GCD(z.If(POW(a, k) >= 0, POW(a, k), -POW(a, k)), POW(b, k)) == 1))
    coprime_pow(xn, xd, ap)
    sq = (xn * xn, xd * xd)
    ex.fact(GCD(xn * xn, xd * xd) == 1); ex.fact(sq[0] >= 0); ex.fact(sq[1] >= 1)
    lemma_gcd(ex, xn * xn, xd * xd)
    coprime_pow(xn * xn, xd * xd, ap / 2)
    ex.fact(POW(xd * xd, ap / 2) >= 1)
    ex.fact(POW(xn * xn, ap / 2) >= 0)
    lemma_gcd(ex, z.If(POW(xn, ap) >= 0, POW(xn, ap), -POW(xn, ap)), POW(xd, ap))
    first = [True]
    def rec(c):
        if first[0]:
            first[0] = False; return NotImplemented
        q = c.args[0]; k = I(c.args[1]); e = c.ex
        bn, bd = read(e, c.g, c.st, q)
        e.oblige(c.g, z.And(bd >= 1, GCD(z.If(bn >= 0, bn, -bn), bd) == 1), 'pre: canonical base', 'precondition', c.fr, c.dbg)
        ak = z.If(k >= 0, k, -k)
        e.oblige(c.g, z.And(fits(POW(bn, ak)), fits(POW(bd, ak))), 'pre: result representable', 'precondition', c.fr, c.dbg)
        e.oblige(c.g, k >= 0, 'pre: recursion on a non negative power', 'precondition', c.fr, c.dbg)
        e.oblige(c.g, z.Or(p < 0, k < p), 'measure decreases', 'termination', c.fr, c.dbg)
        c.throw(z.And(k == 0, bn == 0), 'St16invalid_argument')
        rn, rd = e.fresh_int('pn', 64), e.fresh_int('pd', 64)
        c.assume(z.And(rn == POW(bn, k), rd == POW(bd, k)))
        return [rn, rd]
    ex.add_contract('re:ekat::RationalConstant>::type ekat::pow<%s>\\(' % ity, rec)
    ex.covers = [('power', z.And(xn == 2, xd == 3, p == 3))]
    out = ex.call(name, [pa, p], st, TRUE)
    rn, rd = I(out.val[0]), I(out.val[1])
    g = out.g
    bad = z.And(xn == 0, p <= 0)
    ex.oblige(g, z.Not(bad), 'post: 0 to a non positive power does not return', 'post')
    for eg, s, x in out.excs: ex.oblige(eg, bad, 'post: throws only for 0 to a non positive power', 'post')
    ex.oblige(g, z.Implies(p >= 0, z.And(rn == POW(xn, p), rd == POW(xd, p))), 'post: x^p exact', 'post')
    ex.oblige(g, z.Implies(p < 0, z.And(rn * POW(xn, ap) == POW(xd, ap) * rd, rd >= 1, GCD(z.If(rn >= 0, rn, -rn), rd) == 1)), 'post: x^-p exact', 'post')
    return ex

def tasks(ctx):
    T = [Task('gcd', t_gcd), Task('ctor', t_ctor), Task('ctor-int', lambda c: t_ctor(c, 'e_ctori', 32)), Task('ctor-one', t_one)]
    for op in ('neg', 'add', 'sub', 'mul', 'div'): T.append(Task(op, lambda c, op=op: t_op(c, op)))
    for op in ('eq', 'ne'): T.append(Task(op, lambda c, op=op: t_eq(c, op)))
    for wch in 'il': T.append(Task('pow_' + wch, lambda c, w=wch: t_pow(c, w)))
    return T

NATIVE = {'src': 'native.cpp', 'flags': ['-fsanitize=undefined', '-fno-sanitize-recover=undefined']}

def to_case(task, m, o):
    if task in ('ctor', 'ctor-int'): return [['ctor', m['n'], m['d']]]
    if task == 'ctor-one': return [['ctor', m['n'], 1]]
    if task in ('neg', 'add', 'sub', 'mul', 'div', 'eq', 'ne'):
        return [[task, m['an'], m['ad'], m.get('bn', 1), m.get('bd', 1)]]
    if task.startswith('pow'): return [[task, m['xn'], m['xd'], m['p'], 1]]
    return []
