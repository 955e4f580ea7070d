"""Contextual simplification of a goal: conditions and array positions that the hypotheses decide are resolved, so that what is left is arithmetic.
Every step replaces a term by one that the hypotheses prove equal to it."""
import z3, time, os
DEBUG = os.environ.get('VP_DEBUG')

def nonlinear(t, memo={}):
    st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): return False
        if x.sort_kind() == z3.Z3_REAL_SORT and x.num_args():
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1: return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): return True
        st += x.children()
    return False

class Simp:
    def __init__(self, hyps, ms, budget):
        self.s = z3.Solver(); self.s.set('timeout', ms)
        for h in hyps:
            if not nonlinear(h): self.s.add(h)
        self.dec = {}; self.memo = {}; self.sel = {}; self.keep = []
        self.end = time.time() + budget; self.models = []; self.ms = ms
        self.defs = {}; self.used = set()
        for h in hyps: self.definition(h, [])
    def definition(self, h, conds):
        """facts of the form conds => term == value, for a term that has nothing else known about it"""
        if not z3.is_app(h) or not h.num_args(): return
        k = h.decl().kind(); cs = h.children()
        if k == z3.Z3_OP_AND:
            for c in cs: self.definition(c, conds)
        elif k == z3.Z3_OP_IMPLIES: self.definition(cs[1], conds + [cs[0]])
        elif k == z3.Z3_OP_OR:
            eqs = [c for c in cs if z3.is_eq(c) and c.arg(0).sort_kind() == z3.Z3_REAL_SORT]
            if len(eqs) == 1: self.definition(eqs[0], conds + [z3.Not(c) for c in cs if c is not eqs[0]])
        elif k == z3.Z3_OP_EQ and cs[0].sort_kind() == z3.Z3_REAL_SORT:
            for t, v in ((cs[0], cs[1]), (cs[1], cs[0])):
                if z3.is_select(t) and t.arg(0).num_args() == 0 and z3.is_const(t.arg(0)): self.defs.setdefault(t.arg(0).get_id(), []).append((conds, t.arg(1), v, t))
                elif t.num_args() == 0 and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: self.defs.setdefault(t.get_id(), []).append((conds, None, v, t))
    def unfold(self, e):
        key = e.arg(0).get_id() if z3.is_select(e) else e.get_id()
        for n, (conds, i, v, t) in enumerate(self.defs.get(key, ())):
            if (key, n) in self.used or v.get_id() == e.get_id(): continue
            if i is not None and self.decide(i == e.arg(1)) is not True: continue
            if all(self.decide(c) is True for c in conds):
                self.used.add((key, n))
                try: return self.run(v)
                finally: self.used.discard((key, n))
        return e
    def proves(self, c):
        if time.time() > self.end: return False
        if DEBUG:
            t=time.time(); r=self.proves_(c); print('PROVES', round(time.time()-t,2), r, str(c)[:100].replace(chr(10),' ')); return r
        return self.proves_(c)
    def proves_(self, c):
        self.s.push(); self.s.add(z3.Not(c))
        try:
            r = self.s.check()
            if r == z3.sat: self.models.append(self.s.model())
        except z3.Z3Exception: r = z3.unknown
        self.s.pop()
        return r == z3.unsat
    def model(self, c):
        self.s.push(); self.s.add(c); self.s.set('timeout', 3000)
        try:
            if self.s.check() == z3.sat: self.models.append(self.s.model())
        except z3.Z3Exception: pass
        self.s.set('timeout', self.ms); self.s.pop()
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k not in self.dec:
            self.keep.append(c)
            if not self.models: self.model(z3.BoolVal(True))
            vals = {str(m.eval(c, model_completion=True)) for m in self.models}
            r = None
            if 'False' not in vals:
                if self.proves(c): r = True
                else: vals |= {str(m.eval(c, model_completion=True)) for m in self.models}
            if r is None and 'True' not in vals and self.proves(z3.Not(c)): r = False
            self.dec[k] = r
        return self.dec[k]
    def select(self, a, i):
        i = z3.simplify(i)
        while True:
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                d = self.decide(a.arg(1) == i)
                if d is True: return self.run(a.arg(2))
                if d is False: a = a.arg(0); continue
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                d = self.decide(a.arg(0))
                if d is True: a = a.arg(1); continue
                if d is False: a = a.arg(2); continue
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY: return self.run(a.arg(0))
            elif z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1: return self.run(z3.substitute_vars(a.body(), i))
            break
        for j, t in self.sel.get(a.get_id(), ()):
            if self.decide(i == j) is True: return t
        t = z3.Select(a, i); u = self.unfold(t); self.keep += [a, t]; self.sel.setdefault(a.get_id(), []).append((i, u))
        return u
    def run(self, e):
        k = e.get_id()
        if k in self.memo: return self.memo[k][1]
        if not z3.is_app(e) or not e.num_args(): r = self.unfold(e) if z3.is_app(e) and e.sort_kind() == z3.Z3_REAL_SORT and k in self.defs else e
        else:
            kd = e.decl().kind()
            if kd == z3.Z3_OP_ITE:
                d = self.decide(e.arg(0))
                r = self.run(e.arg(1)) if d is True else self.run(e.arg(2)) if d is False else z3.If(self.run(e.arg(0)), self.run(e.arg(1)), self.run(e.arg(2)))
            elif kd == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):      # no wrap where the range excludes it
                a = self.run(e.arg(0)); r = a if self.decide(z3.And(a >= 0, a < e.arg(1))) is True else a % e.arg(1)
            elif kd == z3.Z3_OP_SELECT and e.num_args() == 2: r = self.select(e.arg(0), self.run(e.arg(1)))
            else: r = e.decl()(*[self.run(c) for c in e.children()]) if kd not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else self.nary(kd, [self.run(c) for c in e.children()])
        self.memo[k] = (e, r)
        return r
    def nary(self, kd, xs):
        if kd == z3.Z3_OP_ADD: return z3.Sum(*xs)
        if kd == z3.Z3_OP_MUL: return z3.Product(*xs)
        return z3.And(*xs) if kd == z3.Z3_OP_AND else z3.Or(*xs)

def disequality(c):
    return z3.is_distinct(c) and c.num_args() == 2 and c.arg(0).sort_kind() == z3.Z3_REAL_SORT or z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort_kind() == z3.Z3_REAL_SORT

def divisors(t):
    out = {}; st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if x.num_args() and x.sort_kind() == z3.Z3_REAL_SORT and x.decl().kind() == z3.Z3_OP_DIV: out[x.arg(1).get_id()] = x.arg(1)
        st += x.children()
    return list(out.values())

def polynomial(goal, nz):
    """goal is an equality that holds as an identity of rational functions (divisors in nz are known not to vanish)"""
    import sympy
    names = {}
    def tr(x):
        if z3.is_rational_value(x): return sympy.Rational(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_int_value(x): return sympy.Integer(x.as_long())
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind(); c = x.children()
            if k == z3.Z3_OP_ADD: return sympy.Add(*[tr(y) for y in c])
            if k == z3.Z3_OP_SUB: return tr(c[0]) - sympy.Add(*[tr(y) for y in c[1:]])
            if k == z3.Z3_OP_UMINUS: return -tr(c[0])
            if k == z3.Z3_OP_MUL: return sympy.Mul(*[tr(y) for y in c])
            if k == z3.Z3_OP_DIV: return tr(c[0]) / tr(c[1])
        return names.setdefault(x.get_id(), sympy.Symbol('v%d' % len(names)))
    a, b = goal.children()
    num = sympy.fraction(sympy.together(tr(a) - tr(b)))[0]
    return sympy.expand(num) == 0

def attempt(hyps, goal, ms=1500, budget=60):
    r = attempt_(hyps, goal, ms, budget)
    if DEBUG: print('ATTEMPT', r)
    return r

def attempt_(hyps, goal, ms, budget):
    """True if the goal is proved"""
    hyps = list(hyps)
    while z3.is_app(goal) and goal.num_args():
        k = goal.decl().kind()
        if k == z3.Z3_OP_IMPLIES: hyps.append(goal.arg(0)); goal = goal.arg(1)
        elif k == z3.Z3_OP_OR:
            cs = goal.children(); real = [c for c in cs if nonlinear(c)]
            if len(real) != 1: break
            hyps += [z3.Not(c) for c in cs if c is not real[0]]; goal = real[0]
        else: break
    s = Simp(hyps, ms, budget)
    if s.proves(z3.BoolVal(False)): return True      # the hypotheses exclude one another
    g = z3.simplify(s.run(goal)) if not z3.is_eq(goal) else s.run(goal)
    if z3.is_true(g): return True
    if z3.is_false(g): return False
    ds = divisors(g)
    if DEBUG: print('GOAL', g, 'open', [c for c in s.keep if s.dec.get(c.get_id(), 1) is None], len(s.models), [s.proves(d != 0) for d in ds])
    nz = []
    def named(lin):     # divisors that a hypothesis names
        for h in hyps:
            c = h; conds = []
            while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_IMPLIES: conds.append(c.arg(0)); c = c.arg(1)
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_OR:
                cs = c.children(); ne = [x for x in cs if disequality(x) and nonlinear(x) != lin]
                if len(ne) != 1: continue
                conds += [z3.Not(x) for x in cs if x is not ne[0]]; c = ne[0]
            if not disequality(c) or nonlinear(c) == lin or not all(s.decide(x) is True for x in conds): continue
            x, y = c.children() if z3.is_distinct(c) else c.arg(0).children()
            yield z3.simplify(s.run(x) - s.run(y))
    open_ = [z3.simplify(d) for d in ds if not s.proves(d != 0)]
    for lin in (False, True):
        if not open_: break
        for n in named(lin):
            nz.append(n); open_ = [d for d in open_ if not (polynomial(n == d, []) or polynomial(-n == d, []))]
            if not open_: break
    if open_:
        if DEBUG: print('OPEN', open_, nz)
        return False
    if z3.is_eq(g) and g.arg(0).sort_kind() == z3.Z3_REAL_SORT:
        if polynomial(g, ds): return True
    q = z3.Solver(); q.set('timeout', 3000)
    for d in ds: q.add(d != 0)
    q.add(z3.Not(g))
    return q.check() == z3.unsat
