"""Term helpers: mathematical integers (python int or z3 Int), booleans (python bool or z3
Bool), guards (conjunctions of literals), cheap interval analysis and structural rewrites.
Every function here is semantics preserving on the mathematical values."""
import z3

def is_py(x): return isinstance(x, (int, bool)) and not isinstance(x, z3.AstRef)

def I(x): return z3.IntVal(x) if isinstance(x, int) else x
def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def py_of(t):
    """fold a z3 numeral back to a python value"""
    if isinstance(t, z3.AstRef):
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    return t

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    # (x + c1) + c2
    if isinstance(b, int) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(a.arg(0), a.arg(1).as_long() + b)
    if isinstance(a, int): a, b = b, a
    return a + b

def neg(a):
    if isinstance(a, int): return -a
    if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() == -1: return a.arg(1)
    return -1 * a

def sub(a, b):
    if isinstance(b, int): return add(a, -b)
    if isinstance(a, int): return z3.IntVal(a) - b
    if a.eq(b): return 0
    # (b + r) - b
    if z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b): return py_of(a.arg(1))
        if a.arg(1).eq(b): return py_of(a.arg(0))
    return a - b

def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(b, int): a, b = b, a
    if isinstance(a, int):
        if a == 0: return 0
        if a == 1: return b
        if z3.is_mul(b) and b.num_args() == 2 and z3.is_int_value(b.arg(0)):
            return mul(a * b.arg(0).as_long(), b.arg(1))
        return z3.IntVal(a) * b
    if a.get_id() > b.get_id(): a, b = b, a
    return a * b

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if is_py(a) and is_py(b) and type(a) == type(b) and a == b: return a
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.eq(b): return a
    if isinstance(a, bool) or z3.is_bool(a):
        if a is True: return or_(c, b)
        if a is False: return and_(not_(c), b)
        if b is True: return or_(not_(c), a)
        if b is False: return and_(c, a)
        return z3.If(c, a, b)
    return z3.If(c, I(a), I(b))

def not_(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        if not any(x.eq(y) for y in out): out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        if not any(x.eq(y) for y in out): out.append(x)
    if not out: return False
    if len(out) == 2 and not_(out[0]).eq(out[1]): return True
    return out[0] if len(out) == 1 else z3.Or(*out)

def implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    if b is False: return not_(a)
    return z3.Implies(a, b)

def cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    r = z3.simplify(I(a) - I(b)) if not (isinstance(a, int) or isinstance(b, int)) else None
    if r is not None and z3.is_int_value(r):
        v = r.as_long()
        return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[op]
    # fold comparisons of 0/1 encodings
    a_, b_ = I(a), I(b)
    return {'lt': lambda: a_ < b_, 'le': lambda: a_ <= b_, 'gt': lambda: a_ > b_, 'ge': lambda: a_ >= b_}[op]()

def is_boolint(x):
    """If(c,1,0) -> c"""
    if isinstance(x, z3.AstRef) and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
        a, b = x.arg(1).as_long(), x.arg(2).as_long()
        if (a, b) == (1, 0): return x.arg(0)
        if (a, b) == (0, 1): return not_(x.arg(0))
    return None

def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.AstRef) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, bool): return b if a else not_(b)
        if isinstance(b, bool): return a if b else not_(a)
        if a.eq(b): return True
        return a == b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        c = is_boolint(a)
        if c is not None:
            return c if b == 1 else not_(c) if b == 0 else False
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
            x, y = a.arg(1).as_long(), a.arg(2).as_long()
            if b != x and b != y: return False
            if x != y: return a.arg(0) if b == x else not_(a.arg(0))
        return a == b
    if a.eq(b): return True
    if z3.is_int(a):
        r = z3.simplify(a - b)
        if z3.is_int_value(r): return r.as_long() == 0
    return a == b

# guards ---------------------------------------------------------------------
class Guard:
    """conjunction of literals, kept as a tuple so that common prefixes can be factored"""
    __slots__ = ('lits', '_z')
    def __init__(self, lits=()):
        self.lits = tuple(lits); self._z = None
    def conj(self, c):
        if isinstance(c, bool):
            return self if c else FALSE
        if self is FALSE: return FALSE
        if z3.is_true(c): return self
        if z3.is_false(c): return FALSE
        for l in self.lits:
            if l.eq(c): return self
            if (z3.is_not(l) and l.arg(0).eq(c)) or (z3.is_not(c) and c.arg(0).eq(l)): return FALSE
        return Guard(self.lits + (c,))
    def z(self):
        if self is FALSE: return False
        if self._z is None:
            self._z = and_(*self.lits) if self.lits else True
        return self._z
    def is_false(self): return self is FALSE
    def __repr__(self): return 'G%r' % (self.lits,)
TRUE = Guard(())
FALSE = Guard(())
FALSE_SENTINEL = FALSE

def guard_or(gs):
    """returns (common guard, list of residual conditions relative to the merged guard)"""
    gs = list(gs)
    if len(gs) == 1: return gs[0], [True]
    k = 0
    while all(len(g.lits) > k for g in gs) and all(g.lits[k].eq(gs[0].lits[k]) for g in gs): k += 1
    common = gs[0].lits[:k]
    res = [list(g.lits[k:]) for g in gs]
    conds = [and_(*r) if r else True for r in res]
    # try to cancel complementary siblings repeatedly
    work = [tuple(r) for r in res]
    changed = True
    while changed and len(work) > 1:
        changed = False
        for i in range(len(work)):
            for j in range(i + 1, len(work)):
                a, b = work[i], work[j]
                if len(a) == len(b) and len(a) > 0 and all(x.eq(y) for x, y in zip(a[:-1], b[:-1])) and not_(a[-1]).eq(b[-1]):
                    work[i] = a[:-1]; del work[j]; changed = True; break
                # absorption
                if len(a) <= len(b) and all(x.eq(y) for x, y in zip(a, b)):
                    del work[j]; changed = True; break
                if len(b) < len(a) and all(x.eq(y) for x, y in zip(a, b)):
                    del work[i]; changed = True; break
            if changed: break
    if any(len(w) == 0 for w in work): return Guard(common), conds
    if len(work) == 1: return Guard(common + work[0]), conds
    return Guard(common + (or_(*[and_(*w) for w in work]),)), conds

# linear forms -----------------------------------------------------------------
def lin(t):
    """term -> (dict ast -> coef, const); products of non constants are atoms"""
    acc = {}; const = 0
    st = [(1, t)]
    while st:
        k, x = st.pop()
        if isinstance(x, int): const += k * x; continue
        if z3.is_int_value(x): const += k * x.as_long(); continue
        if z3.is_add(x):
            for c in x.children(): st.append((k, c))
            continue
        if z3.is_sub(x):
            ch = x.children(); st.append((k, ch[0]))
            for c in ch[1:]: st.append((-k, c))
            continue
        if z3.is_app_of(x, z3.Z3_OP_UMINUS): st.append((-k, x.arg(0))); continue
        if z3.is_mul(x):
            cs = x.children(); kk = k; rest = []
            for c in cs:
                if z3.is_int_value(c): kk *= c.as_long()
                else: rest.append(c)
            if not rest: const += kk; continue
            if len(rest) == 1: st.append((kk, rest[0])); continue
            # distribute one additive factor
            for j, r in enumerate(rest):
                if z3.is_add(r) or z3.is_sub(r) or z3.is_app_of(r, z3.Z3_OP_UMINUS):
                    others = rest[:j] + rest[j+1:]
                    o = others[0]
                    for q in others[1:]: o = o * q
                    l2, c2 = lin(r)
                    for a, (co, tt) in l2.items():
                        st.append((kk * co, mul(tt, o)))
                    if c2: st.append((kk * c2, o))
                    break
            else:
                rest.sort(key=lambda r: r.get_id())
                p = rest[0]
                for q in rest[1:]: p = p * q
                key = p.get_id()
                if key in acc: acc[key] = (acc[key][0] + kk, p)
                else: acc[key] = (kk, p)
            continue
        key = x.get_id()
        if key in acc: acc[key] = (acc[key][0] + k, x)
        else: acc[key] = (k, x)
    return {a: v for a, v in acc.items() if v[0] != 0}, const

def unlin(l, c):
    r = 0
    for a in sorted(l, key=lambda a: a):
        k, t = l[a]
        r = add(r, mul(k, t))
    return add(r, c)

def divexact(t, s):
    """t / s if t is syntactically a multiple of s, else None"""
    if s == 1: return t
    if isinstance(t, int):
        return t // s if t % s == 0 else None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a = divexact(py_of(t.arg(1)), s); b = divexact(py_of(t.arg(2)), s)
        if a is None or b is None: return None
        return ite(t.arg(0), a, b)
    l, c = lin(t)
    if c % s: return None
    out = c // s
    for a in sorted(l):
        k, x = l[a]
        if k % s:
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                d = divexact(x, s)
                if d is None: return None
                out = add(out, mul(k, d)); continue
            return None
        out = add(out, mul(k // s, x))
    return out

# intervals ----------------------------------------------------------------------
class Ranges:
    def __init__(self):
        self.var = {}   # id -> (lo,hi,ast)
        self.memo = {}
    def declare(self, t, lo, hi):
        if isinstance(t, int): return
        o = self.var.get(t.get_id())
        if o: lo = max(lo, o[0]) if lo is not None and o[0] is not None else (lo if o[0] is None else o[0]); hi = min(hi, o[1]) if hi is not None and o[1] is not None else (hi if o[1] is None else o[1])
        self.var[t.get_id()] = (lo, hi, t)
        self.memo.clear()
    def get(self, t):
        if isinstance(t, int): return (t, t)
        k = t.get_id()
        m = self.memo.get(k)
        if m: return m[0]
        r = self._get(t)
        self.memo[k] = (r, t)
        return r
    def _get(self, t):
        v = self.var.get(t.get_id())
        if v: return (v[0], v[1])
        if z3.is_int_value(t): return (t.as_long(),) * 2
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                a, b = self.get(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if d == z3.Z3_OP_SUB and t.num_args() == 2:
            a, b = self.get(t.arg(0)); c, e = self.get(t.arg(1))
            return (None if a is None or e is None else a - e, None if b is None or c is None else b - c)
        if d == z3.Z3_OP_UMINUS:
            a, b = self.get(t.arg(0)); return (None if b is None else -b, None if a is None else -a)
        if d == z3.Z3_OP_MUL:
            r = (1, 1)
            for c in t.children():
                x = self.get(c)
                if None in x or None in r:
                    # one-sided: nonneg * nonneg
                    if r[0] is not None and r[0] >= 0 and x[0] is not None and x[0] >= 0:
                        r = (r[0] * x[0], None); continue
                    return (None, None)
                ps = [p * q for p in r for q in x]; r = (min(ps), max(ps))
            return r
        if d == z3.Z3_OP_ITE:
            a, b = self.get(t.arg(1)); c, e = self.get(t.arg(2))
            return (None if a is None or c is None else min(a, c), None if b is None or e is None else max(b, e))
        if d == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() != 0:
            m = abs(t.arg(1).as_long()); a, b = self.get(t.arg(0))
            if a is not None and b is not None and 0 <= a and b < m: return (a, b)
            return (0, m - 1)
        if d == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            m = t.arg(1).as_long(); a, b = self.get(t.arg(0))
            return (None if a is None else a // m, None if b is None else b // m)
        return (None, None)
