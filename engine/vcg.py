"""Verification-condition generator: guarded symbolic execution of LLVM IR with state merging.

 * functions without a contract are executed in line (their real body), functions with a
   contract are replaced by it (requires -> obligation, ensures -> fact);
 * loops whose exit is decided are unrolled completely, other loops need an invariant
   (initiation / preservation / decrease obligations) and otherwise raise Undecided;
 * every dangerous instruction yields a safety obligation;
 * integers are mathematical integers kept in signed canonical form for their width, with
   an explicit no-overflow obligation for every nsw operation and exact wrap-around for the
   others; floating point is either uninterpreted (bit-exact, sort per width) or real.
"""
import re, struct, subprocess, sys, time, fractions
import z3
from terms import *
import irparse
from irparse import IRError

sys.setrecursionlimit(20000)

class Undecided(Exception):
    """the generator cannot produce the obligation (unsupported construct, missing invariant)"""

class UndefT:
    def __repr__(self): return 'UNDEF'
UNDEF = UndefT()

class Region:
    _n = 0
    def __init__(self, name, kind='cells', size=None, elem=None, const=False, fields=None, tag=None):
        Region._n += 1
        self.id = Region._n; self.name = name; self.kind = kind; self.size = size; self.elem = elem
        self.const = const; self.symcache = {}; self.fn = None; self.fields = fields; self.tag = tag
        self.arr0 = {}
        self.dead = False           # local of a function that has returned
        self.fresh_local = False   # created inside the code under proof (alloca/new)
        self.opaque = False
        self.elem_inv = None        # holds of every element (obligation on store, fact on load)
    def __repr__(self): return '<%s#%d>' % (self.name, self.id)

NULL = Region('null', 'null'); NULL.id = 0
BAD = Region('uninit-pointer', 'bad')

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr' + repr([(str(c), r, str(o)) for c, r, o in self.alts])

def P1(region, off=0): return Ptr([(True, region, off)])
NULLP = P1(NULL, 0)
ABS = {}
def absolute(x):
    """a small constant used as an address (a marker such as (void*)1): equal to itself only, no memory"""
    if x == 0: return NULLP
    if not isinstance(x, int) or not 0 < x < 4096: return BADP
    if x not in ABS: ABS[x] = P1(Region('address %d' % x, 'func'), 0)
    return ABS[x]
BADP = P1(BAD, 0)

class Bits:
    """an integer-typed value that really holds another kind of value (bit cast)"""
    __slots__ = ('v', 'kind')
    def __init__(self, v, kind): self.v = v; self.kind = kind

class Pieces:
    """little endian concatenation: list of (byteoff, size, kind, val), total size"""
    __slots__ = ('ps', 'size')
    def __init__(self, ps, size): self.ps = ps; self.size = size

class State:
    __slots__ = ('cells', 'arrs', 'ghost', 'own')
    def __init__(self):
        self.cells = {}; self.arrs = {}; self.ghost = {}; self.own = set()
    def clone(self):
        s = State.__new__(State)
        s.cells = dict(self.cells); s.arrs = dict(self.arrs); s.ghost = dict(self.ghost)
        s.own = set(); self.own = set()
        return s
    def wcells(self, rid):
        if rid not in self.own:
            self.cells[rid] = dict(self.cells.get(rid, ())); self.own.add(rid)
        return self.cells[rid]

class Exc:
    """a thrown exception: type id term, pointer"""
    __slots__ = ('tid', 'ptr')
    def __init__(self, tid, ptr): self.tid = tid; self.ptr = ptr

class Outcome:
    def __init__(self, g, st, val, excs):
        self.g = g; self.st = st; self.val = val; self.excs = excs

class Obligation:
    __slots__ = ('name', 'kind', 'loc', 'nfacts', 'guard', 'goal', 'status', 'backend', 'time', 'model', 'extra', 'reason', 'fn', 'hints')
    def __init__(self, name, kind, loc, nfacts, guard, goal, fn):
        self.name = name; self.kind = kind; self.loc = loc; self.nfacts = nfacts; self.guard = guard; self.goal = goal
        self.status = None; self.backend = None; self.time = 0; self.model = None; self.extra = None; self.reason = None; self.fn = fn; self.hints = None

class Edge:
    __slots__ = ('g', 'st', 'phis', 'exc')
    def __init__(self, g, st, phis, exc=None): self.g = g; self.st = st; self.phis = phis; self.exc = exc

class Frame:
    def __init__(self, f, args):
        self.f = f; self.args = args; self.env = {}; self.rets = []; self.excs = []; self.loopstack = []; self.lastdbg = None; self.locals_ = []

class LoopCtx:
    def __init__(self, ex, fr, L): self.ex = ex; self.fr = fr; self.L = L
    # .it, .phis, .phis0, .st, .st0, .args

STD_BASES = {
    'St16invalid_argument': ['St11logic_error', 'St9exception'],
    'St12out_of_range': ['St11logic_error', 'St9exception'],
    'St12length_error': ['St11logic_error', 'St9exception'],
    'St11logic_error': ['St9exception'],
    'St13runtime_error': ['St9exception'],
    'St8bad_cast': ['St9exception'], 'St12bad_any_cast': ['St8bad_cast', 'St9exception'] if False else ['St8bad_cast', 'St9exception'],
    'St9bad_alloc': ['St9exception'],
}

class CallCtx:
    """what a contract handler sees"""
    def __init__(self, ex, name, args, st, g, fr, rty, argtys, dbg):
        self.ex = ex; self.name = name; self.args = args; self.st = st; self.g = g; self.fr = fr; self.rty = rty
        self.argtys = argtys; self.dbg = dbg; self.excs = []
    def require(self, cond, what):
        self.ex.oblige(self.g, cond, 'pre:' + what, 'precondition', self.fr, self.dbg)
    def assume(self, cond): self.ex.assume(self.g, cond)
    def throw(self, cond, tname='St9exception'):
        """exceptional exit when cond"""
        c = cond
        g = self.g.conj(c)
        if not g.is_false():
            self.excs.append((g, self.st.clone(), Exc(self.ex.typeid(tname), BADP)))
        self.g = self.g.conj(not_(c))

def int_leaves(e, n=64):
    """the values of a choice between integer constants (a sum of such choices and constants), or None"""
    if z3.is_int_value(e): return {e.as_long()}
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = int_leaves(e.arg(1), n), int_leaves(e.arg(2), n)
        return None if a is None or b is None or len(a | b) > n else a | b
    if z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_MUL):
        add = z3.is_app_of(e, z3.Z3_OP_ADD); r = {0 if add else 1}
        for k in range(e.num_args()):
            x = int_leaves(e.arg(k), n)
            if x is None: return None
            r = {(p + q if add else p * q) for p in r for q in x}
            if len(r) > n: return None
        return r
    return None

class Exec:
    def __init__(self, mod, fmode='uf', name=''):
        self.mod = mod; self.name = name
        self.fmode = fmode
        self.F64 = z3.RealSort() if fmode == 'real' else z3.DeclareSort('F64')
        self.F32 = z3.RealSort() if fmode == 'real' else z3.DeclareSort('F32')
        self.facts = []; self.obs = []; self.rng = Ranges()
        self.qs = z3.Solver(); self.qs.set('timeout', 150)
        self.ql = z3.Solver(); self.ql.set('timeout', 100); self.heavy_memo = {}
        self.uid = 0
        self.contracts = {}; self.contract_res = []
        self.loop_specs = []
        self.globals = {}
        self.typeids = {}
        self.log = None; self.probing = 0
        self.max_unroll = 70; self.auto_loops = True; self.folds = []
        self.check_overflow = True
        self.fconsts = {}
        self.stats = {'calls': 0, 'instrs': 0, 'functions': set(), 'contracts_used': set(), 'qs': 0, 'unrolled': 0, 'externs': set()}
        self.demangled = {}
        self.prune = True
        self.callstack = []
        self.maxdepth = 120
        self.qfacts = []
        self.assumed_externs = set()
        self.deadline = None
        self.repo_prefix = '/repo/'
        self.init_globals = State()
        self.pure_fns = set('sqrt pow exp log log10 log2 exp2 expm1 log1p sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh cbrt tgamma lgamma erf erfc fmod floor ceil round trunc fmin fmax hypot atan2 fabs sqrtf powf expf logf log10f sinf cosf tanf cbrtf tgammaf expm1f log1pf fabsf fmaxf fminf exp2f asinf acosf atanf sinhf coshf tanhf acoshf erfcf asinhf atanhf log2f erff'.split())

    # basic services -----------------------------------------------------------
    def fresh_name(self, base):
        self.uid += 1
        return '%s!%d' % (base, self.uid)
    def fresh_int(self, base, w=None, lo=None, hi=None):
        v = z3.Int(self.fresh_name(base))
        if w: lo, hi = (-(1 << (w - 1)) if lo is None else lo), ((1 << (w - 1)) - 1 if hi is None else hi)
        if lo is not None or hi is not None: self.declare_range(v, lo, hi)
        return v
    def declare_range(self, v, lo, hi):
        self.rng.declare(v, lo, hi)
        if lo is not None: self.fact(I(v) >= lo)
        if hi is not None: self.fact(I(v) <= hi)
    def fresh_bool(self, base): return z3.Bool(self.fresh_name(base))
    def fsort(self, kind): return self.F64 if kind == 'f64' else self.F32
    def fresh_float(self, base, kind='f64'): return z3.Const(self.fresh_name(base), self.fsort(kind))
    def fresh_kind(self, base, kind, size):
        if kind == 'i': return self.fresh_int(base, 8 * size)
        if kind in ('f64', 'f32'): return self.fresh_float(base, kind)
        if kind == 'p': return BADP
        if kind == 'f80': return z3.Const(self.fresh_name(base), z3.RealSort() if self.fmode == 'real' else z3.DeclareSort('F80'))
        raise Undecided('fresh ' + kind)
    def sort_of(self, kind):
        return z3.IntSort() if kind == 'i' else self.fsort(kind)

    def fact(self, c, quant=False):
        if c is True: return
        c = B(c)
        self.facts.append(c)
        if not quant:
            self.qs.add(c)
            if not self.heavy(c): self.ql.add(c)
    def heavy(self, e):
        """mentions memory, floating point, uninterpreted functions or nonlinear arithmetic (kept from the light pruning solver)"""
        k = e.get_id(); r = self.heavy_memo.get(k)
        if r is not None: return r[0]
        stk = [(e, 0)]
        while stk:
            x, ph = stk.pop()
            i = x.get_id()
            if i in self.heavy_memo: continue
            if ph == 0:
                h = None
                if z3.is_quantifier(x): h = True
                elif x.sort_kind() not in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT): h = True
                elif x.num_args() == 0: h = False
                else:
                    dk = x.decl().kind()
                    if dk in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED): h = True
                    elif dk == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(a) else 1 for a in x.children()) > 1: h = True
                    elif dk in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM) and not z3.is_int_value(x.arg(1)): h = True
                if h is not None: self.heavy_memo[i] = (h, x); continue
                stk.append((x, 1))
                for a in x.children():
                    if a.get_id() not in self.heavy_memo: stk.append((a, 0))
            else:
                self.heavy_memo[i] = (any(self.heavy_memo[a.get_id()][0] for a in x.children()), x)
        return self.heavy_memo[k][0]
    def qpush(self): self.qs.push(); self.ql.push()
    def qpop(self): self.qs.pop(); self.ql.pop()
    def qcheck(self, lits):
        lits = [B(l) for l in lits]
        light = [l for l in lits if not self.heavy(l)]
        s = self.ql
        s.push()
        try:
            for l in light: s.add(l)
            r = s.check()
        except z3.Z3Exception: r = z3.unknown
        finally: s.pop()
        if r == z3.unsat or len(light) == len(lits): return r
        s = self.qs
        s.push()
        try:
            for l in lits: s.add(l)
            r = s.check()
        except z3.Z3Exception: r = z3.unknown
        finally: s.pop()
        return r
    def assume(self, g, c, quant=False):
        if c is True: return
        self.fact(implies(g.z() if isinstance(g, Guard) else g, c), quant)

    def quick(self, g, c):
        """True if c is certainly true under g (cheap); False = unknown"""
        if c is True: return True
        if c is False: return False
        self.stats['qs'] += 1
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget of the generator exhausted')
        r = self.qcheck(list(g.lits if isinstance(g, Guard) else [g]) + [not_(c)])
        return r == z3.unsat

    def oblige(self, g, c, name, kind, fr=None, dbg=None):
        loc = self.mod.loc(dbg) if dbg else (self.mod.loc(fr.lastdbg) if fr and fr.lastdbg else None)
        if c is not True and not (isinstance(g, Guard) and g.is_false()):
            if not self.probing:
                o = Obligation(name, kind, loc, len(self.facts), g, c, fr.f.name if fr else None)
                self.obs.append(o)
            self.assume(g, c)
        elif not self.probing:
            o = Obligation(name, kind, loc, 0, TRUE, True, fr.f.name if fr else None)
            o.status = 'proved'; o.backend = 'rewriter'
            self.obs.append(o)

    def in_rng(self, x, lo, hi, g=None):
        if isinstance(x, int): return lo <= x <= hi
        a, b = self.rng.get(x)
        if a is not None and b is not None and lo <= a and b <= hi: return True
        if g is not None:
            return self.quick(g, z3.And(x >= lo, x <= hi))
        return False

    def wrap(self, x, w, g):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(x, int):
            x &= (1 << w) - 1
            return x - (1 << w) if x > hi else x
        if self.in_rng(x, lo, hi, g): return x
        m = 1 << w
        return sub((add(x, -lo)) % m, -lo)

    def U(self, x, w, g):
        """unsigned reading of a canonical value"""
        if isinstance(x, int): return x if x >= 0 else x + (1 << w)
        if isinstance(x, bool): return int(x)
        a, b = self.rng.get(x)
        if a is not None and a >= 0: return x
        if self.quick(g, x >= 0): return x
        return ite(x < 0, x + (1 << w), x)

    def toint(self, v, w=None):
        """force Pieces/Bits to a plain int when possible"""
        if isinstance(v, Pieces):
            r = 0
            for off, size, kind, val in v.ps:
                if kind != 'i': raise Undecided('arithmetic on a mixed bit pattern')
                val = self.toint(val)
                last = (off + size == v.size)
                if not last: val = self.U(val, 8 * size, TRUE)
                r = add(r, mul(1 << (8 * off), val))
            return r
        if isinstance(v, Bits):
            if v.kind == 'p': raise Undecided('arithmetic on a pointer bit pattern')
            f = z3.Function('bits_of_' + v.kind, self.fsort(v.kind), z3.IntSort())
            r = f(v.v)
            n = 64 if v.kind == 'f64' else 32
            self.rng.declare(r, -(1 << (n - 1)), (1 << (n - 1)) - 1)
            self.fact(z3.And(r >= -(1 << (n - 1)), r < (1 << (n - 1))))
            return r
        if v is UNDEF: return self.fresh_int('undef', w or 64)
        return v

    # typeids ----------------------------------------------------------------
    def typeid(self, tname):
        if tname.startswith('_ZTI'): tname = tname[4:]
        if tname not in self.typeids: self.typeids[tname] = len(self.typeids) + 1
        return self.typeids[tname]
    def typename(self, tid):
        for k, v in self.typeids.items():
            if v == tid: return k
    def bases_of(self, tname):
        out = [tname] + STD_BASES.get(tname, [])
        # user defined class type infos in the module
        g = self.mod.globals.get('_ZTI' + tname)
        if g is not None and g.init and g.init[0] == 'agg':
            for et, ev in g.init[1][2:]:
                if ev[0] == 'global' and ev[1].startswith('_ZTI'):
                    out += self.bases_of(ev[1][4:])
        return out

    # value merging -------------------------------------------------------------
    def vite(self, c, a, b, kind=None, size=None):
        if a is b: return a
        if isinstance(c, bool): return a if c else b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF: return b
            if b is UNDEF: return a
            if not isinstance(a, Ptr) and isinstance(a, int) and a == 0: a = NULLP
            if not isinstance(b, Ptr) and isinstance(b, int) and b == 0: b = NULLP
            if isinstance(a, Bits): a = a.v
            if isinstance(b, Bits): b = b.v
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Undecided('merge of pointer and non pointer')
            alts = []
            byreg = {}
            for cc, p in ((c, a), (not_(c), b)):
                for g, r, o in p.alts:
                    if r is BAD: continue
                    byreg.setdefault(r.id, []).append((and_(cc, g), r, o))
            if not byreg: return BADP
            for rid, l in byreg.items():
                if len(l) == 1: alts.append(l[0])
                else:
                    o = l[-1][2]
                    for g, r, oo in l[:-1][::-1]: o = ite(g, oo, o)
                    alts.append((or_(*[x[0] for x in l]), l[0][1], o))
            if len(alts) == 1: alts = [(True, alts[0][1], alts[0][2])]
            return Ptr(alts)
        if isinstance(a, Exc):
            return Exc(ite(c, a.tid, b.tid), self.vite(c, a.ptr, b.ptr))
        if isinstance(a, list) or isinstance(b, list):
            if a is UNDEF: return b
            if b is UNDEF: return a
            return [self.vite(c, x, y) for x, y in zip(a, b)]
        if a is UNDEF and b is UNDEF: return UNDEF
        if a is UNDEF or b is UNDEF:
            o = b if a is UNDEF else a
            if isinstance(o, (Bits, Pieces)): return o
            if isinstance(o, bool) or (isinstance(o, z3.AstRef) and z3.is_bool(o)): f = self.fresh_bool('undef')
            elif isinstance(o, int) or z3.is_int(o): f = self.fresh_int('undef', 64)
            else: f = z3.Const(self.fresh_name('undef'), o.sort())
            if a is UNDEF: a = f
            else: b = f
        if isinstance(a, (Bits, Pieces)) or isinstance(b, (Bits, Pieces)):
            if isinstance(a, Bits) and isinstance(b, Bits) and a.kind == b.kind: return Bits(self.vite(c, a.v, b.v), a.kind)
            if isinstance(a, Bits) and a.kind == 'p' and isinstance(b, int) and b == 0: return Bits(self.vite(c, a.v, NULLP), 'p')
            if isinstance(b, Bits) and b.kind == 'p' and isinstance(a, int) and a == 0: return Bits(self.vite(c, NULLP, b.v), 'p')
            if isinstance(a, Pieces) and isinstance(b, Pieces) and [p[:3] for p in a.ps] == [p[:3] for p in b.ps]:
                return Pieces([(o, s, k, self.vite(c, x, y[3])) for (o, s, k, x), y in zip(a.ps, b.ps)], a.size)
            a = self.toint(a); b = self.toint(b)
        if isinstance(a, z3.AstRef) and not isinstance(b, z3.AstRef) and z3.is_bool(a) and not isinstance(b, bool): raise Undecided('sort mix')
        if hasattr(a, 'merge_ghost'): return a.merge_ghost(self, c, b)
        return ite(c, a, b)

    def merge_states(self, conds, sts):
        if len(sts) == 1: return sts[0].clone()
        acc = sts[-1].clone()
        for c, s in zip(conds[:-1][::-1], sts[:-1][::-1]):
            acc = self._merge2(c, s, acc)
        return acc

    def _merge2(self, c, a, b):
        r = State()
        r.ghost = {}
        for k in a.ghost.keys() | b.ghost.keys():
            if k in a.ghost and k in b.ghost:
                r.ghost[k] = self.vite(c, a.ghost[k], b.ghost[k])
            else:
                r.ghost[k] = a.ghost.get(k, b.ghost.get(k)) if not (isinstance(k, tuple) and k and k[0] == 'flag') else self.vite(c, a.ghost.get(k, False), b.ghost.get(k, False))
        for k in a.arrs.keys() | b.arrs.keys():
            x = a.arrs.get(k); y = b.arrs.get(k)
            if x is None: x = self.arr0(k)
            if y is None: y = self.arr0(k)
            r.arrs[k] = x if x is y or x.eq(y) else z3.If(c, x, y)
        for rid in a.cells.keys() | b.cells.keys():
            x = a.cells.get(rid); y = b.cells.get(rid)
            if x is y: r.cells[rid] = x; continue
            reg = self.regions[rid]
            x = x or {}; y = y or {}
            out = {}
            for off in x.keys() | y.keys():
                p = x.get(off); q = y.get(off)
                if p is q: out[off] = p; continue
                if p is not None and q is not None and p[0] == q[0] and p[1] == q[1]:
                    out[off] = (p[0], p[1], self.vite(c, p[2], q[2], p[1], p[0])); continue
                if p is not None and (q is None or q[0] <= p[0]):
                    v = self.read_cells(reg, y, off, p[0], p[1])
                    out[off] = (p[0], p[1], self.vite(c, p[2], v, p[1], p[0]))
                else:
                    v = self.read_cells(reg, x, off, q[0], q[1])
                    out[off] = (q[0], q[1], self.vite(c, v, q[2], q[1], q[0]))
            # drop cells covered by larger ones
            offs = sorted(out)
            end = -1; keep = {}
            for o in offs:
                if o < end: continue
                keep[o] = out[o]; end = o + out[o][0]
            r.cells[rid] = keep
        return r

    # regions -------------------------------------------------------------------
    regions = {0: NULL, BAD.id: BAD}
    def new_region(self, name, kind='cells', size=None, **kw):
        r = Region(name, kind, size, **kw); self.regions[r.id] = r
        return r
    def arr0(self, key):
        rid, hk = key
        r = self.regions[rid]
        if hk not in r.arr0:
            r.arr0[hk] = z3.Array('%s#%d.%s%d%s' % (r.name, r.id, hk[0], hk[1], '' if hk[2] == 0 else '+%d' % hk[2]), z3.IntSort(), self.sort_of(hk[0]))
        return r.arr0[hk]
    def get_arr(self, st, region, hk):
        k = (region.id, hk)
        a = st.arrs.get(k)
        if a is None:
            a = self.arr0(k); st.arrs[k] = a
        return a

    # cell access ------------------------------------------------------------------
    def default_cell(self, reg, off, size, kind):
        k = (off, size, kind)
        if k not in reg.symcache:
            reg.symcache[k] = self.fresh_kind('%s+%d' % (reg.name, off), kind, size)
        return reg.symcache[k]

    def read_cells(self, reg, cells, off, size, kind):
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[2], c[1], kind, size)
        # containing cell
        parts = []
        for o, (s, k, v) in cells.items():
            if o < off + size and off < o + s: parts.append((o, s, k, v))
        if not parts:
            return self.default_cell(reg, off, size, kind)
        if len(parts) == 1:
            o, s, k, v = parts[0]
            if o <= off and off + size <= o + s:
                return self.conv(self.extract(v, k, s, off - o, size), 'i', kind, size)
        if size == 1 and False: pass
        parts.sort()
        ps = []; cur = off
        for o, s, k, v in parts:
            if o < cur:
                sub_ = min(o + s, off + size) - cur
                ps.append((cur - off, sub_, 'i', self.extract(v, k, s, cur - o, sub_))); cur += sub_; continue
            if o > cur:
                ps.append((cur - off, o - cur, 'i', self.default_cell(reg, cur, o - cur, 'i')) if (o - cur) in (1, 2, 4, 8) else (cur - off, o - cur, 'u', UNDEF)); cur = o
            n = min(o + s, off + size) - o
            if n == s: ps.append((o - off, s, k, v))
            else: ps.append((o - off, n, 'i', self.extract(v, k, s, 0, n)))
            cur = o + n
        if cur < off + size:
            n = off + size - cur
            ps.append((cur - off, n, 'u', UNDEF) if n not in (1, 2, 4, 8) else (cur - off, n, 'i', self.default_cell(reg, cur, n, 'i')))
        r = Pieces(ps, size)
        if kind != 'i': return self.conv(r, 'i', kind, size)
        return r

    def extract(self, v, k, s, o, n):
        """bytes [o,o+n) of a value of kind k and size s, as an integer-typed value"""
        if isinstance(v, Pieces):
            for po, ps, pk, pv in v.ps:
                if po == o and ps == n: return pv if pk == 'i' else (UNDEF if pk == 'u' else Bits(pv, pk))
                if po <= o and o + n <= po + ps: return self.extract(pv, pk, ps, o - po, n)
            sub_ = [(po - o, ps, pk, pv) for po, ps, pk, pv in v.ps if o <= po and po + ps <= o + n]
            if sum(p[1] for p in sub_) == n: return Pieces(sub_, n)
            v = self.toint(v); k = 'i'
        if v is UNDEF: return UNDEF
        if k != 'i' or isinstance(v, Bits): raise Undecided('partial read of a %s value' % k)
        u = self.U(v, 8 * s, TRUE)
        if isinstance(u, int): return self.wrap(u >> (8 * o), 8 * n, TRUE)
        if o: u = u / (1 << (8 * o))
        return self.wrap(u, 8 * n, TRUE)

    def conv(self, v, k, kind, size):
        if k == kind:
            if isinstance(v, Bits) and v.kind == kind: return v.v
            return v
        if v is UNDEF: return self.fresh_kind('undef', kind, size)
        if isinstance(v, Bits):
            if v.kind == kind: return v.v
            if kind == 'i': return v
        if isinstance(v, Pieces):
            if len(v.ps) == 1 and v.ps[0][2] == kind: return v.ps[0][3]
            if kind == 'i': return v
            if all(p[2] == 'i' for p in v.ps): v = self.toint(v)
            else: raise Undecided('reinterpretation of mixed bytes')
            k = 'i'
        if kind == 'i': return Bits(v, k)
        if k == 'i' and kind in ('f64', 'f32'):
            if isinstance(v, int): return self.fconst_bits(v & ((1 << (8 * size)) - 1), kind)
            f = z3.Function('float_of_bits_' + kind, z3.IntSort(), self.fsort(kind))
            return f(I(v))
        if k == 'i' and kind == 'p':
            if isinstance(v, int) and v == 0: return NULLP
            return BADP
        raise Undecided('conversion %s->%s' % (k, kind))

    def write_cells(self, cells, off, size, kind, v):
        for o in list(cells):
            s, k, old = cells[o]
            if o < off + size and off < o + s and not (o == off and s == size):
                del cells[o]
                if o < off:
                    n = off - o
                    cells[o] = (n, 'i', self.extract(old, k, s, 0, n) if k == 'i' else UNDEF)
                if o + s > off + size:
                    n = o + s - off - size
                    cells[off + size] = (n, 'i', self.extract(old, k, s, off + size - o, n) if k == 'i' else UNDEF)
        cells[off] = (size, kind, v)

    def kind_of(self, ty):
        t = ty[0]
        if t == 'i': return 'i', self.mod.size(ty)
        if t == 'ptr': return 'p', 8
        if t == 'f64': return 'f64', 8
        if t == 'f32': return 'f32', 4
        if t == 'f80': return 'f80', 16
        raise Undecided('kind of %r' % (ty,))

    def bounds_ok(self, region, off, size):
        if region.size is None: return True
        lo = cmp('ge', off, 0); hi = cmp('le', add(off, size), region.size)
        return and_(lo, hi)

    def access(self, g, ptr, size, what, fr, dbg):
        """yields (guard, region, off) alternatives after emitting the safety obligation"""
        if isinstance(ptr, Bits) and ptr.kind == 'p': ptr = ptr.v
        if not isinstance(ptr, Ptr):
            raise Undecided('%s through a non-pointer value %r' % (what, ptr))
        alts = []
        bad = []
        for c, r, o in ptr.alts:
            gg = g.conj(c)
            if gg.is_false(): continue
            if r.kind in ('null', 'bad', 'func'):
                bad.append(c); continue
            ok = self.bounds_ok(r, o, size)
            if r.dead: self.oblige(gg, False, '%s of a local object of a function that has returned (%s)' % (what, r.name), 'memory', fr, dbg)
            self.oblige(gg, ok, '%s in bounds of %s' % (what, r.name), 'memory', fr, dbg)
            alts.append((c, gg, r, o))
        if bad:
            self.oblige(g, not_(or_(*bad)), '%s through a valid pointer' % what, 'memory', fr, dbg)
        return alts

    def load(self, g, st, ty, ptr, fr=None, dbg=None):
        ty = self.mod.resolve(ty)
        if ty[0] in ('struct', 'arr', 'vec'):
            out = []
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                et = ty[1][i] if ty[0] == 'struct' else ty[2]
                off = self.mod.field_off(ty, i) if ty[0] == 'struct' else i * self.mod.size(et)
                out.append(self.load(g, st, et, self.padd(ptr, off), fr, dbg))
            return out
        kind, size = self.kind_of(ty)
        if isinstance(ptr, Bits): ptr = ptr.v
        alts = self.access(g, ptr, size, 'load', fr, dbg)
        vals = []
        for c, gg, r, o in alts:
            if self.log is not None: self.log.append(('r', r, o, size, kind, gg))
            if ('flag', 'freed', r.id) in st.ghost:
                self.oblige(gg, not_(st.ghost[('flag', 'freed', r.id)]), 'load from live memory', 'memory', fr, dbg)
            vals.append((c, self.load_region(gg, st, r, o, size, kind, fr, dbg)))
        if not vals: return self.fresh_kind('bad', kind, size)
        v = vals[-1][1]
        for c, x in vals[:-1][::-1]: v = self.vite(c, x, v, kind, size)
        if ty == ('i', 1):
            v = self.toint(v)
            return cmp('ge', v, 1) if not isinstance(v, int) else v != 0
        return v

    def heap_idx(self, g, r, off, size, kind, fr, dbg):
        if r.fields:
            # array of structs: stride r.fields
            l, c = lin(off)
            S = r.fields
            f = c % S
            rest = divexact(unlin(l, c - f), S)
            if rest is not None: return (kind, size, f), rest
            raise Undecided('offset %s not a multiple of the record size' % off)
        if r.elem is None: r.elem = (kind, size)
        elif r.elem[:2] != (kind, size): raise Undecided('%s holds %s%d and is accessed as %s%d' % (r.name, r.elem[0], r.elem[1], kind, size))
        d = divexact(off, size)
        if d is None:
            self.oblige(g, (I(off) % size) == 0, 'aligned access', 'memory', fr, dbg)
            d = I(off) / size
        return (kind, size, 0), d

    def load_region(self, g, st, r, o, size, kind, fr=None, dbg=None):
        if r.kind == 'array':
            hk, idx = self.heap_idx(g, r, o, size, kind, fr, dbg)
            if kind == 'p': raise Undecided('pointer load from a symbolic array')
            a = self.get_arr(st, r, hk)
            v = self.select(a, idx)
            if r.elem_inv is not None: self.assume(g, r.elem_inv(v))
            if kind == 'i':
                v = py_of(v)
                if not isinstance(v, int) and v.get_id() not in self.rng.var and z3.is_select(v):
                    self.declare_range(v, -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
            return v
        cells = st.cells.get(r.id)
        if cells is None:
            cells = getattr(r, 'symbacking', None) or {}
        if not isinstance(o, int):
            sv = z3.simplify(o)
            if z3.is_int_value(sv): o = sv.as_long()
        if isinstance(o, int):
            return self.read_cells(r, cells, o, size, kind)
        if not isinstance(r.size, int) or r.size > 4096: raise Undecided('symbolic offset into %s' % r.name)
        l, c = lin(o)
        step = size
        lv = int_leaves(sv)
        cand = [k for k in range(c % step, r.size - size + 1, step)] if lv is None else sorted(k for k in lv if 0 <= k <= r.size - size)
        v = None
        for k in cand[::-1]:
            e = eq(o, k)
            if e is False: continue
            x = self.read_cells(r, cells, k, size, kind)
            v = x if v is None else self.vite(e, x, v, kind, size)
        return self.fresh_kind('bad', kind, size) if v is None else v

    def select(self, a, idx):
        """read over write, decided syntactically when possible"""
        idx = I(idx)
        while z3.is_store(a):
            j = a.arg(1)
            if j.eq(idx): return a.arg(2)
            d = z3.simplify(j - idx)
            if z3.is_int_value(d):
                if d.as_long() == 0: return a.arg(2)
                a = a.arg(0); continue
            break
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x = self.select(a.arg(1), idx); y = self.select(a.arg(2), idx)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.simplify(z3.Select(a, idx)) if False else z3.substitute_vars(a.body(), idx)
        return z3.Select(a, idx)

    def store(self, g, st, ty, ptr, v, fr=None, dbg=None):
        ty = self.mod.resolve(ty)
        if ty[0] in ('struct', 'arr', 'vec'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                et = ty[1][i] if ty[0] == 'struct' else ty[2]
                off = self.mod.field_off(ty, i) if ty[0] == 'struct' else i * self.mod.size(et)
                self.store(g, st, et, self.padd(ptr, off), UNDEF if v is UNDEF else v[i], fr, dbg)
            return
        kind, size = self.kind_of(ty)
        if ty == ('i', 1): v = ite(v, 1, 0) if v is not UNDEF else v
        if v is UNDEF: v = self.fresh_kind('undef', kind, size)
        alts = self.access(g, ptr, size, 'store', fr, dbg)
        for c, gg, r, o in alts:
            if self.log is not None: self.log.append(('w', r, o, size, kind, gg))
            if r.const: self.oblige(gg, False, 'no store to constant %s' % r.name, 'memory', fr, dbg)
            if ('flag', 'freed', r.id) in st.ghost:
                self.oblige(gg, not_(st.ghost[('flag', 'freed', r.id)]), 'store to live memory', 'memory', fr, dbg)
            self.store_region(gg, st, r, o, size, kind, v, True if len(alts) == 1 else c, fr, dbg)

    def store_region(self, g, st, r, o, size, kind, v, c=True, fr=None, dbg=None):
        if r.kind == 'array':
            if isinstance(v, Bits):
                kind = v.kind; v = v.v
            if isinstance(v, Pieces) and kind == 'i':
                for po, ps, pk, pv in v.ps: self.store_region(g, st, r, add(o, po), ps, pk, pv, c, fr, dbg)
                return
            if kind == 'p': raise Undecided('pointer store to a symbolic array')
            if kind == 'i': v = self.toint(v)
            if r.elem and r.elem != (kind, size) and kind == 'i' and r.elem[0] == 'f64' and size == 8:
                v = self.conv(v, 'i', 'f64', 8); kind = 'f64'
            hk, idx = self.heap_idx(g, r, o, size, kind, fr, dbg)
            a = self.get_arr(st, r, hk)
            vv = I(v) if kind == 'i' else v
            if r.elem_inv is not None: self.oblige(g if c is True else (g.conj(c) if isinstance(g, Guard) else g), r.elem_inv(v), 'what is stored in %s is a value for it' % r.name, 'invariant', fr, dbg)
            n = z3.Store(a, I(idx), vv)
            st.arrs[(r.id, hk)] = n if c is True else z3.If(c, n, a)
            return
        if not isinstance(o, int):
            sv = z3.simplify(o)
            if z3.is_int_value(sv): o = sv.as_long()
        cells = st.wcells(r.id)
        if isinstance(o, int):
            if c is not True:
                old = self.read_cells(r, cells, o, size, kind)
                v = self.vite(c, v, old, kind, size)
            if isinstance(v, Pieces) and kind == 'i':
                for po, ps, pk, pv in v.ps:
                    self.write_cells(cells, o + po, ps, 'i' if pk == 'u' else pk, pv if pk != 'u' else UNDEF)
                return
            if isinstance(v, Bits): kind = v.kind; v = v.v
            self.write_cells(cells, o, size, kind, v)
            return
        if not isinstance(r.size, int) or r.size > 4096: raise Undecided('symbolic store offset into %s' % r.name)
        l, cc = lin(o)
        for k in range(cc % size, r.size - size + 1, size):
            e = eq(o, k)
            if e is False: continue
            e = and_(e, c)
            old = self.read_cells(r, cells, k, size, kind)
            self.write_cells(cells, k, size, kind, self.vite(e, v, old, kind, size))

    def padd(self, p, off):
        if isinstance(off, int) and off == 0: return p
        if isinstance(p, Bits): p = p.v
        if isinstance(p, int) and p == 0: p = NULLP
        return Ptr([(c, r, add(o, off)) for c, r, o in p.alts])

    # constants --------------------------------------------------------------------
    def fconst_bits(self, bits, kind):
        if kind == 'f64': d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else: d = struct.unpack('<f', struct.pack('<I', bits))[0]
        if self.fmode == 'real':
            if d != d or d in (float('inf'), float('-inf')):
                key = (kind, bits)
                if key not in self.fconsts: self.fconsts[key] = z3.Const('special_%x' % bits, self.F64)
                return self.fconsts[key]
            fr = fractions.Fraction(d)
            return z3.RealVal(fr)
        key = (kind, bits)
        if key not in self.fconsts:
            c = z3.Const('%s_%r' % (kind, d), self.fsort(kind))
            others = [v for (k, b), v in self.fconsts.items() if k == kind]
            self.fconsts[key] = c
            # facts: distinct bit patterns; not NaN
            for o in others: self.fact(c != o)
            self.fact(z3.Not(self.fisnan(c)) if d == d else self.fisnan(c))
        return self.fconsts[key]
    def fconst(self, d, kind='f64'):
        if kind == 'f64': return self.fconst_bits(struct.unpack('<Q', struct.pack('<d', d))[0], kind)
        return self.fconst_bits(struct.unpack('<I', struct.pack('<f', d))[0], kind)

    def const(self, ty, v):
        """value of a constant operand"""
        k = v[0]
        ty = self.mod.resolve(ty) if ty[0] == 'named' else ty
        if k == 'int':
            if ty == ('i', 1): return bool(v[1] & 1)
            if ty[0] == 'i': return self.wrap(v[1], ty[1], TRUE)
            if ty[0] in ('f64', 'f32'): return self.fconst(float(v[1]), ty[0])
            return v[1]
        if k == 'fbits':
            t = v[1]
            if t.startswith('0xK'): 
                key = ('f80', t)
                if key not in self.fconsts: self.fconsts[key] = z3.Const('f80_' + t, z3.RealSort() if self.fmode == 'real' else z3.DeclareSort('F80'))
                return self.fconsts[key]
            b = int(t, 16)
            if ty[0] == 'f32':
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                return self.fconst(d, 'f32')
            return self.fconst_bits(b, 'f64')
        if k == 'fdec': return self.fconst(float(v[1]), ty[0])
        if k == 'null': return NULLP
        if k == 'undef': return self.undef_of(ty)
        if k == 'zero': return self.zero_of(ty)
        if k == 'global': return self.global_ptr(v[1])
        if k == 'agg': return [self.const(et, ev) for et, ev in v[1]]
        if k == 'cstr':
            return [self.wrap(b, 8, TRUE) for b in v[1]]
        if k == 'ce':
            o = v[1]
            if o == 'gep':
                bt, ops = v[2], v[3]
                base = self.const(ops[0][0], ops[0][1])
                return self.gep(bt, base, [(t, self.const(t, x)) for t, x in ops[1:]], TRUE)
            if o in ('bitcast', 'addrspacecast'): return self.const(v[2], v[3])
            if o == 'ptrtoint': return Bits(self.const(v[2], v[3]), 'p')
            if o == 'inttoptr':
                x = self.const(v[2], v[3])
                return x.v if isinstance(x, Bits) else absolute(x)
            raise Undecided('constant expression ' + o)
        if k == 'meta': return UNDEF
        raise Undecided('constant %r' % (v,))

    def undef_of(self, ty):
        if ty[0] == 'ptr': return BADP
        if ty[0] in ('struct',): return [self.undef_of(self.mod.resolve(t)) for t in ty[1]]
        if ty[0] in ('arr', 'vec'): return [self.undef_of(self.mod.resolve(ty[2])) for _ in range(ty[1])]
        return UNDEF

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i': return False if ty[1] == 1 else 0
        if ty[0] == 'ptr': return NULLP
        if ty[0] in ('f64', 'f32'): return self.fconst(0.0, ty[0])
        if ty[0] == 'f80': return self.const(ty, ('fbits', '0xK0'))
        if ty[0] == 'struct': return [self.zero_of(t) for t in ty[1]]
        if ty[0] in ('arr', 'vec'): return [self.zero_of(ty[2]) for _ in range(ty[1])]
        raise Undecided('zero of %r' % (ty,))

    def global_ptr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.globals: return P1(self.globals[name], 0)
        if name in self.mod.functions:
            r = self.new_region(name, 'func'); r.fn = name; self.globals[name] = r
            return P1(r, 0)
        g = self.mod.globals.get(name)
        if g is None: raise Undecided('unknown global ' + name)
        try: size = self.mod.size(g.ty)
        except Exception: size = None
        r = self.new_region('@' + name, 'cells', size if not g.external else None, const=g.const)
        self.globals[name] = r
        r.gconst = g
        if g.init is not None and not g.external and (size or 0) <= 8192:
            if g.const or name.startswith('_ZTV'):
                st = State()
                r.const = False
                old_log, self.log = self.log, None
                self.store(TRUE, st, g.ty, P1(r, 0), self.const(g.ty, g.init))
                self.log = old_log
                r.const = g.const
                for off, (s, k, v) in st.cells.get(r.id, {}).items():
                    r.symcache[(off, s, k)] = v
                r.ginit = st.cells.get(r.id, {})
                # permanent backing cells
                self._gcells = getattr(self, '_gcells', {})
                self._gcells[r.id] = r.ginit
                r.symbacking = r.ginit
        return P1(r, 0)

    # operations ----------------------------------------------------------------
    def gep(self, bt, base, idx, g):
        if isinstance(base, Bits): base = base.v
        if isinstance(base, int) and base == 0: base = NULLP
        if base is UNDEF: base = BADP
        off = 0
        ty = bt
        for i, (it, iv) in enumerate(idx):
            iv = self.toint(iv)
            if isinstance(iv, bool): iv = int(iv)
            if i == 0:
                off = add(off, mul(iv, self.mod.size(ty))); continue
            ty = self.mod.resolve(ty)
            if ty[0] == 'struct':
                off = add(off, self.mod.field_off(ty, iv)); ty = ty[1][iv]
            elif ty[0] in ('arr', 'vec'):
                ty = ty[2]; off = add(off, mul(iv, self.mod.size(ty)))
            else: raise Undecided('gep into %r' % (ty,))
        return self.padd(base, off)

    def ff(self, name, *args, ret=None):
        s = ret if ret is not None else args[0].sort()
        return z3.Function(name, *[a.sort() for a in args], s)(*args)
    def suffix(self, x):
        return '' if self.fmode == 'real' else ('64' if x.sort().eq(self.F64) else '32' if x.sort().eq(self.F32) else '80')
    def fbin(self, op, a, b):
        if self.fmode == 'real':
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return a / b
            return self.ff('frem', a, b)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id(): a, b = b, a
        return self.ff(op + self.suffix(a), a, b)
    def fneg(self, a):
        if self.fmode == 'real': return -a
        return self.ff('fneg' + self.suffix(a), a)
    def flt(self, a, b):
        if self.fmode == 'real': return a < b
        if a.eq(b): return False
        return self.ff('flt' + self.suffix(a), a, b, ret=z3.BoolSort())
    def feq(self, a, b):
        if self.fmode == 'real': return a == b
        if a.eq(b): return not_(self.fisnan(a))
        if a.get_id() > b.get_id(): a, b = b, a
        return self.ff('feq' + self.suffix(a), a, b, ret=z3.BoolSort())
    def fisnan(self, a):
        if self.fmode == 'real': return False
        return self.ff('isnan' + self.suffix(a), a, ret=z3.BoolSort())
    def fcmp(self, pred, a, b):
        if pred == 'true': return True
        if pred == 'false': return False
        if pred == 'ord': return and_(not_(self.fisnan(a)), not_(self.fisnan(b)))
        if pred == 'uno': return or_(self.fisnan(a), self.fisnan(b))
        if pred[0] == 'u':
            inv = {'ueq': 'one', 'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt'}[pred]
            return not_(self.fcmp(inv, a, b))
        if pred == 'oeq': return self.feq(a, b)
        if pred == 'olt': return self.flt(a, b)
        if pred == 'ogt': return self.flt(b, a)
        if pred == 'ole': return or_(self.flt(a, b), self.feq(a, b))
        if pred == 'oge': return or_(self.flt(b, a), self.feq(a, b))
        if pred == 'one': return or_(self.flt(a, b), self.flt(b, a))
        raise Undecided('fcmp ' + pred)

    def intbin(self, o, x, y, w, flags, g, fr, dbg):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if w == 1:
            if o == 'and': return and_(x, y)
            if o == 'or': return or_(x, y)
            if o == 'xor':
                if isinstance(x, bool): return not_(y) if x else y
                if isinstance(y, bool): return not_(x) if y else x
                return z3.Xor(x, y)
            raise Undecided('i1 ' + o)
        # pointer differences
        if isinstance(x, Bits) and x.kind == 'p' or isinstance(y, Bits) and y.kind == 'p':
            if o == 'sub' and isinstance(x, Bits) and isinstance(y, Bits):
                acc = None
                for c1, r1, o1 in x.v.alts:
                    for c2, r2, o2 in y.v.alts:
                        d = sub(o1, o2) if r1 is r2 else self.fresh_int('ptrdiff', 64)
                        acc = d if acc is None else self.vite(and_(c1, c2), d, acc)
                return acc
            if o in ('add', 'sub') and not isinstance(y, Bits):
                return Bits(self.padd(x.v, y if o == 'add' else neg(y)), 'p')
            if o in ('and', 'urem', 'srem') and isinstance(y, int):
                return self.fresh_int('align', w)
            raise Undecided('integer arithmetic on pointers: ' + o)
        if o == 'lshr' and isinstance(x, Pieces) and isinstance(y, int) and y % 8 == 0:
            k = y // 8; n = x.size - k
            sub_ = [(po - k, ps, pk, pv) for po, ps, pk, pv in x.ps if po >= k]
            if sub_ and sum(p[1] for p in sub_) == n:
                return Pieces(sub_ + [(n, k, 'i', 0)], x.size) if k in (1, 2, 4, 8) else self.toint(Pieces(sub_ + [(n, k, 'i', 0)], x.size))
        x = self.toint(x, w); y = self.toint(y, w)
        if o in ('add', 'sub', 'mul'):
            if o == 'mul' and not isinstance(x, int) and not isinstance(y, int) and x.eq(y): r = x * y
            else: r = {'add': add, 'sub': sub, 'mul': mul}[o](x, y)
            if 'nsw' in flags:
                if self.in_rng(r, lo, hi): ok = True
                else: ok = z3.And(r >= lo, r <= hi) if not isinstance(r, int) else False
                if self.check_overflow: self.oblige(g, ok, 'no signed overflow in ' + o, 'overflow', fr, dbg)
                else: self.assume(g, ok)
                return r
            if 'nuw' in flags: pass
            return self.wrap(r, w, g)
        if o in ('sdiv', 'srem'):
            self.oblige(g, not_(eq(y, 0)), 'no division by zero', 'division', fr, dbg)
            if isinstance(x, int) and isinstance(y, int) and y != 0:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return q if o == 'sdiv' else x - q * y
            a, b = self.rng.get(x); c, d = self.rng.get(y)
            if not isinstance(y, int) or y == -1:
                if not (a is not None and a > lo): self.oblige(g, not_(and_(eq(x, lo), eq(y, -1))), 'no signed overflow in ' + o, 'overflow', fr, dbg)
            xp = (a is not None and a >= 0) or self.quick(g, cmp('ge', x, 0))
            yp = (c is not None and c > 0) or (isinstance(y, int) and y > 0) or (not isinstance(y, int) and self.quick(g, cmp('gt', y, 0)))
            X, Y = I(x), I(y)
            if xp and yp: return py_of(X / Y) if o == 'sdiv' else X % Y
            if yp:
                if o == 'sdiv': return z3.If(X >= 0, X / Y, -((-X) / Y))
                return z3.If(X >= 0, X % Y, -((-X) % Y))
            aX = z3.If(X >= 0, X, -X); aY = z3.If(Y >= 0, Y, -Y)
            if o == 'sdiv': return z3.If((X >= 0) == (Y >= 0), aX / aY, -(aX / aY))
            return z3.If(X >= 0, aX % aY, -(aX % aY))
        if o in ('udiv', 'urem'):
            self.oblige(g, not_(eq(y, 0)), 'no division by zero', 'division', fr, dbg)
            X, Y = self.U(x, w, g), self.U(y, w, g)
            if isinstance(X, int) and isinstance(Y, int) and Y: return self.wrap(X // Y if o == 'udiv' else X % Y, w, g)
            r = (I(X) / I(Y)) if o == 'udiv' else (I(X) % I(Y))
            return self.wrap(r, w, g)
        if o in ('shl', 'lshr', 'ashr'):
            if not isinstance(y, int):
                self.oblige(g, z3.And(I(y) >= 0, I(y) < w), 'shift amount in range', 'overflow', fr, dbg)
                v = None
                for k in range(w - 1, -1, -1):
                    if self.rng.get(y)[1] is not None and k > self.rng.get(y)[1]: continue
                    t = self.intbin(o, x, k, w, flags, g.conj(eq(y, k)), fr, dbg)
                    v = t if v is None else self.vite(eq(y, k), t, v)
                return v
            if not (0 <= y < w):
                self.oblige(g, False, 'shift amount in range', 'overflow', fr, dbg); return self.fresh_int('shift', w)
            if o == 'shl':
                r = mul(x, 1 << y)
                if 'nsw' in flags and self.check_overflow:
                    self.oblige(g, True if self.in_rng(r, lo, hi) else z3.And(I(r) >= lo, I(r) <= hi), 'no signed overflow in shl', 'overflow', fr, dbg)
                    return r
                return self.wrap(r, w, g)
            if o == 'lshr':
                X = self.U(x, w, g)
                r = X >> y if isinstance(X, int) else X / (1 << y)
                return self.wrap(r, w, g)
            if isinstance(x, int): return x >> y
            return x / (1 << y)       # floor division = arithmetic shift
        if o in ('and', 'or', 'xor'):
            if isinstance(x, int): x, y = y, x
            if isinstance(x, int) and isinstance(y, int):
                return self.wrap({'and': x & y, 'or': x | y, 'xor': x ^ y}[o], w, g)
            if isinstance(y, int):
                if o == 'xor' and y == -1: return sub(-1, x)
                cb = is_boolint(x)
                if cb is not None:
                    t = {'and': (1 & y, 0), 'or': (1 | y, y), 'xor': (1 ^ y, y)}[o]
                    return ite(cb, t[0], t[1])
                m = y & ((1 << w) - 1)
                if o == 'or' and y == 0 or o == 'xor' and y == 0: return x
                X = self.U(x, w, g)
                # x & m by runs of ones
                r = 0; i = 0
                while i < w:
                    if m >> i & 1:
                        j = i
                        while j < w and m >> j & 1: j += 1
                        part = I(X) / (1 << i) if i else I(X)
                        if j < w: part = part % (1 << (j - i))
                        r = add(r, mul(1 << i, part)); i = j
                    else: i += 1
                if o == 'and': return self.wrap(r, w, g)
                t = add(X, sub(m, r)) if o == 'or' else add(X, sub(m, mul(2, r)))
                return self.wrap(t, w, g)
            cx, cy = is_boolint(x), is_boolint(y)
            if cx is not None and cy is not None:
                c = and_(cx, cy) if o == 'and' else or_(cx, cy) if o == 'or' else z3.Xor(cx, cy)
                return ite(c, 1, 0)
            # general: bit vectors
            bx = z3.Int2BV(I(x), w); by = z3.Int2BV(I(y), w)
            r = bx & by if o == 'and' else bx | by if o == 'or' else bx ^ by
            return z3.BV2Int(r, is_signed=True)
        raise Undecided('int op ' + o)

    def icmp(self, pred, ty, x, y, g):
        if ty == ('ptr',) or isinstance(x, Ptr) or isinstance(y, Ptr) or (isinstance(x, Bits) and x.kind == 'p') or (isinstance(y, Bits) and y.kind == 'p'):
            if isinstance(x, Bits): x = x.v
            if isinstance(y, Bits): y = y.v
            if isinstance(x, int): x = NULLP if x == 0 else BADP
            if isinstance(y, int): y = NULLP if y == 0 else BADP
            if x is UNDEF or y is UNDEF: return self.fresh_bool('undefcmp')
            conds = []
            unk = False
            for c1, r1, o1 in x.alts:
                for c2, r2, o2 in y.alts:
                    if r1 is BAD or r2 is BAD:
                        return self.fresh_bool('badcmp')
                    if r1 is r2:
                        if pred in ('eq', 'ne'): conds.append(and_(c1, c2, True if r1.kind in ('null', 'func') else eq(o1, o2)))
                        else: conds.append(and_(c1, c2, cmp({'u': {'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}.get(pred), 's': None}['u'], o1, o2)))
                    elif pred not in ('eq', 'ne'):
                        conds.append(and_(c1, c2, self.fresh_bool('ptrorder')))
            r = or_(*conds) if conds else False
            return not_(r) if pred == 'ne' else r
        w = ty[1]
        if w == 1:
            if pred == 'eq': return eq(x, y)
            if pred == 'ne': return not_(eq(x, y))
            x, y = ite(x, 1, 0), ite(y, 1, 0); w = 2
        x = self.toint(x, w); y = self.toint(y, w)
        if pred == 'eq': return eq(x, y)
        if pred == 'ne': return not_(eq(x, y))
        if pred[0] == 'u':
            x, y = self.U(x, w, g), self.U(y, w, g)
        return cmp({'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge'}[pred[1:]], x, y)

    def cast(self, o, st, dt, x, g, fr, dbg):
        dt = self.mod.resolve(dt); st = self.mod.resolve(st)
        if o in ('zext', 'sext'):
            if st == ('i', 1):
                if x is UNDEF: return UNDEF
                return ite(x, 1 if o == 'zext' else -1, 0)
            if isinstance(x, (Pieces, Bits)) and o == 'zext' and not (isinstance(x, Pieces) and all(p[2] == 'i' for p in x.ps)):
                raise Undecided('zext of bit pattern')
            x = self.toint(x, st[1])
            return x if o == 'sext' else self.U(x, st[1], g)
        if o == 'trunc':
            if isinstance(x, Pieces):
                n = self.mod.size(dt)
                return self.extract(x, 'i', x.size, 0, n)
            if isinstance(x, Bits) and x.kind == 'p':
                return self.fresh_int('ptrtrunc', dt[1]) if dt[1] > 1 else self.fresh_bool('ptrtrunc')
            x = self.toint(x, st[1])
            if dt == ('i', 1):
                c = is_boolint(x) if not isinstance(x, int) else None
                if isinstance(x, int): return bool(x & 1)
                if c is not None: return c
                a, b = self.rng.get(x)
                if a is not None and b is not None and a >= 0 and b <= 1: return eq(x, 1)
                return (I(x) % 2) == 1
            return self.wrap(x, dt[1], g)
        if o in ('bitcast', 'addrspacecast'):
            if st[0] == dt[0]: return x
            ks, _ = self.kind_of(st); kd, sz = self.kind_of(dt)
            return self.conv(x, ks, kd, sz)
        if o == 'ptrtoint':
            if isinstance(x, Ptr) and len(x.alts) == 1 and x.alts[0][1] is NULL: return x.alts[0][2]
            return Bits(x, 'p')
        if o == 'inttoptr':
            if isinstance(x, Bits) and x.kind == 'p': return x.v
            return absolute(x)
        if o in ('sitofp', 'uitofp'):
            if st == ('i', 1): x = ite(x, 1 if o == 'uitofp' else -1, 0)
            x = self.toint(x, st[1])
            if o == 'uitofp': x = self.U(x, st[1], g)
            if self.fmode == 'real': return z3.ToReal(I(x))
            if dt[0] == 'f80': return z3.Function('itof80', z3.IntSort(), z3.DeclareSort('F80'))(I(x))
            if isinstance(x, int): return self.fconst(float(x), dt[0])
            return z3.Function('itof' + dt[0], z3.IntSort(), self.fsort(dt[0]))(x)
        if o in ('fptosi', 'fptoui'):
            if self.fmode == 'real':
                r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                lo, hi = (-(1 << (dt[1] - 1)), (1 << (dt[1] - 1)) - 1) if o == 'fptosi' else (0, (1 << dt[1]) - 1)
                self.oblige(g, z3.And(r >= lo, r <= hi), 'float to int conversion in range', 'overflow', fr, dbg)
                return r
            r = z3.Function('ftoi%s_%d' % (st[0], dt[1]), self.fsort(st[0]), z3.IntSort())(x)
            self.rng.declare(r, -(1 << (dt[1] - 1)), (1 << (dt[1] - 1)) - 1)
            self.fact(z3.And(r >= -(1 << (dt[1] - 1)), r < (1 << (dt[1] - 1))))
            return r
        if o in ('fpext', 'fptrunc'):
            if self.fmode == 'real': return x
            s1 = {'f64': self.F64, 'f32': self.F32, 'f80': z3.DeclareSort('F80')}
            return z3.Function('%s_%s_%s' % (o, st[0], dt[0]), s1[st[0]], s1[dt[0]])(x)
        raise Undecided('cast ' + o)

    # function execution --------------------------------------------------------------
    def demangle_all(self):
        names = list(self.mod.functions)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split('\n')): self.demangled[n] = d

    def dem(self, n):
        if not self.demangled: self.demangle_all()
        return self.demangled.get(n, n)

    def find(self, regex):
        """defined functions whose demangled name matches"""
        if not self.demangled: self.demangle_all()
        return [n for n, d in self.demangled.items() if re.search(regex, d)]

    def add_contract(self, pat, h):
        """pat: exact mangled name, or compiled/str regex on the demangled name (prefix 're:')"""
        if pat.startswith('re:'): self.contract_res.insert(0, (re.compile(pat[3:]), h))
        else: self.contracts[pat] = h
        self._ccache = {}

    _ccache = None
    def contract_for(self, name):
        if self._ccache is None: self._ccache = {}
        if name in self._ccache: return self._ccache[name]
        h = self.contracts.get(name)
        if h is None:
            d = self.dem(name)
            for rx, hh in self.contract_res:
                if rx.search(d): h = hh; break
        self._ccache[name] = h
        return h

    def call(self, name, args, st, g, fr=None, dbg=None, rty=None, argtys=None, nocontract=False):
        name = self.mod.aliases.get(name, name)
        self.stats['calls'] += 1
        if not nocontract:
            h = self.contract_for(name)
            if h is not None:
                cc = CallCtx(self, name, args, st, g, fr, rty, argtys, dbg)
                r = h(cc)
                if r is not NotImplemented:
                    self.stats['contracts_used'].add(name)
                    return Outcome(cc.g, cc.st, r, cc.excs)
        f = self.mod.functions.get(name)
        if f is None or f.decl:
            return self.external(name, args, st, g, fr, rty, argtys, dbg)
        if len(self.callstack) > self.maxdepth: raise Undecided('recursion in %s needs a contract' % self.dem(name))
        return self.exec_function(f, args, st, g)

    def external(self, name, args, st, g, fr, rty, argtys, dbg):
        if name in self.pure_fns and rty[0] in ('f64', 'f32'):
            if self.fmode == 'real' and name in ('fabs', 'fabsf'):
                x = args[0]; return Outcome(g, st, z3.If(x >= 0, x, -x), [])
            aa = [I(a) if isinstance(a, int) else a for a in args]
            return Outcome(g, st, z3.Function(name, *[a.sort() for a in aa], self.fsort(rty[0]))(*aa), [])
        raise Undecided('call of external function %s without a contract' % self.dem(name))

    def exec_function(self, f, args, st, g):
        self.mod.body(f)
        self.stats['functions'].add(f.name)
        irparse.analyse(f)
        fr = Frame(f, args)
        for (ty, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                # callee owned copy
                t = at['byval']; size = self.mod.size(t)
                r = self.new_region('byval', 'cells', size); r.fresh_local = True; fr.locals_.append(r)
                st = st.clone() if False else st
                self.copy_mem(g, st, P1(r, 0), v, size, fr, None)
                v = P1(r, 0)
            fr.env[nm] = v
        if len(args) < len(f.params): raise Undecided('arity of ' + f.name)
        self.callstack.append(f.name)
        try:
            entry = f.order[0]
            back, exits = self.run_blocks(fr, None, {entry: [Edge(g, st, {})]}, set(f.order))
            assert not back and not exits
            for r in fr.locals_: r.dead = True
        finally:
            self.callstack.pop()
        if fr.rets:
            gg, conds = guard_or([r[0] for r in fr.rets])
            mst = self.merge_states(conds, [r[1] for r in fr.rets])
            v = fr.rets[-1][2]
            for c, r in zip(conds[:-1][::-1], fr.rets[:-1][::-1]): v = self.vite(c, r[2], v)
            out = Outcome(gg, mst, v, [])
        else:
            out = Outcome(FALSE, st, UNDEF, [])
        if fr.excs:
            gg, conds = guard_or([e[0] for e in fr.excs])
            est = self.merge_states(conds, [e[1] for e in fr.excs])
            x = fr.excs[-1][2]
            for c, e in zip(conds[:-1][::-1], fr.excs[:-1][::-1]): x = self.vite(c, e[2], x)
            out.excs = [(gg, est, x)]
        return out

    def run_blocks(self, fr, L, pending, blocks):
        rpo, num, loops, pred = fr.f._loops
        backs = []; exits = []
        def route(src, tgt, e):
            if e.g.is_false(): return
            if L is not None and tgt == L.header: backs.append(e); return
            if tgt in blocks: pending.setdefault(tgt, []).append(e)
            else: exits.append((tgt, e))
        for b in rpo:
            if b not in blocks or b not in pending: continue
            edges = pending.pop(b)
            if b in loops and (L is None or b != L.header):
                for tgt, e in self.exec_loop(fr, loops[b], edges):
                    route(None, tgt, e)
                continue
            self.exec_block(fr, b, edges, route)
        return backs, exits

    def make_edge(self, fr, src, tgt, g, st, exc=None):
        ph = {}
        for p in fr.f.blocks[tgt].phis:
            for v, b in p.a['inc']:
                if b == src:
                    ph[p.res] = self.val(fr, p.ty, v); break
        return Edge(g, st, ph, exc)

    def merge_edges(self, edges):
        if len(edges) == 1:
            e = edges[0]
            return e.g, e.st.clone(), dict(e.phis), e.exc
        g, conds = guard_or([e.g for e in edges])
        st = self.merge_states(conds, [e.st for e in edges])
        ph = {}
        for k in edges[0].phis:
            v = edges[-1].phis[k]
            for c, e in zip(conds[:-1][::-1], edges[:-1][::-1]): v = self.vite(c, e.phis[k], v)
            ph[k] = v
        exc = edges[-1].exc
        if exc is not None:
            for c, e in zip(conds[:-1][::-1], edges[:-1][::-1]): exc = self.vite(c, e.exc, exc)
        return g, st, ph, exc

    def val(self, fr, ty, v):
        if v[0] == 'local':
            try: return fr.env[v[1]]
            except KeyError: raise Undecided('undefined value %%%s in %s' % (v[1], fr.f.name))
        return self.const(ty, v)

    def exec_block(self, fr, b, edges, route):
        g, st, ph, exc = self.merge_edges(edges)
        if g.is_false(): return
        fr.env.update(ph)
        blk = fr.f.blocks[b]
        for ins in blk.ins:
            op = ins.op
            if ins.dbg: fr.lastdbg = ins.dbg
            self.stats['instrs'] += 1
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                self.terminator(fr, b, ins, g, st, exc, route)
                return
            if op == 'call':
                g = self.do_call(fr, ins, g, st, None, route, b)
                if isinstance(g, tuple): g, st = g
                if g.is_false(): return
                continue
            r = self.instr(fr, ins, g, st, exc)
            if ins.res is not None: fr.env[ins.res] = r
        raise Undecided('block without terminator')

    def cond_split(self, g, c):
        """returns guards for c / not c, pruning infeasible sides"""
        if isinstance(c, bool): return (g, FALSE) if c else (FALSE, g)
        g1, g2 = g.conj(c), g.conj(not_(c))
        if g1.is_false() or g2.is_false(): return g1, g2
        if self.prune:
            if self.quick(g, not_(c)): return FALSE, g
            if self.quick(g, c): return g, FALSE
        return g1, g2

    def terminator(self, fr, b, ins, g, st, exc, route):
        op = ins.op
        if op == 'br':
            if 'f' not in ins.a:
                route(b, ins.a['t'], self.make_edge(fr, b, ins.a['t'], g, st)); return
            c = self.val(fr, ('i', 1), ins.a['c'])
            if c is UNDEF: c = self.fresh_bool('undef')
            g1, g2 = self.cond_split(g, c)
            if not g1.is_false(): route(b, ins.a['t'], self.make_edge(fr, b, ins.a['t'], g1, st))
            if not g2.is_false(): route(b, ins.a['f'], self.make_edge(fr, b, ins.a['f'], g2, st.clone() if not g1.is_false() else st))
            return
        if op == 'switch':
            v = self.toint(self.val(fr, ins.ty, ins.a['v']))
            rest = g
            bytgt = {}
            for k, t in ins.a['cases']:
                k = self.wrap(k, ins.ty[1], TRUE)
                g1, rest = self.cond_split(rest, eq(v, k))
                if not g1.is_false(): route(b, t, self.make_edge(fr, b, t, g1, st.clone()))
                if rest.is_false(): break
            if not rest.is_false(): route(b, ins.a['default'], self.make_edge(fr, b, ins.a['default'], rest, st))
            return
        if op == 'ret':
            v = UNDEF if ins.a['v'] is None else self.val(fr, ins.ty, ins.a['v'])
            fr.rets.append((g, st, v)); return
        if op == 'unreachable':
            self.oblige(g, False, 'unreachable instruction is not reached', 'unreachable', fr, ins.dbg); return
        if op == 'resume':
            x = fr.env.get('__exc')
            fr.excs.append((g, st, x)); return
        if op == 'invoke':
            r = self.do_call(fr, ins, g, st, ins.a['unwind'], route, b)
            if isinstance(r, tuple): g, st = r
            else: g = r
            if not g.is_false(): route(b, ins.a['normal'], self.make_edge(fr, b, ins.a['normal'], g, st))
            return

    def do_call(self, fr, ins, g, st, unwind, route, b):
        callee = ins.a['f']
        args = [self.val(fr, ty, v) for ty, v, at in ins.a['args']]
        argtys = [a[0] for a in ins.a['args']]
        for i, (ty, v, at) in enumerate(ins.a['args']):
            if 'byval' in at and callee[0] == 'global' and (self.mod.functions.get(callee[1]) is None or self.mod.functions[callee[1]].decl):
                pass
        if callee[0] == 'global':
            targets = [(True, callee[1])]
        else:
            fp = self.val(fr, ('ptr',), callee)
            if isinstance(fp, Bits): fp = fp.v
            if not isinstance(fp, Ptr): raise Undecided('indirect call')
            targets = []
            for c, r, o in fp.alts:
                if r.kind != 'func':
                    self.oblige(g, not_(c), 'indirect call through a valid function pointer', 'memory', fr, ins.dbg); continue
                targets.append((c, r.fn))
        outs = []
        for c, name in targets:
            gg = g.conj(c)
            if gg.is_false(): continue
            s = st if len(targets) == 1 else st.clone()
            if name.startswith('llvm.'):
                r = self.intrinsic(name, args, s, gg, fr, ins)
                outs.append(Outcome(gg, s, r, []))
            else:
                outs.append(self.call_any(name, args, s, gg, fr, ins, argtys))
        # exceptional exits
        for o in outs:
            for eg, est, x in o.excs:
                if eg.is_false(): continue
                if unwind is None:
                    if 'nounwind' in ins.text.split(')')[-1]: pass
                    fr.excs.append((eg, est, x))
                else:
                    e = self.make_edge(fr, b, unwind, eg, est); e.exc = x
                    route(b, unwind, e)
        norm = [o for o in outs if not o.g.is_false()]
        if not norm: return FALSE
        if len(norm) == 1:
            o = norm[0]
            if ins.res is not None: fr.env[ins.res] = o.val
            return (o.g, o.st)
        gg, conds = guard_or([o.g for o in norm])
        mst = self.merge_states(conds, [o.st for o in norm])
        v = norm[-1].val
        for c, o in zip(conds[:-1][::-1], norm[:-1][::-1]): v = self.vite(c, o.val, v)
        if ins.res is not None: fr.env[ins.res] = v
        return (gg, mst)

    def call_any(self, name, args, st, g, fr, ins, argtys):
        h = getattr(self, 'b_' + name, None) if not name.startswith('_Z') else None
        if h is not None:
            cc = CallCtx(self, name, args, st, g, fr, ins.ty, argtys, ins.dbg)
            r = h(cc)
            return Outcome(cc.g, cc.st, r, cc.excs)
        return self.call(name, args, st, g, fr, ins.dbg, ins.ty, argtys)

    # runtime functions known to the generator ----------------------------------------
    def b___cxa_allocate_exception(self, c):
        n = c.args[0]
        r = self.new_region('exception', 'cells', n if isinstance(n, int) else None); r.fresh_local = True
        return P1(r, 0)
    def b___cxa_free_exception(self, c): return UNDEF
    def b___cxa_throw(self, c):
        ti = c.args[1].alts[0][1].name
        if ti.startswith('@'): ti = ti[1:]
        c.excs.append((c.g, c.st, Exc(self.typeid(ti), c.args[0])))
        c.g = FALSE
        return UNDEF
    def b___cxa_begin_catch(self, c):
        c.st.ghost[('exc',)] = c.fr.env.get('__exc')
        return c.args[0]
    def b___cxa_end_catch(self, c): return UNDEF
    def b___cxa_rethrow(self, c):
        x = c.st.ghost.get(('exc',)) or c.fr.env.get('__exc')
        c.excs.append((c.g, c.st, x)); c.g = FALSE
        return UNDEF
    def b___clang_call_terminate(self, c):
        self.oblige(c.g, False, 'std::terminate is not reached', 'unreachable', c.fr, c.dbg); c.g = FALSE
        return UNDEF
    def b_abort(self, c):
        self.oblige(c.g, False, 'abort is not reached', 'unreachable', c.fr, c.dbg); c.g = FALSE
        return UNDEF
    def b___assert_fail(self, c):
        self.oblige(c.g, False, 'assert() holds', 'assert', c.fr, c.dbg); c.g = FALSE
        return UNDEF
    def b__Znwm_(self, c): pass
    def b___cxa_guard_acquire(self, c): return 1
    def b___cxa_guard_release(self, c): return UNDEF
    def b___cxa_atexit(self, c): return 0
    def b_vp_assume(self, c):
        x = c.args[0]
        self.assume(c.g, x if isinstance(x, bool) or z3.is_bool(x) else not_(eq(self.toint(x), 0)))
        return UNDEF
    def b_vp_assert(self, c):
        x = c.args[0]
        self.oblige(c.g, x if isinstance(x, bool) or z3.is_bool(x) else not_(eq(self.toint(x), 0)), 'driver assertion', 'assert', c.fr, c.dbg)
        return UNDEF

    def intrinsic(self, name, args, st, g, fr, ins):
        n = name[5:]
        if n.startswith(('lifetime', 'dbg', 'invariant', 'assume', 'experimental.noalias', 'stackrestore', 'donothing', 'prefetch', 'var.annotation')): return UNDEF
        if n.startswith('expect'): return args[0]
        if n.startswith(('memcpy', 'memmove')):
            self.copy_mem(g, st, args[0], args[1], self.toint(args[2]), fr, ins.dbg); return UNDEF
        if n.startswith('memset'):
            self.set_mem(g, st, args[0], args[1], self.toint(args[2]), fr, ins.dbg); return UNDEF
        if n == 'trap' or n == 'ubsantrap':
            self.oblige(g, False, 'trap is not reached', 'unreachable', fr, ins.dbg); return UNDEF
        m = re.match(r'(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3)); x, y = self.toint(args[0]), self.toint(args[1])
            if m.group(1) == 'u': x, y = self.U(x, w, g), self.U(y, w, g); lo, hi = 0, (1 << w) - 1
            else: lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            r = {'add': add, 'sub': sub, 'mul': mul}[m.group(2)](x, y)
            ov = False if self.in_rng(r, lo, hi, g) else (not (lo <= r <= hi) if isinstance(r, int) else z3.Or(r < lo, r > hi))
            return [self.wrap(r, w, g), ov]
        m = re.match(r'(smax|smin|umax|umin)\.i(\d+)', n)
        if m:
            w = int(m.group(2)); x, y = self.toint(args[0]), self.toint(args[1])
            X, Y = (self.U(x, w, g), self.U(y, w, g)) if m.group(1)[0] == 'u' else (x, y)
            c = cmp('lt', X, Y)
            return ite(c, y, x) if m.group(1).endswith('max') else ite(c, x, y)
        if n.startswith('abs.i'):
            x = self.toint(args[0]); return ite(cmp('ge', x, 0), x, neg(x))
        m = re.match(r'(fabs|sqrt|pow|exp|log|sin|cos|floor|ceil|maxnum|minnum|log10|log2|exp2|copysign|round|trunc|powi|fma|fmuladd|rint|nearbyint)\.', n)
        if m:
            if self.fmode == 'real':
                if m.group(1) == 'fabs': return z3.If(args[0] >= 0, args[0], -args[0])
                if m.group(1) == 'maxnum': return z3.If(args[0] >= args[1], args[0], args[1])
                if m.group(1) == 'minnum': return z3.If(args[0] <= args[1], args[0], args[1])
                if m.group(1) in ('fmuladd', 'fma'): return args[0] * args[1] + args[2]
            if m.group(1) == 'fmuladd': return self.fbin('fadd', self.fbin('fmul', args[0], args[1]), args[2])
            nm = m.group(1)
            nm = {'maxnum': 'fmax', 'minnum': 'fmin'}.get(nm, nm) + ('f' if args[0].sort().eq(self.F32) and self.fmode != 'real' else '')
            aa = [I(a) if isinstance(a, int) else a for a in args]
            return z3.Function(nm, *[a.sort() for a in aa], args[0].sort())(*aa)
        if n.startswith('eh.typeid.for'):
            r = args[0].alts[0][1]
            if r is NULL: return 0
            return self.typeid(r.name[1:] if r.name[0] == '@' else r.name)
        if n.startswith('is.constant'): return False
        if n.startswith('objectsize'): return -1
        if n.startswith('stacksave'): return NULLP
        if n.startswith('threadlocal.address'): return args[0]
        raise Undecided('intrinsic ' + name)

    # memory blocks ------------------------------------------------------------------
    def single(self, p):
        if isinstance(p, Bits): p = p.v
        if len(p.alts) != 1: raise Undecided('block operation through an ambiguous pointer')
        return p.alts[0][1], p.alts[0][2]

    def copy_mem(self, g, st, dst, src, n, fr, dbg):
        if isinstance(n, int) and n == 0: return
        if isinstance(dst, Ptr) and len(dst.alts) > 1 or isinstance(src, Ptr) and len(src.alts) > 1:
            # guarded: only for small constant sizes
            if not isinstance(n, int) or n > 512: raise Undecided('block copy through an ambiguous pointer')
            step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            # find element kinds from the first alternative with known cells
            plan = self.copy_plan(st, src, n)
            vals = []
            for off, size, kind in plan:
                ty = {'i': ('i', 8 * size), 'p': ('ptr',), 'f64': ('f64',), 'f32': ('f32',), 'f80': ('f80',)}[kind]
                vals.append((off, ty, self.load(g, st, ty, self.padd(src, off), fr, dbg)))
            for off, ty, v in vals: self.store(g, st, ty, self.padd(dst, off), v, fr, dbg)
            return
        (rs, os_), (rd, od) = self.single(src), self.single(dst)
        self.access(g, src, n, 'memcpy read', fr, dbg); self.access(g, dst, n, 'memcpy write', fr, dbg)
        if rs.kind in ('null', 'bad') or rd.kind in ('null', 'bad'): return
        if not isinstance(os_, int) and rs.kind == 'cells':
            sv = z3.simplify(os_); os_ = sv.as_long() if z3.is_int_value(sv) else os_
        if not isinstance(od, int) and rd.kind == 'cells':
            sv = z3.simplify(od); od = sv.as_long() if z3.is_int_value(sv) else od
        if self.log is not None:
            self.log.append(('r', rs, os_, n, 'mem', g)); self.log.append(('w', rd, od, n, 'mem', g))
        if rs.kind == 'cells' and rd.kind == 'cells' and isinstance(n, int) and isinstance(os_, int) and isinstance(od, int):
            src_c = dict(st.cells.get(rs.id) or getattr(rs, 'symbacking', None) or {})
            new = []
            cov = [False] * n
            for o, (s, k, v) in src_c.items():
                if os_ <= o and o + s <= os_ + n:
                    new.append((o - os_, s, k, v))
                    for j in range(o - os_, o - os_ + s): cov[j] = True
                elif o < os_ + n and os_ < o + s:
                    a, b = max(o, os_), min(o + s, os_ + n)
                    new.append((a - os_, b - a, 'i', self.extract(v, k, s, a - o, b - a)))
                    for j in range(a - os_, b - os_): cov[j] = True
            # cells known only through the symbolic cache (inputs read before)
            for (o, s, k), v in rs.symcache.items():
                if os_ <= o and o + s <= os_ + n and not any(cov[o - os_:o - os_ + s]):
                    new.append((o - os_, s, k, v))
                    for j in range(o - os_, o - os_ + s): cov[j] = True
            if not all(cov) and rs.fresh_local is False and not rs.const:
                # unread input bytes: materialise them with the layout of the region if known
                lay = getattr(rs, 'layout', None)
                if lay:
                    for o, s, k in lay:
                        if os_ <= o and o + s <= os_ + n and not any(cov[o - os_:o - os_ + s]):
                            new.append((o - os_, s, k, self.default_cell(rs, o, s, k)))
                            for j in range(o - os_, o - os_ + s): cov[j] = True
            dc = st.wcells(rd.id)
            # clear the destination range
            for o in list(dc):
                s, k, v = dc[o]
                if o < od + n and od < o + s:
                    del dc[o]
                    if o < od: dc[o] = (od - o, 'i', self.extract(v, k, s, 0, od - o) if k == 'i' else UNDEF)
                    if o + s > od + n: dc[od + n] = (o + s - od - n, 'i', self.extract(v, k, s, od + n - o, o + s - od - n) if k == 'i' else UNDEF)
            # forget stale symbolic values of the destination
            for o, s, k, v in new: dc[od + o] = (s, k, v)
            j = 0
            while j < n:
                if not cov[j]:
                    e = j
                    while e < n and not cov[e]: e += 1
                    # uninitialised source bytes stay uninitialised (padding)
                    for a in range(j, e):
                        pass
                    j = e
                else: j += 1
            return
        if isinstance(n, int):
            reg = rs if rs.kind == 'array' else rd
            if reg.elem is None: raise Undecided('block copy: element type of %s unknown' % reg.name)
            kind, size = reg.elem
            if n % size: raise Undecided('block copy of a partial element')
            if n // size > 512: raise Undecided('block copy too long')
            vals = [self.load_region(g, st, rs, add(os_, j * size), size, kind, fr, dbg) for j in range(n // size)]
            for j, v in enumerate(vals): self.store_region(g, st, rd, add(od, j * size), size, kind, v, True, fr, dbg)
            return
        if rs.kind == 'array' and rd.kind == 'array' and rs.elem and rs.elem == rd.elem:
            kind, size = rs.elem
            so, do, cnt = divexact(os_, size), divexact(od, size), divexact(n, size)
            if None in (so, do, cnt): raise Undecided('block copy not element aligned')
            hk = (kind, size, 0)
            a = self.get_arr(st, rs, hk); d = self.get_arr(st, rd, hk)
            x = z3.Int(self.fresh_name('x'))
            if rd.elem_inv is not None: raise Undecided('block write to an array with an element invariant')
            st.arrs[(rd.id, hk)] = z3.Lambda([x], z3.If(z3.And(x >= I(do), x < I(do) + I(cnt)), z3.Select(a, x - I(do) + I(so)), z3.Select(d, x)))
            return
        raise Undecided('block copy of symbolic size %s from %s to %s' % (n, rs, rd))

    def copy_plan(self, st, src, n):
        best = []
        for c, r, o in src.alts:
            if r.kind == 'array' and r.elem:
                return [(k, r.elem[1], r.elem[0]) for k in range(0, n, r.elem[1])]
            if r.kind == 'cells' and isinstance(o, int):
                pl = [(a - o, s, k) for a, (s, k, v) in (st.cells.get(r.id) or {}).items() if o <= a and a + s <= o + n]
                pl += [(a - o, s, k) for (a, s, k) in r.symcache if o <= a and a + s <= o + n and (a - o) not in [p[0] for p in pl]]
                if len(pl) > len(best): best = pl
        if not best: best = [(k, 8, 'i') for k in range(0, n, 8)]
        return sorted(best)

    def set_mem(self, g, st, dst, byte, n, fr, dbg):
        if isinstance(n, int) and n == 0: return
        rd, od = self.single(dst)
        self.access(g, dst, n, 'memset', fr, dbg)
        if self.log is not None: self.log.append(('w', rd, od, n, 'mem', g))
        byte = self.toint(byte)
        if isinstance(byte, int) and byte == 0 and rd.kind == 'cells' and isinstance(n, int) and isinstance(od, int):
            dc = st.wcells(rd.id)
            o = od
            while o < od + n:
                s = 8
                while s > od + n - o or o % s: s //= 2
                self.write_cells(dc, o, s, 'z' if False else 'i', 0); o += s
            return
        if rd.kind == 'cells' and isinstance(n, int) and isinstance(od, int) and n <= 256:
            dc = st.wcells(rd.id)
            for j in range(n): self.write_cells(dc, od + j, 1, 'i', byte)
            return
        if rd.kind == 'array' and isinstance(byte, int) and byte == 0 and rd.elem:
            kind, size = rd.elem
            do, cnt = divexact(od, size), divexact(n, size)
            z = z3.IntVal(0) if kind == 'i' else self.fconst(0.0, kind)
            hk = (kind, size, 0); d = self.get_arr(st, rd, hk)
            x = z3.Int(self.fresh_name('x'))
            if rd.elem_inv is not None: raise Undecided('block write to an array with an element invariant')
            st.arrs[(rd.id, hk)] = z3.Lambda([x], z3.If(z3.And(x >= I(do), x < I(do) + I(cnt)), z, z3.Select(d, x)))
            return
        raise Undecided('memset')

    # straight-line instructions -----------------------------------------------------
    def instr(self, fr, ins, g, st, exc):
        op = ins.op; a = ins.a
        V = lambda ty, v: self.val(fr, ty, v)
        if op == 'bin':
            x, y = V(ins.ty, a['x']), V(ins.ty, a['y'])
            if a['o'][0] == 'f':
                if x is UNDEF: x = self.fresh_float('undef', ins.ty[0])
                if y is UNDEF: y = self.fresh_float('undef', ins.ty[0])
                if a['o'] == 'fdiv' and getattr(self, 'div_nonzero', False): self.assume(g, y != 0)     # a stated precondition
                return self.fbin(a['o'], x, y)
            return self.intbin(a['o'], x, y, ins.ty[1], ins.flags, g, fr, ins.dbg)
        if op == 'load': return self.load(g, st, ins.ty, V(('ptr',), a['p']), fr, ins.dbg)
        if op == 'store':
            self.store(g, st, ins.ty, V(('ptr',), a['p']), V(ins.ty, a['v']), fr, ins.dbg); return None
        if op == 'gep':
            return self.gep(ins.ty, V(('ptr',), a['base']), [(t, V(t, v)) for t, v in a['idx']], g)
        if op == 'icmp': return self.icmp(a['pred'], ins.ty, V(ins.ty, a['x']), V(ins.ty, a['y']), g)
        if op == 'fcmp': return self.fcmp(a['pred'], V(ins.ty, a['x']), V(ins.ty, a['y']))
        if op == 'fneg': return self.fneg(V(ins.ty, a['x']))
        if op == 'select':
            c = V(('i', 1), a['c']); return self.vite(c, V(ins.ty, a['x']), V(ins.ty, a['y']))
        if op == 'cast': return self.cast(a['o'], a['st'], ins.ty, V(a['st'], a['x']), g, fr, ins.dbg)
        if op == 'alloca':
            n = 1
            if a['n'] is not None: n = self.toint(V(a['n'][0], a['n'][1]))
            size = self.mod.size(ins.ty)
            r = self.new_region('%s:%s' % (fr.f.name[:40], ins.res), 'cells', mul(n, size) if not isinstance(n, int) else n * size)
            r.fresh_local = True; fr.locals_.append(r)
            return P1(r, 0)
        if op == 'extractvalue':
            v = V(ins.ty, a['v'])
            for i in a['idx']: v = v[i] if v is not UNDEF else UNDEF
            return v
        if op == 'insertvalue':
            v = V(ins.ty, a['v']); e = V(a['et'], a['ev'])
            def upd(v, idx):
                if not idx: return e
                v = list(v); v[idx[0]] = upd(v[idx[0]], idx[1:]); return v
            return upd(v, a['idx'])
        if op == 'freeze': return V(ins.ty, a['x'])
        if op == 'landingpad':
            if exc is None: raise Undecided('landingpad without exception')
            fr.env['__exc'] = exc
            sel = 0
            for kind, cv in a['clauses'][::-1]:
                if kind != 'catch': continue
                if cv[0] == 'null': sel = self.typeid('...any'); continue
                cname = cv[1][4:]
                cond = False
                for tn, tid in list(self.typeids.items()):
                    if cname in self.bases_of(tn): cond = or_(cond, eq(exc.tid, tid))
                sel = ite(cond, self.typeid(cname), sel)
            return [exc.ptr, sel]
        if op == 'atomicrmw':
            p = V(('ptr',), a['p']); v = V(ins.ty, a['v'])
            old = self.load(g, st, ins.ty, p, fr, ins.dbg)
            o = a['o']
            if o == 'xchg': nv = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'): nv = self.intbin(o, old, v, ins.ty[1], (), g, fr, ins.dbg)
            elif o in ('fadd', 'fsub'): nv = self.fbin(o, old, v)
            else: raise Undecided('atomicrmw ' + o)
            self.store(g, st, ins.ty, p, nv, fr, ins.dbg)
            return old
        if op == 'cmpxchg':
            p = V(('ptr',), a['p']); c = V(ins.ty, a['c']); n = V(ins.ty, a['n'])
            old = self.load(g, st, ins.ty, p, fr, ins.dbg)
            same = self.icmp('eq', ins.ty, old, c, g)
            self.store(g, st, ins.ty, p, self.vite(same, n, old), fr, ins.dbg)
            return [old, same]
        raise Undecided('instruction %s: %s' % (op, ins.text.strip()[:120]))

    # loops -------------------------------------------------------------------------
    def loop_spec(self, fr, L):
        d = None
        for rx, ordn, cb in self.loop_specs:
            if ordn is not None and ordn != L.ordinal: continue
            if d is None: d = self.dem(fr.f.name)
            if re.search(rx, d): return cb
        return None

    def exec_loop(self, fr, L, edges):
        g, st, ph, exc = self.merge_edges(edges)
        if g.is_false(): return []
        spec = self.loop_spec(fr, L)
        exits = []
        if spec is not None and getattr(spec, 'symbolic', False) and loops.concrete(self, fr, L, g, st, ph): spec = None
        if spec is None and self.auto_loops:
            r = loops.auto_loop(self, fr, L, g, st, ph)
            if r is not None: return r
        if spec is None or getattr(spec, 'unroll', False):
            for it in range(self.max_unroll + 1):
                backs, ex = self.run_blocks(fr, L, {L.header: [Edge(g, st, ph)]}, L.blocks)
                exits += ex
                if not backs: return exits
                g, st, ph, exc = self.merge_edges(backs)
                if g.is_false(): return exits
                if not self.prune or it >= 2:
                    if self.quick(g, False) if False else self.infeasible(g): return exits
                self.stats['unrolled'] += 1
            raise Undecided('loop %d of %s needs an invariant (not exhausted after %d iterations)' % (L.ordinal, self.dem(fr.f.name), self.max_unroll))
        return self.loop_invariant(fr, L, g, st, ph, spec)

    def infeasible(self, g):
        r = self.qcheck(g.lits)
        return r == z3.unsat

    def havoc_phi(self, p, v, name):
        ty = p.ty
        if ty[0] == 'i':
            if ty[1] == 1: return self.fresh_bool(name)
            if isinstance(v, Bits): return v
            return self.fresh_int(name, ty[1])
        if ty[0] in ('f64', 'f32'): return self.fresh_float(name, ty[0])
        if ty[0] == 'ptr':
            if isinstance(v, Ptr) and len(v.alts) == 1:
                c, r, o = v.alts[0]
                return P1(r, self.fresh_int(name + '.off'))
            raise Undecided('pointer loop variable with several targets')
        raise Undecided('loop variable of type %r' % (ty,))

    def snapshot(self): return (len(self.facts), len(self.obs))

    def loop_invariant(self, fr, L, g, st, ph, spec):
        phis = fr.f.blocks[L.header].phis
        def run(phv, s, gg):
            return self.run_blocks(fr, L, {L.header: [Edge(gg, s, phv)]}, L.blocks)
        def havoc(s, mods):
            s = s.clone()
            for m in mods:
                if m[0] == 'arr':
                    reg = self.regions[m[1]]
                    s.arrs[(m[1], m[2])] = z3.Array(self.fresh_name(reg.name), z3.IntSort(), self.sort_of(m[2][0]))
                elif m[0] == 'ghost':
                    if hasattr(s.ghost.get(m[1]), 'havoc'): s.ghost[m[1]] = s.ghost[m[1]].havoc(self)
                else:
                    _, rid, off, size, kind = m
                    c = s.wcells(rid)
                    if kind == 'p':
                        old = self.read_cells(self.regions[rid], c, off, size, kind)
                        if isinstance(old, Ptr) and len(old.alts) == 1 and old.alts[0][1].kind not in ('null', 'bad'):
                            self.write_cells(c, off, size, kind, P1(old.alts[0][1], self.fresh_int('hv.off')))
                        else: self.write_cells(c, off, size, kind, BADP)
                    else:
                        self.write_cells(c, off, size, kind, self.fresh_kind('hv', kind, size))
            return s
        # 1. discover what the body modifies, and linear inductions (probe runs, no obligations)
        mods = {}
        ind = {}
        existing = set(self.regions)
        while True:
            woffs = {}      # positions in arrays that the generic iteration writes
            nf, no = len(self.facts), len(self.obs)
            self.qpush(); self.probing += 1
            oldlog, self.log = self.log, []
            nrets, nexcs = len(fr.rets), len(fr.excs)
            memo_rng = dict(self.rng.var)
            try:
                pv = {p.res: (self.havoc_phi(p, ph[p.res], 'pr.' + p.res)) for p in phis}
                s1 = havoc(st, mods.values())
                for p in phis:
                    if p.res in ind:
                        pass
                gs0 = dict(s1.ghost)
                backs, ex = run(dict(pv), s1, g)
                new = False
                for kind_, r, off, size, kind, gg in self.log:
                    if kind_ != 'w' or r.id not in existing: continue
                    if r.kind == 'array':
                        if kind == 'mem':
                            if r.elem is None: raise Undecided('block write in loop')
                            kind, size = r.elem
                        hk = (kind, size, 0)
                        if r.fields:
                            hk, _ = self.heap_idx(g, r, off, size, kind, fr, None)
                        key = ('arr', r.id, hk); woffs.setdefault(key, []).append(off)
                        if key not in mods: mods[key] = key; new = True
                    else:
                        if kind == 'mem':
                            offs = [(o, s, k) for o, (s, k, v) in (backs[0].st.cells.get(r.id, {}) if backs else {}).items() if isinstance(off, int) and off <= o < off + size]
                        elif isinstance(off, int): offs = [(off, size, kind)]
                        else:
                            l, c0 = lin(off)
                            offs = [(o, size, kind) for o in range(c0 % size, r.size - size + 1, size)]
                        for o, s, k in offs:
                            key = ('cell', r.id, o)
                            if key not in mods: mods[key] = ('cell', r.id, o, s, k); new = True
                gst = [b.st for b in backs]
                for b in gst:
                    for k, v in b.ghost.items():
                        if k in gs0 and v is not gs0[k] and ('ghost', k) not in mods and hasattr(v, 'havoc'):
                            mods[('ghost', k)] = ('ghost', k); new = True
                if backs and not new:
                    bg, bst, bph, _ = self.merge_edges(backs)
                    for p in phis:
                        if p.ty[0] == 'i' and p.ty[1] > 1 and not isinstance(bph[p.res], (Bits, Pieces)):
                            d = z3.simplify(I(bph[p.res]) - I(pv[p.res])) if not isinstance(pv[p.res], Bits) else None
                            if d is not None and z3.is_int_value(d): ind[p.res] = d.as_long()
                            elif d is not None and not getattr(spec, 'opaque', False) and self.loop_constant(d, pv): ind[p.res] = d
                        elif p.ty[0] == 'ptr' and isinstance(bph[p.res], Ptr) and len(bph[p.res].alts) == 1:
                            if bph[p.res].alts[0][1] is pv[p.res].alts[0][1]:
                                d = z3.simplify(I(bph[p.res].alts[0][2]) - I(pv[p.res].alts[0][2]))
                                if z3.is_int_value(d): ind[p.res] = d.as_long()
            finally:
                self.probing -= 1; self.log = oldlog
                del self.facts[nf:]; del self.obs[no:]
                self.qpop(); self.rng.var = memo_rng; self.rng.memo.clear()
                del fr.rets[nrets:]; del fr.excs[nexcs:]
            if not new: break
        # 2. the generic iteration
        lc = LoopCtx(self, fr, L)
        lc.args = fr.args; lc.phis0 = dict(ph); lc.st0 = st; lc.g = g; lc.ind = ind; lc.mods = mods; lc.woffs = woffs
        lc.it = 0; lc.phis = dict(ph); lc.st = st
        lname = 'loop %d of %s' % (L.ordinal, self.dem(fr.f.name).split('(')[0][:80])
        def closed(lx, gg, when):
            for key, fn in getattr(lx, 'closed', {}).items():
                k = self.fresh_int('k', None); r = self.regions[key[1]]
                a = lx.st.arrs.get((key[1], key[2]))
                if a is None: a = self.get_arr(lx.st, r, key[2])
                idx = []; todo = [a]; seen = set(); S = r.fields or key[2][1]
                while todo:     # the positions written since the contents were last described, one by one; then all others
                    x = todo.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_store(x):
                        todo.append(x.arg(0))
                        if not any(x.arg(1).eq(j) for j in idx): idx.append(x.arg(1))
                    elif z3.is_app_of(x, z3.Z3_OP_ITE): todo += [x.arg(1), x.arg(2)]
                inr = lambda j: and_(cmp('ge', j, 0), cmp('lt', mul(j, S), r.size)) if r.size is not None else cmp('ge', j, 0)
                for j in idx: self.oblige(gg, implies(inr(j), self.select(a, j) == fn(j)), '%s: the contents of %s %s' % (lname, r.name, when), 'invariant', fr)
                self.oblige(gg, implies(and_(inr(k), *[not_(eq(k, j)) for j in idx]), self.select(a, k) == fn(k)), '%s: the other contents of %s %s' % (lname, r.name, when), 'invariant', fr)
        for nm, c in spec(lc): self.oblige(g, c, '%s: invariant "%s" holds initially' % (lname, nm), 'invariant', fr)
        closed(lc, g, 'hold initially')
        it = self.fresh_int('it', None, 0, None)
        pv = {}
        for p in phis:
            v0 = ph[p.res]
            if p.res in ind:
                if p.ty[0] == 'ptr':
                    c, r, o = v0.alts[0]; pv[p.res] = P1(r, add(o, mul(ind[p.res], it)))
                else:
                    t = add(self.toint(v0), mul(ind[p.res], it))
                    pv[p.res] = t
                    w = p.ty[1]
                    if not isinstance(t, int):
                        # a value of the machine type (the previous iteration's no-overflow obligation)
                        self.assume(g, z3.And(t >= -(1 << (w - 1)), t <= (1 << (w - 1)) - 1))
            else: pv[p.res] = self.havoc_phi(p, v0, p.res)
        s1 = havoc(st, mods.values())
        lg = LoopCtx(self, fr, L)
        lg.args = fr.args; lg.phis0 = dict(ph); lg.st0 = st; lg.g = g; lg.ind = ind; lg.mods = mods; lg.woffs = woffs
        lg.it = it; lg.phis = dict(pv); lg.st = s1.clone(); lg.generic = True
        for nm, c in spec(lg): self.assume(g, c, quant=has_quant(c))
        for key, fn in getattr(lg, 'closed', {}).items():
            k = z3.Int(self.fresh_name('k')); s1.arrs[(key[1], key[2])] = z3.Lambda([k], fn(k))
        self._enter_generic(lg)
        m0 = getattr(lg, 'measure', None)
        backs, exits = run(dict(pv), s1, g)
        if backs:
            bg, bst, bph, _ = self.merge_edges(backs)
            lb = LoopCtx(self, fr, L)
            lb.args = fr.args; lb.phis0 = dict(ph); lb.st0 = st; lb.g = bg; lb.ind = ind; lb.mods = mods; lb.woffs = woffs
            lb.it = add(it, 1); lb.phis = bph; lb.st = bst
            for p in phis:
                if p.res in ind:
                    if p.ty[0] == 'ptr':
                        self.oblige(bg, eq(bph[p.res].alts[0][2], add(pv[p.res].alts[0][2], ind[p.res])), '%s: induction variable' % lname, 'invariant', fr)
                    else: self.oblige(bg, eq(bph[p.res], add(pv[p.res], ind[p.res])), '%s: induction variable' % lname, 'invariant', fr)
            for nm, c in spec(lb): self.oblige(bg, c, '%s: invariant "%s" is preserved' % (lname, nm), 'invariant', fr)
            closed(lb, bg, 'are preserved')
            m1 = getattr(lb, 'measure', None)
            if m0 is not None:
                self.oblige(bg, and_(cmp('ge', m0, 0), cmp('lt', m1, m0)), '%s: measure decreases' % lname, 'termination', fr)
        return exits

    def _enter_generic(self, lg): pass

    def loop_constant(self, d, pv):
        vs = set(v.get_id() for v in pv.values() if isinstance(v, z3.AstRef))
        st = [d]
        while st:
            x = st.pop()
            if x.get_id() in vs: return False
            if x.num_args() == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm.startswith('hv!') : return False
            if z3.is_select(x): return False
            st += x.children()
        return True

def has_quant(c):
    if isinstance(c, bool): return False
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_forall() or x.is_exists(): return True
            st.append(x.body()); continue
        st += x.children()
    return False

import loops
