"""Parser for the subset of LLVM 18 textual IR that clang -O0 (+mem2reg) emits.

Nothing is interpreted here: the result is a plain data structure (Module, Function,
Block, Instr).  An instruction the parser does not know raises IRError; the check
that needs that function then reports its obligations as undischarged.
"""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<float>-?\d+\.\d+(?:e[-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            t = m.group()
            if k in ('local', 'global', 'comdat') and len(t) > 1 and t[1] == '"':
                t = t[0] + unesc_name(t[2:-1])
            out.append((k, t))
        i = m.end()
    return out

def unesc_name(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)

def unesc_bytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and re.match(r'[0-9A-Fa-f]{2}', s[i+1:i+3]):
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

# types ------------------------------------------------------------------
PTR = ('ptr',); VOID = ('void',); F64 = ('f64',); F32 = ('f32',); F80 = ('f80',)
I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'flags')
    def __init__(self, op, res=None, ty=None, a=None, dbg=None, text='', flags=()):
        self.op = op; self.res = res; self.ty = ty; self.a = a or {}; self.dbg = dbg; self.text = text; self.flags = flags
    def __repr__(self): return self.text.strip()

class Block:
    def __init__(self, name):
        self.name = name; self.phis = []; self.ins = []
    def succs(self):
        t = self.ins[-1]
        o = t.op
        if o == 'br':
            return [t.a['t']] if 'f' not in t.a else [t.a['t'], t.a['f']]
        if o == 'switch':
            return [t.a['default']] + [b for _, b in t.a['cases']]
        if o == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

class Function:
    def __init__(self, name, ret, params, internal=False):
        self.name = name; self.ret = ret; self.params = params; self.blocks = {}; self.order = []
        self.decl = False; self.dbg = None; self.varargs = False
        self._loops = None
    def __repr__(self): return 'Function(%s)' % self.name

class Global:
    def __init__(self, name, ty, init, const, external):
        self.name = name; self.ty = ty; self.init = init; self.const = const; self.external = external

FNATTR_WORDS = {'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'private', 'external', 'weak', 'available_externally',
                'linkonce', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'common',
                'appending', 'extern_weak', 'fastcc', 'ccc', 'coldcc', 'dso_preemptable', 'dllimport', 'dllexport',
                'externally_initialized'}
PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'byref', 'preallocated',
                    'inalloca', 'elementtype', 'memory', 'nofpclass', 'range', 'allocsize', 'captures'}
PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
              'returned', 'immarg', 'inreg', 'nest', 'swiftself', 'allocalign', 'allocptr', 'align', 'nofree', 'noinline',
              'immarg', 'writable', 'dead_on_unwind', 'noext', 'nounwind'} | PARAM_ATTR_PAREN
LINKAGE = FNATTR_WORDS

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')
    def next(self):
        x = self.peek(); self.i += 1; return x
    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise IRError('expected %r got %r in %r' % (s, x, ' '.join(t[1] for t in self.t)))
    def end(self): return self.i >= len(self.t)

    def type(self):
        k, t = self.next()
        if k == 'word':
            if t == 'ptr':
                ty = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif t == 'void': ty = VOID
            elif t == 'double': ty = F64
            elif t == 'float': ty = F32
            elif t == 'x86_fp80': ty = F80
            elif t in ('label', 'metadata', 'token', 'opaque'): ty = (t,)
            elif t[0] == 'i' and t[1:].isdigit(): ty = ('i', int(t[1:]))
            else: raise IRError('type? ' + t)
        elif k == 'local':
            ty = ('named', t[1:])
        elif t == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); ty = ('arr', n, e)
        elif t == '{':
            fs = []
            if not self.eat('}'):
                fs.append(self.type())
                while self.eat(','): fs.append(self.type())
                self.expect('}')
            ty = ('struct', tuple(fs), False)
        elif t == '<':
            if self.eat('{'):
                fs = []
                if not self.eat('}'):
                    fs.append(self.type())
                    while self.eat(','): fs.append(self.type())
                    self.expect('}')
                self.expect('>')
                ty = ('struct', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); ty = ('vec', n, e)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(x[1] for x in self.t)))
        # function type  ret (args)
        if self.peek()[1] == '(' and ty is not None and self._looks_functype():
            self.expect('(')
            args = []; va = False
            if not self.eat(')'):
                while True:
                    if self.eat('...'): va = True
                    else:
                        args.append(self.type()); self.attrs()
                    if self.eat(')'): break
                    self.expect(',')
            ty = ('func', ty, tuple(args), va)
        return ty

    def _looks_functype(self):
        # called only in call position: "call void (ptr, ...) @f(": after '(' comes a type or ')' or '...'
        k, t = self.peek(1)
        return t in (')', '...', 'ptr', 'double', 'float', 'void', '{', '[', '<', 'metadata') or (k == 'word' and re.match(r'i\d+$', t)) or (k == 'local')

    def attrs(self):
        out = {}
        while True:
            k, t = self.peek()
            if k == 'word' and t in PARAM_ATTR:
                self.next()
                if t == 'align' and self.peek()[0] == 'int':
                    out['align'] = int(self.next()[1]); continue
                if self.peek()[1] == '(' and t in PARAM_ATTR_PAREN:
                    self.next()
                    if t in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                        out[t] = self.type(); self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            if x == '(': d += 1
                            elif x == ')': d -= 1
                            elif x == '': raise IRError('attr paren')
                        out[t] = True
                else:
                    out[t] = True
            elif k == 'attr': self.next()
            elif k == 'str':
                self.next()
                if self.eat('='): self.next()
            else: return out

    def value(self, ty):
        k, t = self.next()
        if k == 'local': return ('local', t[1:])
        if k == 'global': return ('global', t[1:])
        if k == 'int': return ('int', int(t))
        if k == 'hex':
            return ('fbits', t)
        if k == 'float':
            return ('fdec', t)
        if k == 'cstr': return ('cstr', unesc_bytes(t[2:-1]))
        if k == 'word':
            if t == 'true': return ('int', 1)
            if t == 'false': return ('int', 0)
            if t == 'null': return ('null',)
            if t in ('undef', 'poison'): return ('undef',)
            if t == 'none': return ('undef',)
            if t == 'zeroinitializer': return ('zero',)
            if t in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if t == 'asm':
                raise IRError('inline asm')
            # constant expression
            fl = set()
            while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange', 'nusw'):
                fl.add(self.next()[1])
                if self.peek()[1] == '(' and 'inrange' in fl and self.peek(1)[0] == 'int':
                    while self.next()[1] != ')': pass
            self.expect('(')
            if t == 'getelementptr':
                bt = self.type(); self.expect(',')
                ops = []
                while True:
                    if self.peek()[1] == 'inrange': self.next()
                    ot = self.type(); ov = self.value(ot); ops.append((ot, ov))
                    if self.eat(')'): break
                    self.expect(',')
                return ('ce', 'gep', bt, ops)
            if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                ot = self.type(); ov = self.value(ot); self.expect('to'); dt = self.type(); self.expect(')')
                return ('ce', t, ot, ov, dt)
            if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                ot = self.type(); a = self.value(ot); self.expect(','); ot2 = self.type(); b = self.value(ot2); self.expect(')')
                return ('ce', t, ot, a, b)
            if t in ('icmp',):
                raise IRError('ce icmp')
            raise IRError('constant expr ' + t)
        if t == '{' or (t == '<' and self.peek()[1] == '{') or t == '[' or t == '<':
            closing = {'{': '}', '[': ']', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek()[1] == '{':
                self.next(); packed = True; closing = '}'
            items = []
            if not self.eat(closing):
                while True:
                    et = self.type(); items.append((et, self.value(et)))
                    if self.eat(closing): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', items)
        if k == 'meta':
            # metadata operand
            if self.peek()[1] == '(':
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            return ('meta', t)
        raise IRError('value? %r in %s' % ((k, t), ' '.join(x[1] for x in self.t)))

    def tv(self):
        ty = self.type(); self.attrs()
        if ty == ('metadata',):
            # skip a metadata operand
            d = 0
            while True:
                k, t = self.peek()
                if d == 0 and t in (',', ')') : break
                if t in ('(', '{', '['): d += 1
                if t in (')', '}', ']'): d -= 1
                self.next()
            return ty, ('meta', '')
        return ty, self.value(ty)

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.functions = {}; self.meta = {}; self.aliases = {}
        self.ctors = []
        self._size = {}
        self._parse(text)

    # layout ---------------------------------------------------------------
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            w = ty[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'ptr' or k == 'f64': return 8
        if k == 'f32': return 4
        if k == 'f80': return 16
        if k == 'arr': return self.align(ty[2])
        if k == 'vec':
            s = self.size(ty); a = 1
            while a < s: a *= 2
            return a
        if k == 'struct':
            if ty[2]: return 1
            return max([self.align(f) for f in ty[1]] or [1])
        raise IRError('align %r' % (ty,))

    def size(self, ty):
        if ty in self._size: return self._size[ty]
        r = self._sizeof(self.resolve(ty))
        self._size[ty] = r
        return r

    def _sizeof(self, ty):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k in ('ptr', 'f64'): return 8
        if k == 'f32': return 4
        if k == 'f80': return 16
        if k == 'arr': return ty[1] * self.size(ty[2])
        if k == 'vec': return ty[1] * self.size(ty[2])
        if k == 'struct':
            o = 0
            for f in ty[1]:
                if not ty[2]:
                    a = self.align(f); o = (o + a - 1) // a * a
                o += self.size(f)
            if not ty[2]:
                a = self.align(ty); o = (o + a - 1) // a * a
            return o
        raise IRError('size %r' % (ty,))

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        o = 0
        for j, f in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(f); o = (o + a - 1) // a * a
            if j == i: return o
            o += self.size(f)
        raise IRError('field')

    # parsing ----------------------------------------------------------------
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        self._pending = []
        while i < n:
            l = lines[i]
            if not l or l[0] == ';' or l.startswith('source_filename') or l.startswith('target') or l.startswith('module asm') or l.startswith('attributes') or l.startswith('$') or l.startswith('uselistorder'):
                i += 1; continue
            if l[0] == '%':
                p = P(tokenize(l), self)
                name = p.next()[1][1:]; p.expect('='); p.expect('type')
                if p.peek()[1] == 'opaque': self.types[name] = ('struct', (), False)
                else: self.types[name] = p.type()
                i += 1; continue
            if l[0] == '@':
                self._global(l); i += 1; continue
            if l[0] == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: self.meta[m.group(1)] = m.group(2)
                i += 1; continue
            if l.startswith('declare'):
                self._header(l, True); i += 1; continue
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                try:
                    f = self._header(l, False)
                    f._body = lines[i+1:j]
                except IRError as e:
                    raise IRError(str(e) + ' in header ' + l[:200])
                i = j + 1; continue
            i += 1

    def _global(self, l):
        p = P(tokenize(l), self)
        name = p.next()[1][1:]; p.expect('=')
        external = False
        while True:
            k, t = p.peek()
            if k == 'word' and t in ('global', 'constant', 'alias', 'ifunc'): break
            if t in ('external', 'extern_weak', 'available_externally'): external = True
            p.next()
            if t == 'thread_local' and p.peek()[1] == '(':
                while p.next()[1] != ')': pass
            if k == 'eof': raise IRError('global ' + l)
        kind = p.next()[1]
        if kind == 'alias':
            ty = p.type(); p.eat(','); 
            t2 = p.type(); v = p.value(t2)
            self.aliases[name] = v[1]
            return
        ty = p.type()
        init = None
        if not p.end() and p.peek()[1] != ',':
            try:
                init = p.value(ty)
            except IRError:
                init = None
        g = Global(name, ty, init, kind == 'constant', external)
        self.globals[name] = g
        if name == 'llvm.global_ctors' and init and init[0] == 'agg':
            for et, ev in init[1]:
                self.ctors.append(ev[1][1][1][1])

    def _header(self, l, decl):
        m = re.search(r'!dbg !(\d+)', l)
        dbg = m.group(1) if m else None
        p = P(tokenize(l.rstrip('{ ')), self)
        p.next()
        while True:
            k, t = p.peek()
            if k == 'word' and t in LINKAGE: p.next(); continue
            break
        p.attrs()
        k, t = p.peek()
        ret = p.type() if True else None
        name = p.next()
        if name[0] != 'global':
            raise IRError('fn name')
        name = name[1][1:]
        p.expect('(')
        params = []; va = False
        if not p.eat(')'):
            while True:
                if p.eat('...'): va = True
                else:
                    ty = p.type(); at = p.attrs()
                    nm = None
                    if p.peek()[0] == 'local': nm = p.next()[1][1:]
                    elif ty == ('metadata',):
                        pass
                    params.append((ty, nm, at))
                if p.eat(')'): break
                p.expect(',')
        f = Function(name, ret, params)
        f.decl = decl; f.dbg = dbg; f.varargs = va
        if not decl or name not in self.functions:
            self.functions[name] = f
        f._body = None
        return f

    def body(self, f):
        """parse the body lazily"""
        if f.blocks or f.decl: return f
        lines = f._body
        # parameters without names get consecutive numbers
        c = 0
        ps = []
        for ty, nm, at in f.params:
            if nm is None: nm = str(c)
            if nm.isdigit(): c = int(nm) + 1
            ps.append((ty, nm, at))
        f.params = ps
        entry = str(c)
        cur = None
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = m.group(1)
                if nm[0] == '"': nm = unesc_name(nm[1:-1])
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); continue
            if cur is None:
                cur = Block(entry); f.blocks[entry] = cur; f.order.append(entry)
            # join continuation lines
            if re.search(r'^\s*(%\S+ = )?switch ', l) and ']' not in l:
                while ']' not in lines[i]:
                    l += ' ' + lines[i]; i += 1
                l += ' ' + lines[i]; i += 1
            elif re.search(r'= invoke |^\s*invoke ', l):
                l += ' ' + lines[i]; i += 1
            elif ' = landingpad ' in l:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    l += ' ' + lines[i]; i += 1
            ins = self._instr(l)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        f._body = None
        return f

    def loc(self, dbg, depth=0):
        """line number of a !dbg id"""
        if dbg is None: return None
        m = self.meta.get(dbg)
        if not m: return None
        mm = re.search(r'line: (\d+)', m)
        line = int(mm.group(1)) if mm else None
        file = None
        sc = re.search(r'scope: !(\d+)', m)
        seen = 0
        cur = m
        while seen < 12:
            fm = re.search(r'file: !(\d+)', cur)
            if fm:
                fmeta = self.meta.get(fm.group(1), '')
                ff = re.search(r'filename: "([^"]*)"', fmeta)
                file = ff.group(1) if ff else None
                break
            sc = re.search(r'scope: !(\d+)', cur)
            if not sc: break
            cur = self.meta.get(sc.group(1), ''); seen += 1
        return (file, line)

    def _instr(self, l):
        m = re.search(r', !dbg !(\d+)', l)
        dbg = m.group(1) if m else None
        p = P(tokenize(l), self)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = p.next()[1][1:]; p.next()
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        I = lambda op, ty=None, flags=(), **a: Instr(op, res, ty, a, dbg, l, flags)
        flags = set()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                flags.add(p.next()[1])
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return I('bin', ty, flags, o=op, x=a, y=b)
        if op == 'fneg':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            ty = p.type(); return I('fneg', ty, x=p.value(ty))
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.next()
            pred = p.next()[1]; ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return I(op, ty, pred=pred, x=a, y=b)
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type(); cnt = None
            while p.eat(','):
                if p.peek()[1] == 'align': p.next(); p.next()
                elif p.peek()[0] == 'meta': break
                else: cnt = p.tv()
            return I('alloca', ty, n=cnt)
        if op == 'load':
            p.eat('atomic'); vol = p.eat('volatile')
            ty = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
            return I('load', ty, p=v)
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); d = p.value(pt)
            return I('store', ty, v=v, p=d)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): flags.add(p.next()[1])
            bt = p.type(); p.expect(','); pt = p.type(); base = p.value(pt)
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta': break
                it = p.type(); idx.append((it, p.value(it)))
            return I('gep', bt, flags, base=base, idx=idx)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return I('br', t=p.next()[1][1:])
            ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); t = p.next()[1][1:]
            p.expect(','); p.expect('label'); f = p.next()[1][1:]
            if t == f: return I('br', t=t)
            return I('br', c=c, t=t, f=f)
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1][1:]
            p.expect('['); cases = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1][1:]))
            return I('switch', ty, v=v, default=d, cases=cases)
        if op == 'ret':
            ty = p.type()
            if ty == VOID: return I('ret', ty, v=None)
            return I('ret', ty, v=p.value(ty))
        if op == 'unreachable': return I('unreachable')
        if op == 'resume':
            ty = p.type(); return I('resume', ty, v=p.value(ty))
        if op in ('call', 'invoke'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc') or p.peek()[1] in LINKAGE: p.next()
            p.attrs()
            ty = p.type()
            if ty[0] == 'func': rty = ty[1]
            else: rty = ty
            if p.peek()[1] == 'asm':
                return I('asm', rty)
            kk = p.peek()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    aty = p.type(); at = p.attrs()
                    if aty == ('metadata',):
                        d = 0
                        while True:
                            x = p.peek()[1]
                            if d == 0 and x in (',', ')'): break
                            if x in ('(', '{', '['): d += 1
                            if x in (')', '}', ']'): d -= 1
                            p.next()
                        args.append((aty, ('undef',), at))
                    else:
                        args.append((aty, p.value(aty), at))
                    if p.eat(')'): break
                    p.expect(',')
            if callee[0] == 'global' and callee[1].startswith('llvm.dbg'): return None
            a = dict(f=callee, args=args)
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    if p.end(): raise IRError('invoke to')
                    p.next()
                p.next(); p.expect('label'); a['normal'] = p.next()[1][1:]
                p.expect('unwind'); p.expect('label'); a['unwind'] = p.next()[1][1:]
            return Instr(op, res, rty, a, dbg, l)
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = p.next()[1][1:]; p.expect(']')
                inc.append((v, b))
                if not (p.peek()[1] == ',' and p.peek(1)[1] == '['): break
                p.next()
            return I('phi', ty, inc=inc)
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            ct, c = p.tv(); p.expect(','); t1, a = p.tv(); p.expect(','); t2, b = p.tv()
            return I('select', t1, c=c, x=a, y=b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            st = p.type(); v = p.value(st); p.expect('to'); dt = p.type()
            return I('cast', dt, o=op, st=st, x=v)
        if op == 'extractvalue':
            ty = p.type(); v = p.value(ty); idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta': break
                idx.append(int(p.next()[1]))
            return I('extractvalue', ty, v=v, idx=idx)
        if op == 'insertvalue':
            ty = p.type(); v = p.value(ty); p.expect(','); et = p.type(); ev = p.value(et); idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta': break
                idx.append(int(p.next()[1]))
            return I('insertvalue', ty, v=v, et=et, ev=ev, idx=idx)
        if op == 'freeze':
            ty = p.type(); return I('freeze', ty, x=p.value(ty))
        if op == 'landingpad':
            ty = p.type()
            clauses = []
            cleanup = False
            while not p.end():
                k, t = p.next()
                if t == 'cleanup': cleanup = True
                elif t == 'catch':
                    ct = p.type(); clauses.append(('catch', p.value(ct)))
                elif t == 'filter':
                    ct = p.type(); clauses.append(('filter', p.value(ct)))
                elif t == ',' : break
            return I('landingpad', ty, cleanup=cleanup, clauses=clauses)
        if op == 'atomicrmw':
            p.eat('volatile')
            rop = p.next()[1]; pt = p.type(); ptr = p.value(pt); p.expect(','); ty = p.type(); v = p.value(ty)
            return I('atomicrmw', ty, o=rop, p=ptr, v=v)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            pt = p.type(); ptr = p.value(pt); p.expect(','); ty = p.type(); c = p.value(ty); p.expect(','); ty2 = p.type(); nv = p.value(ty2)
            return I('cmpxchg', ty, p=ptr, c=c, n=nv)
        if op == 'fence': return None
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg', 'catchpad'):
            return I('unsupported', o=op)
        return I('unsupported', o=op)

def parse_file(path):
    with open(path) as f:
        return Module(f.read())

# loop forest ----------------------------------------------------------------
class Loop:
    def __init__(self, header):
        self.header = header; self.blocks = set([header]); self.latches = set(); self.parent = None; self.ordinal = None

def analyse(f):
    """RPO order (back edges removed) and natural loops.  Irreducible graphs raise."""
    if f._loops is not None: return f._loops
    succ = {b: f.blocks[b].succs() for b in f.order}
    entry = f.order[0]
    # RPO by iterative DFS
    seen = set(); post = []
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while num[a] > num[c]: a = idom[a]
                    while num[c] > num[a]: c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dom(s, b): raise IRError('irreducible control flow in ' + f.name)
                L = loops.setdefault(s, Loop(s)); L.latches.add(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); wl += pred[x]
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i+1:]:
            if l.header in m.blocks and m is not l:
                l.parent = m; break
    # topological order that keeps every loop contiguous is not required: see Exec.run_region
    for i, h in enumerate(b for b in f.order if b in loops):
        loops[h].ordinal = i
    f._loops = (rpo, num, loops, pred)
    return f._loops
