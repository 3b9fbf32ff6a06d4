"""Reader for textual LLVM-18 IR (opaque pointers), as printed by opt -S.

Only what the analyses need: types with x86-64 layout, globals with their
initialisers, functions parsed lazily into instruction objects, debug
locations, and demangled names.
"""
import re, subprocess, os, sys, functools

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@$][-a-zA-Z$._0-9]+
 | \#\d+
 | ![-a-zA-Z$._0-9]*(?:"(?:[^"\\]|\\.)*")?
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+
 | \.\.\.
 | [a-zA-Z_][-a-zA-Z$._0-9]*
 | [][(){}<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', '_size', '_align', '_offs', 'name')

    def __init__(self, k, n=0, el=None, packed=False, name=None):
        self.k, self.n, self.el, self.packed, self.name = k, n, el, packed, name
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or ('{%s}' % ', '.join(map(repr, self.el or [])))
        return self.k

    def layout(self):
        if self._size is not None: return
        k = self.k
        if k == 'int':
            b = (self.n + 7) // 8
            s = 1
            while s < b: s *= 2
            self._size, self._align = s, min(s, 16)
        elif k == 'ptr': self._size, self._align = 8, 8
        elif k == 'float': self._size, self._align = 4, 4
        elif k == 'double': self._size, self._align = 8, 8
        elif k == 'x86_fp80': self._size, self._align = 16, 16
        elif k in ('void', 'label', 'metadata', 'func'): self._size, self._align = 0, 1
        elif k == 'arr' or k == 'vec':
            self.el.layout()
            self._size, self._align = self.n * self.el._size, self.el._align
        elif k == 'struct':
            off, al, offs = 0, 1, []
            for e in (self.el or []):
                e.layout()
                a = 1 if self.packed else e._align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += e._size
                al = max(al, a)
            self._size, self._align, self._offs = (off + al - 1) // al * al, al, offs
        else:
            self._size, self._align = 8, 8

    @property
    def size(self):
        if self._size is None: self.layout()
        return self._size

    @property
    def offs(self):
        if self._size is None: self.layout()
        return self._offs


INTS = {}


def int_ty(n):
    t = INTS.get(n)
    if t is None: t = INTS[n] = Ty('int', n)
    return t


PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
FLOAT = Ty('float'); DOUBLE = Ty('double'); FP80 = Ty('x86_fp80')
BASE = {'ptr': PTR, 'void': VOID, 'label': LABEL, 'metadata': META, 'float': FLOAT,
        'double': DOUBLE, 'x86_fp80': FP80, 'half': Ty('half'), 'fp128': FP80, 'token': META}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'fn', 'idx', 'bb')

    def __init__(self, op, res, ty, a, x=None, dbg=None):
        self.op, self.res, self.ty, self.a, self.x, self.dbg = op, res, ty, a, x, dbg
        self.fn = self.idx = self.bb = None

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self.parsed = False
        self.params = []      # (name, ty)
        self.blocks = {}
        self.entry = None
        self.subprogram = None

    @property
    def is_decl(self): return self.body is None

    @property
    def pretty(self): return self.mod.demangled(self.name)

    def ensure(self):
        if not self.parsed:
            self.mod._parse_func(self)
        return self


# operand kinds: ('i', int)  ('r', regname)  ('g', globalname)  ('null',) ('undef',)
#   ('zero',) ('f', float) ('ce', op, ty, operands) ('agg', [ (ty,operand) ]) ('str', bytes)
class Parser:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1
        return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise SyntaxError('expected %r got %r in %s' % (s, self.peek(), ' '.join(self.t[max(0, self.i-12):self.i+8])))

    def type(self):
        t = self.next()
        if t in BASE: r = BASE[t]
        elif t[0] == 'i' and t[1:].isdigit(): r = int_ty(int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = Ty('arr', n, e)
        elif t == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            r = Ty('struct', el=els)
        elif t == '<':
            if self.accept('{'):
                els = []
                if not self.accept('}'):
                    while True:
                        els.append(self.type())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                r = Ty('struct', el=els, packed=True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = Ty('vec', n, e)
        elif t[0] == '%':
            r = self.m.named_type(t[1:].strip('"'))
        else:
            raise SyntaxError('type %r in %s' % (t, ' '.join(self.t[max(0, self.i-12):self.i+8])))
        if self.peek() == '(' and r is not None and self._looks_fnty():
            # function type: T (args...)
            self.next()
            while not self.accept(')'):
                if self.accept('...') or self.accept(','): continue
                self.type()
            r = Ty('func', el=[r])
        return r

    def _looks_fnty(self):
        # only used right after call's return type: "i32 (ptr, ...) @f("
        j = self.i + 1
        nxt = self.t[j] if j < len(self.t) else ''
        if nxt == '...' or nxt in BASE or (nxt[0] == 'i' and nxt[1:].isdigit()):
            return True
        return False

    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%': return ('r', t[1:].strip('"'))
        if c == '@': return ('g', t[1:].strip('"'))
        if t == 'true': return ('i', 1)
        if t == 'false': return ('i', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('null',)
        if c == 'c' and t[1:2] == '"': return ('str', unescape(t[2:-1]))
        if t.startswith('0x'):
            return ('f', t)
        if c == '-' or c.isdigit():
            if '.' in t or 'e' in t: return ('f', float(t))
            v = int(t)
            if ty.k == 'int': v &= (1 << ty.n) - 1
            return ('i', v)
        if t in ('getelementptr',):
            flags = []
            while self.peek() in ('inbounds', 'nuw', 'nusw') or (self.peek() or '').startswith('inrange'):
                self.next()
                if self.peek() == '(' and False: pass
            self.expect('(')
            st = self.type()
            ops = []
            while self.accept(','):
                self.accept('inrange')
                ot = self.type(); ops.append((ot, self.value(ot)))
            self.expect(')')
            return ('ce', 'gep', st, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ot = self.type(); v = self.value(ot); self.expect('to'); rt = self.type(); self.expect(')')
            return ('ce', t, rt, [(ot, v)])
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'icmp', 'select'):
            while self.peek() != '(': self.next()
            self.expect('(')
            ops = []
            while True:
                ot = self.type(); ops.append((ot, self.value(ot)))
                if not self.accept(','): break
            self.expect(')')
            return ('ce', t, ops[0][0], ops)
        if t == '[' or t == '{':
            close = ']' if t == '[' else '}'
            els = []
            if not self.accept(close):
                while True:
                    et = self.type(); els.append((et, self.value(et)))
                    if self.accept(close): break
                    self.expect(',')
            return ('agg', els)
        if t == '<':
            if self.accept('{'):
                els = []
                while True:
                    et = self.type(); els.append((et, self.value(et)))
                    if self.accept('}'): break
                    self.expect(',')
                self.expect('>')
                return ('agg', els)
            els = []
            while True:
                et = self.type(); els.append((et, self.value(et)))
                if self.accept('>'): break
                self.expect(',')
            return ('agg', els)
        if c == '!':
            # metadata operand
            if self.peek() == '(':
                depth = 0
                while True:
                    x = self.next()
                    if x == '(': depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0: break
            elif self.peek() == '{':
                while self.next() != '}': pass
            return ('meta',)
        if t == 'asm': return ('asm',)
        if t in ('no_cfi', 'dso_local_equivalent'):
            return self.value(ty)
        if ty is META:
            return ('meta',)
        raise SyntaxError('value %r in %s' % (t, ' '.join(self.t[max(0, self.i-12):self.i+8])))

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None: return
            if t in ATTRS:
                self.next()
                if self.peek() == '(' and t in PAREN_ATTRS:
                    self.paren()
                elif t == 'align':
                    if self.peek() and self.peek().isdigit(): self.next()
            elif t.startswith('#'):
                self.next()
            elif t[0] == '"' :
                self.next()
                if self.accept('='): self.next()
            else:
                return

    def paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return


ATTRS = set('''noundef nonnull align dereferenceable dereferenceable_or_null signext zeroext inreg byval sret
 noalias nocapture readonly readnone writeonly returned immarg allocalign allocptr nofree swiftself nest
 inalloca captures noext range dead_on_unwind writable initializes
 fastcc ccc tailcc dso_local local_unnamed_addr unnamed_addr hidden protected default linkonce_odr internal weak_odr
 private external weak linkonce available_externally extern_weak common appending preemptable
 nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds disjoint volatile thread_local nneg samesign
 cold noreturn nounwind willreturn comdat gc mustprogress noinline optnone'''.split())
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'inalloca', 'captures', 'range',
               'initializes', 'comdat', 'align', 'thread_local', 'nofpclass'}
ATTRS.add('nofpclass')


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1', 'replace') if not isinstance(s, bytes) else s
    while i < len(b):
        if b[i] == 0x5c:
            if b[i+1:i+2] == b'\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(b[i+1:i+3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


MDSUFFIX = re.compile(r',\s*!(dbg|tbaa|prof|srcloc|noundef|range|nonnull|align|llvm\.loop|heapallocsite|callees|noalias|alias\.scope|invariant\.load|fpmath|nosanitize|tbaa\.struct|annotation|unpredictable|make\.implicit|dereferenceable|noalias|loop)\s+(![-\w.]+|![{][^}]*[}])')


class Module:
    def __init__(self, text, label=''):
        self.label = label
        self.types = {}
        self.type_src = {}
        self.globals = {}      # name -> (ty, initoperand or None, is_const)
        self.global_src = {}
        self.funcs = {}
        self.md = {}
        self._dem = {}
        self._loc = {}
        self._split(text)

    # -- splitting -------------------------------------------------------
    def _split(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                name = self._fname(L)
                self.funcs[name] = Func(self, name, L, lines[i+1:j])
                i = j + 1
                continue
            if L.startswith('declare '):
                name = self._fname(L)
                self.funcs[name] = Func(self, name, L, None)
            elif L.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*(.*)', L)
                self.global_src[m.group(1).strip('"')] = m.group(2)
            elif L.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*type\s+(.*)', L)
                self.type_src[m.group(1).strip('"')] = m.group(2)
            elif L.startswith('!'):
                k = L.find(' = ')
                self.md[L[:k]] = L[k+3:]
            i += 1

    def _fname(self, L):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', L)
        return m.group(1).strip('"')

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = self.types[name] = Ty('struct', el=None, name=name)
            src = self.type_src.get(name)
            if src and not src.startswith('opaque'):
                p = Parser(self, TOK.findall(src))
                r = p.type()
                t.el, t.packed = r.el, r.packed
        return t

    # -- demangling --------------------------------------------------------
    def demangled(self, name):
        if not self._dem: self._demangle_all()
        r = self._dem.get(name)
        return r if r is not None else name

    def _demangle_all(self):
        names = list(self.funcs)
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(names, out): self._dem[a] = b

    # -- globals -------------------------------------------------------------
    def global_(self, name):
        g = self.globals.get(name)
        if g is None:
            src = self.global_src.get(name)
            if src is None: return None
            toks = TOK.findall(src)
            p = Parser(self, toks)
            isconst = None
            while True:
                t = p.peek()
                if t in ('constant', 'global'):
                    isconst = (t == 'constant'); p.next(); break
                if t == 'alias':
                    self.globals[name] = (PTR, ('undef',), False)
                    return self.globals[name]
                p.next()
                if t in ('thread_local', 'addrspace') and p.peek() == '(': p.paren()
            ty = p.type()
            init = None
            if p.peek() not in (None, ',', ):
                try: init = p.value(ty)
                except SyntaxError: init = ('undef',)
            g = self.globals[name] = (ty, init, isconst)
        return g

    def thread_local(self, name): return ' thread_local' in (self.global_src.get(name) or '')[:300].split('{')[0]

    def find_type_by_suffix(self, suf):
        return [k for k in self.type_src if k.endswith(suf)]

    # -- functions -----------------------------------------------------------
    def _parse_func(self, f):
        hdr = f.header
        m = re.search(r'!dbg (!\d+)', hdr)
        f.subprogram = m.group(1) if m else None
        toks = TOK.findall(re.sub(r' !dbg !\d+', '', hdr))
        p = Parser(self, toks)
        p.next()
        while True:
            t = p.peek()
            if t in ATTRS: p.skip_attrs()
            else: break
        f.ret = p.type()
        p.next()  # name
        p.expect('(')
        idx = 0
        f.vararg = False
        while not p.accept(')'):
            if p.accept(','): continue
            if p.accept('...'):
                f.vararg = True; continue
            ty = p.type()
            # sret / byval detection
            j = p.i
            p.skip_attrs()
            attrs = p.t[j:p.i]
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()[1:].strip('"')
            else:
                nm = str(idx)
            f.params.append((nm, ty, 'sret' in attrs, 'byval' in attrs))
            idx += 1
        if f.body is None:
            f.parsed = True
            return
        cur = None
        k = 0
        body = f.body
        while k < len(body):
            L = body[k]; k += 1
            if not L or L.startswith(';'): continue
            if not L.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', L)
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                if f.entry is None: f.entry = cur
                continue
            if cur is None:
                cur = str(len(f.params)) ; f.entry = cur; f.blocks[cur] = []
            s = L.strip()
            if s.startswith('switch') and s.endswith('['):
                while True:
                    nx = body[k].strip(); k += 1
                    s += ' ' + nx
                    if nx.startswith(']'): break
            if 'call void @llvm.dbg.' in s or s.startswith('#dbg'): continue
            inst = self._parse_inst(s)
            if inst is None: continue
            inst.fn = f; inst.bb = cur; inst.idx = len(f.blocks[cur])
            f.blocks[cur].append(inst)
        f.parsed = True
        self._loops(f)

    def _loops(self, f):
        # DFS back edges -> loop heads
        succ = {b: self.succs(ins[-1]) if ins else [] for b, ins in f.blocks.items()}
        f.succ = succ
        color, heads = {}, set()
        st = [(f.entry, iter(succ[f.entry]))]
        color[f.entry] = 1
        order = []
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif c == 1:
                    heads.add(s)
            else:
                color[b] = 2; order.append(b); st.pop()
        f.heads = heads
        pred = {}
        for b in order:
            for t in succ[b]: pred.setdefault(t, set()).add(b)
        rank = {b: i for i, b in enumerate(reversed(order))}
        f.body = {}
        for h in heads:
            body, todo = {h}, [u for u in pred.get(h, ()) if rank[u] >= rank[h]]
            while todo:
                u = todo.pop()
                if u not in body: body.add(u); todo += pred.get(u, ())
            f.body[h] = body
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        # liveness of registers at block entry
        use, dfn = {}, {}
        for b, ins in f.blocks.items():
            u, d = set(), set()
            for i in ins:
                if i.op == 'phi':
                    if i.res: d.add(i.res)
                    continue
                for r in operand_regs(i):
                    if r not in d: u.add(r)
                if i.res: d.add(i.res)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        rorder = list(reversed(order))
        phiuse = {}
        for b, ins in f.blocks.items():
            for i in ins:
                if i.op != 'phi': break
                for v, pb in i.x:
                    if v[0] == 'r': phiuse.setdefault((pb, b), set()).add(v[1])
        while ch:
            ch = False
            for b in rorder:
                o = set()
                for s in succ[b]:
                    o |= live[s]
                    o |= phiuse.get((b, s), set())
                nl = use[b] | (o - dfn[b])
                if nl != live[b]:
                    live[b] = nl; ch = True
        f.live_in = live
        # induction phis
        for b in heads:
            for i in f.blocks[b]:
                if i.op != 'phi': break

    @staticmethod
    def succs(i):
        if i.op == 'br': return [i.x[0]]
        if i.op == 'condbr': return list(i.x)
        if i.op == 'switch': return [i.x[0]] + [t for _, t in i.x[1]]
        if i.op == 'invoke': return [i.x[-2], i.x[-1]]
        return []

    def _parse_inst(self, s):
        dbg = None
        if ', !' in s:
            for m in MDSUFFIX.finditer(s):
                if m.group(1) == 'dbg': dbg = m.group(2)
            s = MDSUFFIX.sub('', s)
        res = None
        m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*', s)
        if m:
            res = m.group(1).strip('"'); s = s[m.end():]
        toks = TOK.findall(s)
        p = Parser(self, toks)
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'call':
            return self._call(p, res, dbg)
        if op == 'load':
            atomic = p.accept('atomic')
            p.accept('volatile')
            ty = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            return Inst('load', res, ty, [a], atomic, dbg)
        if op == 'store':
            atomic = p.accept('atomic')
            p.accept('volatile')
            ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); a = p.value(pt)
            return Inst('store', None, ty, [v, a], atomic, dbg)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            st = p.type(); p.expect(',')
            pt = p.type(); base = p.value(pt)
            idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            return Inst('gep', res, st, [base], idx, dbg)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); t = p.next()[1:].strip('"')
                return Inst('br', None, VOID, [], [t], dbg)
            ty = p.type(); c = p.value(ty)
            p.expect(','); p.expect('label'); t = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); e = p.next()[1:].strip('"')
            return Inst('condbr', None, ty, [c], [t, e], dbg)
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1:].strip('"')))
            return Inst('switch', None, ty, [v], [d, cases], dbg)
        if op == 'ret':
            ty = p.type()
            a = [] if ty is VOID else [p.value(ty)]
            return Inst('ret', None, ty, a, None, dbg)
        if op == 'phi':
            p.skip_attrs()
            ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            return Inst('phi', res, ty, [], inc, dbg)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type(); cnt = ('i', 1)
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type(); cnt = p.value(ct)
            return Inst('alloca', res, ty, [cnt], None, dbg)
        if op == 'icmp' or op == 'fcmp':
            p.skip_attrs()
            pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Inst(op, res, ty, [a, b], pred, dbg)
        if op == 'select':
            p.skip_attrs()
            ct = p.type(); c = p.value(ct); p.expect(',')
            ty = p.type(); a = p.value(ty); p.expect(','); ty2 = p.type(); b = p.value(ty2)
            return Inst('select', res, ty, [c, a, b], None, dbg)
        if op in BINOPS:
            p.skip_attrs()
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Inst('bin', res, ty, [a, b], op, dbg)
        if op in CASTS:
            p.skip_attrs()
            ty = p.type(); a = p.value(ty); p.expect('to'); rt = p.type()
            return Inst('cast', res, rt, [a], (op, ty), dbg)
        if op == 'extractvalue':
            ty = p.type(); a = p.value(ty); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst('extractvalue', res, ty, [a], idx, dbg)
        if op == 'insertvalue':
            ty = p.type(); a = p.value(ty); p.expect(','); et = p.type(); v = p.value(et); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst('insertvalue', res, ty, [a, v], idx, dbg)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); ty = p.type(); v = p.value(ty)
            return Inst('atomicrmw', res, ty, [a, v], o, dbg)
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile'); pt = p.type(); a = p.value(pt); p.expect(',')
            ty = p.type(); c = p.value(ty); p.expect(','); ty2 = p.type(); n = p.value(ty2)
            return Inst('cmpxchg', res, ty, [a, c, n], None, dbg)
        if op == 'fence': return None
        if op == 'unreachable': return Inst('unreachable', None, VOID, [], None, dbg)
        if op == 'freeze':
            ty = p.type(); a = p.value(ty)
            return Inst('freeze', res, ty, [a], None, dbg)
        if op == 'fneg':
            p.skip_attrs(); ty = p.type(); a = p.value(ty)
            return Inst('fneg', res, ty, [a], None, dbg)
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg', 'landingpad', 'resume', 'invoke'):
            return Inst('other', res, PTR, [], op, dbg)
        raise SyntaxError('inst %s: %s' % (op, s))

    def _call(self, p, res, dbg):
        p.skip_attrs()
        ty = p.type()
        p.skip_attrs()
        if ty.k == 'func': ty = ty.el[0]
        elif p.peek() == '(' :
            # void (...) style with non trivially recognised args
            p.paren()
        callee = p.next()
        if callee == 'asm':
            return Inst('call', res, ty, [], (('asm',), []), dbg)
        c = ('g', callee[1:].strip('"')) if callee[0] == '@' else ('r', callee[1:].strip('"')) if callee[0] == '%' else ('undef',)
        p.expect('(')
        args = []
        while not p.accept(')'):
            if p.accept(','): continue
            at = p.type()
            if at is META:
                args.append((at, ('meta',), False))
                # consume metadata operand
                d = 0
                while True:
                    x = p.peek()
                    if d == 0 and x in (',', ')'): break
                    if x in ('(', '{'): d += 1
                    if x in (')', '}'): d -= 1
                    p.next()
                continue
            j = p.i
            p.skip_attrs()
            attrs = p.t[j:p.i]
            args.append((at, p.value(at), 'byval' in attrs))
        return Inst('call', res, ty, [], (c, args), dbg)

    # -- debug ---------------------------------------------------------------
    def loc(self, dbg):
        """(file, line) of a !dbg id"""
        if dbg is None: return ('?', 0)
        r = self._loc.get(dbg)
        if r is None:
            s = self.md.get(dbg, '')
            m = re.search(r'inlinedAt: (!\d+)', s)
            if m:
                # code expanded from a library template is reported at its caller
                r = self._loc[dbg] = self.loc(m.group(1))
                return r
            m = re.search(r'line: (\d+)', s); line = int(m.group(1)) if m else 0
            m = re.search(r'scope: (!\d+)', s)
            r = self._loc[dbg] = (self._scope_file(m.group(1)) if m else '?', line)
        return r

    def _scope_file(self, sc):
        s = self.md.get(sc, '')
        m = re.search(r'file: (!\d+)', s)
        if m: return self._file(m.group(1))
        m = re.search(r'scope: (!\d+)', s)
        return self._scope_file(m.group(1)) if m else '?'

    def _file(self, fid):
        s = self.md.get(fid, '')
        m = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', s)
        if not m: return '?'
        return os.path.normpath(os.path.join(m.group(2), m.group(1)))

    def func_loc(self, f):
        f.ensure()
        s = self.md.get(f.subprogram or '', '')
        m = re.search(r'line: (\d+)', s)
        return (self._scope_file(f.subprogram) if f.subprogram else '?', int(m.group(1)) if m else 0)

    def enumerators(self, qualified_tail):
        """{name: value} of the C++ enumeration whose DI name is qualified_tail"""
        out = {}
        for k, s in self.md.items():
            if 'DW_TAG_enumeration_type' in s and re.search(r'name: "%s"' % re.escape(qualified_tail), s):
                m = re.search(r'elements: (!\d+)', s)
                if not m: continue
                cur = {}
                for e in re.findall(r'!\d+', self.md.get(m.group(1), '')):
                    mm = re.search(r'DIEnumerator\(name: "([^"]+)", value: (-?\d+)', self.md.get(e, ''))
                    if mm: cur[mm.group(1)] = int(mm.group(2))
                yield_id = s
                out[k] = cur
        return out

    def members(self, identifier):
        """{member: (byte offset, byte size)} of the class with that mangled type name"""
        cache = self.__dict__.setdefault('_members', {})
        r = cache.get(identifier)
        if r is not None: return r
        out = {}
        for k, s in self.md.items():
            if 'DICompositeType' in s and 'identifier: "%s"' % identifier in s and 'flags: DIFlagFwdDecl' not in s:
                m = re.search(r'elements: (!\d+)', s)
                if not m: continue
                for e in re.findall(r'!\d+', self.md.get(m.group(1), '')):
                    t = self.md.get(e, '')
                    mm = re.search(r'DW_TAG_member, name: "([^"]+)"', t)
                    if mm and 'DIFlagStaticMember' not in t:
                        o = re.search(r'offset: (\d+)', t); z = re.search(r'size: (\d+)', t)
                        out[mm.group(1)] = (int(o.group(1)) // 8 if o else 0, int(z.group(1)) // 8 if z else 0)
        cache[identifier] = out
        return out


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc',
         'fpext', 'addrspacecast'}


def operand_regs(i):
    def rec(v, out):
        if v is None: return
        if v[0] == 'r': out.append(v[1])
        elif v[0] == 'agg':
            for _, e in v[1]: rec(e, out)
        elif v[0] == 'ce':
            for _, e in v[3]: rec(e, out)
    out = []
    for v in i.a: rec(v, out)
    if i.op == 'gep':
        for _, v in i.x: rec(v, out)
    elif i.op == 'call':
        rec(i.x[0], out)
        for a in i.x[1]: rec(a[1], out)
    return out


# -- base names -----------------------------------------------------------------
@functools.lru_cache(None)
def base_name(dem):
    """std::filesystem::__cxx11::path::path<...>(...)  ->  std::filesystem::path::path
       Strips return type, template arguments, parameters, inline namespaces, abi tags."""
    s = dem
    # protect operators
    s = s.replace('operator<<', 'operator$SHL').replace('operator>>', 'operator$SHR') \
         .replace('operator<=', 'operator$LE').replace('operator>=', 'operator$GE') \
         .replace('operator->', 'operator$ARROW').replace('operator()', 'operator$CALL')
    s = re.sub(r'operator<(?![a-zA-Z_:])', 'operator$LT', s)
    s = re.sub(r'operator>(?![a-zA-Z_:])', 'operator$GT', s)
    s = s.replace("'lambda", "$lambda").replace('(anonymous namespace)', '$anon')
    s = re.sub(r'\{lambda\([^{}]*\)(#\d+)?\}', '$lambda', s)
    out, depth = [], 0
    i = 0
    # remove <...>
    while i < len(s):
        c = s[i]
        if c == '<': depth += 1
        elif c == '>' and s[i-1] != '-': depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    s = ''.join(out)
    # cut the parameter list: the last top level '(' that is not followed by more name
    # lambdas demangle as foo(args)::'lambda'(args)::operator()(args) const
    res, depth = [], 0
    for c in s:
        if c == '(': depth += 1
        elif c == ')': depth -= 1
        elif depth == 0: res.append(c)
    s = ''.join(res)
    s = re.sub(r'\[abi:\w+\]', '', s)
    s = re.sub(r'\s+const\b|\s+&+|\s+volatile\b', '', s)
    s = s.strip()
    # drop the return type
    if ' ' in s:
        m = re.search(r'operator (.*)$', s)
        if m:
            head = s[:m.start()]
            k = head.rfind(' ')
            s = s[k+1:]
        else:
            s = s.rsplit(' ', 1)[1]
    s = s.replace('::__cxx11', '').replace('::__1', '').replace('::_V2', '')
    s = s.replace('operator$SHL', 'operator<<').replace('operator$SHR', 'operator>>').replace('operator$LE', 'operator<=') \
         .replace('operator$GE', 'operator>=').replace('operator$ARROW', 'operator->').replace('operator$CALL', 'operator()') \
         .replace('operator$LT', 'operator<').replace('operator$GT', 'operator>')
    return s


def load(path, label=''):
    with open(path, encoding='latin-1') as f:
        return Module(f.read(), label)


if __name__ == '__main__':
    import time
    t = time.time()
    m = load(sys.argv[1])
    print('split', time.time() - t)
    t = time.time()
    n = 0
    for f in m.funcs.values():
        f.ensure()
        for b in f.blocks.values(): n += len(b)
    for g in m.global_src: m.global_(g)
    print('parse', time.time() - t, n, 'insts', len(m.funcs), 'funcs')
