"""C26: evaluation of the MIR of the Rust binding (watcher-rs/src/lib.rs) over histories of its use. The crate is compiled to MIR by rustc, against
declarations made from the C header (as bindgen makes them); it is not run. The C library, the channel and the standard library are models."""
import json, math, os, re, shutil, struct, subprocess
import build
from chk_event import NAMES, Report

FILE = 'watcher-rs/src/lib.rs'
HEADER = 'watcher-c/include/wtr/watcher-c.h'
UNK, NULL = ('unk',), ('null',)
CT = {'int8_t': 'i8', 'uint8_t': 'u8', 'int16_t': 'i16', 'uint16_t': 'u16', 'int32_t': 'i32', 'uint32_t': 'u32', 'int': 'i32', 'unsigned int': 'u32', 'int64_t': 'i64', 'uint64_t': 'u64', 'long': 'i64', 'unsigned long': 'u64',
      'char': 'i8', '_Bool': 'bool', 'bool': 'bool', 'void': '()', 'float': 'f32', 'double': 'f64', 'size_t': 'usize'}


class Panic(Exception): pass
class Unsup(Exception): pass
class Dangling(Exception): pass


# ------------------------------------------------------------------ what bindgen makes of the header
def rtype(t):
    t = t.strip()
    if t.endswith('const'): return rtype(t[:-5])
    if t.endswith('*'):
        i = t[:-1].strip()
        c = i.startswith('const ') or i.endswith(' const')
        b = i.replace('const', '').strip()
        return '*%s %s' % ('const' if c else 'mut', '::core::ffi::c_void' if b == 'void' else '::core::ffi::c_char' if b == 'char' else rtype(b))
    t = t.replace('const ', '').replace('struct ', '').strip()
    return CT.get(t, t)


def declarations():
    """-> (Rust source, names of the fields of the event, in order)"""
    d = json.loads(build.sh([build.CC, '-std=c11', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-x', 'c', os.path.join(build.REPO, HEADER)]))
    out, fields = [], []
    def value(n):
        if 'value' in n and n['kind'] == 'IntegerLiteral': return int(n['value'])
        if n['kind'] == 'UnaryOperator' and n.get('opcode') == '-': return -value(n['inner'][0])
        for c in n.get('inner', []):
            v = value(c)
            if v is not None: return v
    for n in d['inner']:
        nm = n.get('name', '')
        if not nm.lower().startswith('wtr_'): continue
        if n['kind'] == 'VarDecl' and value(n) is not None: out.append('pub const %s: %s = %d;' % (nm, rtype(n['type']['qualType']), value(n)))
        elif n['kind'] == 'RecordDecl' and n.get('completeDefinition'):
            fs = [(c['name'], rtype(c['type']['qualType'])) for c in n['inner'] if c['kind'] == 'FieldDecl']
            out.append('#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct %s {\n%s}' % (nm, ''.join('    pub %s: %s,\n' % f for f in fs)))
            if nm == 'wtr_watcher_event': fields = [f for f, _ in fs]
        elif n['kind'] == 'TypedefDecl':
            m = re.match(r'(.*)\(\*\)\((.*)\)$', n['type']['qualType'])
            if m:
                r = rtype(m.group(1))
                out.append('pub type %s = ::core::option::Option<unsafe extern "C" fn(%s)%s>;' % (nm, ', '.join('a%d: %s' % (k, rtype(a)) for k, a in enumerate(m.group(2).split(','))), '' if r == '()' else ' -> ' + r))
        elif n['kind'] == 'FunctionDecl':
            r = rtype(n['type']['qualType'].split('(')[0])
            ps = [(c.get('name', 'a'), rtype(c['type']['qualType'])) for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
            out.append('unsafe extern "C" { pub fn %s(%s)%s; }' % (nm, ', '.join('%s: %s' % p for p in ps), '' if r == '()' else ' -> ' + r))
    if not fields: raise build.BuildError('%s: struct wtr_watcher_event is missing' % HEADER)
    return '\n'.join(out) + '\n', fields


def mir():
    src, fields = declarations()
    d = build.tmpdir() + '/rs'
    os.makedirs(d + '/out', exist_ok=True)
    open(d + '/out/watcher_c.rs', 'w').write(src)
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "wtr-watcher"\nversion = "0.0.0"\nedition = "2021"\n[lib]\nname = "wtr_watcher"\npath = "%s"\n[features]\nserde = []\ncli = []\n'
                                       '[dependencies]\nfutures = "0"\nserde = "1"\n' % os.path.join(build.REPO, FILE))
    lock = '/opt/veriftools/crates.Cargo.lock'
    if os.path.exists(lock): shutil.copy(lock, d + '/Cargo.lock')
    env = dict(os.environ, OUT_DIR=d + '/out', CARGO_TARGET_DIR=d + '/target', CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '-q', '--', '--emit=mir', '-C', 'debug-assertions=no', '-C', 'overflow-checks=no', '-C', 'opt-level=0', '-A', 'warnings'],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fs = [os.path.join(a, f) for a, _, b in os.walk(d + '/target') for f in b if f.endswith('.mir')]
    if p.returncode or not fs: raise build.BuildError('%s: %s' % (FILE, p.stdout[-1500:]))
    return open(fs[0]).read(), fields


# ------------------------------------------------------------------ the text of MIR
def close_of(t, i):
    """index of the bracket which closes the one at i"""
    o = t[i]
    c = {'(': ')', '<': '>', '{': '}', '[': ']'}[o]
    n, q = 0, False
    for k in range(i, len(t)):
        x = t[k]
        if x == '"' and t[k - 1] != '\\': q = not q
        if q: continue
        if x == o: n += 1
        elif x == c and not (c == '>' and t[k - 1] in '-='):
            n -= 1
            if n == 0: return k
    raise Unsup('brackets in ' + t)


def split(t, sep=','):
    out, cur, dp, q = [], '', 0, False
    for k, x in enumerate(t):
        if x == '"' and (k == 0 or t[k - 1] != '\\'): q = not q
        if not q:
            if x in '([{<': dp += 1
            elif x in ')]}' or x == '>' and t[k - 1] not in '-=': dp -= 1
            elif x == sep and dp == 0: out.append(cur.strip()); cur = ''; continue
        cur += x
    if cur.strip(): out.append(cur.strip())
    return out


def ungeneric(t):
    """path without ::<...>"""
    while True:
        i = t.find('::<')
        while i >= 0 and t[i + 3:].startswith('impl '): i = t.find('::<', i + 3)
        if i < 0: return t
        t = t[:i] + t[close_of(t, i + 2) + 1:]


def callee(t):
    """(type, method) of a called path"""
    t = ungeneric(t.strip())
    if t.startswith('<'):
        k = close_of(t, 0)
        ty, m = t[1:k], t[k + 1:].lstrip(':')
        ty = ty.split(' as ')[0]
        return short(ty), m
    t = re.sub(r'<impl [^>]*?\*(?:mut|const)[^>]*>', 'ptr', t)
    t = re.sub(r'<impl ([^>]*)>', lambda m: short(m.group(1)), t)
    p = t.split('::')
    return (short(p[-2]) if len(p) > 1 else ''), p[-1]


def short(ty):
    ty = ty.strip().lstrip('&').replace('mut ', '').strip()
    i = ty.find('<')
    return (ty if i < 0 else ty[:i]).split('::')[-1]


class Func:
    def __init__(self, name, params, ret): self.name, self.params, self.ret, self.blocks = name, params, ret, {}


def parse(text):
    fns, consts, cur, bb = {}, {}, None, None
    for l in text.split('\n'):
        m = re.match(r'const ([A-Za-z_0-9:]+): [^=]+ = const (.*);$', l)
        if m: consts[m.group(1)] = m.group(2); continue
        if l.startswith('fn '):
            i = l.find('(_1') if '(_1' in l else l.find('()')
            j = close_of(l, i)
            ps = [p.split(': ', 1)[1] for p in split(l[i + 1:j])]
            m = re.match(r' -> (.*) \{$', l[j + 1:])
            cur = Func(l[3:i], ps, m.group(1) if m else '()')
            while cur.name in fns: cur.name += "'"
            fns[cur.name] = cur
            bb = None
            continue
        if l == '}': cur = None
        if cur is None: continue
        m = re.match(r'    (bb\d+)( \(cleanup\))?: \{$', l)
        if m: bb = cur.blocks.setdefault(m.group(1), []); continue
        if l == '    }': bb = None; continue
        if bb is not None and l.strip(): bb.append(l.strip().rstrip(';'))
    return fns, consts


# ------------------------------------------------------------------ evaluation
DISC = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Ready': 0, 'Pending': 1, 'Continue': 0, 'Break': 1, 'Borrowed': 0, 'Owned': 1}
LOCAL = {'metadata', 'exists', 'is_dir', 'len', 'is_empty', 'contains', 'starts_with', 'ends_with', 'eq', 'ne', 'cmp', 'fmt'}
QUIET = {'_print', '_eprint', 'new_const', 'new_v1', 'new_display', 'new_debug', 'black_box'}


def agg(name, *vals, variant=None, names=None): return ('agg', name, variant, dict(enumerate(vals)), names)
def some(v): return agg('Option', v, variant='Some')
NONE = ('agg', 'Option', 'None', {}, None)
def okv(v): return agg('Result', v, variant='Ok')
def err(v): return agg('Result', v, variant='Err')
UNIT = ('agg', '()', None, {}, None)


class Run:
    """one path: every choice is taken from self.ch"""
    def __init__(self, fns, consts, ch):
        self.fns, self.consts, self.ch, self.at = fns, consts, ch, 0
        self.heap, self.n, self.vague, self.log, self.steps, self.labels, self.fnsused = {}, 0, [], [], 0, [], set()
        self.natives, self.sent, self.polled, self.waiting, self.got = {}, [], [], [], None
        self.utf8 = {}
        self.hook_close = self.hook_open = None

    def choose(self, n, label=''):
        if self.at == len(self.ch): self.ch.append([0, n])
        c = self.ch[self.at][0]
        self.at += 1
        if label: self.labels.append((label, c))
        return c

    def new(self, v, kind='h'):
        self.n += 1
        o = (kind, self.n)
        self.heap[o] = v
        return o

    def load(self, oid, path=()):
        if oid not in self.heap: raise Dangling(oid)
        v = self.heap[oid]
        for i in path: v = self.field(v, i)
        return v

    def field(self, v, i):
        if v[0] == 'agg':
            if i in v[3]: return v[3][i]
            raise Unsup('field %s of %s' % (i, v[1]))
        if v[0] == 'box' and i == 0: return ('ref', v[1], ())
        if v == UNK: return UNK
        raise Unsup('a field of %s' % (v[0],))

    def store(self, oid, path, val):
        if not path:
            self.heap[oid] = val; return
        if oid not in self.heap: raise Dangling(oid)
        def put(v, p):
            if not p: return val
            if v == UNK: raise Unsup('a store into what is not known')
            if v[0] != 'agg': raise Unsup('a store into %s' % v[0])
            d = dict(v[3]); d[p[0]] = put(d.get(p[0], UNK), p[1:])
            return v[:3] + (d,) + v[4:]
        self.heap[oid] = put(self.heap.get(oid, UNK) if not (self.heap.get(oid) == ('moved',)) else agg('?'), path)

    # ---- places
    def place(self, t, fr):
        t = t.strip()
        if re.match(r'_\d+$', t): return (('l', fr, t), ())
        if t.startswith('(') and close_of(t, 0) == len(t) - 1:
            i = t[1:-1].strip()
            if i.startswith('*'):
                o, p = self.place(i[1:], fr)
                return self.deref(self.load(o, p))
            if i.startswith('('): k = close_of(i, 0) + 1
            else: k = re.match(r'_\d+', i).end()
            rest = i[k:]
            if not rest: raise Unsup('place ' + t)
            o, p = self.place(i[:k], fr)
            m = re.match(r'\.(\d+): ', rest)
            if m: return o, p + (int(m.group(1)),)
            if rest.startswith(' as '): return o, p
        m = re.match(r'(.*)\[(_\d+|\d+ of \d+)\]$', t)
        if m:
            o, p = self.place(m.group(1), fr)
            i = self.load(*self.place(m.group(2), fr)) if m.group(2).startswith('_') else ('int', int(m.group(2).split()[0]))
            if i[0] == 'int': return o, p + (i[1],)
        raise Unsup('place ' + t)

    def deref(self, v):
        if v[0] == 'ref': return v[1], v[2]
        if v[0] in ('box', 'arc'): return v[1], ()
        if v == NULL: raise Dangling('null')
        if v[0] == 'agg' and v[1] == 'Pin': return self.deref(v[3][0])
        raise Unsup('what %s refers to' % (v[0],))

    def operand(self, t, fr):
        t = t.strip()
        m = re.match(r'(no_retag )?(copy|move) (.*)$', t)
        if m:
            o, p = self.place(m.group(3), fr)
            if p and o in self.heap and self.heap[o][0] == 'box' and p == (0,): return ('ref', self.heap[o][1], ())
            v = self.load(o, p)
            if m.group(2) == 'move' and v[0] in ('box', 'tx', 'rx', 'agg', 'arc', 'cstring', 'str'):
                try: self.store(o, p, ('moved',))
                except (Unsup, Dangling): pass
            return v
        if t.startswith('const '):
            c = t[6:]
            m = re.match(r'(-?\d+)_[iu](\d+|size)$', c)
            if m: return ('int', int(m.group(1)))
            if c in ('true', 'false'): return ('int', int(c == 'true'))
            if c == '()': return UNIT
            if c.startswith('"'): return ('lit', c[1:-1])
            if c.startswith('ZeroSized: '): c = c[11:]
            if c.startswith('{closure@'): return ('clo', c)
            m = re.match(r'(?:unsafe |extern "C" |for<[^>]*> )*fn\(.*\{(.*)\}$', c)
            if m: c = m.group(1)
            n = c.split('::')[-1]
            if c in self.consts: return self.operand('const ' + self.consts[c], fr)
            if n in self.consts: return self.operand('const ' + self.consts[n], fr)
            f = self.find(c)
            if f is not None: return ('fn', f.name)
            return UNK
        f = self.find(t)
        if f is not None: return ('fn', f.name)
        if t.startswith('{closure@'): return ('clo', t)
        raise Unsup('operand ' + t)

    def rvalue(self, t, fr):
        t = t.strip()
        m = re.match(r'&(raw (?:const|mut) |mut |fake shallow |)(.*)$', t)
        if m:
            if m.group(1).startswith('fake'): return UNK
            o, p = self.place(m.group(2), fr)
            return ('ref', o, p)
        m = re.match(r'(?:deref_copy|copy_for_deref) (.*)$', t)
        if m: return self.load(*self.place(m.group(1), fr))
        m = re.match(r'discriminant\((.*)\)$', t)
        if m: return self.disc(self.load(*self.place(m.group(1), fr)))
        # casts
        if t.endswith(')') and ' as ' in t:
            m = re.match(r'((?:no_retag )?(?:copy|move|const) .*?|[\w:<>{}@/.\- ]+?) as (.*) \(([A-Z].*)\)$', t)
            if m:
                x = m.group(1)
                # the operand may have an `as` of its own
                while x.count('(') != x.count(')'):
                    k = t.find(' as ', len(x) + 1)
                    if k < 0: raise Unsup(t)
                    x = t[:k]
                v = self.operand(x, fr)
                k, to = m.group(3), m.group(2)
                w = re.match(r'[iu](\d+|size)$', to)
                if k == 'IntToInt' and w:
                    b = 64 if w.group(1) == 'size' else int(w.group(1))
                    if v[0] == 'int':
                        q = v[1] & (1 << b) - 1
                        return ('int', q - (1 << b) if to[0] == 'i' and q >> b - 1 else q)
                    if v[0] == 'sym': return v if b == 64 and len(v) == 2 else ('sym', v[1], ('cut', to[0], b, v))
                elif k in ('IntToFloat', 'FloatToInt', 'FloatToFloat') and v[0] == 'sym': return ('sym', v[1], (k, to, v))
                elif k in ('IntToFloat', 'FloatToInt', 'FloatToFloat') and v[0] != 'sym': return UNK
                return v
        if re.match(r'(no_retag )?(copy|move|const) ', t): return self.operand(t, fr)
        m = re.match(r'([A-Z][A-Za-z]+)\((.*)\)$', t)
        if m and m.group(1) in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Not', 'Neg', 'PtrMetadata', 'Offset', 'Div', 'Rem', 'Shl', 'Shr', 'AddUnchecked', 'SubUnchecked', 'Len', 'CheckedAdd'):
            return self.op(m.group(1), [self.operand(x, fr) for x in split(m.group(2))])
        if t == '()': return UNIT
        if t.startswith('(') and close_of(t, 0) == len(t) - 1: return agg('tuple', *[self.operand(x, fr) for x in split(t[1:-1])])
        if t.startswith('[') and close_of(t, 0) == len(t) - 1:
            m = re.match(r'\[(.*); (\d+)\]$', t)
            if m:
                v = self.operand(m.group(1), fr)
                return agg('array', *[v] * min(int(m.group(2)), 64))
            return agg('array', *[self.operand(x, fr) for x in split(t[1:-1])])
        # closures and structures by the names of their fields
        m = re.match(r'(\{closure@[^}]*\})(?: \{(.*)\})?$', t)
        if m:
            vs = [self.operand(x.split(': ', 1)[1], fr) for x in split(m.group(2) or '')]
            return ('agg', m.group(1), None, dict(enumerate(vs)), None)
        k = t.find(' { ')
        if k > 0 and t.endswith('}'):
            fs = [x.split(': ', 1) for x in split(t[k + 3:-1])]
            p = ungeneric(t[:k]).split('::')
            return ('agg', short(p[-1]), None, dict(enumerate(self.operand(x, fr) for _, x in fs)), [a for a, _ in fs])
        m = re.match(r'([\w:<>&\'"*, ()\[\];{}=+?@/.\-]+)$', t)
        if m:
            u = t
            args = []
            if t.endswith(')'):
                # Path::Variant(args)
                n, k = 0, len(t) - 1
                while True:
                    if t[k] == ')': n += 1
                    elif t[k] == '(':
                        n -= 1
                        if n == 0: break
                    k -= 1
                u, args = t[:k], split(t[k + 1:-1])
            p = ungeneric(u).split('::')
            return ('agg', short(p[-2]) if len(p) > 1 else p[-1], p[-1], dict(enumerate(self.operand(x, fr) for x in args)), None)
        raise Unsup(t)

    def disc(self, v):
        if v[0] == 'agg' and v[2] in DISC: return ('int', DISC[v[2]])
        return UNK

    def null(self, v):
        if v == NULL or v == ('int', 0): return 1
        if v[0] in ('handle', 'ref', 'cptr', 'box', 'fn', 'arc'): return 0
        return None

    def op(self, o, a):
        if o in ('Eq', 'Ne') and len(a) == 2:
            x, y = a
            r = None
            if x[0] == y[0] == 'int': r = int(x[1] == y[1])
            elif self.null(y) == 1: r = self.null(x)
            elif self.null(x) == 1: r = self.null(y)
            if r is None: return UNK
            return ('int', r if o == 'Eq' else 1 - r)
        if any(x[0] == 'sym' for x in a) and all(x[0] in ('sym', 'int') for x in a): return ('sym', next(x[1] for x in a if x[0] == 'sym'), ('op', o.replace('Unchecked', ''), tuple(a)))
        if all(x[0] == 'int' for x in a):
            v = [x[1] for x in a]
            try: return ('int', {'Lt': lambda: int(v[0] < v[1]), 'Le': lambda: int(v[0] <= v[1]), 'Gt': lambda: int(v[0] > v[1]), 'Ge': lambda: int(v[0] >= v[1]), 'Add': lambda: v[0] + v[1], 'Sub': lambda: v[0] - v[1],
                                 'BitAnd': lambda: v[0] & v[1], 'BitOr': lambda: v[0] | v[1], 'BitXor': lambda: v[0] ^ v[1], 'Not': lambda: 1 - v[0] if v[0] in (0, 1) else ~v[0], 'Neg': lambda: -v[0]}[o]())
            except KeyError: return UNK
        return UNK

    # ---- functions
    def find(self, t):
        if t in self.fns: return self.fns[t]
        u = ungeneric(t)
        if u in self.fns: return self.fns[u]
        ty, m = callee(t)
        if not ty: return self.fns.get(m)
        for f in self.fns.values():
            if f.name.startswith('<impl at ') and f.name.endswith('>::' + m) and '{closure' not in f.name and any(re.search(r'\b%s\b' % re.escape(ty), p) for p in f.params[:1] + [f.ret]):
                if m in ('fmt', 'clone') : continue
                return f
        l = [f for f in self.fns.values() if f.name.split('::')[-1] == m and ty and f.name.endswith(ty + '::' + m)]
        return l[0] if l else None

    def call(self, f, args):
        self.fnsused.add(f.name)
        self.n += 1
        fr = self.n
        if fr > 100000: raise Unsup('calls')
        for k, a in enumerate(args): self.heap[('l', fr, '_%d' % (k + 1))] = a
        bb = 'bb0'
        ret = UNIT
        while True:
            nxt = None
            for s in f.blocks[bb]:
                self.steps += 1
                if self.steps > 20000: raise Unsup('steps')
                nxt = self.stmt(s, fr)
                if nxt is not None: break
            if nxt is None: raise Unsup('the end of ' + bb)
            if nxt == 'return':
                ret = self.heap.get(('l', fr, '_0'), UNIT)
                break
            bb = nxt
        for k in [k for k in self.heap if k[0] == 'l' and k[1] == fr]: del self.heap[k]
        return ret

    def stmt(self, s, fr):
        """-> the next block, 'return', or None"""
        if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'Coverage', 'PlaceMention', 'AscribeUserType', 'Retag', 'ConstEvalCounter', 'BackwardIncompatibleDropHint', '//')): return None
        if s == 'return': return 'return'
        if s in ('unreachable', 'resume') or s.startswith('terminate'): raise Panic(s)
        m = re.match(r'goto -> (bb\d+)$', s)
        if m: return m.group(1)
        m = re.match(r'switchInt\((.*)\) -> \[(.*)\]$', s)
        if m:
            v = self.operand(m.group(1), fr)
            ts = [x.split(': ') for x in split(m.group(2))]
            if v[0] == 'int':
                for a, b in ts:
                    if a == 'otherwise' or int(a) == v[1]: return b
                raise Unsup(s)
            return ts[self.choose(len(ts))][1]
        m = re.match(r'assert\((!?)(.*?), ".*\) -> \[success: (bb\d+)', s)
        if m: return m.group(3)
        m = re.match(r'(?:false|imaginary).* -> \[real: (bb\d+)', s)
        if m: return m.group(1)
        m = re.match(r'drop\((.*)\) -> \[return: (bb\d+)', s)
        if m:
            o, p = self.place(m.group(1), fr)
            self.drop(o, p)
            return m.group(2)
        m = re.match(r'(.*?) = (.*) -> (?:\[return: (bb\d+).*\]|unwind .*)$', s)
        if m:
            e = m.group(2)
            n, k = 0, len(e) - 1
            while k >= 0:
                if e[k] == ')': n += 1
                elif e[k] == '(':
                    n -= 1
                    if n == 0: break
                k -= 1
            fn, args = e[:k], split(e[k + 1:-1])
            vals = [self.operand(x, fr) for x in args]
            if re.match(r'(copy|move) ', fn): fv = self.operand(fn, fr); r = self.apply(fv, vals)
            else: r = self.invoke(fn, vals)
            if m.group(3) is None: raise Panic(fn)
            o, p = self.place(m.group(1), fr)
            self.store(o, p, r)
            return m.group(3)
        m = re.match(r'(.*?) = (.*)$', s)
        if m:
            v = self.rvalue(m.group(2), fr)
            o, p = self.place(m.group(1), fr)
            self.store(o, p, v)
            return None
        raise Unsup(s)

    def apply(self, fv, vals):
        if fv[0] == 'fn': return self.call(self.fns[fv[1]], vals)
        if fv[0] == 'ref': fv2 = self.load(fv[1], fv[2]); return self.apply(fv2, vals)
        nm = fv[1] if fv[0] in ('clo', 'agg') else None
        if nm and '{closure@' in nm:
            key = re.search(r'closure@([^}]*)', nm).group(1).split(' (')[0]
            for f in self.fns.values():
                if '{closure#' in f.name and f.params and key in f.params[0]:
                    a = fv if fv[0] == 'agg' else agg(nm)
                    if f.params[0].startswith('&'): a = ('ref', self.new(a), ())
                    return self.call(f, [a] + vals)
        raise Unsup('a call of %s' % (fv[0],))

    # ---- destruction
    def drop(self, o, p):
        v = self.load(o, p)
        if v[0] == 'moved': return
        if v[0] == 'agg':
            d = next((f for f in self.fns.values() if f.name.startswith('<impl at ') and f.name.endswith('>::drop') and f.params and short(f.params[0]) == v[1]), None)
            if d is not None: self.call(d, [('ref', o, p)])
            if v[1] == 'ManuallyDrop': return
            v = self.load(o, p)
            for k in sorted(v[3]): self.drop(o, p + (k,))
        elif v[0] == 'box':
            if v[1] not in self.heap: raise Dangling(v[1])
            self.drop(v[1], ())
            self.heap.pop(v[1], None)
        elif v[0] == 'arc':
            c = self.heap.get(('rc', v[1]), 1) - 1
            self.heap[('rc', v[1])] = c
            if c == 0: self.drop(v[1], ()); self.heap.pop(v[1], None)
        elif v[0] == 'cstring': self.heap.pop(v[1], None)
        elif v == UNK: return
        try: self.store(o, p, ('moved',))
        except (Unsup, Dangling): pass

    # ---- the outside
    def ref(self, v):
        """the value a reference (of any kind) leads to"""
        while v[0] in ('ref', 'box', 'arc') or v[0] == 'agg' and v[1] == 'Pin': v = self.load(*self.deref(v))
        return v

    def text(self, v):
        while v[0] in ('ref', 'box'): v = self.load(*self.deref(v))
        return v

    def invoke(self, fn, a):
        f = self.find(fn)
        if f is not None: return self.call(f, a)
        ty, m = callee(fn)
        if m == 'wtr_watcher_open': return self.open(a)
        if m == 'wtr_watcher_close': return self.close(a[0])
        if m in QUIET: return UNK
        if m in ('panic', 'panic_fmt', 'panic_display', 'unwrap_failed', 'expect_failed', 'abort', 'exit', 'panic_explicit', 'unreachable_display', 'begin_panic') or re.match(r'panic(_.*)?$', m): raise Panic(m)
        if m in ('null_mut', 'null'): return NULL
        if m == 'is_null':
            r = self.null(a[0])
            if r is None: raise Unsup('is_null of %s' % (a[0],))
            return ('int', r)
        if m in ('cast', 'cast_mut', 'cast_const', 'as_ptr', 'as_mut_ptr') and ty in ('ptr', 'NonNull', 'const_ptr', 'mut_ptr', 'Box', 'Arc', 'Cell') and a[0][0] in ('ref', 'handle', 'null', 'box', 'arc', 'cptr'):
            if ty in ('Arc', 'Box'):
                v = a[0]
                while v[0] == 'ref' : v = self.load(v[1], v[2])
                return ('ref', v[1], ()) if v[0] in ('box', 'arc') else a[0]
            return a[0]
        if m in ('drop',) and ty in ('mem', '', 'std'):
            o = self.new(a[0]); self.drop(o, ()); self.heap.pop(o, None); return UNIT
        if m == 'forget': return UNIT
        if m in ('replace', 'swap') and ty in ('mem', 'Cell', 'ptr') or m == 'swap' and ty.startswith('Atomic'):
            o, p = self.deref(a[0])
            old = self.load(o, p)
            if ty == 'Cell' or ty.startswith('Atomic'): p = p + (0,); old = old[3][0]
            if m == 'swap' and not ty.startswith('Atomic'):
                o2, p2 = self.deref(a[1])
                if ty == 'Cell': p2 = p2 + (0,)
                x = self.load(o2, p2); self.store(o2, p2, old); self.store(o, p, x); return UNIT
            self.store(o, p, a[1]); return old
        if ty == 'Cell' or ty.startswith('Atomic') or ty in ('UnsafeCell', 'ManuallyDrop', 'Pin', 'NonNull'):
            if m == 'new' and ty == 'NonNull': return NONE if self.null(a[0]) == 1 else some(a[0])
            if m in ('new', 'from', 'new_unchecked'): return agg(ty, a[0]) if ty != 'NonNull' else a[0]
            if ty == 'NonNull' and m == 'as_ptr': return a[0]
            if ty == 'Pin' and m in ('as_mut', 'as_ref', 'deref_mut', 'deref', 'get_mut', 'get_ref', 'into_inner', 'get_unchecked_mut', 'into_ref'):
                v = a[0]
                if v[0] == 'ref': v = self.load(v[1], v[2])
                if v[0] == 'agg' and v[1] == 'Pin': v = v[3][0]
                if v[0] == 'box': v = ('ref', v[1], ())
                return agg('Pin', v) if m in ('as_mut', 'as_ref') else v
            if ty == 'ManuallyDrop' and m in ('deref', 'deref_mut'):
                o, p = self.deref(a[0]); return ('ref', o, p + (0,))
            if m == 'drop' and ty == 'ManuallyDrop':
                o, p = self.deref(a[0]); self.drop(o, p + (0,)); return UNIT
            o, p = self.deref(a[0])
            p = p + (0,)
            if m in ('get', 'load', 'into_inner'): return self.load(o, p)
            if m in ('set', 'store'): self.store(o, p, a[1]); return UNIT
            if m == 'take' and ty == 'Cell':
                v = self.load(o, p)
                z = NONE if v[0] == 'agg' and v[1] == 'Option' else NULL if v[0] in ('handle', 'null') else None
                if z is None: raise Unsup('Cell::take')
                self.store(o, p, z); return v
            if m == 'take': return self.load(o, p)
            if m in ('get_mut', 'as_ptr'): return ('ref', o, p)
            if m in ('compare_exchange', 'compare_exchange_weak'):
                v = self.load(o, p)
                e = self.op('Eq', [v, a[1]])
                if v == a[1] or e == ('int', 1): self.store(o, p, a[2]); return okv(v)
                if e == ('int', 0): return err(v)
        if m == 'take' and ty in ('mem', 'Option'):
            o, p = self.deref(a[0])
            v = self.load(o, p)
            if v[0] == 'agg' and v[1] == 'Option': self.store(o, p, NONE); return v
            raise Unsup('take')
        # memory
        if ty in ('Box', 'Arc', 'Rc') and m in ('new', 'pin', 'from'):
            o = self.new(a[0])
            v = ('box', o) if ty == 'Box' else ('arc', o)
            if v[0] == 'arc': self.heap[('rc', o)] = 1
            return agg('Pin', v) if m == 'pin' else v
        if ty == 'Box' and m in ('into_pin',): return agg('Pin', a[0])
        if ty in ('Box', 'Arc') and m in ('into_raw', 'leak'): return ('ref', a[0][1], ())
        if ty in ('Box', 'Arc') and m == 'from_raw' and a[0][0] == 'ref' and not a[0][2]:
            return (('box' if ty == 'Box' else 'arc'), a[0][1])
        if ty == 'Arc' and m == 'clone':
            v = a[0]
            while v[0] == 'ref': v = self.load(v[1], v[2])
            if v[0] == 'arc': self.heap[('rc', v[1])] = self.heap.get(('rc', v[1]), 1) + 1; return v
        if ty in ('Box', 'Arc') and m in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow'):
            v = a[0]
            while v[0] == 'ref': v = self.load(v[1], v[2])
            if v[0] in ('box', 'arc'): return ('ref', v[1], ())
        if m in ('as_ref', 'as_mut', 'deref', 'deref_mut', 'borrow', 'as_deref', 'from', 'into', 'into_pin') and ty in ('T', ''): return a[0]
        # the channel
        if m in ('unbounded', 'unbounded_channel', 'channel') :
            self.n += 1
            return agg('tuple', ('tx', self.n) + (('bounded',) if a else ()), ('rx', self.n))
        if m in ('unbounded_send', 'send', 'try_send', 'start_send') and a and self.ref(a[0])[0] == 'tx':
            if self.ref(a[0])[2:] and m != 'send' and self.choose(2, 'the channel is full'): return err(UNK)
            self.sent.append((self.ref(a[0])[1], a[1]))
            return (okv(UNIT), err(UNK))[self.choose(2, 'the other end is gone')]
        if m in ('clone',) and a and self.ref(a[0])[0] == 'tx': return self.ref(a[0])
        if m in ('is_closed',) and a and self.ref(a[0])[0] in ('tx', 'rx'): return ('int', self.choose(2, 'the other end is gone'))
        if m in ('poll_next', 'poll_next_unpin', 'poll_recv') and a and self.ref(a[0])[0] == 'rx':
            self.polled.append(self.ref(a[0])[1])
            if self.waiting and self.polled[-1] == self.waiting[0][0] and not self.choose(2, 'nothing has come yet'):
                self.got = self.waiting.pop(0)[1]
                return agg('Poll', some(self.got), variant='Ready')
            return agg('Poll', variant='Pending') if self.waiting or self.choose(2) else agg('Poll', NONE, variant='Ready')
        # text
        if ty in ('CString',) and m == 'new':
            src = self.text(a[0])
            if self.choose(2, 'a NUL byte in the path'): return err(UNK)
            return okv(('cstring', self.new(('ctext', src))))
        if ty in ('CString', 'CStr') and m in ('deref', 'as_c_str', 'as_ref', 'borrow'):
            v = a[0]
            if v[0] == 'ref' and self.load(v[1], v[2])[0] == 'cstring': return ('ref', self.load(v[1], v[2])[1], ())
            return v
        if ty in ('CString', 'CStr') and m in ('as_ptr', 'into_raw', 'into_boxed_c_str'):
            v = a[0]
            if v[0] == 'ref' and self.load(v[1], v[2])[0] == 'cstring': v = self.load(v[1], v[2])
            return ('ref', v[1], ()) if v[0] == 'cstring' else v
        if ty == 'CStr' and m == 'from_ptr':
            if a[0] == NULL: raise Dangling('null')
            return a[0]
        if a:
            v = self.text(a[0])
            if v[0] == 'cptr':
                if m == 'to_string_lossy': return ('str', 'lossy', v[1])
                if m in ('to_bytes', 'to_owned', 'to_c_string', 'into_owned', 'from_bytes', 'from_encoded_bytes_unchecked', 'as_bytes', 'to_vec', 'clone', 'from', 'as_ref', 'new', 'to_path_buf') : return v
                if m == 'from_utf8_lossy': return ('str', 'lossy', v[1])
                if m in ('to_str', 'from_utf8', 'into_string'):
                    if v[1] not in self.utf8: self.utf8[v[1]] = 1 - self.choose(2)
                    return okv(('str', 'utf8', v[1])) if self.utf8[v[1]] else err(UNK)
                if m in ('from_utf8_unchecked', 'from_raw_parts'): return ('str', 'unchecked', v[1])
                if m in ('is_empty',): return UNK
                if m in ('count_bytes', 'strlen', 'len'): return UNK
            if v[0] in ('str', 'lit') and m in ('into_owned', 'to_owned', 'to_string', 'into', 'from', 'clone', 'as_str', 'deref', 'as_ref', 'borrow', 'into_boxed_str', 'into_string', 'as_bytes', 'to_vec', 'as_mut', 'as_deref'): return ('str', 'lit', v[1]) if v[0] == 'lit' and m not in ('as_str', 'as_bytes', 'deref', 'as_ref') else v
            if v[0] == 'watched' and m in ('as_ref', 'as_str', 'as_bytes', 'to_owned', 'to_string', 'into', 'clone', 'from', 'deref'): return v
        if a and a[0][0] == 'sym' and m in ('round', 'floor', 'ceil', 'trunc', 'abs', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_div', 'saturating_add', 'saturating_sub', 'saturating_mul', 'div_euclid', 'rem_euclid', 'max', 'min'):
            return ('sym', a[0][1], ('fn', m, tuple(a)))
        if ty == 'String' and m in ('new', 'default') and not a: return ('str', 'lit', '')
        # Option and Result
        v = a[0] if a else None
        if v and v[0] == 'ref' and ty in ('Option', 'Result') and m in ('is_some', 'is_none', 'is_ok', 'is_err', 'as_ref', 'as_mut', 'as_deref', 'clone', 'cloned'):
            o, p = v[1], v[2]
            v = self.load(o, p)
            if m in ('as_ref', 'as_mut') and v[0] == 'agg': return v if not v[3] else v[:3] + ({0: ('ref', o, p + (0,))},) + v[4:]
        if v and v[0] == 'agg' and v[2] in ('Some', 'None', 'Ok', 'Err'):
            good = v[2] in ('Some', 'Ok')
            x = v[3].get(0)
            if m in ('unwrap', 'expect', 'unwrap_unchecked'):
                if not good: raise Panic(m)
                return x
            if m == 'unwrap_or_default':
                if good: return x
                return ('str', 'lit', '') if 'String' in fn or '&str' in fn else NULL if '*mut' in fn else UNK
            if m == 'unwrap_or': return x if good else a[1]
            if m == 'unwrap_or_else': return x if good else self.apply(a[1], [x] if v[2] == 'Err' else [])
            if m == 'map': return v[:3] + ({0: self.apply(a[1], [x])},) + v[4:] if good else v
            if m == 'map_err': return v if good else err(self.apply(a[1], [x]))
            if m == 'and_then': return self.apply(a[1], [x]) if good else v
            if m == 'map_or': return self.apply(a[2], [x]) if good else a[1]
            if m == 'map_or_else': return self.apply(a[2], [x]) if good else self.apply(a[1], [x] if v[2] == 'Err' else [])
            if m == 'or_else': return v if good else self.apply(a[1], [x] if v[2] == 'Err' else [])
            if m == 'ok_or': return okv(x) if good else err(a[1])
            if m == 'ok_or_else': return okv(x) if good else err(self.apply(a[1], []))
            if m == 'ok': return some(x) if good else NONE
            if m == 'err': return NONE if good else some(x)
            if m in ('is_some', 'is_ok'): return ('int', int(good))
            if m in ('is_none', 'is_err'): return ('int', int(not good))
            if m in ('cloned', 'copied', 'clone', 'as_deref', 'into_iter'): return v if m != 'into_iter' else self.unknown(fn, a)
            if m == 'filter' and not good: return v
            if m == 'branch': return agg('ControlFlow', x, variant='Continue') if good else agg('ControlFlow', v, variant='Break')
            if m == 'from_residual': return v
            if m == 'inspect' and good: self.apply(a[1], [('ref', self.new(x), ())]); return v
        if m == 'then_some' and v and v[0] == 'int': return some(a[1]) if v[1] else NONE
        if m == 'then' and v and v[0] == 'int': return some(self.apply(a[1], [])) if v[1] else NONE
        if m in ('from', 'into', 'try_from', 'try_into', 'clone') and v and v[0] in ('int', 'sym'): return v if not m.startswith('try') else okv(v)
        return self.unknown(fn, a)

    def holds(self, v, seen=None):
        """can what is given lead to the channel, the native watcher or what belongs to them?"""
        seen = seen if seen is not None else set()
        if v[0] in ('box', 'arc', 'tx', 'rx', 'handle', 'cstring', 'fn', 'clo'): return True
        if v[0] == 'ref':
            if v[1:] in seen: return False
            seen.add(v[1:])
            try: return self.holds(self.load(v[1], v[2]), seen)
            except (Unsup, Dangling): return True
        if v[0] == 'agg': return v[1].startswith('{') or any(self.holds(x, seen) for x in v[3].values())
        return False

    def unknown(self, fn, a):
        m = callee(fn)[1]
        if m in ('clone', 'to_owned') and a and not self.holds(a[0]): return self.ref(a[0])
        if m == 'into':
            k = re.match(r'<(.*) as Into<(.*)>>::into$', fn.strip())
            f = k and [f for f in self.fns.values() if f.name.endswith('>::from') and short(f.ret) == short(k.group(2)) and f.params and short(f.params[0]) == short(k.group(1))]
            if f: return self.call(f[0], a)
        if any(self.holds(x) for x in a) or m not in LOCAL and any(x[0] == 'ref' for x in a): self.vague.append(ungeneric(fn))
        return UNK

    # ---- the C library
    def open(self, a):
        p, cb, cx = a
        t = self.text(p)
        self.log.append(('open', t, cb, cx))
        if self.choose(2, 'wtr_watcher_open fails'): return NULL
        n = len(self.natives) + 1
        if cb[0] == 'agg' and cb[2] == 'Some': cb = cb[3][0]
        self.natives[n] = ['open', cb, cx]
        return ('handle', n)

    def close(self, h):
        if h == NULL: self.log.append(('close', 0)); return ('int', 0)
        if h[0] != 'handle': raise Unsup('wtr_watcher_close of %s' % (h[0],))
        x = self.natives[h[1]]
        self.log.append(('close', h[1]))
        if x[0] != 'open': self.log.append(('again', h[1])); return ('int', 0)
        # the worker's last event, and any other before it
        if self.hook_close: self.hook_close(self, h[1])
        x[0] = 'closed'
        return ('int', 1 - self.choose(2, 'the native close says it failed'))


def number(v, x):
    """the value of an expression over the time of the event, for the time x; None: not known"""
    if v[0] == 'int': return v[1]
    if len(v) == 2: return x
    e = v[2]
    def wrap(n, c='i', b=64):
        n &= (1 << b) - 1
        return n - (1 << b) if c == 'i' and n >> b - 1 else n
    try:
        if e[0] == 'cut':
            n = number(e[3], x)
            return None if n is None else wrap(int(n), e[1], e[2])
        if e[0] in ('IntToFloat', 'FloatToFloat', 'FloatToInt'):
            n = number(e[2], x)
            if n is None: return None
            if e[0] == 'FloatToInt':
                w = re.match(r'([iu])(\d+|size)$', e[1])
                b = 64 if w.group(2) == 'size' else int(w.group(2))
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if w.group(1) == 'i' else (0, (1 << b) - 1)
                return min(max(int(n), lo), hi)
            return struct.unpack('f', struct.pack('f', n))[0] if e[1] == 'f32' else float(n)
        a = [number(y, x) for y in e[2]]
        if None in a: return None
        o = e[1].lower().replace('wrapping_', '')
        if len(a) == 1: return {'round': lambda: float(int(a[0] + (0.5 if a[0] >= 0 else -0.5))) if abs(a[0]) < 2 ** 52 else a[0], 'floor': lambda: math.floor(a[0]), 'ceil': lambda: math.ceil(a[0]), 'trunc': lambda: math.trunc(a[0]), 'abs': lambda: abs(a[0]), 'neg': lambda: -a[0]}[o]()
        p, q = a
        fl = isinstance(p, float) or isinstance(q, float)
        if o in ('div', 'rem') and not fl:
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return d if o == 'div' else p - d * q
        r = {'add': lambda: p + q, 'sub': lambda: p - q, 'mul': lambda: p * q, 'div': lambda: p / q, 'max': lambda: max(p, q), 'min': lambda: min(p, q), 'bitand': lambda: p & q, 'bitor': lambda: p | q, 'bitxor': lambda: p ^ q,
             'shl': lambda: p << (q & 63), 'shr': lambda: p >> (q & 63)}[o]()
        return r if fl else wrap(r)
    except (KeyError, ZeroDivisionError, OverflowError, TypeError, ValueError, struct.error): return None


TIMES = [0, 1, -1, 999, 1000000007, 1700000000123456789, -1700000000123456789, (1 << 31) + 5, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63)]


def paths(fns, consts, go, limit=600):
    ch = []
    for _ in range(limit):
        r = Run(fns, consts, ch)
        e = None
        try: res = go(r)
        except (Panic, Unsup, Dangling) as x: res, e = None, x
        yield r, res, e
        del ch[r.at:]
        while ch and ch[-1][0] + 1 >= ch[-1][1]: ch.pop()
        if not ch: return
        ch[-1][0] += 1
    yield None, None, Unsup('too many paths')


def event(fields, et, pt, assoc):
    v = dict(effect_time=('sym', 'time'), path_name=('cptr', 'path_name'), associated_path_name=('cptr', 'associated_path_name') if assoc else NULL, effect_type=('int', et), path_type=('int', pt))
    return ('agg', 'wtr_watcher_event', None, {k: v.get(f, UNK) for k, f in enumerate(fields)}, fields)


def c26(r, tier):
    r.rule = ('Evaluation of the MIR of the Rust binding, compiled from the current source against declarations made from the C header: construction with wtr_watcher_open failing or not, then every sequence of up to %d closes, '
              'with every result of the native close, then destruction. Exactly one wtr_watcher_close with the handle must follow each successful open; the path must be the one given and alive during the open; at each '
              'moment from the open to the native close the context given to it must lead to a sender which is alive. The native callback is evaluated in each of those states with every effect and path type, with and '
              'without an associated path, valid UTF-8 or not: one event with exactly the fields of the native one must be sent into the channel whose other end is polled, and what comes out of it must be what poll_next returns.') % (2 if tier == 'quick' else 4)
    R = Report(r)
    try: text, fields = mir()
    except build.BuildError as e:
        r.errors.append(str(e)); return
    fns, consts = parse(text)
    S = FILE
    def one(ty, m): return next((f for f in fns.values() if f.name.startswith('<impl at ') and f.name.endswith('>::' + m) and (short(f.params[0]) if f.params else '') == ty), None)
    makers = [f for f in fns.values() if '{closure' not in f.name and f.name.startswith('<impl at ') and re.match(r'(std::result::)?(Result<Watch|std::result::Result<Watch|Watch$|Option<Watch|std::option::Option<Watch)', f.ret) and len(f.params) == 1]
    if not makers: r.errors.append('%s: nothing makes a Watch' % FILE); return
    closer, poller = one('Watch', 'close'), next((f for f in fns.values() if f.name.endswith('>::poll_next') and 'Watch' in f.params[0]), None)
    used = set()
    C = {c: int(v.split('_')[0]) for c, v in consts.items() if re.match(r'-?\d+_i8$', v)}
    evs = [(e, 1, a) for e in range(6) for a in (0, 1)] + [(2, p, a) for p in range(6) for a in (0, 1)]

    def bad(run, rule, msg, site=S):
        if run.vague: R.unsure(rule, site, msg + ' (calls which are not modelled: %s)' % ', '.join(sorted(set(run.vague))[:4]))
        else: R.bad(rule, site, msg)

    def unwrap(v):
        """the Watch of what construction returns, or None"""
        if v[0] == 'agg' and v[2] in ('Ok', 'Some'): return v[3][0]
        if v[0] == 'agg' and v[2] is None and v[1] == 'Watch': return v
        return None

    def fire(run, n, e):
        """the native library calls back. -> what was sent"""
        st, cb, cx = run.natives[n]
        k = len(run.sent)
        run.apply(cb, [event(fields, *e), cx])
        return run.sent[k:]

    def where(run): return '; '.join('%s' % l for l, c in run.labels if c)

    def check(run, sent, e, rx):
        """was this event sent, once, with its own fields?"""
        et, pt, assoc = e
        w = where(run)
        if not sent and 'the other end is gone' in w: return
        if len(sent) != 1: return bad(run, 'deliver', 'an event is sent %d times' % len(sent))
        ch, v = sent[0]
        if rx is not None and ch != rx: return bad(run, 'deliver', 'an event is sent where nobody receives')
        if v[0] != 'agg' or not v[4]: return R.unsure('deliver', S, 'what is sent: %s' % (v[0],))
        d = {nm: v[3].get(k) for k, nm in enumerate(v[4])}
        for f in ('effect_time', 'path_name', 'associated_path_name', 'effect_type', 'path_type'):
            if f not in d: bad(run, 'field', 'an event has no %s' % f); continue
            x = d[f]
            if x == UNK: R.unsure('field', S, f); continue
            want = None
            if f == 'effect_time':
                okk = x == ('sym', 'time')
                if not okk and x[0] == 'sym':
                    ns = [(number(x, t), t) for t in TIMES]
                    if any(n is None for n, _ in ns): R.unsure('field', S, f); continue
                    okk = all(n == t for n, t in ns)
                    if not okk: x = ('sym', 'time %d becomes %s' % next((t, n) for n, t in ns if n != t))
            elif f in ('effect_type', 'path_type'):
                code, pre = (et, 'WTR_WATCHER_EFFECT_') if f == 'effect_type' else (pt, 'WTR_WATCHER_PATH_')
                nm = next((c for c, q in C.items() if c.startswith(pre) and q == code), None)
                if nm is None or x[0] != 'agg' or x[2] is None: R.unsure('field', S, f); continue
                okk = x[2].lower() == nm[len(pre):].replace('_', '').lower()
            elif f == 'associated_path_name' and not assoc: okk = x[0] == 'agg' and x[2] == 'None'
            else:
                y = x[3].get(0) if x[0] == 'agg' and x[2] == 'Some' else x
                if f == 'associated_path_name' and x[0] == 'agg' and x[2] == 'None': okk = False
                elif y[0] == 'str': okk = y[1] in ('lossy', 'utf8') and y[2] == f
                elif y[0] == 'cptr': okk = y[1] == f
                else: R.unsure('field', S, f); continue
            if okk: R.ok('field ' + f, S)
            else: bad(run, 'field', 'the %s of an event is not that of the native event%s (%s)' % (f, '' if all(run.utf8.values()) else ', for a path which is not UTF-8', show(x)))

    def show(x):
        if x[0] == 'agg': return '%s%s' % (x[2] or x[1], '(%s)' % ', '.join(show(y) for y in x[3].values()) if x[3] else '')
        return ' '.join(repr(y) if y == '' else str(y) for y in x[1:]) or x[0]

    for mk in makers:
        seqs = [n for n in range(3 if tier == 'quick' else 5)]
        for nclose in seqs if closer else [0]:
            for e in [(2, 1, 0), (0, 1, 1)]:
                def go(run):
                    stage = ['while it is being closed']
                    run.stage = stage
                    def hook(rn, n):
                        fire(rn, n, e)
                    run.hook_close = hook
                    run.where = 'while it is being made'
                    v = run.call(mk, [('watched', 'path')])
                    w = unwrap(v)
                    if w is None: return v, None
                    o = run.new(w, 'user')
                    run.where = 'after it has been made'
                    for n, x in list(run.natives.items()):
                        if x[0] == 'open': fire(run, n, e)
                    run.where = 'while it is being closed'
                    for _ in range(nclose): run.call(closer, [('ref', o, ())])
                    run.where = 'while it is being destroyed'
                    run.drop(o, ())
                    return v, w
                for run, res, x in paths(fns, consts, go):
                    if run is None: R.unsure('paths', S, str(x)); continue
                    used |= run.fnsused
                    if isinstance(x, Panic): continue
                    if isinstance(x, Unsup): R.unsure('history', S, str(x)); continue
                    if isinstance(x, Dangling):
                        bad(run, 'context', 'the context or the memory given to native code is gone when it is used: %s' % run.where)
                        continue
                    v, w = res
                    what = '%d close%s and destruction' % (nclose, '' if nclose == 1 else 's')
                    for l in run.log:
                        if l[0] == 'open':
                            if l[1] == ('ctext', ('watched', 'path')): R.ok('path', S)
                            elif l[1][0] in ('unk',): R.unsure('path', S, 'the path given to wtr_watcher_open')
                            else: bad(run, 'path', 'wtr_watcher_open is given another path than the watched one: %s' % show(l[1]))
                        if l[0] == 'again': bad(run, 'twice', 'the native watcher is closed twice: %s' % what)
                    for n, y in run.natives.items():
                        if y[0] == 'open':
                            bad(run, 'never', 'the native watcher is never closed: %s' % (what if w is not None else 'construction fails after the open'))
                        else: R.ok('closed once', S)
                    if not run.natives and w is not None and any(l[0] == 'open' for l in run.log):
                        bad(run, 'fail', 'wtr_watcher_open fails and construction does not')
        # what is delivered
        for e in evs:
            def go(run):
                v = run.call(mk, [('watched', 'path')])
                w = unwrap(v)
                if w is None or not run.natives: return None
                o = run.new(w, 'user')
                sent = fire(run, 1, e)
                q, why = None, None
                if poller is not None:
                    run.waiting = list(sent)
                    try: q = run.call(poller, [agg('Pin', ('ref', o, ())), ('ref', run.new(('context',)), ())])
                    except (Unsup, Dangling, Panic) as x: why = x
                run.outcome = q, why
                return sent, run.polled[0] if run.polled else None
            for run, res, x in paths(fns, consts, go):
                if run is None: R.unsure('paths', S, str(x)); continue
                used |= run.fnsused
                if isinstance(x, Panic):
                    if run.utf8 and not all(run.utf8.values()) and not any(c and l == 'the other end is gone' for l, c in run.labels): bad(run, 'deliver', 'an event whose path is not UTF-8 ends the program')
                    continue
                if isinstance(x, Dangling): bad(run, 'context', 'the context or the memory given to native code is gone when it is used'); continue
                if isinstance(x, Unsup): R.unsure('deliver', S, str(x)); continue
                if res is None: continue
                check(run, res[0], e, res[1])
                if poller is None or not run.polled: continue
                q, why = run.outcome
                if q is None: R.unsure('received', S, str(why))
                elif run.got is not None:
                    if q == agg('Poll', some(run.got), variant='Ready'): R.ok('received', S)
                    elif q[0] == 'agg' and q[2] in ('Ready', 'Pending'): bad(run, 'received', 'an event which has come out of the channel is not given to the user as it is: %s' % show(q))
                    else: R.unsure('received', S, show(q))
    r.cover['analysed'] = [FILE, HEADER]
    r.cover['functions'] = sorted(used)
    r.cover['trusted'] = ['rustc\'s translation to MIR', 'declarations are what bindgen makes of the header', 'the models of the standard library and of futures\' channel', 'panics end the path']
