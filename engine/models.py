"""Meaning of the calls that leave the code under analysis: libc and kernel
interfaces, and the parts of the C++ library that are treated as opaque."""
import re, struct
from vals import *
from core import *
from llir import base_name

E = dict(EPERM=1, ENOENT=2, EINTR=4, EIO=5, EBADF=9, EAGAIN=11, ENOMEM=12, EACCES=13, EFAULT=14, EEXIST=17, EXDEV=18, ENODEV=19, ENOTDIR=20, EISDIR=21,
         EINVAL=22, ENFILE=23, EMFILE=24, ENOSPC=28, ENAMETOOLONG=36, ENOSYS=38, ELOOP=40, EOVERFLOW=75, EOPNOTSUPP=95, ESTALE=116)
NOPATH = tuple(E[x] for x in ('ENOENT', 'EACCES', 'ENAMETOOLONG', 'ELOOP', 'ENOTDIR', 'EIO', 'ENOMEM'))
M1 = (1 << 32) - 1
M1L = (1 << 64) - 1

DT = {'DT_UNKNOWN': 0, 'DT_FIFO': 1, 'DT_CHR': 2, 'DT_DIR': 4, 'DT_BLK': 6, 'DT_REG': 8, 'DT_LNK': 10, 'DT_SOCK': 12}
ERRNO_P = ptr(('root', 'errno'), 0)


# ------------------------------------------------------------------ helpers
def params(dem):
    """top-level parameter texts of a demangled function"""
    # last top-level parenthesised group
    depth = 0; end = None; i = len(dem) - 1
    s = dem
    m = re.search(r'\)( const| volatile|&|&&|\[abi:\w+\])*$', s)
    if not m: return []
    end = m.start()
    depth = 0
    i = end
    while i >= 0:
        c = s[i]
        if c in ')': depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0: break
        i -= 1
    inner = s[i+1:end]
    out, d, cur = [], 0, ''
    for k, c in enumerate(inner):
        if c in '<([{': d += 1
        elif c in ')]}' or (c == '>' and inner[k-1] != '-'): d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def kind(t):
    t = t.strip()
    core = t.replace('::__cxx11::', '::')
    deref = core.endswith('* const&') or core.endswith('*&') or core.endswith('* const&&') or core.endswith('*&&')
    if core.startswith('std::basic_string_view<') or core.startswith('std::string_view') or core.startswith('std::wstring_view'):
        return 'svref' if core.endswith('&') else 'sv'
    if core.startswith('std::basic_string<') or core.startswith('std::string') or core.startswith('std::wstring'):
        if core.endswith('*'): return 'ptr'
        return 'string&&' if core.endswith('&&') else 'string'
    if core.startswith('std::filesystem::path::format'): return 'fmt'
    if core.startswith('std::filesystem::path'):
        return 'path&&' if core.endswith('&&') else 'path'
    if re.match(r'(char|wchar_t|char16_t|char32_t)( const)?\s*\*( const)?$', core): return 'cstr'
    if re.match(r'(char|wchar_t)( const)?\s*\*( const)?&+$', core): return 'cstrref'
    if re.match(r'(char|wchar_t)( const)? ?\(&\) ?\[', core) or re.match(r'(char|wchar_t)( const)? ?\[', core): return 'cstr'
    if core in ('char', 'wchar_t', 'char16_t', 'char32_t'): return 'char'
    if core.startswith('std::allocator') : return 'alloc'
    if core in ('unsigned long', 'int', 'long', 'unsigned int', 'std::size_t'): return 'int'
    if core.startswith('std::initializer_list'): return 'il'
    if core.startswith('std::error_code&'): return 'ec'
    return 'other'


def has_sret(f):
    f.ensure()
    return bool(f.params) and f.params[0][2]


# the kernel's limits: NAME_MAX, PATH_MAX with its null
MAXLEN = {'NAME': 255, 'dname': 255, 'readlink': 4095, 'realpath': 4095}


def maxlen(a):
    if a[0] == 'num': return 11 if getattr(a[1], 'w', 64) <= 32 else 20
    return MAXLEN.get(a[0], 1 << 40)


def minlen(a): return 1 if a[0] in ('readlink', 'realpath') else 0         # what there is has a name


def slen(s):
    if isinstance(s, Str):
        n = 0
        atoms = []
        for x in s.p:
            if isinstance(x, bytes): n += len(x)
            else: atoms.append(x)
        if not atoms: return n
        if len(s.p) == 1:
            return sym(('len', s), 64, signed=True, lo=minlen(atoms[0]), hi=maxlen(atoms[0]))
        d = {}
        for a in atoms:
            q = sym(('len', mkstr((a,))), 64, signed=True, lo=minlen(a), hi=maxlen(a))
            d[q] = d.get(q, 0) + 1
        return lin(d, n, 64)
    return sym(('len?', s), 64, signed=True, lo=0, hi=1 << 40)


NAMECLS = (0, 1, 2, 3)   # '.', '..', '.hidden', 'plain'


def cstr(eng, st, p, inst=None):
    """content of the C string at p"""
    if isinstance(p, Fn) or p is UNDEF or isinstance(p, int):
        return mkstr([('bad',)])
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return mkstr([('bad',)])
    o = p.obj
    if isinstance(o, tuple) and o[0] == 'cs':
        if p.off == 0: return o[1]
        if isinstance(p.off, int):
            s = o[1]
            if s.p and isinstance(s.p[0], bytes) and len(s.p[0]) >= p.off:
                return mkstr((s.p[0][p.off:],) + s.p[1:])
        return mkstr([('suffix', o[1], p.off)])
    if isinstance(o, tuple) and o[0] == 'g':
        b = gstr(eng, o[1], p.off)
        if b is not None: return mkstr([b])
    for h in eng.hooks:
        f = getattr(h, 'cstr_override', None)
        if f:
            r = f(eng, st, p)
            if r is not None: return r
    ob = st.mem.get(o)
    if ob is None: ob = st.wobj(o)
    out = []
    off = p.off
    for _ in range(64):
        c = ob.cells.get(off)
        if c is None:
            if isinstance(off, int) and eng._zeroed(ob, off, 1): return mkstr(out)
            if ob.default == 'sym' and not out:
                return mkstr([('cstr', o, off)])
            out.append(('bytes?', o, off))
            return mkstr(out)
        v = c[1]
        if isinstance(v, Opaque) and v.kind == 'chars':
            s, L, term_ = v.d
            out.extend(s.p)
            if term_: return mkstr(out)
            off = ladd(off, L, 64)
            continue
        if isinstance(v, int) and c[0] == 1:
            if v == 0: return mkstr(out)
            out.append(bytes([v & 255])); off = ladd(off, 1, 64)
            continue
        if isinstance(v, int) and isinstance(c[0], int):
            bs = v.to_bytes(8, 'little')[:c[0]] if v < (1 << 64) else b''
            z = bs.find(0)
            if z >= 0:
                out.append(bs[:z]); return mkstr(out)
            out.append(bs); off = ladd(off, c[0], 64)
            continue
        if isinstance(v, Str):
            out.extend(v.p); return mkstr(out)
        out.append(('byte', v))
        off = ladd(off, 1, 64)
    return mkstr(out)


def gstr(eng, name, off):
    g = eng.m.global_(name)
    if g is None or not g[2] or not isinstance(off, int): return None
    ty, init, _ = g
    if ty.k != 'arr' or init is None: return None
    es = ty.el.size
    if init[0] == 'str':
        b = init[1][off:]
        z = b.find(0)
        return bytes(b[:z] if z >= 0 else b)
    if init[0] == 'zero': return b''
    if init[0] == 'agg' and es in (2, 4):
        out = b''
        for t, v in init[1][off // es:]:
            if v[1] == 0: break
            out += chr(v[1]).encode('utf-8', 'replace')
        return out
    return None


def put_chars(eng, st, p, s, L=None, terminated=True):
    """write string content into a buffer"""
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return
    o = st.wobj(p.obj)
    L = slen(s) if L is None else L
    if isinstance(p.off, int):
        if isinstance(L, int): eng.kill(o, p.off, L + (1 if terminated else 0))
        else:
            hi = p.reg[1] if p.reg and isinstance(p.reg[1], int) else (o.size or p.off + 4096)
            for k in list(o.cells):
                if not isinstance(k, int) or p.off <= k < hi: del o.cells[k]
            o.zr = tuple(z for r in o.zr for z in cut(r, p.off, hi))
    o.cells[p.off] = (1, opaque('chars', s, L, terminated))
    o._k = o._r = None


def sget(eng, st, p):
    """content of the std::string / path object at p"""
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return mkstr([('bad',)])
    ob = st.mem.get(p.obj)
    if ob is None: ob = st.wobj(p.obj)
    c = ob.cells.get(p.off)
    if c is not None:
        if isinstance(c[1], Str): return c[1]
        if isinstance(c[1], int) or isinstance(c[1], (Sym, P)):
            return mkstr([('strobj', p.obj, p.off)])
    if ob.default == 'sym' or (isinstance(p.obj, tuple) and p.obj[0] == 'g'):
        s = mkstr([('strobj', p.obj, p.off if isinstance(p.off, (int, Val)) else 0)])
        o = st.wobj(p.obj)
        o.cells[p.off] = (32, s)
        return s
    return mkstr([('uninit', p.obj, p.off)])


def sset(eng, st, p, s, size=32):
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return
    o = st.wobj(p.obj)
    old = o.cells.get(p.off)
    if isinstance(p.off, int):
        eng.kill(o, p.off, size)
    o.cells[p.off] = (size, s)
    eng.hook('on_strset', st, p, s, old)


def sdel(eng, st, p):
    p = eng.as_ptr(p, st)
    if isinstance(p, P):
        o = st.wobj(p.obj)
        o.cells.pop(p.off, None)
        eng.hook('on_strdel', st, p)


def cat(a, b): return mkstr(a.p + b.p)


def pjoin(a, b):
    if not b.p: return mkstr(a.p + (b'/',))
    if isinstance(b.p[0], bytes) and b.p[0][:1] == b'/': return b
    if not a.p: return b
    if isinstance(a.p[-1], bytes) and a.p[-1][-1:] == b'/': return mkstr(a.p + b.p)
    return mkstr(a.p + (b'/',) + b.p)


def streq(st, x, y):
    """i1 value: are the two contents equal"""
    if x is y: return 1
    cx = all(isinstance(e, bytes) for e in x.p); cy = all(isinstance(e, bytes) for e in y.p)
    if cx and cy: return int(x.p == y.p)
    if cy: x, y = y, x; cx, cy = cy, cx
    if cx:
        lit = x.p[0] if x.p else b''
        cls = y.p[0][2] if len(y.p) == 1 and isinstance(y.p[0], tuple) and y.p[0][0] == 'dname' else \
            y.p[0][3] if len(y.p) == 1 and isinstance(y.p[0], tuple) and y.p[0][0] == 'NAME' and len(y.p[0]) > 3 else None
        if cls is not None:
            t = {b'.': (1, 0, 0, 0), b'..': (0, 1, 0, 0), b'': (0, 0, 0, 0)}.get(lit, None)
            if t is not None:
                v = term('icmp', ('eq', term('tab', (t, cls), 32), 1, 32), 1)
                d = decide(v, st)
                return v if d is None else d
        for k, d in st.fin.items():
            if isinstance(k, Sym) and isinstance(k.name, tuple) and k.name[0] == 'strcmp' and k.name[1] is y and d == frozenset((0,)):
                return int(k.name[2] is x)
        # a fixed prefix can differ
        if y.p and isinstance(y.p[0], bytes):
            n = min(len(lit), len(y.p[0]))
            if lit[:n] != y.p[0][:n] or len(y.p[0]) > len(lit): return 0
        s = sym(('strcmp', y, x), 32, dom=(0, 1))
    else:
        a, b = sorted((x, y), key=lambda v: v.srt)
        s = sym(('strcmp', a, b), 32, dom=(0, 1))
    v = term('icmp', ('eq', s, 0, 32), 1)
    d = decide(v, st)
    return v if d is None else d


def set_errno(st, dom, tag='errno'):
    v = st.fresh(tag, 32, dom=dom)
    o = st.wobj(('root', 'errno'))
    o.cells[0] = (4, v)
    return v


def get_errno_obj(st):
    o = st.mem.get(('root', 'errno'))
    if o is None or 0 not in o.cells:
        o = st.wobj(('root', 'errno'))
        o.cells[0] = (4, sym(('stale errno',), 32, dom=(0,) + tuple(sorted(set(E.values())))))
    return ERRNO_P


def i32(v):
    return v & M1 if isinstance(v, int) else v


# ------------------------------------------------------------------ registry
MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


def ret(st, v=None): return [(st, v)]


# ---- C memory / strings
@model('__errno_location')
def _(eng, st, c): return ret(st, get_errno_obj(st))


def heap_alloc(eng, st, c, size, kindname):
    site = eng.site(st, c.inst)
    n = 0
    while ('h', (kindname, site, n)) in st.mem: n += 1
    oid = ('h', (kindname, site, n))
    st.new(oid, 'undef', size if isinstance(size, int) else None)
    return ptr(oid, 0)


@model('operator new', '_Znwm', '_Znam', 'operator new[]')
def _(eng, st, c):
    p = heap_alloc(eng, st, c, c.args[0], 'new')
    eng.hook('on_alloc', st, 'new', p, c.inst)
    return ret(st, p)


@model('operator delete', '_ZdlPv', '_ZdlPvm', '_ZdaPv', 'operator delete[]')
def _(eng, st, c):
    p = c.args[0]
    eng.hook('on_free', st, 'delete', p, c.inst)
    if isinstance(p, P) and isinstance(p.obj, tuple) and p.obj[0] == 'h': st.mem.pop(p.obj, None)
    return ret(st)


@model('malloc', 'calloc')
def _(eng, st, c):
    size = c.args[0]
    if c.base == 'calloc': size = size * c.args[1] if isinstance(size, int) and isinstance(c.args[1], int) else None
    s2 = st.clone()
    p = heap_alloc(eng, st, c, size, 'malloc')
    if c.base == 'calloc': st.mem[p.obj].default = 'zero'
    eng.hook('on_alloc', st, 'malloc', p, c.inst)
    out = [(st, p)]
    if getattr(eng, 'malloc_fails', False): out.append((s2, 0))
    return out


@model('free')
def _(eng, st, c):
    eng.hook('on_free', st, 'free', c.args[0], c.inst)
    p = c.args[0]
    if eng.unroll and isinstance(p, P) and isinstance(p.obj, tuple) and p.obj[0] == 'h': st.mem.pop(p.obj, None)
    return ret(st)


@model('strdup', 'strndup')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    if c.base == 'strndup' and len(c.args) > 1 and c.args[1] != slen(s):
        n, L = c.args[1], slen(s)
        if isinstance(n, int) and isinstance(L, int): s = s if n >= L else mkstr((('cut', s, n),))
        elif not isinstance(n, int) or n < 4096: s = mkstr((('cut', s, n),))
    p = heap_alloc(eng, st, c, None, 'strdup')
    eng.hook('on_alloc', st, 'strdup', p, c.inst)
    put_chars(eng, st, p, s)
    s2 = None
    return ret(st, p)


@model('strlen', 'std::char_traits::length', 'wcslen')
def _(eng, st, c): return ret(st, slen(cstr(eng, st, c.args[0])))


@model('strcmp', 'std::char_traits::compare', 'strncmp', 'memcmp')
def _(eng, st, c):
    x, y = cstr(eng, st, c.args[0]), cstr(eng, st, c.args[1])
    if c.base in ('strncmp', 'memcmp') or len(c.args) > 2:
        n = c.args[2]
        lit = y if all(isinstance(e, bytes) for e in y.p) else x
        if isinstance(n, int):
            def cutn(v):
                if v.p and isinstance(v.p[0], bytes) and len(v.p[0]) >= n: return mkstr((v.p[0][:n],))
                if all(isinstance(e, bytes) for e in v.p): return v
                return None
            a, b = cutn(x), cutn(y)
            if a is not None and b is not None: return ret(st, int(a is not b))
        return ret(st, st.fresh('strncmp', 32, dom=(0, 1)))
    r = streq(st, x, y)
    if isinstance(r, int): return ret(st, 1 - r)
    return ret(st, term('zext', (not_(r), 1), 32))


@model('snprintf')
def _(eng, st, c):
    dst, n, fmt = c.args[0], c.args[1], cstr(eng, st, c.args[2])
    s = format_str(eng, st, fmt, c.args[3:])
    eng.hook('on_fill', st, dst, n, c.inst, 'snprintf')
    L = slen(s)
    put = s
    d = ladd(L, n, 64, 1, -1) if isinstance(L, (int, Val)) and isinstance(n, (int, Val)) and n is not UNDEF else None
    if isinstance(d, int): cut = d >= 0
    elif d is None: cut = False
    else:
        lo, hi = st.range(d)
        if lo < 0 <= hi: raise Fork([lambda q: q.setrange(d, -INF, -1), lambda q: q.setrange(d, 0, INF)])
        cut = lo >= 0
    if cut: put = mkstr([('trunc', s)]); st.ev('cut off', s)
    put_chars(eng, st, dst, put)
    eng.hook('on_snprintf', st, dst, n, put, c.inst)
    if isinstance(L, int): return ret(st, L)
    return ret(st, L)


def format_str(eng, st, fmt, args):
    f = b''.join(x for x in fmt.p if isinstance(x, bytes))
    out, k, i = [], 0, 0
    while i < len(f):
        j = f.find(b'%', i)
        if j < 0:
            out.append(f[i:]); break
        out.append(f[i:j])
        m = re.match(rb'%[-+ #0]*(\d+|\*)?(\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXcsp%])', f[j:])
        if not m:
            out.append(('fmt?', f[j:])); break
        conv = m.group(5)
        if conv == b'%': out.append(b'%')
        elif conv == b's':
            a = args[k] if k < len(args) else UNDEF; k += 1
            s = cstr(eng, st, a)
            if m.group(2): out.append(('trunc', s, m.group(2)))
            else: out.extend(s.p)
        else:
            a = args[k] if k < len(args) else UNDEF; k += 1
            if isinstance(a, int) and conv in b'di': out.append(str(signed(a & M1, 32)).encode())
            else: out.append(('num', a))
        i = j + m.end()
    return mkstr(out)


@model('strcpy', 'strncpy', 'stpcpy')
def _(eng, st, c):
    s = cstr(eng, st, c.args[1])
    eng.hook('on_fill', st, c.args[0], c.args[2] if len(c.args) > 2 else slen(s), c.inst, c.base)
    put_chars(eng, st, c.args[0], s)
    return ret(st, c.args[0])


@model('strcat', 'strncat')
def _(eng, st, c):
    a, s = cstr(eng, st, c.args[0]), cstr(eng, st, c.args[1])
    put_chars(eng, st, c.args[0], cat(a, s))
    return ret(st, c.args[0])


@model('strerror')
def _(eng, st, c):
    return ret(st, ptr(('cs', mkstr([('strerror', c.args[0])]), None, 0), 0))


# ---- processes, files, directories
@model('geteuid', 'getuid')
def _(eng, st, c):
    s = sym((c.base,), 32, dom=(0, 1000))
    return ret(st, s)


@model('getpid')
def _(eng, st, c): return ret(st, sym(('getpid',), 32, lo=1, hi=1 << 22))


@model('realpath')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    r = mkstr([('realpath', s)])
    bad = st.clone()
    out = []
    if c.args[1] == 0:
        p = heap_alloc(eng, st, c, None, 'realpath')
        eng.hook('on_alloc', st, 'malloc', p, c.inst)
        put_chars(eng, st, p, r)
        out.append((st, p))
    else:
        eng.hook('on_fill', st, c.args[1], 4096, c.inst, 'realpath')
        put_chars(eng, st, c.args[1], r)
        out.append((st, c.args[1]))
    st.ev('realpath ok', s)
    set_errno(bad, NOPATH)
    bad.ev('realpath fails', s)
    eng.hook('on_sys', st, 'realpath', [s], c.args[1], c.inst)
    eng.hook('on_sys', bad, 'realpath', [s], 0, c.inst)
    out.append((bad, 0))
    return out


S_IFMT, S_IFDIR, S_IFREG, S_IFLNK = 0o170000, 0o040000, 0o100000, 0o120000


def mode_sym(base, s):
    return sym(('st_mode', base, s), 32, dom=(S_IFDIR | 0o755, S_IFREG | 0o644) + ((S_IFLNK | 0o777,) if base == 'lstat' else ()))


def dtype_sym(d, key):
    return sym(('d_type', d, key), 8, dom=(DT['DT_DIR'], DT['DT_REG'], DT['DT_LNK'], DT['DT_UNKNOWN'], DT['DT_FIFO'], DT['DT_SOCK']))


@model('stat', 'lstat', 'fstatat', 'fstat')
def _(eng, st, c):
    i = 1 if c.base == 'fstatat' else 0
    s = cstr(eng, st, c.args[i]) if c.base != 'fstat' else mkstr([('fd', c.args[0])])
    buf = c.args[i + 1]
    bad = st.clone()
    p = eng.as_ptr(buf, st)
    eng.havoc(st, p)
    m = mode_sym(c.base, s)
    if isinstance(p, P): eng.raw_store(st, eng.addoff(p, 24), m, 4)
    set_errno(bad, NOPATH)
    st.ev('stat ok', s); bad.ev('stat fails', s)
    eng.hook('on_sys', st, c.base, [s, m], 0, c.inst)
    eng.hook('on_sys', bad, c.base, [s, m], M1, c.inst)
    return [(st, 0), (bad, M1)]


@model('opendir', 'fdopendir')
def _(eng, st, c):
    bad = st.clone()
    if c.base == 'opendir': s = cstr(eng, st, c.args[0])
    else: s = mkstr([('fd', c.args[0])])
    n = st.freshid('DIR')
    d = sym(('DIR', eng.site(st, c.inst), n[1]), 64, lo=1)
    st.ev('opendir ok', s)
    eng.hook('on_acquire', st, 'dir', d, c.inst, s)
    eng.hook('on_sys', st, 'opendir', [s], d, c.inst)
    set_errno(bad, NOPATH + (E['EMFILE'], E['ENFILE']))
    bad.ev('opendir fails', s)
    eng.hook('on_sys', bad, 'opendir', [s], 0, c.inst)
    return [(st, d), (bad, 0)]


@model('readdir', 'readdir64')
def _(eng, st, c):
    end = st.clone()
    d = c.args[0]
    eng.hook('on_use', st, 'dir', d, c.inst, 'readdir')
    eng.hook('on_use', end, 'dir', d, c.inst, 'readdir')
    gen = st.mon.get('dirgen', 0)
    oid = ('dirent', d)
    st.cnt[('dirent', d)] = st.cnt.get(('dirent', d), 0) + 1
    o = st.new(oid, 'sym')
    key = st.freshid('dent')
    cls = sym(('namecls', d, key), 32, dom=NAMECLS)
    o.cells[18] = (1, dtype_sym(d, key))
    nm = mkstr([('dname', d, cls, key)])
    o.cells[19] = (1, opaque('chars', nm, slen(nm), True))
    # nothing is known yet of the length of its name: what is left speaks of an earlier entry
    for k in [k for k in st.rng if isinstance(k, Lin) and any(isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'len' and isinstance(x.name[1], Str)
              and any(isinstance(a, tuple) and a[0] == 'dname' and a[1] == d and a[3] == key for a in x.name[1].p) for x, _ in k.t)]: del st.rng[k]
    st.ev('readdir: entry'); end.ev('readdir: end')
    eng.hook('on_sys', st, 'readdir', [d], ptr(oid, 0), c.inst)
    eng.hook('on_sys', end, 'readdir', [d], 0, c.inst)
    return [(st, ptr(oid, 0)), (end, 0)]


@model('closedir')
def _(eng, st, c):
    eng.hook('on_release', st, 'dir', c.args[0], c.inst)
    eng.hook('on_sys', st, 'closedir', [c.args[0]], 0, c.inst)
    return ret(st, 0)


@model('access')
def _(eng, st, c):
    bad = st.clone()
    return [(st, 0), (bad, M1)]


# ---- descriptors
def new_fd(eng, st, c, kindname, info=(), tag=None):
    if tag is not None:
        n = (0, 1 + sum(1 for r in st.mon.get('res', ()) if isinstance(r, tuple) and isinstance(r[-1], Sym) and r[-1].name[:2] == ('fd', kindname) and r[-1].name[-1] == tag))
    else: n = st.freshid(('fd', kindname))
    v = sym(('fd', kindname, n[1]) + ((tag,) if tag is not None else ()), 32, signed=True, lo=0, hi=(1 << 20))
    st.ev('%s succeeds' % c.base, v)
    eng.hook('on_acquire', st, 'fd', v, c.inst, (kindname,) + tuple(info))
    return v


def fd_call(eng, st, c, kindname, errs, info=(), tag=None):
    # the two kernel interfaces are analysed in separate runs: in each, the other one is unavailable
    if eng.universe is not None and kindname in ('inotify', 'fanotify') and kindname != eng.universe:
        set_errno(st, errs)
        st.ev('%s fails' % c.base)
        eng.hook('on_sys', st, c.base, c.args, M1, c.inst)
        return [(st, M1)]
    bad = st.clone()
    v = new_fd(eng, st, c, kindname, info, tag)
    e = set_errno(bad, errs)
    bad.ev('%s fails' % c.base)
    eng.hook('on_sys', st, c.base, c.args, v, c.inst)
    eng.hook('on_sys', bad, c.base, c.args, M1, c.inst)
    return [(st, v), (bad, M1)]


@model('inotify_init')
def _(eng, st, c): return fd_call(eng, st, c, 'inotify', (E['EMFILE'], E['ENFILE'], E['ENOMEM']), (0,))


@model('inotify_init1')
def _(eng, st, c): return fd_call(eng, st, c, 'inotify', (E['EMFILE'], E['ENFILE'], E['ENOMEM'], E['EINVAL']), (c.args[0],))


@model('fanotify_init')
def _(eng, st, c): return fd_call(eng, st, c, 'fanotify', (E['EPERM'], E['ENOSYS'], E['EINVAL'], E['EMFILE'], E['ENFILE'], E['ENOMEM']), (c.args[0], c.args[1]))


@model('epoll_create1', 'epoll_create')
def _(eng, st, c): return fd_call(eng, st, c, 'epoll', (E['EMFILE'], E['ENFILE'], E['ENOMEM']), (c.args[0],))


@model('eventfd')
def _(eng, st, c): return fd_call(eng, st, c, 'eventfd', (E['EMFILE'], E['ENFILE'], E['ENODEV'], E['ENOMEM']), (c.args[0], c.args[1]))


@model('open', 'open64', 'openat', 'openat64')
def _(eng, st, c):
    i = 1 if 'openat' in c.base else 0
    s = cstr(eng, st, c.args[i])
    return fd_call(eng, st, c, 'open', NOPATH + (E['EMFILE'], E['ENFILE'], E['EINTR']), (c.args[i + 1], s))


@model('open_by_handle_at')
def _(eng, st, c):
    h = eng.as_ptr(c.args[1], st)
    where = None
    for k in eng.hooks:
        f = getattr(k, 'handle_at', None)
        if f: where = f(eng, st, h)
    return fd_call(eng, st, c, 'handle', NOPATH + (E['ESTALE'], E['EPERM'], E['EMFILE'], E['ENFILE'], E['EBADF'], E['EINVAL']), (c.args[2], where), tag=where)


@model('dup', 'fcntl', 'dup3', 'dup2')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, c.base)
    if c.base == 'fcntl':
        eng.hook('on_sys', st, 'fcntl', c.args, None, c.inst)
        if c.args[1] in (1030, 0): return fd_call(eng, st, c, 'dup', (E['EMFILE'],), (c.args[1],))
        return ret(st, 0)
    return fd_call(eng, st, c, 'dup', (E['EMFILE'],), (0,))


@model('pipe2', 'pipe')
def _(eng, st, c):
    bad = st.clone()
    fl = c.args[1] if len(c.args) > 1 else 0
    for k in (0, 4):
        v = new_fd(eng, st, c, 'pipe', (fl,))
        eng.raw_store(st, eng.addoff(eng.as_ptr(c.args[0], st), k), v, 4)
    eng.hook('on_sys', st, c.base, c.args, 0, c.inst)
    return [(st, 0), (bad, M1)]


@model('close')
def _(eng, st, c):
    eng.hook('on_release', st, 'fd', i32(c.args[0]), c.inst)
    st.ev('close', c.args[0])
    return ret(st, 0)


@model('inotify_add_watch', 'inotify_add_watch64')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, c.base)
    s = cstr(eng, st, c.args[1])
    bad = st.clone()
    n = st.freshid('wd')
    v = sym(('wd', s, n[1]), 32, signed=True, lo=1, hi=1 << 30)
    st.ev('inotify_add_watch ok', s); bad.ev('inotify_add_watch fails', s)
    set_errno(bad, NOPATH + (E['ENOSPC'], E['EBADF'], E['EINVAL'], E['EEXIST']))
    eng.hook('on_sys', st, 'inotify_add_watch', [c.args[0], s, c.args[2]], v, c.inst)
    eng.hook('on_sys', bad, 'inotify_add_watch', [c.args[0], s, c.args[2]], M1, c.inst)
    return [(st, v), (bad, M1)]


@model('inotify_rm_watch')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, c.base)
    eng.hook('on_sys', st, 'inotify_rm_watch', c.args, 0, c.inst)
    return [(st, 0), (st.clone(), M1)]


@model('fanotify_mark')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, c.base)
    s = cstr(eng, st, c.args[4]) if c.args[4] != 0 else mkstr([('fd', c.args[3])])
    bad = st.clone()
    st.ev('fanotify_mark ok', s); bad.ev('fanotify_mark fails', s)
    set_errno(bad, NOPATH + tuple(E[x] for x in ('ENOSPC', 'EINVAL', 'EOPNOTSUPP', 'ENODEV', 'EXDEV', 'EISDIR', 'EPERM', 'EBADF', 'EEXIST', 'ENOSYS')))
    eng.hook('on_sys', st, 'fanotify_mark', [c.args[0], s, c.args[2], c.args[1], c.args[3]], 0, c.inst)
    eng.hook('on_sys', bad, 'fanotify_mark', [c.args[0], s, c.args[2], c.args[1], c.args[3]], M1, c.inst)
    return [(st, 0), (bad, M1)]


@model('epoll_ctl')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, 'epoll_ctl')
    op, fd, evp = c.args[1], c.args[2], c.args[3]
    bad = st.clone()
    events = data = UNDEF
    if isinstance(evp, P):
        events = eng.raw_load(st, evp, _TI32, c.inst)
        o = st.mem.get(evp.obj)
        d = o.cells.get(ladd(evp.off, 4, 64)) if o else None
        data = d if d else None
        if data is None:
            data = (4, eng.raw_load(st, eng.addoff(evp, 4), _TI32, c.inst))
    st.ev('epoll_ctl ok', fd); bad.ev('epoll_ctl fails', fd)
    set_errno(bad, (E['EBADF'], E['ENOSPC'], E['ENOMEM'], E['EPERM'], E['EINVAL'], E['EEXIST']))
    reg = st.mon.get('epreg', ())
    if op == 1:
        ent = (c.args[0], fd, events, data)
        if ent not in reg: st.mon['epreg'] = reg + (ent,)
    elif op == 2:
        st.mon['epreg'] = tuple(e for e in reg if e[1] is not fd and e[1] != fd)
    elif op == 3:
        st.mon['epreg'] = tuple(e for e in reg if e[1] is not fd and e[1] != fd) + ((c.args[0], fd, events, data),)
    eng.hook('on_sys', st, 'epoll_ctl', c.args + [events, data], 0, c.inst)
    eng.hook('on_sys', bad, 'epoll_ctl', c.args + [events, data], M1, c.inst)
    out = [(st, 0)]
    # a descriptor that is known to be bad makes the call fail
    if badfd(st, fd): out = []
    out.append((bad, M1))
    return out


def badfd(st, fd):
    """is fd known not to be a descriptor?"""
    if isinstance(fd, int): return signed(fd & M1, 32) < 0
    return isinstance(fd, (Sym, Lin, Term)) and st.range(fd)[1] < 0


def kern_fill(eng, st, p, kindname, gen, L, unit):
    """mark buffer at p as filled by the kernel"""
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return
    o = st.wobj(p.obj)
    reg = p.reg
    hi = reg[1] if reg and isinstance(reg[1], int) else (o.size or (p.off + 4096 if isinstance(p.off, int) else 1 << 20))
    for k in list(o.cells):
        if not isinstance(k, int):
            if isinstance(k, Val) and not any(a <= 0 < b for a, b in ()): 
                # symbolic cells: only those in this buffer's region
                if o.kern and any(b == (p.off, hi) for b in [(x[1], x[2]) for x in (o.kern or ())]) or not any(a <= p.off < b for a, b in o.syw) or True:
                    del o.cells[k]
        elif isinstance(p.off, int) and p.off <= k < hi:
            del o.cells[k]
    o.zr = tuple(z for r in o.zr for z in cut(r, p.off, hi)) if isinstance(p.off, int) else ()
    ks = tuple(x for x in (o.kern or ()) if x[1] != p.off)
    o.kern = tuple(sorted(ks + ((kindname, p.off, hi, gen, L),), key=lambda x: str(x[:3])))
    if (p.off, hi) not in o.syw: o.syw = o.syw + ((p.off, hi),)
    o._k = o._r = None


def read_region(st, p):
    """the kernel-filled region p points into: (kind, start, end, gen, L) or None"""
    o = st.mem.get(p.obj)
    if o is None or not o.kern: return None
    for k in o.kern:
        if isinstance(p.off, int):
            if k[1] <= p.off < k[2]: return k
        elif p.reg and isinstance(p.reg[0], int):
            if k[1] <= p.reg[0] < k[2]: return k
        else:
            if len(o.kern) == 1: return k
            l = to_lin(p.off, 64)
            if l:
                base = l[1]
                c = [x for x in o.kern if x[1] <= base < x[2]]
                if len(c) == 1: return c[0]
    return None


@model('epoll_wait', 'epoll_pwait')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, 'epoll_wait')
    bad = st.clone()
    maxev = c.args[2]
    tmo = c.args[3]
    eng.hook('on_fill', st, c.args[1], maxev * 12 if isinstance(maxev, int) else UNDEF, c.inst, 'epoll_wait')
    gen = st.freshid('epgen')
    n = sym(('epoll_wait', gen[1]), 32, signed=True, lo=0, hi=maxev if isinstance(maxev, int) and 0 < maxev < 1 << 31 else 1 << 20)
    timeout_inf = isinstance(tmo, int) and signed(tmo & M1, 32) < 0
    if timeout_inf: st.setrange(n, 1, INF)
    kern_fill(eng, st, c.args[1], 'epoll', n, n, 12)
    if 'epcur' in st.mon: st.mon['epcur'] = (n, ptr(('epcur',), 0))
    st.ev('epoll_wait returns events'); bad.ev('epoll_wait fails')
    e = set_errno(bad, (E['EINTR'], E['EBADF'], E['EINVAL']), 'epoll errno')
    eng.hook('on_sys', st, 'epoll_wait', c.args, n, c.inst)
    eng.hook('on_sys', bad, 'epoll_wait', c.args, M1, c.inst)
    return [(st, n), (bad, M1)]


@model('read')
def _(eng, st, c):
    fd, buf, n = c.args
    eng.hook('on_use', st, 'fd', fd, c.inst, 'read')
    bad, zero = st.clone(), st.clone()
    gen = st.freshid('readgen')
    knd = 'bytes'
    if isinstance(fd, Sym) and isinstance(fd.name, tuple) and fd.name[0] == 'fd': knd = fd.name[1]
    unit = {'inotify': 16, 'fanotify': 24}.get(knd, 1)
    hi = n if isinstance(n, int) and 0 < n < (1 << 40) else 1 << 40
    L = sym(('read', knd, gen[1]), 64, signed=True, lo=unit, hi=hi)
    eng.hook('on_fill', st, buf, n, c.inst, 'read')
    kern_fill(eng, st, buf, knd, L, L, unit)
    st.ev('read returns data'); bad.ev('read fails'); zero.ev('read returns 0')
    e = set_errno(bad, (E['EAGAIN'], E['EINTR'], E['EBADF'], E['EIO'], E['EINVAL'], E['ENOMEM'], E['EMFILE'], E['ENFILE']), 'read errno')
    eng.hook('on_sys', st, 'read', c.args, L, c.inst)
    eng.hook('on_sys', bad, 'read', c.args, M1L, c.inst)
    out = [(st, L), (bad, M1L)]
    if knd not in ('eventfd', 'inotify', 'fanotify'):
        eng.hook('on_sys', zero, 'read', c.args, 0, c.inst)
        out.append((zero, 0))
    return out


@model('write')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, 'write')
    bad = st.clone()
    set_errno(bad, (E['EAGAIN'], E['EBADF'], E['EINTR']))
    eng.hook('on_sys', st, 'write', c.args, c.args[2], c.inst)
    eng.hook('on_sys', bad, 'write', c.args, M1L, c.inst)
    return [(st, c.args[2]), (bad, M1L)]


@model('eventfd_write')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, 'write')
    bad = st.clone()
    set_errno(bad, (E['EAGAIN'], E['EBADF']))
    st.ev('eventfd_write ok'); bad.ev('eventfd_write fails')
    if badfd(st, c.args[0]):
        eng.hook('on_sys', bad, 'eventfd_write', c.args, M1, c.inst)
        return [(bad, M1)]
    eng.hook('on_sys', st, 'eventfd_write', c.args, 0, c.inst)
    eng.hook('on_sys', bad, 'eventfd_write', c.args, M1, c.inst)
    return [(st, 0), (bad, M1)]


@model('eventfd_read')
def _(eng, st, c):
    eng.hook('on_use', st, 'fd', c.args[0], c.inst, 'read')
    bad = st.clone()
    p = eng.as_ptr(c.args[1], st)
    if isinstance(p, P): eng.raw_store(st, p, st.fresh('eventfd value', 64, lo=1), 8)
    set_errno(bad, (E['EAGAIN'], E['EBADF']), 'eventfd errno')
    st.ev('eventfd_read ok'); bad.ev('eventfd_read fails')
    if badfd(st, c.args[0]):
        eng.hook('on_sys', bad, 'eventfd_read', c.args, M1, c.inst)
        return [(bad, M1)]
    eng.hook('on_sys', st, 'eventfd_read', c.args, 0, c.inst)
    eng.hook('on_sys', bad, 'eventfd_read', c.args, M1, c.inst)
    return [(st, 0), (bad, M1)]


@model('readlink')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    n = c.args[2]
    bad = st.clone()
    content = mkstr([('readlink', s)])
    eng.hook('on_fill', st, c.args[1], n, c.inst, 'readlink')
    L = slen(content)
    if isinstance(n, int): st.setrange(L, 1, n)
    put_chars(eng, st, c.args[1], content, L, terminated=False)
    set_errno(bad, NOPATH)
    st.ev('readlink ok', s); bad.ev('readlink fails', s)
    eng.hook('on_sys', st, 'readlink', [s], L, c.inst)
    eng.hook('on_sys', bad, 'readlink', [s], M1L, c.inst)
    return [(st, L), (bad, M1L)]


# ---- std::string
def strarg(eng, st, k, args, i):
    """(content, args consumed) of one string-like argument"""
    if k in ('string', 'string&&', 'path', 'path&&'):
        return sget(eng, st, args[i]), 1
    if k == 'cstr': return cstr(eng, st, args[i]), 1
    if k == 'cstrref':
        p = eng.load(st, args[i], PTRTY)
        return cstr(eng, st, p), 1
    if k == 'sv':
        return svcontent(eng, st, args[i], args[i + 1]), 2
    if k == 'svref':
        n = eng.load(st, args[i], _TI64); p = eng.load(st, eng.addoff(eng.as_ptr(args[i], st), 8), PTRTY)
        return svcontent(eng, st, n, p), 1
    if k == 'char':
        v = args[i]
        return mkstr([bytes([v & 255])] if isinstance(v, int) else [('byte', v)]), 1
    return None, 1


def svcontent(eng, st, n, p):
    s = cstr(eng, st, p)
    if isinstance(n, int):
        if len(s.p) == 1 and isinstance(s.p[0], bytes):
            return mkstr([s.p[0][:n]]) if len(s.p[0]) >= n else mkstr([s.p[0], ('nul', n - len(s.p[0]))])
        if not s.p and n == 0: return s
    L = slen(s)
    if n is L or n == L: return s
    return mkstr([('slice', s, n)])


def moved(eng, st, p, k):
    if k.endswith('&&'):
        p = eng.as_ptr(p, st)
        if isinstance(p, P):
            o = st.wobj(p.obj)
            if p.off in o.cells: o.cells[p.off] = (o.cells[p.off][0], mkstr(()))


@model('std::basic_string::basic_string')
def _(eng, st, c):
    this = c.args[0]
    ps = params(eng.m.demangled(c.name))
    ks = [kind(x) for x in ps]
    a = c.args
    if not ks or ks == ['alloc']: s = mkstr(())
    elif ks[0] in ('string', 'string&&'):
        s = sget(eng, st, a[1])
        if len(ks) >= 2 and ks[1] == 'int':
            s = mkstr([('substr', s, a[2], a[3] if len(ks) > 2 and ks[2] == 'int' else None)])
        moved(eng, st, a[1], ks[0])
    elif ks[0] == 'cstr':
        if len(ks) > 1 and ks[1] == 'int':
            s = ptrlen(eng, st, a[1], a[2])
        elif len(ks) > 1 and ks[1] == 'cstr':
            s = mkstr([('range', a[1], a[2])])
            if eng.unroll and isinstance(a[1], P) and isinstance(a[2], P) and a[1].obj == a[2].obj and isinstance(a[1].off, int) and isinstance(a[2].off, int):
                o = st.mem.get(a[1].obj)
                es = (o.cells.get(a[1].off) or (1, 0))[0] if o is not None else 0
                if es in (1, 2, 4) and a[2].off >= a[1].off: s = ptrlen(eng, st, a[1], (a[2].off - a[1].off) // es)
        else: s = cstr(eng, st, a[1])
    elif ks[0] == 'sv': s = svcontent(eng, st, a[1], a[2])
    elif ks[0] == 'svref': s, _ = strarg(eng, st, 'svref', a, 1)
    elif ks[0] == 'int':
        n, ch = a[1], a[2]
        s = mkstr([bytes([ch & 255]) * n]) if isinstance(n, int) and isinstance(ch, int) and n < 4096 else mkstr([('fill', n, ch)])
    else:
        s = mkstr([('ctor', eng.m.demangled(c.name)[:80]) + tuple(x for x in a[1:] if isinstance(x, (Val, int)))])
    sset(eng, st, this, s, 32)
    return ret(st)


def ptrlen(eng, st, p, n):
    """string content of [p, p+n)"""
    q = eng.as_ptr(p, st)
    if isinstance(q, P):
        o = st.mem.get(q.obj)
        c = o.cells.get(q.off) if o is not None else None
        if c is not None and isinstance(c[1], Opaque) and c[1].kind == 'chars':
            s, L, _t = c[1].d
            if n is L or n == L: return s
            if isinstance(n, int) and isinstance(L, int) is False:
                return mkstr([('slice', s, n)])
        if q.obj and q.obj[0] == 'g':
            b = None
            g = eng.m.global_(q.obj[1])
            if g and g[2] and g[1] and g[1][0] == 'str' and isinstance(n, int) and isinstance(q.off, int):
                return mkstr([bytes(g[1][1][q.off:q.off + n])])
        if isinstance(q.obj, tuple) and q.obj[0] == 'cs': 
            s = cstr(eng, st, q)
            L = slen(s)
            if n is L or n == L: return s
            return mkstr([('slice', s, n)])
        if eng.unroll and o is not None and isinstance(n, int) and n < 4096 and isinstance(q.off, int):
            es = (o.cells.get(q.off) or (1, 0))[0]
            es = es if es in (1, 2, 4) else 1
            cs = [o.cells.get(q.off + k * es) or (eng._zeroed(o, q.off + k * es, es) and (es, 0) or None) for k in range(n)]
            if all(x is not None and x[0] == es and isinstance(x[1], (int, Sym, Term, Lin)) for x in cs):
                return mkstr([bytes([x[1] & 255]) if isinstance(x[1], int) else ('byte', x[1]) for x in cs])
        if o is not None and isinstance(n, int) and n < 4096 and isinstance(q.off, int):
            # a char array known cell by cell
            bs = []
            ok = True
            k = 0
            while k < n:
                cc = o.cells.get(q.off + k)
                if cc is not None and isinstance(cc[1], int) and isinstance(cc[0], int):
                    bs.append(cc[1].to_bytes(8, 'little')[:cc[0]]); k += cc[0]
                elif cc is None and eng._zeroed(o, q.off + k, 1): bs.append(b'\0'); k += 1
                else: ok = False; break
            if ok: return mkstr([b''.join(bs)[:n]])
    s = cstr(eng, st, p)
    L = slen(s)
    if n is L or n == L: return s
    return mkstr([('slice', s, n)])


@model('std::basic_string::~basic_string')
def _(eng, st, c):
    sdel(eng, st, c.args[0]); return ret(st)


@model('std::filesystem::path::~path')
def _(eng, st, c):
    sdel(eng, st, c.args[0]); return ret(st)


@model('std::basic_string::operator=', 'std::basic_string::assign')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    if ks and ks[0] == 'cstr' and len(ks) > 1 and ks[1] == 'int': s = ptrlen(eng, st, c.args[1], c.args[2])
    else:
        s, _n = strarg(eng, st, ks[0] if ks else 'other', c.args, 1)
    if s is None: s = mkstr([('assign?',)])
    elif ks: moved(eng, st, c.args[1], ks[0])
    sset(eng, st, c.args[0], s)
    return ret(st, c.args[0])


@model('std::basic_string::append', 'std::basic_string::operator+=', 'std::basic_string::push_back')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    cur = sget(eng, st, c.args[0])
    if ks and ks[0] == 'cstr' and len(ks) > 1 and ks[1] == 'int': s = ptrlen(eng, st, c.args[1], c.args[2])
    elif ks and ks[0] == 'int' and len(ks) > 1:
        n, ch = c.args[1], c.args[2]
        s = mkstr([bytes([ch & 255]) * n]) if isinstance(n, int) and isinstance(ch, int) and n < 4096 else mkstr([('fill', n, ch)])
    else: s, _n = strarg(eng, st, ks[0] if ks else 'other', c.args, 1)
    if s is None: s = mkstr([('append?',)])
    sset(eng, st, c.args[0], cat(cur, s))
    return ret(st, c.args[0] if c.inst.ty.k != 'void' else None)


@model('std::basic_string::insert')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    cur = sget(eng, st, c.args[0])
    if ks[:1] == ['int'] and c.args[1] == 0 and len(ks) > 1:
        s, _n = strarg(eng, st, ks[1], c.args, 2)
        if s is not None:
            sset(eng, st, c.args[0], cat(s, cur)); return ret(st, c.args[0])
    sset(eng, st, c.args[0], mkstr([('insert', cur)]))
    return ret(st, c.args[0])


@model('std::operator+')
def _(eng, st, c):
    if c.f is None or not has_sret(c.f): return NotImplemented
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    if len(ks) != 2: return NotImplemented
    a, n = strarg(eng, st, ks[0], c.args, 1)
    b, _n = strarg(eng, st, ks[1], c.args, 1 + n)
    if a is None or b is None: return NotImplemented
    moved(eng, st, c.args[1], ks[0])
    sset(eng, st, c.args[0], cat(a, b))
    return ret(st)


@model('std::basic_string::c_str', 'std::basic_string::data', 'std::filesystem::path::c_str')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    p = eng.as_ptr(c.args[0], st)
    return ret(st, ptr(('cs', s, p.obj, p.off), 0) if isinstance(p, P) else UNDEF)


@model('std::basic_string::size', 'std::basic_string::length')
def _(eng, st, c): return ret(st, slen(sget(eng, st, c.args[0])))


@model('std::basic_string::empty', 'std::filesystem::path::empty')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    L = slen(s)
    if any(isinstance(x, bytes) for x in s.p): return ret(st, 0)
    if isinstance(L, int): return ret(st, int(L == 0))
    return ret(st, term('icmp', ('eq', L, 0, 64), 1))


@model('std::basic_string::clear', 'std::filesystem::path::clear')
def _(eng, st, c):
    sset(eng, st, c.args[0], mkstr(())); return ret(st)


@model('std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def _(eng, st, c): return ret(st)


@model('std::basic_string::resize', 'std::basic_string::erase', 'std::basic_string::replace', 'std::basic_string::pop_back')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    sset(eng, st, c.args[0], mkstr([(c.base.split('::')[-1], s) + tuple(x for x in c.args[1:] if isinstance(x, (int, Val)))]))
    return ret(st, c.args[0] if c.inst.ty.k != 'void' else None)


@model('std::basic_string::substr')
def _(eng, st, c):
    s = sget(eng, st, c.args[1])
    sset(eng, st, c.args[0], mkstr([('substr', s, c.args[2], c.args[3])]))
    return ret(st)


@model('std::operator==', 'std::operator!=')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    if len(ks) != 2: return NotImplemented
    a, n = strarg(eng, st, ks[0], c.args, 0)
    if a is None: return NotImplemented
    b, _n = strarg(eng, st, ks[1], c.args, n)
    if b is None: return NotImplemented
    r = streq(st, a, b)
    eng.hook('on_streq', st, a, b, c.inst)
    return ret(st, r if c.base.endswith('==') else not_(r))


@model('std::filesystem::operator==', 'std::filesystem::operator!=')
def _(eng, st, c):
    a, b = sget(eng, st, c.args[0]), sget(eng, st, c.args[1])
    r = streq(st, a, b)
    return ret(st, r if c.base.endswith('==') else not_(r))


@model('std::basic_string::compare', 'std::filesystem::path::compare')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    if len(ks) != 1: return ret(st, st.fresh('compare', 32))
    a = sget(eng, st, c.args[0])
    b, _n = strarg(eng, st, ks[0], c.args, 1)
    if b is None: return ret(st, st.fresh('compare', 32))
    r = streq(st, a, b)
    if isinstance(r, int): return ret(st, 1 - r)
    return ret(st, term('zext', (not_(r), 1), 32))


@model('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::front', 'std::basic_string::back')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    i = c.args[1] if len(c.args) > 1 else 0
    p = eng.as_ptr(c.args[0], st)
    if eng.unroll and isinstance(p, P) and len(c.args) > 1:
        es = 4 if 'stringIw' in c.name else 1
        off = lmul(i, es, 64) if isinstance(i, Val) else i * es
        return ret(st, ptr(('cs', s, p.obj, p.off), off))
    if s.p and isinstance(s.p[0], bytes) and isinstance(i, int) and i < len(s.p[0]):
        oid = ('tmp', st.freshid('chr'))
        st.new(oid, 'undef').cells[0] = (1, s.p[0][i])
        return ret(st, ptr(oid, 0))
    oid = ('tmp', ('chr', s, i))
    if oid not in st.mem: st.new(oid, 'undef').cells[0] = (1, sym(('byte', s, i), 8))
    return ret(st, ptr(oid, 0))


@model('std::basic_string::operator basic_string_view', 'std::basic_string::operator std::basic_string_view')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    p = eng.as_ptr(c.args[0], st)
    return ret(st, agg([slen(s), ptr(('cs', s, p.obj, p.off), 0)]))


@model('std::basic_string_view::basic_string_view')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    this = eng.as_ptr(c.args[0], st)
    if ks == ['cstr']:
        s = cstr(eng, st, c.args[1])
        eng.store(st, this, slen(s), 8); eng.store(st, eng.addoff(this, 8), c.args[1], 8)
        return ret(st)
    return NotImplemented


@model('std::to_string')
def _(eng, st, c):
    v = c.args[1]
    sset(eng, st, c.args[0], mkstr([('dec', v)]))
    return ret(st)


@model('std::to_wstring')
def _(eng, st, c):
    sset(eng, st, c.args[0], mkstr([('dec', c.args[1])])); return ret(st)


@model('std::to_chars')
def _(eng, st, c):
    ps = params(eng.m.demangled(c.name))
    first, last, v = c.args[0], c.args[1], c.args[2]
    cap = eng.binop('sub', last, first, _TI64, st)
    digits = mkstr([('dec', v)])
    L = slen(digits)
    is64 = any('long' in p for p in ps[2:3])
    if eng.digits:
        # one path for every length, character by character
        out = []
        for n in eng.digits:
            s2 = st.clone()
            eng.hook('on_fill', s2, first, n, c.inst, 'to_chars')
            ok = icmp_ge(eng, s2, cap, n)
            if decide(ok, s2) != 1:
                out.append((s2, agg([last, E['EOVERFLOW']])))
                continue
            for i in range(n): eng.store(s2, eng.addoff(first, i), sym(('digit', v, n, i), 8, lo=45, hi=57), 1, c.inst)
            out.append((s2, agg([eng.addoff(first, n), 0])))
        return out
    st.setrange(L, 1, 20 if is64 else 11)
    small = st.clone()
    eng.hook('on_fill', st, first, cap, c.inst, 'to_chars')
    ok = icmp_ge(eng, st, cap, L)
    out = []
    if decide(ok, st) != 0:
        if assume(ok, 1, st):
            put_chars(eng, st, first, digits, L, terminated=False)
            out.append((st, agg([eng.addoff(first, L), 0])))
    if decide(ok, small) != 1 and assume(ok, 0, small):
        out.append((small, agg([last, E['EOVERFLOW']])))
    return out


def icmp_ge(eng, st, a, b):
    return eng.icmp('sge', a, b, _TI64, st)


# ---- std::filesystem
@model('std::filesystem::path::path')
def _(eng, st, c):
    this = c.args[0]
    ps = params(eng.m.demangled(c.name))
    ks = [kind(x) for x in ps]
    if not ks: s = mkstr(())
    elif ks[0] in ('path', 'path&&', 'string', 'string&&', 'cstr', 'cstrref', 'sv', 'svref'):
        s, _n = strarg(eng, st, ks[0], c.args, 1)
        moved(eng, st, c.args[1], ks[0])
    else: s = mkstr([('pathctor', ps[0][:40])])
    sset(eng, st, this, s, 40)
    return ret(st)


@model('std::filesystem::path::operator=', 'std::filesystem::path::assign')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    s, _n = strarg(eng, st, ks[0], c.args, 1)
    if s is None: s = mkstr([('assign?',)])
    else: moved(eng, st, c.args[1], ks[0])
    sset(eng, st, c.args[0], s, 40)
    return ret(st, c.args[0])


@model('std::filesystem::operator/')
def _(eng, st, c):
    sset(eng, st, c.args[0], pjoin(sget(eng, st, c.args[1]), sget(eng, st, c.args[2])), 40)
    return ret(st)


@model('std::filesystem::path::operator/=', 'std::filesystem::path::append')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    s, _n = strarg(eng, st, ks[0], c.args, 1)
    if s is None: s = mkstr([('append?',)])
    sset(eng, st, c.args[0], pjoin(sget(eng, st, c.args[0]), s), 40)
    return ret(st, c.args[0])


@model('std::filesystem::path::operator+=', 'std::filesystem::path::concat')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    s, _n = strarg(eng, st, ks[0], c.args, 1)
    if s is None: s = mkstr([('append?',)])
    sset(eng, st, c.args[0], cat(sget(eng, st, c.args[0]), s), 40)
    return ret(st, c.args[0])


@model('std::filesystem::path::string', 'std::filesystem::path::wstring', 'std::filesystem::path::generic_string', 'std::filesystem::path::u8string')
def _(eng, st, c):
    sset(eng, st, c.args[0], sget(eng, st, c.args[1]), 32)
    return ret(st)


@model('std::filesystem::path::native')
def _(eng, st, c): return ret(st, c.args[0])


@model('std::filesystem::path::operator basic_string', 'std::filesystem::path::operator std::basic_string')
def _(eng, st, c):
    sset(eng, st, c.args[0], sget(eng, st, c.args[1]), 32)
    return ret(st)


@model('std::filesystem::path::filename', 'std::filesystem::path::parent_path', 'std::filesystem::path::lexically_normal',
       'std::filesystem::path::extension', 'std::filesystem::path::stem', 'std::filesystem::path::root_path', 'std::filesystem::path::relative_path')
def _(eng, st, c):
    sset(eng, st, c.args[0], mkstr([(c.base.split('::')[-1], sget(eng, st, c.args[1]))]), 40)
    return ret(st)


@model('std::filesystem::path::is_absolute', 'std::filesystem::path::is_relative', 'std::filesystem::path::has_filename')
def _(eng, st, c):
    s = sget(eng, st, c.args[0])
    return ret(st, sym((c.base.split('::')[-1], s), 1, dom=(0, 1)))


def fs_ec(eng, st, c, i, errs, okname):
    """fork on the error_code out-parameter at args[i]"""
    bad = st.clone()
    p = eng.as_ptr(c.args[i], st)
    if isinstance(p, P):
        eng.raw_store(st, p, 0, 4)
        n = bad.freshid(('ec', c.base))
        eng.raw_store(bad, p, sym(('ec', c.base, n[1]), 32, dom=errs), 4)
    st.ev(okname + ' ok'); bad.ev(okname + ' fails')
    return bad


@model('std::filesystem::absolute', 'std::filesystem::canonical', 'std::filesystem::weakly_canonical')
def _(eng, st, c):
    s = sget(eng, st, c.args[1])
    nm = c.base.split('::')[-1]
    r = mkstr([('abs' if nm == 'absolute' else nm, s)])
    ps = params(eng.m.demangled(c.name))
    if len(ps) > 1:
        bad = fs_ec(eng, st, c, 2, (E['ENOENT'], E['EACCES']), nm)
        sset(eng, st, c.args[0], r, 40)
        sset(eng, bad, c.args[0], mkstr(()) , 40)
        bad.mon['absfail'] = 1
        eng.hook('on_sys', st, nm, [s], 1, c.inst); eng.hook('on_sys', bad, nm, [s], 0, c.inst)
        return [(st, None), (bad, None)]
    sset(eng, st, c.args[0], r, 40)
    return ret(st)


@model('std::filesystem::is_directory', 'std::filesystem::exists', 'std::filesystem::is_symlink', 'std::filesystem::is_regular_file')
def _(eng, st, c):
    ps = params(eng.m.demangled(c.name))
    if not ps or 'path' not in ps[0]: return NotImplemented
    s = sget(eng, st, c.args[0])
    nm = c.base.split('::')[-1]
    v = sym((nm, s), 1, dom=(0, 1))
    if len(ps) > 1:
        bad = fs_ec(eng, st, c, 1, (E['ENOENT'], E['EACCES']), nm)
        eng.hook('on_sys', bad, nm, [s], 0, c.inst)
        return [(st, v), (bad, 0)]
    return ret(st, v)


@model('std::filesystem::current_path')
def _(eng, st, c):
    if c.f is not None and has_sret(c.f):
        sset(eng, st, c.args[0], mkstr([('cwd',)]), 40)
        return ret(st)
    return ret(st)


@model('std::filesystem::read_symlink')
def _(eng, st, c):
    s = sget(eng, st, c.args[1])
    bad = fs_ec(eng, st, c, 2, (E['ENOENT'],), 'read_symlink') if len(c.args) > 2 else None
    sset(eng, st, c.args[0], mkstr([('readlink', s)]), 40)
    out = [(st, None)]
    if bad is not None:
        sset(eng, bad, c.args[0], mkstr(()), 40); out.append((bad, None))
    return out


@model('std::system_category', 'std::generic_category')
def _(eng, st, c): return ret(st, ptr(('g', c.base), 0))


# ---- maps
MAPS = ('std::unordered_map', 'std::map')


def mget(eng, st, p):
    p = eng.as_ptr(p, st)
    if not isinstance(p, P): return None
    o = st.mem.get(p.obj)
    c = o.cells.get(p.off) if o else None
    if c is not None and isinstance(c[1], Opaque) and c[1].kind == 'map': return c[1]
    eng.hook('on_lostmap', st, p)
    m = opaque('map', ('ext', p.obj, p.off), 'maybe', 0)
    st.wobj(p.obj).cells[p.off] = (56, m)
    return m


def mput(eng, st, p, m):
    p = eng.as_ptr(p, st)
    o = st.wobj(p.obj)
    if isinstance(p.off, int): eng.kill(o, p.off, 56)
    o.cells[p.off] = (56, m)


@model('std::unordered_map::unordered_map', 'std::map::map')
def _(eng, st, c):
    ps = params(eng.m.demangled(c.name))
    if not ps or 'unordered_map' not in ps[0] and 'map<' not in ps[0]:
        n = st.freshid('map')
        m = opaque('map', ('map', eng.site(st, c.inst), n[1]), 'empty', 0)
    else:
        src = mget(eng, st, c.args[1])
        if src is None: return ret(st)
        m = src
        if ps[0].endswith('&&'):
            mput(eng, st, c.args[1], opaque('map', ('moved',) + tuple(src.d[:1]), 'empty', 0))
    mput(eng, st, c.args[0], m)
    return ret(st)


@model('std::unordered_map::~unordered_map', 'std::map::~map')
def _(eng, st, c):
    p = eng.as_ptr(c.args[0], st)
    if isinstance(p, P): st.wobj(p.obj).cells.pop(p.off, None)
    return ret(st)


@model('std::unordered_map::operator=', 'std::map::operator=')
def _(eng, st, c):
    m = mget(eng, st, c.args[1])
    if m is not None: mput(eng, st, c.args[0], m)
    return ret(st, c.args[0])


@model('std::unordered_map::empty', 'std::map::empty')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    if m is None: return ret(st, UNDEF)
    if m.d[1] == 'empty': return ret(st, 1)
    if m.d[1] == 'nonempty': return ret(st, 0)
    return ret(st, sym(('mapempty', m), 1, dom=(0, 1)))


@model('std::unordered_map::size', 'std::map::size')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    if m is not None and m.d[1] == 'empty': return ret(st, 0)
    return ret(st, sym(('mapsize', m), 64, lo=1 if m is not None and m.d[1] == 'nonempty' else 0, hi=1 << 32))


def key_of(eng, st, c, i):
    ps = params(eng.m.demangled(c.name))
    a = c.args[i]
    t = ps[i-1] if i - 1 < len(ps) else ''
    if t.endswith('&') or isinstance(a, P): return eng.load(st, a, _TI32, c.inst)
    return a


def map_end(): return 0


def entry(eng, st, m, k):
    oid = ('tmp', ('ent', m.d[0], m.d[2], k))
    if oid not in st.mem:
        o = st.new(oid, 'undef')
        o.cells[8] = (4, k)
        o.cells[16] = (40, mkstr([('MAP', m.d[0], k, m.d[2])]))
    return ptr(oid, 0)


@model('std::unordered_map::find', 'std::map::find')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    if m is None: return ret(st, st.fresh('mapit', 64))
    k = key_of(eng, st, c, 1)
    miss = st.clone()
    out = []
    t = term('in', (m.d[0], m.d[2], k), 1) if isinstance(k, (int, Val)) else None
    d = decide(t, st) if t is not None else None
    kc = st.const(k) if isinstance(k, (int, Val)) else None
    if kc is not None and signed(kc & M1, 32) < 0: d = 0      # descriptors of watches are positive
    if m.d[1] != 'empty' and d != 0 and (t is None or assume(t, 1, st)):
        e = entry(eng, st, m, k)
        st.ev('map lookup hits', k)
        eng.hook('on_map', st, 'find', m, k, e, c.inst)
        out.append((st, e))
    if d != 1 and (t is None or assume(t, 0, miss)):
        miss.ev('map lookup misses', k)
        eng.hook('on_map', miss, 'miss', m, k, None, c.inst)
        out.append((miss, 0))
    return out


@model('std::unordered_map::contains', 'std::unordered_map::count', 'std::map::contains', 'std::map::count')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    k = key_of(eng, st, c, 1)
    t = term('in', (m.d[0], m.d[2], k), 1)
    if m.d[1] == 'empty': return ret(st, 0)
    d = decide(t, st)
    if d is not None: return ret(st, d)
    raise Fork([lambda s: assume(t, 1, s), lambda s: assume(t, 0, s)])


@model('std::unordered_map::end', 'std::map::end', 'std::unordered_map::cend')
def _(eng, st, c): return ret(st, 0)


@model('std::unordered_map::begin', 'std::map::begin')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    return ret(st, st.fresh('mapbegin', 64))


@model('std::unordered_map::at')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    k = key_of(eng, st, c, 1)
    t = term('in', (m.d[0], m.d[2], k), 1)
    if decide(t, st) != 1: eng.hook('on_map', st, 'at?', m, k, None, c.inst)
    assume(t, 1, st)
    e = entry(eng, st, m, k)
    eng.hook('on_map', st, 'find', m, k, e, c.inst)
    return ret(st, eng.addoff(e, 16))


def bump(eng, st, p, m, state):
    n = st.freshid('mapver')[1]
    for k in [k for k in st.bt if k.op == 'in' and k.args[0] == m.d[0]]: del st.bt[k]
    m2 = opaque('map', m.d[0], state, n)
    mput(eng, st, p, m2)
    return m2


@model('std::unordered_map::operator[]', 'std::map::operator[]')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    k = key_of(eng, st, c, 1)
    eng.hook('on_map', st, 'index', m, k, None, c.inst)
    m2 = bump(eng, st, c.args[0], m, 'nonempty')
    e = entry(eng, st, m2, k)
    st.mem[e.obj].cells[16] = (40, mkstr([('MAP', m.d[0], k, m.d[2])]))
    return ret(st, eng.addoff(e, 16))


def value_arg(eng, st, c, i):
    """content of the mapped value passed as argument i (pointer to path/string/char*/array)"""
    ps = params(eng.m.demangled(c.name))
    t = ps[i - 1] if i - 1 < len(ps) else ''
    k = kind(t.replace('&&', '&').replace('&', '').strip()) if t else 'other'
    k2 = kind(t)
    if 'path' in k2 or 'string' in k2: return sget(eng, st, c.args[i])
    if re.search(r'(char)( const)?\s*\*', t):
        return cstr(eng, st, eng.load(st, c.args[i], PTRTY))
    if re.search(r'char( const)? ?\(&', t) or re.search(r'char( const)? ?\(&&', t): return cstr(eng, st, c.args[i])
    if isinstance(c.args[i], P):
        o = st.mem.get(c.args[i].obj)
        cell = o.cells.get(c.args[i].off) if o else None
        if cell and isinstance(cell[1], Str): return cell[1]
        if cell and isinstance(cell[1], Opaque): return cstr(eng, st, c.args[i])
        if cell and isinstance(cell[1], P): return cstr(eng, st, cell[1])
    return mkstr([('value?',)])


@model('std::unordered_map::emplace', 'std::unordered_map::try_emplace', 'std::map::emplace', 'std::map::try_emplace')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    k = key_of(eng, st, c, 1)
    v = value_arg(eng, st, c, 2) if len(c.args) > 2 else mkstr(())
    ins = eng.inserted = st.fresh('inserted', 1, dom=(0, 1))
    eng.hook('on_map', st, 'emplace', m, k, v, c.inst)
    m2 = bump(eng, st, c.args[0], m, 'nonempty')
    e = entry(eng, st, m2, k)
    return ret(st, agg([e, ins]))


@model('std::unordered_map::insert_or_assign', 'std::map::insert_or_assign')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    k = key_of(eng, st, c, 1)
    v = value_arg(eng, st, c, 2)
    eng.hook('on_map', st, 'assign', m, k, v, c.inst)
    m2 = bump(eng, st, c.args[0], m, 'nonempty')
    e = entry(eng, st, m2, k)
    return ret(st, agg([e, st.fresh('inserted', 1, dom=(0, 1))]))


@model('std::unordered_map::insert', 'std::map::insert')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    p = eng.as_ptr(c.args[1], st)
    k = eng.raw_load(st, p, _TI32)
    o = st.mem.get(p.obj)
    cell = o.cells.get(ladd(p.off, 8, 64)) if o else None
    v = cell[1] if cell and isinstance(cell[1], Str) else mkstr([('value?',)])
    ins = eng.inserted = st.fresh('inserted', 1, dom=(0, 1))
    eng.hook('on_map', st, 'emplace', m, k, v, c.inst)
    m2 = bump(eng, st, c.args[0], m, 'nonempty')
    e = entry(eng, st, m2, k)
    return ret(st, agg([e, ins]))


@model('std::unordered_map::erase', 'std::map::erase')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    ps = params(eng.m.demangled(c.name))
    if 'iterator' in (ps[0] if ps else ''):
        it = c.args[1]
        k = None
        if isinstance(it, P) and it.obj[0] == 'tmp' and it.obj[1][0] == 'ent': k = it.obj[1][3]
        elif it == 0: eng.hook('on_map', st, 'erase_end', m, None, None, c.inst)
        r = 0
    else:
        k = key_of(eng, st, c, 1)
        r = st.fresh('erased', 64, dom=(0, 1))
    eng.hook('on_map', st, 'erase', m, k, None, c.inst)
    bump(eng, st, c.args[0], m, 'maybe')
    return ret(st, r)


@model('std::unordered_map::clear', 'std::map::clear')
def _(eng, st, c):
    m = mget(eng, st, c.args[0])
    eng.hook('on_map', st, 'clear', m, None, None, c.inst)
    bump(eng, st, c.args[0], m, 'empty')
    return ret(st)


@model('std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator->',
       'std::__detail::_Node_const_iterator::operator*', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_iterator::operator*')
def _(eng, st, c):
    it = eng.load(st, c.args[0], PTRTY, c.inst)
    if it == 0: eng.hook('on_map', st, 'deref_end', None, None, None, c.inst)
    if isinstance(it, P): return ret(st, eng.addoff(it, 8))
    return ret(st, eng.addoff(it, 8) if isinstance(it, Val) and it is not UNDEF else UNDEF)


# ---- time
@model('std::chrono::system_clock::now', 'std::chrono::steady_clock::now')
def _(eng, st, c):
    eng.hook('on_clock', st, c.base, c.inst)
    return ret(st, st.fresh((c.base,), 64, signed=True))


# ---- threads / futures
@model('std::this_thread::sleep_for', 'sleep', 'usleep', 'nanosleep')
def _(eng, st, c):
    a = c.args[0]
    v = eng.load(st, a, _TI64, c.inst) if isinstance(a, P) else a
    dem = eng.m.demangled(c.name)
    m = re.search(r'ratio<(\d+)l, (\d+)l>', dem) if c.base.startswith('std') else None
    if c.base.startswith('std') and ('sleep_for<long' not in dem or not m): v = UNDEF
    elif isinstance(v, (int, Val)) and v is not UNDEF:
        k = 10**9 * int(m.group(1)) // int(m.group(2)) if m else {'sleep': 10**9, 'usleep': 1000}.get(c.base)
        v = UNDEF if k is None or c.base == 'nanosleep' else lmul(v, k, 64) if to_lin(v, 64) is not None else UNDEF
    eng.hook('on_sleep', st, v, c.inst)
    return ret(st, 0 if c.inst.ty.k == 'int' else None)


# ---- streams
def stream_name(eng, st, p):
    if isinstance(p, P) and isinstance(p.obj, tuple) and p.obj[0] == 'g':
        return {'_ZSt4cout': 'stdout', '_ZSt4cerr': 'stderr', '_ZSt4clog': 'stderr'}.get(p.obj[1], p.obj[1])
    return p


@model('std::operator<<')
def _(eng, st, c):
    ks = [kind(x) for x in params(eng.m.demangled(c.name))]
    if len(ks) < 2: return NotImplemented
    if ks[1] == 'other':
        if 'char' in params(eng.m.demangled(c.name))[1]: ks[1] = 'cstr'
        else: return NotImplemented
    s, _n = strarg(eng, st, ks[1], c.args, 1)
    if s is None: return NotImplemented
    eng.hook('on_output', st, stream_name(eng, st, c.args[0]), s, c.inst)
    return ret(st, c.args[0])


@model('std::ostream::operator<<', 'std::basic_ostream::operator<<')
def _(eng, st, c):
    a = c.args[1]
    if isinstance(a, Fn): s = mkstr([b'\n']) if 'endl' in a.name else mkstr([])
    else: s = mkstr([('dec', a)])
    eng.hook('on_output', st, stream_name(eng, st, c.args[0]), s, c.inst)
    return ret(st, c.args[0])


@model('std::basic_ostream::put', 'std::ostream::put')
def _(eng, st, c):
    v = c.args[1]
    eng.hook('on_output', st, stream_name(eng, st, c.args[0]), mkstr([bytes([v & 255]) if isinstance(v, int) else ('byte', v)]), c.inst)
    return ret(st, c.args[0])


@model('std::ostream::write', 'std::basic_ostream::write')
def _(eng, st, c):
    eng.hook('on_output', st, stream_name(eng, st, c.args[0]), ptrlen(eng, st, c.args[1], c.args[2]), c.inst)
    return ret(st, c.args[0])


@model('std::ostream::flush', 'std::basic_ostream::flush')
def _(eng, st, c): return ret(st, c.args[0])


@model('puts', 'fputs', 'printf', 'fprintf')
def _(eng, st, c):
    if c.base == 'puts': eng.hook('on_output', st, 'stdout', cat(cstr(eng, st, c.args[0]), mkstr([b'\n'])), c.inst)
    elif c.base == 'fputs': eng.hook('on_output', st, file_name(eng, st, c.args[1]), cstr(eng, st, c.args[0]), c.inst)
    elif c.base == 'printf': eng.hook('on_output', st, 'stdout', format_str(eng, st, cstr(eng, st, c.args[0]), c.args[1:]), c.inst)
    else: eng.hook('on_output', st, file_name(eng, st, c.args[0]), format_str(eng, st, cstr(eng, st, c.args[1]), c.args[2:]), c.inst)
    return ret(st, st.fresh('printed', 32))


def file_name(eng, st, v):
    s = repr(v)
    return 'stderr' if 'stderr' in s else 'stdout' if 'stdout' in s else s


@model('std::istream::get', 'std::basic_istream::get', 'getchar', 'fgetc', 'getc')
def _(eng, st, c):
    eng.hook('on_input', st, c.inst)
    return ret(st, st.fresh('input', 32))


@model('std::getline')
def _(eng, st, c):
    eng.hook('on_input', st, c.inst)
    return ret(st, c.args[0])


# ---- numbers
@model('strtod', 'strtof', 'strtold', 'atof')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    if all(isinstance(x, bytes) for x in s.p):
        t = b''.join(s.p).decode('latin-1')
        m = _NUM.match(t)
        if c.base != 'atof': end(eng, st, c, m.end() if m else 0)
        x = float(m.group(1).lower()) if m else 0.0
        if c.base == 'strtof':
            try: x = struct.unpack('f', struct.pack('f', x))[0]
            except OverflowError: x = float('inf') if x > 0 else float('-inf')
        return ret(st, flt(x))
    return ret(st, term('strtof', (s,), 32) if c.base == 'strtof' else term('strtod', (s,), 64))


_NUM = re.compile(r'\s*([+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf(?:inity)?|nan))', re.I)
_INT = re.compile(r'\s*([+-]?\d+)')


def end(eng, st, c, n):
    """stores where a conversion stopped"""
    if len(c.args) < 2: return
    p, q = eng.as_ptr(c.args[1], st), c.args[0]
    if isinstance(p, P) and isinstance(q, P): eng.raw_store(st, p, eng.addoff(q, n), 8)


@model('strtoull', 'strtol', 'strtoll', 'strtoul', 'atoll', 'atol', 'atoi')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    if all(isinstance(x, bytes) for x in s.p) and (len(c.args) < 3 or c.args[2] == 10):
        m = _INT.match(b''.join(s.p).decode('latin-1'))
        if c.base.startswith('str'): end(eng, st, c, m.end() if m else 0)
        v = int(m.group(1)) if m else 0
        if c.base.startswith('strtou'): v = v if abs(v) < 1 << 64 else -1
        else: v = max(-(1 << 63), min((1 << 63) - 1, v))
        return ret(st, v & (M1L if c.base != 'atoi' else 0xffffffff))
    return ret(st, sym((c.base, s), 64, signed=True))


@model('llroundl', 'llround', 'lround', 'lroundl')
def _(eng, st, c):
    a = c.args[0]
    if isinstance(a, Flt):
        if a.v != a.v or abs(a.v) > 9.3e18: return ret(st, 1 << 63)
        return ret(st, int(abs(a.v) + 0.5) * (-1 if a.v < 0 else 1) & M1L)
    return ret(st, sym(('llround', a), 64, signed=True))


@model('std::terminate', 'abort', 'exit', '_exit', 'std::__throw_bad_function_call', 'std::__throw_bad_alloc', 'std::__throw_logic_error',
       'std::__throw_length_error', 'std::__throw_out_of_range_fmt', 'std::__throw_system_error', 'std::__throw_future_error', '__cxa_throw',
       'std::__throw_bad_optional_access', 'std::__throw_bad_array_new_length', '__assert_fail', 'std::__glibcxx_assert_fail')
def _(eng, st, c):
    eng.hook('on_terminate', st, c.base, c.inst)
    return []


@model('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator', 'std::__new_allocator::__new_allocator')
def _(eng, st, c): return ret(st)


@model('pthread_self', 'syscall', 'signal', 'sigaction', 'prctl')
def _(eng, st, c): return ret(st, st.fresh(c.base, 64))


from llir import PTR as PTRTY, int_ty
_TI32, _TI64 = int_ty(32), int_ty(64)


# ---- function-local statics
@model('__cxa_guard_acquire')
def _(eng, st, c):
    p = eng.as_ptr(c.args[0], st)
    k = ('static', p.obj if isinstance(p, P) else 0)
    s2 = st.clone()
    st.mon['guard'] = st.mon.get('guard', 0) + 1
    return [(st, 1), (s2, 0)]


@model('__cxa_guard_release', '__cxa_guard_abort')
def _(eng, st, c):
    st.mon['guard'] = max(st.mon.get('guard', 0) - 1, 0)
    return ret(st)


@model('pthread_mutex_lock', 'pthread_spin_lock', 'std::mutex::lock')
def _(eng, st, c):
    st.mon['guard'] = st.mon.get('guard', 0) + 1
    return ret(st, 0 if c.inst.ty.k != 'void' else None)


@model('pthread_mutex_unlock', 'pthread_spin_unlock', 'std::mutex::unlock')
def _(eng, st, c):
    st.mon['guard'] = max(st.mon.get('guard', 0) - 1, 0)
    return ret(st, 0 if c.inst.ty.k != 'void' else None)


@model('strnlen')
def _(eng, st, c):
    s = cstr(eng, st, c.args[0])
    n, L = c.args[1], slen(s)
    if isinstance(n, int) and isinstance(L, int): return ret(st, min(n, L))
    if not isinstance(n, int): return ret(st, eng.fresh_ret(c) if hasattr(eng, 'fresh_ret') else st.fresh('strnlen', 64))
    b = st.clone()
    out = []
    if st.setrange(L, 0, n): out.append((st, L))
    if b.setrange(L, n + 1, 1 << 40): out.append((b, n))
    return out


@model('__cxa_atexit', '__cxa_thread_atexit', '__cxa_thread_atexit_impl')
def _(eng, st, c): return ret(st, 0)
