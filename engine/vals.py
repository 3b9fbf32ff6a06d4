"""Abstract values: hash-consed symbols, terms, linear expressions, pointers."""

_T = {}


def _intern(cls, key, make):
    k = (cls, key)
    v = _T.get(k)
    if v is None:
        v = _T[k] = make()
    return v


class Val:
    __slots__ = ('syms', '_h', 'srt')
    def __hash__(self): return self._h


_cnt = [0]


def _mk(o, syms):
    _cnt[0] += 1
    o.syms = syms
    o._h = hash((_cnt[0], 77))
    return o


class Sym(Val):
    """Opaque atom. name: hashable description; w: bits; signed: how its mathematical value is read."""
    __slots__ = ('name', 'w', 'signed', 'lo', 'hi', 'dom')

    def __repr__(self): return '$' + fmt_name(self.name)


def fmt_name(n):
    if isinstance(n, tuple): return '(' + ' '.join(fmt_name(x) for x in n) + ')'
    return str(n)


def sym(name, w, signed=False, lo=None, hi=None, dom=None):
    dom = frozenset(dom) if dom is not None else None
    key = (name, w, signed, lo, hi, dom)
    v = _T.get((Sym, key))
    if v is None:
        v = Sym(); v.name, v.w, v.signed, v.dom = name, w, signed, dom
        if lo is None: lo = -(1 << (w-1)) if signed else 0
        if hi is None: hi = (1 << (w-1)) - 1 if signed else (1 << w) - 1
        if dom:
            lo, hi = min(dom), max(dom)
        v.lo, v.hi = lo, hi
        _mk(v, None); v.syms = frozenset((v,)) | _psyms(name); v.srt = repr(v)
        _T[(Sym, key)] = v
    return v


class Term(Val):
    __slots__ = ('op', 'args', 'w')

    def __repr__(self): return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def vsyms(v):
    return v.syms if isinstance(v, Val) else EMPTY


EMPTY = frozenset()


def term(op, args, w):
    args = tuple(args)
    key = (op, args, w)
    v = _T.get((Term, key))
    if v is None:
        v = Term(); v.op, v.args, v.w = op, args, w
        s = EMPTY
        for a in args:
            if isinstance(a, Val): s = s | a.syms
        _mk(v, s); v.srt = repr(v)
        _T[(Term, key)] = v
    return v


class Lin(Val):
    """sum(c*atom) + k as a mathematical integer (width kept for re-reading)"""
    __slots__ = ('t', 'k', 'w')

    def __repr__(self):
        s = ''
        for a, c in self.t:
            s += ('+' if c > 0 else '-') + ('' if abs(c) == 1 else '%d*' % abs(c)) + repr(a)
        if self.k: s += '%+d' % self.k
        return '[' + s.lstrip('+') + ']'


def lin(d, k, w):
    d = {a: c for a, c in d.items() if c}
    if not d: return k
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1: return a
    t = tuple(sorted(d.items(), key=lambda x: x[0].srt))
    key = (t, k, w)
    v = _T.get((Lin, key))
    if v is None:
        v = Lin(); v.t, v.k, v.w = t, k, w
        s = EMPTY
        for a, _ in t: s = s | a.syms
        _mk(v, s); v.srt = repr(v)
        _T[(Lin, key)] = v
    return v


def signed(v, w):
    if v >> (w - 1) & 1: return v - (1 << w)
    return v


def to_lin(v, w):
    """-> (dict, const) or None"""
    if isinstance(v, int): return {}, signed(v & ((1 << w) - 1), w) if v >= 0 else v
    if isinstance(v, Lin): return dict(v.t), v.k
    if isinstance(v, (Sym, Term)): return {v: 1}, 0
    return None


def ladd(a, b, w, sa=1, sb=1):
    x, y = to_lin(a, w), to_lin(b, w)
    if x is None or y is None: return None
    d, k = x
    if sa != 1:
        d = {p: c * sa for p, c in d.items()}; k *= sa
    for p, c in y[0].items(): d[p] = d.get(p, 0) + c * sb
    return lin(d, k + y[1] * sb, w)


def lmul(a, c, w):
    x = to_lin(a, w)
    if x is None: return None
    return lin({p: q * c for p, q in x[0].items()}, x[1] * c, w)


class P(Val):
    """pointer: object id, byte offset (int or linear), optional enclosing array region [rlo,rhi)"""
    __slots__ = ('obj', 'off', 'reg')

    def __repr__(self): return '&%s+%r' % (fmt_name(self.obj), self.off)


def ptr(obj, off=0, reg=None):
    key = (obj, off, reg)
    v = _T.get((P, key))
    if v is None:
        v = P(); v.obj, v.off, v.reg = obj, off, reg
        s = vsyms(off)
        if isinstance(obj, tuple): s = s | _psyms(obj)
        _mk(v, s); v.srt = repr(v)
        _T[(P, key)] = v
    return v


class Fn(Val):
    __slots__ = ('name',)

    def __repr__(self): return 'fn:' + str(self.name)


def fn(name):
    v = _T.get((Fn, name))
    if v is None:
        v = Fn(); v.name = name
        _mk(v, EMPTY); v.srt = repr(v)
        _T[(Fn, name)] = v
    return v


class Flt(Val):
    __slots__ = ('v',)

    def __repr__(self): return 'f%r' % self.v


def flt(x):
    v = _T.get((Flt, x))
    if v is None:
        v = Flt(); v.v = x
        _mk(v, EMPTY); v.srt = repr(v)
        _T[(Flt, x)] = v
    return v


class Str(Val):
    """content of a string: tuple of pieces; a piece is bytes or an atom tuple"""
    __slots__ = ('p',)

    def __repr__(self):
        return 'S' + fmt_pieces(self.p)


def fmt_pieces(p):
    return '<' + ' . '.join(repr(x)[1:] if isinstance(x, bytes) else fmt_name(x) for x in p) + '>'


def _psyms(x):
    if isinstance(x, Val): return x.syms
    if isinstance(x, tuple):
        s = EMPTY
        for e in x: s = s | _psyms(e)
        return s
    return EMPTY


def mkstr(pieces):
    out = []
    for x in pieces:
        if isinstance(x, bytes):
            if not x: continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + x
                continue
        out.append(x)
    key = tuple(out)
    v = _T.get((Str, key))
    if v is None:
        v = Str(); v.p = key
        _mk(v, _psyms(key)); v.srt = repr(v)
        _T[(Str, key)] = v
    return v


class Agg(Val):
    """first-class aggregate"""
    __slots__ = ('els',)

    def __repr__(self): return 'agg' + repr(self.els)


def agg(els):
    els = tuple(els)
    v = _T.get((Agg, els))
    if v is None:
        v = Agg(); v.els = els
        s = EMPTY
        for e in els: s = s | vsyms(e)
        _mk(v, s); v.srt = repr(v)
        _T[(Agg, els)] = v
    return v


class Opaque(Val):
    """a modelled library object; kind + immutable payload"""
    __slots__ = ('kind', 'd')

    def __repr__(self): return '%s{%s}' % (self.kind, fmt_name(self.d))


def opaque(kind, *d):
    key = (kind, d)
    v = _T.get((Opaque, key))
    if v is None:
        v = Opaque(); v.kind, v.d = kind, d
        _mk(v, _psyms(d)); v.srt = repr(v)
        _T[(Opaque, key)] = v
    return v


class _Undef(Val):
    __slots__ = ()
    def __repr__(self): return 'undef'


UNDEF = _mk(_Undef(), EMPTY)
UNDEF.srt = 'undef'


# ---- substitution (used when a loop's template is matched) ---------------------------
def subst(v, m):
    """replace syms by values in v (m: Sym -> value)"""
    if not isinstance(v, Val) or not m: return v
    hit = False
    for s in v.syms:
        if s in m: hit = True; break
    if not hit: return v
    if isinstance(v, Sym):
        if v in m: return m[v]
        return sym(_sp(v.name, m), v.w, v.signed, v.lo, v.hi, v.dom)
    if isinstance(v, Lin):
        r = v.k
        for a, c in v.t:
            x = subst(a, m)
            y = lmul(x, c, v.w) if not isinstance(x, P) else None
            if y is None: return UNDEF
            r = ladd(r, y, v.w)
        return r
    if isinstance(v, Term): return term(v.op, [subst(a, m) for a in v.args], v.w)
    if isinstance(v, P):
        o = v.obj
        if isinstance(o, tuple) and o and o[0] != 'deref': o = _sp(o, m)
        if isinstance(o, tuple) and o and o[0] == 'deref':
            s = subst(o[1], m)
            if isinstance(s, P): return ptr(s.obj, ladd(s.off, v.off, 64), v.reg)
            if isinstance(s, int): return s
            o = ('deref', s)
        return ptr(o, subst(v.off, m), v.reg)
    if isinstance(v, Str): return mkstr([_sp(x, m) for x in v.p])
    if isinstance(v, Agg): return agg([subst(x, m) for x in v.els])
    if isinstance(v, Opaque): return opaque(v.kind, *[_sp(x, m) for x in v.d])
    return v


def _sp(x, m):
    if isinstance(x, Val): return subst(x, m)
    if isinstance(x, tuple): return tuple([_sp(e, m) for e in x])
    return x
