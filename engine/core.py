"""Path-partitioned abstract interpretation of LLVM IR.

Domain: hash-consed value terms (value numbering) with intervals on linear
forms, finite value sets for enumerated inputs (event masks, errno, enum
arguments), and typed library objects (strings, maps) as opaque contents.
Loops are solved by generalising the state at each loop head until it is
stable; recursion is cut inductively; equal states are merged at join points.
No code under analysis is run and no solver is used.
"""
import heapq, math, os, struct, sys
from vals import *
from math import gcd
from llir import base_name

sys.setrecursionlimit(20000)
INF = float('inf')


class Fork(Exception):
    """ask the engine to split the current state: alts = [callable(state) -> bool feasible]"""
    def __init__(self, alts): self.alts = alts


class Undecided(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('cells', 'default', 'size', 'zr', 'own', 'kern', 'ro', '_k', 'syw', '_r')

    def __init__(self, default='undef', size=None, own=None):
        self.cells = {}
        self.default, self.size, self.own = default, size, own
        self.zr = ()
        self.kern = None
        self.ro = False
        self.syw = ()      # regions written at a symbolic offset
        self._k = None
        self._r = None

    def clone(self, own):
        o = Obj(self.default, self.size, own)
        o.cells = dict(self.cells); o.zr = self.zr; o.kern = self.kern; o.ro = self.ro; o.syw = self.syw
        return o

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.cells.items()), self.default, self.zr, self.kern, self.syw)
        return self._k


ERRNO = ('root', 'errno')
_VSUM = {}
M32 = (1 << 32) - 1
_NONE4 = (frozenset(),) * 4
_own = [0]


class State:
    __slots__ = ('mem', 'rng', 'fin', 'ne', 'bt', 'mon', 'cnt', 'trace', 'own', 'keep', 'stack')

    def __init__(self):
        self.mem, self.rng, self.fin, self.ne, self.bt = {}, {}, {}, {}, {}
        self.mon, self.cnt = {}, {}
        self.trace = None
        self.keep = ()
        self.stack = ()
        _own[0] += 1; self.own = _own[0]

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.rng = dict(self.rng); s.fin = dict(self.fin); s.ne = dict(self.ne); s.bt = dict(self.bt)
        s.mon = dict(self.mon); s.cnt = dict(self.cnt)
        s.trace = self.trace; s.keep = self.keep; s.stack = self.stack
        _own[0] += 1; s.own = _own[0]
        _own[0] += 1; self.own = _own[0]
        return s

    # ---- objects
    def wobj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            o = self.mem[oid] = Obj('sym', None, self.own)
        elif o.own != self.own:
            o = o.clone(self.own)
            self.mem[oid] = o
        o._k = o._r = None
        return o

    def new(self, oid, default='undef', size=None):
        o = Obj(default, size, self.own)
        self.mem[oid] = o
        return o

    def fresh(self, tag, w, **kw):
        n = self.cnt.get(tag, 0) + 1
        self.cnt[tag] = n
        return sym((tag, n), w, **kw)

    def freshid(self, tag):
        n = self.cnt.get(tag, 0) + 1
        self.cnt[tag] = n
        return (tag, n)

    def ev(self, *what):
        self.trace = (what, self.trace)

    def trace_list(self, limit=60):
        out = []
        t = self.trace
        while t is not None and len(out) < limit:
            out.append(t[0]); t = t[1]
        return list(reversed(out))

    # ---- facts
    def key(self):
        return (frozenset((i, o.key()) for i, o in self.mem.items()), frozenset(self.rng.items()), frozenset(self.fin.items()),
                frozenset(self.ne.items()), frozenset(self.bt.items()), frozenset(self.mon.items()))

    def dom(self, s):
        """finite domain of a symbol or None"""
        d = self.fin.get(s)
        if d is None: d = s.dom
        return d

    def range(self, v, w=None):
        if isinstance(v, int): return (v, v)
        if isinstance(v, Sym):
            d = self.fin.get(v)
            if d is not None: r = (min(d), max(d)) if d else (1, 0)
            else: r = (v.lo, v.hi)
            f = self.rng.get(v)
            if f: r = (max(r[0], f[0]), min(r[1], f[1]))
            return r
        if isinstance(v, Term):
            r = self._trange(v)
            f = self.rng.get(v)
            if f: r = (max(r[0], f[0]), min(r[1], f[1]))
            return r
        if isinstance(v, Lin):
            lo = hi = v.k
            for a, c in v.t:
                l, h = self.range(a)
                if c < 0: l, h = h, l
                lo += c * l; hi += c * h
            base, flip = linkey(v)
            f = self.rng.get(base)
            if f:
                l, h = f
                if flip: l, h = -h, -l
                lo, hi = max(lo, l + v.k), min(hi, h + v.k)
            elif len(v.t) >= 2 and (g := quot(base))[1] > 1:
                l, h = self.range(g[0])
                l, h = g[1] * l, g[1] * h
                if flip: l, h = -h, -l
                lo, hi = max(lo, l + v.k), min(hi, h + v.k)
            elif len(v.t) >= 2:
                # one step of transitivity: v = (x) + (v-x) for a recorded difference x sharing an atom
                lo, hi = self._through(v, lo, hi)
            return (lo, hi)
        return (-INF, INF)

    def _through(self, v, lo, hi):
        d = dict(v.t)
        for k, (l, h) in self.rng.items():
            if not isinstance(k, Lin) or not (v.syms & k.syms): continue
            kd = dict(k.t)
            for sg in (1, -1):
                # v - sg*k
                r = dict(d)
                for a, c in kd.items():
                    r[a] = r.get(a, 0) - sg * c
                r = {a: c for a, c in r.items() if c}
                if len(r) >= len(d): continue
                rl = rh = v.k
                for a, c in r.items():
                    x, y = self.range(a)
                    if c < 0: x, y = y, x
                    rl += c * x; rh += c * y
                kl, kh = (l, h) if sg == 1 else (-h, -l)
                lo, hi = max(lo, rl + kl), min(hi, rh + kh)
        return lo, hi

    def _trange(self, t):
        m = (1 << t.w) - 1
        if t.op == 'icmp' or t.w == 1: return (0, 1)
        if t.op == 'and':
            b = t.args[1]
            if isinstance(b, int): return (0, b)
            return (0, m)
        if t.op == 'zext': return self.zr(t.args[0], t.args[1])
        if t.op == 'sext':
            l, h = self.range(t.args[0])
            w = t.args[1]
            return (-(1 << (w-1)), (1 << (w-1)) - 1)
        if t.op == 'select':
            a, b = self.range(t.args[1]), self.range(t.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if t.op in ('lshr', 'udiv', 'urem'):
            return (0, m)
        return (-(1 << (t.w-1)), m)

    def zr(self, v, w):
        l, h = self.range(v)
        if l >= 0 and h < (1 << w): return (l, h)
        return (0, (1 << w) - 1)

    def tighten(self, s):
        """the range of a loop symbol, from what is known of its differences"""
        lo, hi = o = self.range(s)
        for k, (l, h) in self.rng.items():
            if not isinstance(k, Lin) or len(k.t) != 2 or s not in k.syms: continue
            (a, ca), (b, cb) = k.t
            if b is s: a, ca, b, cb = b, cb, a, ca
            if a is not s: continue
            bl, bh = self.range(b)
            x, y = (l - cb * bh, h - cb * bl) if cb > 0 else (l - cb * bl, h - cb * bh)
            if ca < 0: x, y, ca = -y, -x, -ca
            if x > -INF: lo = max(lo, -((-x) // ca) if isinstance(x, int) else x)
            if y < INF: hi = min(hi, y // ca if isinstance(y, int) else y)
        if (lo, hi) != o and lo <= hi: self.rng[s] = (lo, hi)

    def setrange(self, v, lo, hi):
        """intersect; returns False when empty"""
        if isinstance(v, int): return lo <= v <= hi
        if isinstance(v, Lin):
            base, flip = linkey(v)
            l, h = lo - v.k, hi - v.k
            if flip: l, h = -h, -l
            if not isinstance(base, Lin): return self.setrange(base, l, h)
            if len(base.t) >= 2 and (g := quot(base))[1] > 1:
                import math
                return self.setrange(g[0], l if l in (INF, -INF) else -((-l) // g[1]), h if h in (INF, -INF) else h // g[1])
            o = self.range(base)
            n = (max(o[0], l), min(o[1], h))
            if n[0] > n[1]: return False
            self.rng[base] = n
            if len(base.t) == 1:
                a, c = base.t[0]
                if c > 0:
                    import math
                    return self.setrange(a, math.ceil(n[0] / c) if n[0] not in (INF, -INF) else n[0],
                                         math.floor(n[1] / c) if n[1] not in (INF, -INF) else n[1])
            elif len(base.t) == 2:
                for i in (0, 1):
                    a, ca = base.t[i]; b, cb = base.t[1-i]
                    if abs(ca) != 1: continue
                    # ca*a = base - cb*b
                    bl, bh = self.range(b)
                    x, y = (n[0] - cb*bh, n[1] - cb*bl) if cb > 0 else (n[0] - cb*bl, n[1] - cb*bh)
                    if ca < 0: x, y = -y, -x
                    al, ah = self.range(a)
                    if x > al or y < ah:
                        if isinstance(a, Sym):
                            if not self.setrange(a, max(x, al), min(y, ah)): return False
            return True
        if isinstance(v, Sym):
            d = self.dom(v)
            if d is not None:
                nd = frozenset(x for x in d if lo <= x <= hi)
                if not nd: return False
                if nd != d: self.fin[v] = nd; self.note(v, nd)
                return True
        o = self.range(v)
        n = (max(o[0], lo), min(o[1], hi))
        if n[0] > n[1]: return False
        if n != o: self.rng[v] = n
        ex = self.ne.get(v)
        if ex:
            l, h = n
            while l in ex: l += 1
            while h in ex: h -= 1
            if l > h: return False
            if (l, h) != n: self.rng[v] = (l, h)
        return True

    def setfin(self, s, d):
        d = self.dom(s) & d
        self.fin[s] = d
        self.note(s, d)
        return bool(d)

    def note(self, s, d):
        if 'oldk' in self.mon and isinstance(s.name, tuple) and s.name[0] == 'rec' and s.name[-1] == 'vers' and 3 not in d: self.mon['oldk'] = 1

    def exclude(self, v, c):
        if isinstance(v, int): return v != c
        if isinstance(v, Sym):
            d = self.dom(v)
            if d is not None:
                nd = d - {c}
                if not nd: return False
                self.fin[v] = nd; self.note(v, nd)
                return True
        l, h = self.range(v)
        if c < l or c > h: return True
        if l == h == c: return False
        if c == l: return self.setrange(v, l + 1, h)
        if c == h: return self.setrange(v, l, h - 1)
        if isinstance(v, Lin):
            base, flip = linkey(v)
            cc = (c - v.k) * (-1 if flip else 1)
            if not isinstance(base, Lin): return self.exclude(base, cc)
            if len(base.t) >= 2 and (g := quot(base))[1] > 1: return True if cc % g[1] else self.exclude(g[0], cc // g[1])
            self.ne[base] = self.ne.get(base, frozenset()) | {cc}
            if len(v.t) == 1 and abs(v.t[0][1]) == 1 and isinstance(v.t[0][0], (Sym, Term)):
                a, co = v.t[0]
                return self.exclude(a, (c - v.k) // co)
            return True
        self.ne[v] = self.ne.get(v, frozenset()) | {c}
        return True

    def const(self, v):
        """the single value v can have, or None"""
        if isinstance(v, int): return v
        if isinstance(v, (Sym, Lin, Term)):
            l, h = self.range(v)
            if l == h and l not in (INF, -INF): return l
        return None


def linkey(v):
    """canonical constant-free form with positive leading coefficient -> (form, flipped)"""
    if v.t[0][1] < 0:
        return lin({a: -c for a, c in v.t}, 0, 64), True
    if v.k == 0 and v.w == 64: return v, False
    return lin(dict(v.t), 0, 64), False


def divided(d, c):
    """d / c when it is whole for every value, else None"""
    if isinstance(d, int): return d // c if d % c == 0 else None
    if not isinstance(d, Lin) or d.k % c or any(x % c for _, x in d.t): return None
    return lin({a: x // c for a, x in d.t}, d.k // c, 64)


def quot(v):
    """(v / g, g), g the greatest common divisor of the coefficients"""
    g = 0
    for _, c in v.t: g = gcd(g, c)
    if g <= 1: return v, 1
    r = lin({a: c // g for a, c in v.t}, 0, 64)
    return r, g


# ---------------------------------------------------------------- concrete evaluation over finite sets
def ceval(v, env):
    if isinstance(v, int): return v
    if isinstance(v, Sym): return env[v]
    if isinstance(v, Lin):
        return v.k + sum(c * ceval(a, env) for a, c in v.t)
    if isinstance(v, Term):
        a = v.args
        if v.op == 'icmp':
            return int(icmp_c(a[0], ceval(a[1], env), ceval(a[2], env), a[3]))
        if v.op == 'not': return 1 - ceval(a[0], env)
        if v.op in ('zext', 'sext', 'trunc'):
            return cast_c(v.op, ceval(a[0], env), a[1], v.w)
        if v.op == 'select':
            return ceval(a[1], env) if ceval(a[0], env) else ceval(a[2], env)
        if v.op == 'tab':
            t = a[0]
            i = ceval(a[1], env)
            return t[i] if 0 <= i < len(t) else t[-1]
        return bin_c(v.op, ceval(a[0], env), ceval(a[1], env), v.w)
    raise KeyError


def icmp_c(pred, x, y, w):
    if pred == 'eq': return (x - y) % (1 << w) == 0
    if pred == 'ne': return (x - y) % (1 << w) != 0
    m = (1 << w) - 1
    if pred[0] == 'u': x, y = x & m, y & m
    else: x, y = signed(x & m, w), signed(y & m, w)
    p = pred[1:]
    return x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y


def cast_c(op, x, w, nw):
    m = (1 << w) - 1
    x &= m
    if op == 'zext': return x
    if op == 'sext': return signed(x, w) & ((1 << nw) - 1)
    return x & ((1 << nw) - 1)


def bin_c(op, x, y, w):
    m = (1 << w) - 1
    x &= m; y &= m
    if op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op == 'and': r = x & y
    elif op == 'or': r = x | y
    elif op == 'xor': r = x ^ y
    elif op == 'shl': r = x << y if y < w else 0
    elif op == 'lshr': r = x >> y if y < w else 0
    elif op == 'ashr': r = signed(x, w) >> y if y < w else 0
    elif op == 'udiv': r = x // y if y else 0
    elif op == 'urem': r = x % y if y else 0
    elif op in ('sdiv', 'srem'):
        a, b = signed(x, w), signed(y, w)
        if b == 0: r = 0
        else:
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            r = q if op == 'sdiv' else a - q * b
    else: raise KeyError(op)
    return r & m


def finite_atoms(v, st, out):
    """collect finite symbols of v into out; False if v has a non-finite symbol"""
    if isinstance(v, int): return True
    if isinstance(v, Sym):
        if st.dom(v) is None:
            return False
        out.add(v)
        return True
    if isinstance(v, Lin): return all(finite_atoms(a, st, out) for a, _ in v.t)
    if isinstance(v, Term):
        if v.op.startswith('f') or v.op in ('strcmp', 'opaque'): return False
        for a in v.args:
            if isinstance(a, (str, tuple)): continue
            if isinstance(a, int): continue
            if not isinstance(a, Val) or not finite_atoms(a, st, out): return False
        return True
    return False


def finite_split(cond, st, limit=4096):
    """cond over finite symbols: (dict sym-> (set_true,set_false)) or None. Single-symbol exact; two-symbol projected."""
    atoms = set()
    if not finite_atoms(cond, st, atoms) or not atoms or len(atoms) > 2: return None
    atoms = sorted(atoms, key=lambda s: s.srt)
    doms = [st.dom(a) for a in atoms]
    n = 1
    for d in doms: n *= len(d)
    if n > limit: return None
    T = [set() for _ in atoms]; F = [set() for _ in atoms]
    try:
        if len(atoms) == 1:
            a = atoms[0]
            for x in doms[0]:
                (T if ceval(cond, {a: x}) else F)[0].add(x)
        else:
            a, b = atoms
            for x in doms[0]:
                for y in doms[1]:
                    s = T if ceval(cond, {a: x, b: y}) else F
                    s[0].add(x); s[1].add(y)
    except KeyError:
        return None
    return atoms, T, F


def pair_groups(c, st):
    """a condition on two enumerated symbols, of records: (symbol, classes of its values between which the condition differs), so that splitting on it keeps the relation"""
    if not isinstance(c, Term) or len(c.syms) < 2: return None
    atoms = set()
    if not finite_atoms(c, st, atoms) or len(atoms) != 2: return None
    if not all(isinstance(a.name, tuple) and a.name[0] == 'rec' for a in atoms): return None
    a, b = sorted(atoms, key=lambda s: s.srt)
    da, db = sorted(st.dom(a)), sorted(st.dom(b))
    if len(da) * len(db) > 1024: return None
    g = {}
    try:
        for x in da: g.setdefault(tuple(ceval(c, {a: x, b: y}) for y in db), []).append(x)
    except KeyError: return None
    if len(g) < 2 or len(g) > 4: return None
    return a, [frozenset(x) for x in g.values()]


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


def not_(c):
    if isinstance(c, int): return 1 - c
    if isinstance(c, Term):
        if c.op == 'not': return c.args[0]
        if c.op == 'icmp': return term('icmp', (NEG[c.args[0]],) + c.args[1:], 1)
    return term('not', (c,), 1)


EQ_DECIDE = []      # f(a, b, state) -> 1/0/None: are two symbols equal
EQ_ASSUME = []      # f(a, b, state) -> feasible?: consequences of two symbols being equal
DECIDERS = {}       # term op -> f(term, state) -> 1/0/None
FACTSYM = set()     # first name element of symbols whose facts live as long as what the name mentions


def decide(c, st):
    """1 / 0 / None"""
    if isinstance(c, int): return c & 1
    if isinstance(c, Sym):
        k = st.const(c)
        return None if k is None else int(k != 0) & 1
    if not isinstance(c, Term): return None
    b = st.bt.get(c)
    if b is not None: return b
    h = DECIDERS.get(c.op)
    if h is not None:
        r = h(c, st)
        if r is not None: return r
    if c.op == 'not':
        r = decide(c.args[0], st)
        return None if r is None else 1 - r
    if c.op == 'and':
        x, y = decide(c.args[0], st), decide(c.args[1], st)
        if x == 0 or y == 0: return 0
        if x == 1 and y == 1: return 1
    if c.op == 'or':
        x, y = decide(c.args[0], st), decide(c.args[1], st)
        if x == 1 or y == 1: return 1
        if x == 0 and y == 0: return 0
    if c.op == 'xor':
        x, y = decide(c.args[0], st), decide(c.args[1], st)
        if x is not None and y is not None: return x ^ y
    f = finite_split(c, st)
    if f:
        if not f[1][0]: return 0
        if not f[2][0]: return 1
        return None
    if c.op == 'icmp':
        pred, a, b, w = c.args
        return decide_icmp(pred, a, b, w, st)
    l, h = st.range(c)
    if l == h: return int(l)
    return None


def decide_icmp(pred, a, b, w, st):
    if isinstance(a, P) or isinstance(b, P):
        return None
    if isinstance(b, int) and isinstance(a, (Sym, Lin)):
        for x in (a,) if isinstance(a, Sym) else [t for t, _ in a.t] if len(a.t) == 1 else ():
            if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'W': st.tighten(x)
    if pred in ('eq', 'ne'):
        if isinstance(a, Sym) and isinstance(b, Sym) and a is not b and isinstance(a.name, tuple) and isinstance(b.name, tuple) \
           and a.name[0] == b.name[0] == 'fd' and a.name[1] != b.name[1]:
            return int(pred == 'ne')
        if isinstance(a, Sym) and isinstance(b, Sym) and a is not b:
            for h in EQ_DECIDE:
                r = h(a, b, st)
                if r is not None: return r if pred == 'eq' else 1 - r
        d = ladd(a, b, w, 1, -1)
        if d is None: return None
        l, h = st.range(d)
        if l == h == 0: return int(pred == 'eq')
        if l > 0 or h < 0: return int(pred == 'ne')
        if isinstance(d, (Sym, Term)) and 0 in st.ne.get(d, ()): return int(pred == 'ne')
        if isinstance(d, Lin):
            base, flip = linkey(d)
            z = -d.k * (-1 if flip else 1)
            if isinstance(base, Lin) and len(base.t) >= 2 and (g := quot(base))[1] > 1:
                if z % g[1]: return int(pred == 'ne')
                base, z = g[0], z // g[1]
            if z in st.ne.get(base, ()): return int(pred == 'ne')
            if len(d.t) == 1 and abs(d.t[0][1]) == 1:
                at, co = d.t[0]
                if (-d.k // co) in st.ne.get(at, ()): return int(pred == 'ne')
        return None
    if pred[0] == 'u' and not (nonneg(a, w, st) and nonneg(b, w, st)):
        if isinstance(b, int) and b == 0:
            if pred == 'uge': return 1
            if pred == 'ult': return 0
        return None
    if pred[0] == 's' and not (insigned(a, w, st) and insigned(b, w, st)): return None
    d = ladd(a, b, w, 1, -1)
    if d is None: return None
    l, h = st.range(d)
    p = pred[1:]
    if p == 'lt': return 1 if h < 0 else 0 if l >= 0 else None
    if p == 'le': return 1 if h <= 0 else 0 if l > 0 else None
    if p == 'gt': return 1 if l > 0 else 0 if h <= 0 else None
    return 1 if l >= 0 else 0 if h < 0 else None


def nonneg(v, w, st):
    if isinstance(v, int):
        return v >= 0 and v < (1 << (w-1)) or v >= 0
    return st.range(v)[0] >= 0


def insigned(v, w, st):
    if isinstance(v, int): return True
    l, h = st.range(v)
    if isinstance(v, Lin): return True      # offset arithmetic is taken not to wrap
    return l >= -(1 << (w-1)) and h < (1 << (w-1))


def assume(c, truth, st):
    """refine st; False if contradictory"""
    if isinstance(c, int): return (c & 1) == truth
    if isinstance(c, Sym):
        if truth: return st.exclude(c, 0)
        return st.setrange(c, 0, 0)
    if not isinstance(c, Term): return True
    d = decide(c, st)
    if d is not None: return d == truth
    if c.op == 'not': return assume(c.args[0], 1 - truth, st)
    if c.op == 'and' and c.w == 1 and truth:
        return assume(c.args[0], 1, st) and assume(c.args[1], 1, st)
    if c.op == 'or' and c.w == 1 and not truth:
        return assume(c.args[0], 0, st) and assume(c.args[1], 0, st)
    f = finite_split(c, st)
    if f:
        atoms, T, F = f
        S = T if truth else F
        for a, s in zip(atoms, S):
            if not s: return False
            st.fin[a] = frozenset(s); st.note(a, st.fin[a])
        if len(atoms) > 1: st.bt[c] = truth
        return True
    if c.op == 'icmp':
        pred, a, b, w = c.args
        if not truth: pred = NEG[pred]
        ca = a
        if 'ctr' in st.mon and isinstance(b, int) and not isinstance(a, Sym):
            q = vsyms(a)
            if len(q) == 1: ca = next(iter(q))         # one more than it was before, or with another width
        if 'ctr' in st.mon and isinstance(ca, Sym) and isinstance(b, int) and isinstance(ca.name, tuple) and ca.name[0] == 'W':
            # a counter is known to have got to a limit, or to have run out
            if pred[1:] in ('gt', 'ge') and b >= 16: st.mon['ctr'] = max(b + (pred[1:] == 'gt'), st.mon['ctr'])
            elif pred == 'eq' or pred[1:] in ('lt', 'le') and b < 16: st.mon['ctr'] = b if pred == 'eq' and b >= 16 else -1
        if isinstance(a, P) or isinstance(b, P):
            st.bt[c] = truth
            return True
        if pred in ('eq', 'ne'):
            d = ladd(a, b, w, 1, -1)
            if d is None:
                st.bt[c] = truth
                return True
            if isinstance(d, int): return (d == 0) == (pred == 'eq')
            if pred == 'eq':
                if isinstance(a, Sym) and isinstance(b, Sym):
                    for h in EQ_ASSUME:
                        if not h(a, b, st): return False
                return st.setrange(d, 0, 0)
            return st.exclude(d, 0)
        ok = (nonneg(a, w, st) and nonneg(b, w, st)) if pred[0] == 'u' else (insigned(a, w, st) and insigned(b, w, st))
        if not ok and pred[0] == 'u' and pred[1] == 'l' and nonneg(b, w, st) and isinstance(a, (Sym, Term, Lin)):
            st.bt[c] = truth
            return True
        if not ok:
            st.bt[c] = truth
            return True
        d = ladd(a, b, w, 1, -1)
        if d is None:
            st.bt[c] = truth
            return True
        if isinstance(d, int): return icmp_c('s' + pred[1:], d, 0, 64)
        p = pred[1:]
        if p == 'lt': return st.setrange(d, -INF, -1)
        if p == 'le': return st.setrange(d, -INF, 0)
        if p == 'gt': return st.setrange(d, 1, INF)
        return st.setrange(d, 0, INF)
    st.bt[c] = truth
    return True


# ================================================================= the interpreter
class Engine:
    def __init__(self, mod, budget=3000000):
        self.m = mod
        self.models = {}            # base name -> f(eng, st, call) -> list[(st, ret)] / None (not handled)
        self.hooks = []             # objects with optional methods
        self.steps = 0
        self.budget = budget
        self.universe = None        # 'inotify' or 'fanotify': the only kernel interface available in this run
        self.basecache = {}
        self.repo_prefix = os.environ.get('WATCHER_REPO', '/repo').rstrip('/') + '/'
        self.repo_funcs = {}
        self.use_limits = False
        self.unroll = 0
        self.sites = {}             # chains of calls -> number
        self.trans = {}
        self.digits = None
        self.accbase = {}
        self.unmodelled = {}
        self.reached = {}           # repo functions analysed -> count
        self.loopstats = 0
        self.depth = 0
        self.recursive = set()
        self.outer_calls = []
        self.nforks = 0
        self.maxdepth = 220

    # ---- naming
    def base(self, name):
        b = self.basecache.get(name)
        if b is None:
            b = base_name(self.m.demangled(name))
            if b.startswith('__isoc23_') or b.startswith('__isoc99_'): b = b[9:]
            self.basecache[name] = b
        return b

    def is_repo(self, f):
        r = self.repo_funcs.get(f.name)
        if r is None:
            r = False
            if not f.is_decl:
                r = self.m.func_loc(f)[0].startswith(self.repo_prefix)
            self.repo_funcs[f.name] = r
        return r

    def hook(self, name, *a):
        for h in self.hooks:
            m = getattr(h, name, None)
            if m: m(self, *a)

    def where(self, inst):
        if inst is None: return '?'
        f, l = self.m.loc(inst.dbg)
        return '%s:%d' % (f, l)

    def site(self, st, inst):
        """source location of inst, or of the innermost caller that is repo code"""
        f, l = self.m.loc(inst.dbg) if inst is not None else ('?', 0)
        if f.startswith(self.repo_prefix): return '%s:%d' % (f, l)
        for ci in reversed(st.stack):
            f2, l2 = self.m.loc(ci.dbg)
            if f2.startswith(self.repo_prefix): return '%s:%d' % (f2, l2)
        return '%s:%d' % (f, l)

    def callpath(self, st, inst=None):
        out = []
        for ci in st.stack + ((inst,) if inst is not None else ()):
            f, l = self.m.loc(ci.dbg)
            if f.startswith(self.repo_prefix):
                out.append('%s:%d' % (f, l))
        return out

    # ---- operands
    def opval(self, ty, v, regs, st):
        k = v[0]
        if k == 'i': return v[1]
        if k == 'r': return regs.get(v[1], UNDEF)
        if k == 'g':
            n = v[1]
            f = self.m.funcs.get(n)
            if f is not None: return fn(n)
            return ptr(('g', n), 0)
        if k == 'null': return 0
        if k == 'undef': return UNDEF
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'f':
            x = v[1]
            if isinstance(x, str): x = parse_hexfloat(x)
            return flt(x)
        if k == 'ce':
            if v[1] == 'gep':
                ops = v[3]
                base = self.opval(ops[0][0], ops[0][1], regs, st)
                return self.gep(v[2], base, [(t, self.opval(t, o, regs, st)) for t, o in ops[1:]], st)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.opval(v[3][0][0], v[3][0][1], regs, st)
            if v[1] in ('trunc', 'zext', 'sext'):
                return self.cast(v[1], self.opval(v[3][0][0], v[3][0][1], regs, st), v[3][0][0], v[2], st)
            if v[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                a = self.opval(v[3][0][0], v[3][0][1], regs, st); b = self.opval(v[3][1][0], v[3][1][1], regs, st)
                return self.binop(v[1], a, b, v[2], st)
            return UNDEF
        if k == 'agg':
            return agg([self.opval(t, o, regs, st) for t, o in v[1]])
        if k == 'str':
            return agg(list(v[1]))
        return UNDEF

    def zero_of(self, ty):
        if ty.k in ('int', 'ptr'): return 0
        if ty.k in ('float', 'double', 'x86_fp80'): return flt(0.0)
        if ty.k == 'struct': return agg([self.zero_of(e) for e in ty.el or []])
        if ty.k == 'arr':
            if ty.n > 64: return UNDEF
            return agg([self.zero_of(ty.el)] * ty.n)
        return UNDEF

    # ---- pointers
    def addoff(self, p, off, reg=None):
        if isinstance(p, P):
            if isinstance(p.off, int) and isinstance(off, int): n = p.off + off
            else: n = ladd(p.off, off, 64)
            if n is None: n = UNDEF
            return ptr(p.obj, n, reg if reg is not None else p.reg)
        if isinstance(p, int):
            if isinstance(off, int): return (p + off) & ((1 << 64) - 1)
            return UNDEF if p else off
        if isinstance(p, (Sym, Term)):
            return ptr(('deref', p), off, reg)
        return UNDEF

    def gep(self, sty, base, idx, st):
        off = 0
        t = sty
        reg = None
        first = True
        for ity, iv in idx:
            if isinstance(iv, int): iv = signed(iv & ((1 << ity.n) - 1), ity.n)
            if first:
                first = False
                step = t.size
                if isinstance(iv, int): d = iv * step
                else: d = lmul(iv, step, 64)
                off = d if off == 0 else ladd(off, d, 64)
                if off is None: return UNDEF
                continue
            if t.k == 'struct':
                off = ladd(off, t.offs[iv], 64)
                t = t.el[iv]
                if t.k == 'arr' and isinstance(off, int): reg = (off, off + t.size)
            elif t.k in ('arr', 'vec'):
                start = off
                step = t.el.size
                if isinstance(iv, int): d = iv * step
                else: d = lmul(iv, step, 64)
                if d is None: return UNDEF
                if isinstance(start, int) and t.n:
                    reg = (start, start + t.n * step)
                off = ladd(off, d, 64)
                t = t.el
            else:
                return UNDEF
            if off is None: return UNDEF
        r = self.addoff(base, off)
        if reg is not None and isinstance(r, P) and isinstance(base, P) and isinstance(base.off, int):
            r = ptr(r.obj, r.off, (reg[0] + base.off, reg[1] + base.off))
        return r

    def as_ptr(self, v, st):
        """normalise a pointer value for dereferencing"""
        if isinstance(v, P): return v
        if isinstance(v, (Sym, Term)): return ptr(('deref', v), 0)
        return v

    # ---- memory
    def load(self, st, p, ty, inst=None):
        p = self.as_ptr(p, st)
        if ty.k == 'struct' or ty.k == 'arr':
            els = []
            if ty.k == 'struct':
                for e, o in zip(ty.el, ty.offs): els.append(self.load(st, self.addoff(p, o), e, inst))
            else:
                for i in range(min(ty.n, 64)): els.append(self.load(st, self.addoff(p, i * ty.el.size), ty.el, inst))
            return agg(els)
        size = ty.size
        if not isinstance(p, P):
            self.hook('bad_access', st, 'load', p, size, inst)
            return UNDEF
        self.hook('on_load', st, p, size, inst)
        for h in self.hooks:
            f = getattr(h, 'load_override', None)
            if f:
                r = f(self, st, p, ty, inst)
                if r is not None: return r
        return self.raw_load(st, p, ty, inst)

    def raw_load(self, st, p, ty, inst=None):
        size = ty.size
        oid = p.obj
        if self.unroll:
            r = self.str_load(st, p, ty)
            if r is not None: return r
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, tuple) and oid[0] == 'g':
                r = self.load_global(oid[1], p.off, ty, st)
                if r is not None: return r
                o = self.make_global(oid[1], st)
            else:
                o = st.wobj(oid)
        off = p.off
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size: return self.fit(c[1], ty)
            v = c[1]
            if isinstance(v, int) and size < c[0]: return v & ((1 << (8*size)) - 1)
            if size < c[0] and isinstance(v, (Sym, Term, Lin)) and ty.k == 'int':
                return self.trunc(v, c[0]*8, ty.n, st)
        if isinstance(off, int):
            # covering constant cell
            for co in range(off - 1, max(-1, off - 16), -1):
                c = o.cells.get(co)
                if c is not None and isinstance(c[0], int) and co + c[0] > off:
                    if isinstance(c[1], int) and co + c[0] >= off + size:
                        return (c[1] >> (8 * (off - co))) & ((1 << (8*size)) - 1)
                    break
            # assembled from smaller constants
            if c is None and ty.k == 'int' and size > 1:
                r, ok = 0, True
                b = 0
                while b < size:
                    cc = o.cells.get(off + b)
                    if cc is not None and isinstance(cc[1], int) and isinstance(cc[0], int) and b + cc[0] <= size:
                        r |= (cc[1] & ((1 << (8*cc[0])) - 1)) << (8*b); b += cc[0]
                    elif cc is None and self._zeroed(o, off + b, 1): b += 1
                    else:
                        ok = False; break
                if ok: return r
            if self._zeroed(o, off, size): return 0 if ty.k in ('int', 'ptr') else flt(0.0)
        if o.default == 'zero' and isinstance(off, int) and not any(a <= off < b for a, b in o.syw):
            return 0
        if o.default == 'sym' or not isinstance(off, int) or any(a <= off < b for a, b in o.syw):
            v = self.extern_value(st, p, ty)
            o = st.wobj(oid)
            o.cells[off] = (size, v)
            return v
        return UNDEF

    def str_load(self, st, p, ty):
        """parts of strings: the pointer to the characters, the length, a character"""
        oid = p.obj
        if isinstance(oid, tuple) and oid[0] == 'cs' and ty.k == 'int' and ty.size in (1, 2, 4):
            s = oid[1]
            if ty.size == 1 and isinstance(p.off, int) and (not s.p or isinstance(s.p[0], bytes)):
                b = s.p[0] if s.p else b''
                if p.off < len(b): return b[p.off]
                if p.off == len(b) and len(s.p) < 2: return 0
            return sym(('char', s, p.off), ty.n, signed=True)
        if ty.k in ('ptr', 'int') and ty.size == 8:
            o = st.mem.get(oid)
            if o is None: return None
            c = o.cells.get(p.off)
            if c is not None and isinstance(c[1], Str) and c[0] in (32, 40) and ty.k == 'ptr': return ptr(('cs', c[1], oid, p.off), 0)
            if isinstance(p.off, int) and ty.k == 'int':
                c = o.cells.get(p.off - 8)
                if c is not None and isinstance(c[1], Str) and c[0] in (32, 40):
                    import models
                    return models.slen(c[1])
        return None

    def fit(self, v, ty):
        return v

    def _zeroed(self, o, off, size):
        return any(a <= off and off + size <= b for a, b in o.zr)

    def extern_value(self, st, p, ty):
        for h in self.hooks:
            f = getattr(h, 'extern_value', None)
            if f:
                r = f(self, st, p, ty)
                if r is not None: return r
        return sym(('mem', p.obj, p.off if isinstance(p.off, (int, Val)) else '?', st.cnt.get(('ver', p.obj), 0)), max(ty.size * 8, 8))

    def load_global(self, name, off, ty, st):
        g = self.m.global_(name)
        if g is None or not g[2]: return None
        gty, init, _ = g
        if init is None: return None
        if not isinstance(off, int):
            return self.table_lookup(gty, init, off, ty, st)
        return self.const_at(gty, init, off, ty, st)

    def const_at(self, gty, init, off, ty, st):
        k = init[0]
        if k == 'zero': return 0 if ty.k in ('int', 'ptr') else flt(0.0)
        if k == 'undef': return UNDEF
        if gty.k == 'struct' and k == 'agg':
            for (et, ev), eo in zip(init[1], gty.offs):
                if eo <= off < eo + max(et.size, 1) or (et.size == 0 and False):
                    return self.const_at(et, ev, off - eo, ty, st)
            return UNDEF
        if gty.k == 'arr':
            if k == 'agg':
                i = off // gty.el.size
                if i >= len(init[1]): return UNDEF
                return self.const_at(gty.el, init[1][i][1], off - i * gty.el.size, ty, st)
            if k == 'str':
                b = init[1]
                es = gty.el.size
                if es == 1:
                    s = b[off:off + ty.size]
                    if len(s) < ty.size: return UNDEF
                    return int.from_bytes(s, 'little')
        if off == 0:
            v = self.opval(gty, init, {}, st)
            if isinstance(v, int) and ty.size < gty.size: v &= (1 << (8 * ty.size)) - 1
            return v
        return UNDEF

    def table_lookup(self, gty, init, off, ty, st):
        """constant table indexed by a value from a finite set"""
        if self.unroll and ty.k == 'int' and gty.k == 'arr' and gty.size <= 2048 and isinstance(off, (Sym, Lin, Term)):
            n = gty.size // ty.size
            vals = []
            for b in range(n): vals += [self.const_at(gty, init, b * ty.size, ty, st)] + [0] * (ty.size - 1)
            if all(isinstance(v, int) for v in vals): return term('tab', (tuple(vals), off), ty.n)
        atoms = set()
        if not finite_atoms(off, st, atoms) or len(atoms) != 1: return None
        a = next(iter(atoms))
        d = sorted(st.dom(a))
        if len(d) > 64: return None
        def alt(x):
            return lambda s: s.setrange(a, x, x)
        if len(d) == 1:
            return self.const_at(gty, init, ceval(off, {a: d[0]}), ty, st)
        raise Fork([alt(x) for x in d])

    def make_global(self, name, st):
        g = self.m.global_(name)
        o = st.new(('g', name), 'sym')
        if g is not None and g[1] is not None:
            o.default = 'sym' if g[1] is None else 'zero'
            o.size = g[0].size
            if g[1][0] != 'zero':
                self.store_init(st, ('g', name), 0, g[0], g[1])
        return st.mem[('g', name)]

    def store_init(self, st, oid, off, ty, init):
        if init[0] == 'agg' and ty.k == 'struct':
            for (et, ev), eo in zip(init[1], ty.offs): self.store_init(st, oid, off + eo, et, ev)
        elif init[0] == 'agg' and ty.k == 'arr':
            for i, (et, ev) in enumerate(init[1]): self.store_init(st, oid, off + i * ty.el.size, et, ev)
        elif init[0] == 'zero' or init[0] == 'undef': pass
        elif init[0] == 'str':
            o = st.wobj(oid)
            for i, b in enumerate(init[1]): o.cells[off + i] = (1, b)
        else:
            st.wobj(oid).cells[off] = (ty.size, self.opval(ty, init, {}, st))

    def store(self, st, p, v, size, inst=None):
        p = self.as_ptr(p, st)
        if isinstance(v, Agg):
            return self.store_agg(st, p, v, inst, size)
        if not isinstance(p, P):
            self.hook('bad_access', st, 'store', p, size, inst)
            return
        self.hook('on_store', st, p, v, size, inst)
        self.raw_store(st, p, v, size)

    def store_agg(self, st, p, v, inst, size):
        # without the type, lay out as 8-byte slots is wrong: callers give us the type instead
        for i, e in enumerate(v.els):
            self.store(st, self.addoff(p, i), e, 1, inst)

    def store_typed(self, st, p, v, ty, inst=None):
        if isinstance(v, Agg):
            if ty.k == 'struct':
                for e, o, t in zip(v.els, ty.offs, ty.el): self.store_typed(st, self.addoff(p, o), e, t, inst)
                return
            if ty.k == 'arr':
                for i, e in enumerate(v.els): self.store_typed(st, self.addoff(p, i * ty.el.size), e, ty.el, inst)
                return
        if ty.k in ('struct', 'arr'):
            self.store(st, p, v, ty.size, inst)
            return
        self.store(st, p, v, ty.size, inst)

    def raw_store(self, st, p, v, size):
        o = st.wobj(p.obj)
        off = p.off
        if isinstance(off, int):
            self.kill(o, off, size)
            o.cells[off] = (size, v)
        else:
            if p.reg is not None:
                lo, hi = p.reg
            else:
                lo, hi = 0, (o.size or 1 << 30)
            for k in list(o.cells):
                if isinstance(k, int):
                    if lo <= k < hi and not self.apart(st, off, size, k, o.cells[k]): del o.cells[k]
                elif k is not off:
                    # another symbolic cell: keep only when provably different
                    d = ladd(k, off, 64, 1, -1)
                    if not (isinstance(d, int) and (d >= size or d <= -self._csize(o.cells[k]))):
                        del o.cells[k]
            if (lo, hi) not in o.syw: o.syw = o.syw + ((lo, hi),)
            if o.zr: o.zr = tuple(z for r in o.zr for z in cut(r, lo, hi))
            o.cells[off] = (size, v)

    def apart(self, st, off, size, k, c):
        """is [off, off+size) provably outside the cell c at k?"""
        n = c[1].d[1] if isinstance(c[1], Opaque) and c[1].kind == 'chars' else self._csize(c)
        if isinstance(c[1], Opaque) and c[1].kind == 'chars' and c[1].d[2]: n = ladd(n, 1, 64)
        after = ladd(ladd(off, k, 64, 1, -1), n, 64, 1, -1)
        if after is not None and st.range(after)[0] >= 0: return True
        before = ladd(ladd(off, size, 64), k, 64, 1, -1)
        return before is not None and st.range(before)[1] <= 0

    @staticmethod
    def _csize(c): return c[0] if isinstance(c[0], int) else 1

    def kill(self, o, off, size):
        """remove what a write to [off,off+size) overlaps"""
        if size <= 64:
            for k in range(off, off + size):
                if k in o.cells:
                    c = o.cells.pop(k)
                    e = k + self._csize(c)
                    if e > off + size and isinstance(c[1], int):
                        o.cells[off + size] = (e - off - size, c[1] >> (8 * (off + size - k)))
            for k in range(max(0, off - 40), off):
                c = o.cells.get(k)
                if c is not None and k + self._csize(c) > off:
                    del o.cells[k]
                    if isinstance(c[1], int):
                        o.cells[k] = (off - k, c[1] & ((1 << (8 * (off - k))) - 1))
                        if k + c[0] > off + size:
                            o.cells[off + size] = (k + c[0] - off - size, c[1] >> (8 * (off + size - k)))
        else:
            for k in list(o.cells):
                if isinstance(k, int):
                    if k < off + size and k + self._csize(o.cells[k]) > off: del o.cells[k]
        for k in list(o.cells):
            if not isinstance(k, int):
                # a symbolic cell may overlap unless its array region is elsewhere
                reg = None
                for a, b in o.syw:
                    pass
                if not any(a <= off < b for a, b in o.syw): continue
                del o.cells[k]
        if o.zr:
            o.zr = tuple(z for r in o.zr for z in cut(r, off, off + size))

    def memset(self, st, p, byte, n):
        p = self.as_ptr(p, st)
        if not isinstance(p, P): return
        o = st.wobj(p.obj)
        if isinstance(p.off, int) and isinstance(n, int):
            self.kill(o, p.off, n)
            if byte == 0:
                o.zr = o.zr + ((p.off, p.off + n),)
            elif isinstance(byte, int) and n <= 64:
                for i in range(n): o.cells[p.off + i] = (1, byte)
        else:
            self.havoc(st, p)

    def memcpy(self, st, d, s, n):
        d, s = self.as_ptr(d, st), self.as_ptr(s, st)
        if not isinstance(d, P) or not isinstance(s, P): return
        so = st.mem.get(s.obj)
        if not isinstance(n, int) or isinstance(s.obj, tuple) and s.obj[0] == 'cs':
            import models
            t = self.copied_text(st, s, n, so)
            if t is not None: return models.put_chars(self, st, d, t[0], terminated=t[1])
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int):
            if so is None and isinstance(s.obj, tuple) and s.obj[0] == 'g':
                so = self.make_global(s.obj[1], st)
            if so is None:
                so = st.wobj(s.obj)
            items = []
            for k, c in so.cells.items():
                if isinstance(k, int) and s.off <= k and k + self._csize(c) <= s.off + n: items.append((k - s.off, c))
            zr = [(max(a, s.off) - s.off, min(b, s.off + n) - s.off) for a, b in so.zr if a < s.off + n and b > s.off]
            symd = so.default == 'sym'
            o = st.wobj(d.obj)
            self.kill(o, d.off, n)
            for k, c in items: o.cells[d.off + k] = c
            if so.default == 'zero':
                zr = [(0, n)]
            z = o.zr
            for a, b in zr:
                segs = [(a, b)]
                for k, c in items:
                    segs = [y for x in segs for y in cut(x, k, k + self._csize(c))]
                z = z + tuple((d.off + x, d.off + y) for x, y in segs)
            o.zr = z
            if symd:
                # copy of unknown memory: materialise lazily as a view
                have = {k for k, _ in items}
                step = 8
                k = 0
                if n <= 256:
                    sizes = {}
                    while k < n:
                        if k in have:
                            k += self._csize(dict(items)[k]); continue
                        w = 8 if n - k >= 8 and k % 8 == 0 and not any(k < h < k + 8 for h in have) else 4 if n - k >= 4 and k % 4 == 0 and not any(k < h < k+4 for h in have) else 1
                        v = self.raw_load(st, ptr(s.obj, s.off + k), _TI[w])
                        st.wobj(d.obj).cells[d.off + k] = (w, v)
                        k += w
            return
        self.havoc(st, d)

    def copied_text(self, st, s, n, so):
        """the first n bytes at s, when a whole string (with or without its terminator) lies there. -> (text, terminated) or None"""
        import models
        if isinstance(s.obj, tuple) and s.obj[0] == 'cs':
            t = models.cstr(self, st, s)
        else:
            c = so.cells.get(s.off) if so is not None else None
            if c is None or not (isinstance(c[1], Opaque) and c[1].kind == 'chars' and c[1].d[2]): return None
            t = c[1].d[0]
        L = models.slen(t)
        if n == L: return t, False
        if n == ladd(L, 1, 64): return t, True
        if isinstance(n, int) and isinstance(s.obj, tuple) and s.obj[0] == 'cs': return mkstr((('cut', t, n),)), False
        return None

    def havoc(self, st, p):
        p = self.as_ptr(p, st)
        if not isinstance(p, P): return
        o = st.wobj(p.obj)
        if p.reg is not None and isinstance(p.reg[0], int):
            lo, hi = p.reg
        else:
            lo, hi = 0, 1 << 30
        for k in list(o.cells):
            if not isinstance(k, int) or lo <= k < hi: del o.cells[k]
        o.zr = tuple(z for r in o.zr for z in cut(r, lo, hi))
        o.syw = o.syw + ((lo, hi),) if (lo, hi) not in o.syw else o.syw
        st.cnt[('ver', p.obj)] = st.cnt.get(('ver', p.obj), 0) + 1

    # ---- arithmetic
    def trunc(self, v, w, nw, st):
        if isinstance(v, int): return v & ((1 << nw) - 1)
        if v is UNDEF: return v
        if isinstance(v, P): return term('trunc', (v, w), nw)
        if isinstance(v, Term) and v.op in ('zext', 'sext') and v.args[1] == nw: return v.args[0]
        if isinstance(v, (Sym, Term, Lin)):
            l, h = st.range(v)
            if l >= 0 and h < (1 << nw): return v
            if l >= -(1 << (nw-1)) and h < (1 << (nw-1)): return v
            if isinstance(v, Lin) and nw >= 32: return v       # lengths and counts: taken not to wrap
        return term('trunc', (v, w), nw)

    def cast(self, op, v, ft, tt, st):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return v
        if v is UNDEF: return v
        if op == 'trunc': return self.trunc(v, ft.n, tt.n, st)
        if op == 'zext':
            if isinstance(v, int): return v & ((1 << ft.n) - 1)
            if ft.n == 1: return term('zext', (v, 1), tt.n) if not isinstance(v, Sym) else v
            l, h = st.range(v)
            if l >= 0 and h < (1 << ft.n): return v
            if isinstance(v, Lin) and ft.n >= 32: return v
            return term('zext', (v, ft.n), tt.n)
        if op == 'sext':
            if isinstance(v, int): return signed(v & ((1 << ft.n) - 1), ft.n) & ((1 << tt.n) - 1)
            l, h = st.range(v)
            if l >= -(1 << (ft.n-1)) and h < (1 << (ft.n-1)): return v
            if isinstance(v, Lin) and ft.n >= 32: return v
            return term('sext', (v, ft.n), tt.n)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                x = float(signed(v, ft.n) if op[0] == 's' else v)
                return flt(struct.unpack('f', struct.pack('f', x))[0] if tt.k == 'float' else x)
            return term('tofloat', (term('itof', (v,), 64),), 32) if tt.k == 'float' and ft.n > 24 else term('itof', (v,), 64)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Flt):
                try: return int(v.v) & ((1 << tt.n) - 1)
                except (OverflowError, ValueError): return UNDEF
            return term('ftoi', (v,), tt.n)
        if op == 'fpext': return v
        if op == 'fptrunc':
            if tt.k != 'float': return v
            if isinstance(v, Flt):
                try: return flt(struct.unpack('f', struct.pack('f', v.v))[0])
                except OverflowError: return flt(float('inf') if v.v > 0 else float('-inf'))
            return term('tofloat', (v,), 32)
        return term(op, (v,), 64)

    def binop(self, op, a, b, ty, st):
        if a is UNDEF or b is UNDEF: return UNDEF
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if isinstance(a, Flt) and isinstance(b, Flt):
                try:
                    x = {'fadd': a.v + b.v, 'fsub': a.v - b.v, 'fmul': a.v * b.v, 'fdiv': a.v / b.v if b.v else float('inf'), 'frem': 0.0}[op]
                    return flt(struct.unpack('f', struct.pack('f', x))[0] if ty.k == 'float' else x)
                except OverflowError: return UNDEF
            return term(op, (a, b), 32 if ty.k == 'float' else 64)
        w = ty.n if ty.k == 'int' else 64
        if isinstance(a, int) and isinstance(b, int): return bin_c(op, a, b, w)
        if isinstance(a, P) or isinstance(b, P):
            if op == 'add':
                return self.addoff(a, b) if isinstance(a, P) else self.addoff(b, a)
            if op == 'sub':
                if isinstance(a, P) and isinstance(b, P):
                    if a.obj == b.obj:
                        r = ladd(a.off, b.off, 64, 1, -1)
                        return r if r is not None else UNDEF
                    return term('pdiff', (a, b), 64)
                if isinstance(a, P):
                    n = lmul(b, -1, 64)
                    return self.addoff(a, n if not isinstance(b, int) else -signed(b, 64)) if n is not None or isinstance(b, int) else UNDEF
            if op == 'and' and isinstance(b, int) and isinstance(a, P): return term('and', (a, b), w)
            return term(op, (a, b), w)
        if w == 1:
            if op == 'xor':
                if b == 1: return not_(a)
                if a == 1: return not_(b)
            if op == 'and':
                if isinstance(a, int): return b if a else 0
                if isinstance(b, int): return a if b else 0
            if op == 'or':
                if isinstance(a, int): return 1 if a else b
                if isinstance(b, int): return 1 if b else a
            return term(op, (a, b), 1)
        if op == 'add' or op == 'sub':
            r = ladd(a, b, w, 1, 1 if op == 'add' else -1)
            if r is not None: return self.norm(r, w)
        if op == 'mul':
            if isinstance(b, int): r = lmul(a, signed(b, w), w)
            elif isinstance(a, int): r = lmul(b, signed(a, w), w)
            else: r = None
            if r is not None: return self.norm(r, w)
        if op == 'shl' and isinstance(b, int) and b < w:
            r = lmul(a, 1 << b, w)
            if r is not None: return self.norm(r, w)
        if op == 'and':
            if a == 0 or b == 0: return 0
            m = (1 << w) - 1
            if b == m: return a
            if a == m: return b
            if isinstance(a, int): a, b = b, a
            if isinstance(a, Term) and a.op == 'and' and isinstance(b, int) and isinstance(a.args[1], int):
                return self.binop('and', a.args[0], a.args[1] & b, ty, st)
            if isinstance(b, int) and (b & (b + 1)) == 0:
                l, h = st.range(a)
                if l >= 0 and h <= b: return a
            if a is b: return a
        if op == 'or':
            if a == 0: return b
            if b == 0: return a
            if isinstance(a, int): a, b = b, a
            if a is b: return a
        if op == 'xor':
            if b == 0: return a
            if a is b: return 0
        if op in ('lshr', 'ashr') and b == 0: return a
        if op in ('sdiv', 'udiv') and b == 1: return a
        if op in ('sdiv', 'udiv') and isinstance(b, int) and b > 1 and isinstance(a, Lin) and all(c % b == 0 for _, c in a.t) and a.k % b == 0:
            return lin({x: c // b for x, c in a.t}, a.k // b, w)
        if op == 'sdiv' or op == 'ashr':
            k = b if op == 'sdiv' else (1 << b if isinstance(b, int) else None)
            if isinstance(k, int) and k > 1 and isinstance(a, Lin) and all(c % k == 0 for _, c in a.t) and a.k % k == 0:
                return lin({x: c // k for x, c in a.t}, a.k // k, w)
        return term(op, (a, b), w)

    def norm(self, r, w):
        if isinstance(r, int): return r & ((1 << w) - 1)
        return r

    def icmp(self, pred, a, b, ty, st):
        if a is UNDEF or b is UNDEF: return UNDEF
        w = ty.n if ty.k == 'int' else 64
        if isinstance(a, int) and isinstance(b, int): return int(icmp_c(pred, a, b, w))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if pred in ('eq', 'ne'):
                same = a is b
                if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)): return term('icmp', (pred, a, b, w), 1)
                return int(same == (pred == 'eq'))
        pa, pb = isinstance(a, P), isinstance(b, P)
        if pa or pb:
            if pa and pb:
                if a.obj == b.obj:
                    return self.icmp_lin(pred, a.off, b.off, st)
                if pred in ('eq', 'ne') and not self.maybe_same(a, b): return int(pred == 'ne')
                return term('icmp', (pred, a, b, w), 1)
            x, o = (a, b) if pa else (b, a)
            if o == 0:
                if isinstance(x.obj, tuple) and x.obj[0] == 'deref':
                    # pointer loaded from unknown memory: non-null once dereferenced at an offset; else ask the symbol
                    if x.off == 0: return self.icmp(pred, x.obj[1], 0, ty, st) if pa else self.icmp(pred, 0, x.obj[1], ty, st)
                if pred in ('eq', 'ne'): return int(pred == 'ne')
                if pred in ('ugt', 'uge'): return int(pa)
                if pred in ('ult', 'ule'): return int(not pa)
            if isinstance(o, int):
                return int(pred == 'ne') if pred in ('eq', 'ne') else term('icmp', (pred, a, b, w), 1)
            return term('icmp', (pred, a, b, w), 1)
        # booleans widened
        if pred in ('eq', 'ne') and isinstance(b, int) and isinstance(a, Term) and a.op == 'zext' and a.args[1] == 1:
            if b == 0: return a.args[0] if pred == 'ne' else not_(a.args[0])
            if b == 1: return a.args[0] if pred == 'eq' else not_(a.args[0])
            return int(pred == 'ne')
        if w == 1 and pred in ('eq', 'ne') and isinstance(b, int):
            return a if (pred == 'ne') == (b == 0) else not_(a)
        if a is b: return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if isinstance(a, (Str, Opaque, Flt, Agg)) or isinstance(b, (Str, Opaque, Flt, Agg)): return UNDEF
        return term('icmp', (pred, a, b, w), 1)

    def icmp_lin(self, pred, a, b, st):
        d = ladd(a, b, 64, 1, -1)
        if d is None: return UNDEF
        p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
        if isinstance(d, int): return int(icmp_c(p, d, 0, 64))
        if isinstance(d, Lin):
            g = math.gcd(d.k, *(c for _, c in d.t))
            if g > 1: d = lin({x: c // g for x, c in d.t}, d.k // g, 64)
        return term('icmp', (p, d, 0, 64), 1)

    def maybe_same(self, a, b):
        def ext(o): return isinstance(o, tuple) and o and o[0] == 'deref'
        return ext(a.obj) or ext(b.obj)

    # ---- running
    def run(self, name, args, st):
        return self.exec_function(self.m.funcs[name], args, st, None)

    def exec_function(self, f, args, st, inst):
        f.ensure()
        self.depth += 1
        if self.depth > self.maxdepth: raise Budget('call depth')
        repo = self.is_repo(f)
        if repo: self.reached[f.name] = self.reached.get(f.name, 0) + 1
        regs = {}
        for (nm, ty, _s, _b), v in zip(f.params, args): regs[nm] = v
        fid = (f.name, sum(1 for c in st.stack if c is not None and c.x and c.op == 'call' and c.fn is f) + st.cnt.get(('act', f.name), 0))
        st.cnt[('act', f.name)] = st.cnt.get(('act', f.name), 0) + 1
        allocas = set()
        outs = []
        outkeys = {}
        seen = {}
        templates = {}
        heap = []
        cntr = 0
        rpo = f.rpo

        def push(bb, idx, prev, regs, st):
            nonlocal cntr
            cntr += 1
            heapq.heappush(heap, (rpo.get(bb, 0), -idx if idx else 0, cntr, bb, idx, prev, regs, st))

        push(f.entry, 0, None, regs, st)
        merged = []
        while heap or merged:
            if merged: bb, idx, prev, regs, st = merged.pop()
            else: _, _, _, bb, idx, prev, regs, st = heapq.heappop(heap)
            code = f.blocks[bb]
            if idx == 0 and prev is not None and heap and heap[0][3] == bb and heap[0][4] == 0 and bb not in f.heads:
                # several paths meet here: those that differ in what they know only, go on as one
                arr = [(prev, regs, st)]
                while heap and heap[0][3] == bb and heap[0][4] == 0:
                    it = heapq.heappop(heap)
                    arr.append((it[5], it[6], it[7]))
                merged = [(bb, -1, None, r, s) for r, s in self.merge_point(f, bb, code, arr)]
                continue
            if idx == -1:
                idx = 0
                while code[idx].op == 'phi': idx += 1
            if idx == 0 and prev is not None:
                # phis
                upd = {}
                for i in code:
                    if i.op != 'phi': break
                    for v, pb in i.x:
                        if pb == prev:
                            upd[i.res] = self.opval(i.ty, v, regs, st); break
                    idx += 1
                live = f.live_in[bb]
                regs = {k: v for k, v in regs.items() if k in live}
                regs.update(upd)
                if bb in f.heads and bb.startswith('arrayinit'):
                    x = self.array_init(f, bb, code, regs, st)
                    if x is not None:
                        push(x, 0, bb, regs, st)
                        continue
                if bb in f.heads:
                    r = self.loop_head(f, bb, fid, templates, regs, st, set(upd))
                    if r is None: continue
                    regs, st = r
                else:
                    k = (bb, frozenset(regs.items()), st.key())
                    if k in seen: continue
                    seen[k] = 1
            n = len(code)
            dead = False
            while idx < n:
                i = code[idx]
                self.steps += 1
                if self.steps > self.budget: raise Budget('steps')
                op = i.op
                try:
                    if op == 'call':
                        rs = self.call(f, i, regs, st)
                        if rs is None:
                            idx += 1; continue
                        if not rs:
                            dead = True; break
                        if len(rs) == 1:
                            st, v = rs[0]
                            if i.res: regs[i.res] = v
                            idx += 1
                            continue
                        for s2, v in rs:
                            r2 = dict(regs)
                            if i.res: r2[i.res] = v
                            push(bb, idx + 1, prev, r2, s2)
                        dead = True
                        break
                    if op == 'load':
                        regs[i.res] = self.load(st, self.opval(PTRTY, i.a[0], regs, st), i.ty, i)
                    elif op == 'store':
                        v = self.opval(i.ty, i.a[0], regs, st)
                        self.store_typed(st, self.opval(PTRTY, i.a[1], regs, st), v, i.ty, i)
                    elif op == 'gep':
                        base = self.opval(PTRTY, i.a[0], regs, st)
                        regs[i.res] = self.gep(i.ty, base, [(t, self.opval(t, o, regs, st)) for t, o in i.x], st)
                    elif op == 'icmp':
                        regs[i.res] = self.icmp(i.x, self.opval(i.ty, i.a[0], regs, st), self.opval(i.ty, i.a[1], regs, st), i.ty, st)
                    elif op == 'condbr':
                        c = self.opval(i.ty, i.a[0], regs, st)
                        d = decide(c, st)
                        if d is None and c is UNDEF: self.hook('undef_branch', st, i)
                        if d is not None:
                            push(i.x[0] if d else i.x[1], 0, bb, regs, st)
                        else:
                            self.nforks += 1
                            g = pair_groups(c, st)
                            if g: raise Fork([lambda s, a=g[0], x=x: s.setfin(a, x) for x in g[1]])
                            s2 = st.clone()
                            if assume(c, 1, st): push(i.x[0], 0, bb, dict(regs), st)
                            if assume(c, 0, s2): push(i.x[1], 0, bb, dict(regs), s2)
                        dead = True; break
                    elif op == 'br':
                        push(i.x[0], 0, bb, regs, st)
                        dead = True; break
                    elif op == 'bin':
                        regs[i.res] = self.binop(i.x, self.opval(i.ty, i.a[0], regs, st), self.opval(i.ty, i.a[1], regs, st), i.ty, st)
                    elif op == 'cast':
                        regs[i.res] = self.cast(i.x[0], self.opval(i.x[1], i.a[0], regs, st), i.x[1], i.ty, st)
                    elif op == 'alloca':
                        cnt = self.opval(i.ty, i.a[0], regs, st)
                        oid = ('a', fid, i.res)
                        st.new(oid, 'undef', i.ty.size * cnt if isinstance(cnt, int) else None)
                        allocas.add(oid)
                        regs[i.res] = ptr(oid, 0, (0, i.ty.size) if i.ty.k == 'arr' else None)
                    elif op == 'ret':
                        v = self.opval(i.ty, i.a[0], regs, st) if i.a else None
                        self.hook('on_ret', st, f, v)
                        for a in allocas:
                            st.mem.pop(a, None)
                        if not heap and not outs:
                            self.hook('settle', st)
                            # a single exit: nothing to merge with
                            if repo and cntr > 2: self.gc(st, v)
                            outs.append((st, v))
                            dead = True; break
                        self.hook('settle', st)
                        if not outkeys and outs:
                            s1, v1 = outs[0]
                            outkeys[(v1, s1.key())] = 1
                        self.gc(st, v)
                        k = (v, st.key())
                        if k not in outkeys:
                            outkeys[k] = 1
                            outs.append((st, v))
                        dead = True; break
                    elif op == 'select':
                        c = self.opval(BOOL, i.a[0], regs, st)
                        d = decide(c, st)
                        if d is None:
                            if c is UNDEF:
                                a = self.opval(i.ty, i.a[1], regs, st); b = self.opval(i.ty, i.a[2], regs, st)
                                regs[i.res] = a if a is b else UNDEF
                            else:
                                g = pair_groups(c, st)
                                if g: raise Fork([lambda s, a=g[0], x=x: s.setfin(a, x) for x in g[1]])
                                raise Fork([lambda s, c=c: assume(c, 1, s), lambda s, c=c: assume(c, 0, s)])
                        else:
                            regs[i.res] = self.opval(i.ty, i.a[1] if d else i.a[2], regs, st)
                    elif op == 'switch':
                        self.do_switch(i, bb, regs, st, push)
                        dead = True; break
                    elif op == 'extractvalue':
                        a = self.opval(i.ty, i.a[0], regs, st)
                        for x in i.x:
                            a = a.els[x] if isinstance(a, Agg) and x < len(a.els) else UNDEF
                        regs[i.res] = a
                    elif op == 'insertvalue':
                        a = self.opval(i.ty, i.a[0], regs, st)
                        v = self.opval(PTRTY, i.a[1], regs, st)
                        regs[i.res] = self.insert(a, v, i.x, i.ty)
                    elif op == 'atomicrmw':
                        p = self.opval(PTRTY, i.a[0], regs, st)
                        v = self.opval(i.ty, i.a[1], regs, st)
                        self.hook('on_atomic', st, 'rmw', p, v, i)
                        old = self.load(st, p, i.ty, i)
                        regs[i.res] = old
                        nv = v if i.x == 'xchg' else self.binop(i.x, old, v, i.ty, st) if i.x in ('add', 'sub', 'and', 'or', 'xor') else UNDEF
                        self.store(st, p, nv, i.ty.size, i)
                    elif op == 'cmpxchg':
                        p = self.opval(PTRTY, i.a[0], regs, st)
                        c = self.opval(i.ty, i.a[1], regs, st); nv = self.opval(i.ty, i.a[2], regs, st)
                        self.hook('on_atomic', st, 'cas', p, nv, i)
                        old = self.load(st, p, i.ty, i)
                        eq = self.icmp('eq', old, c, i.ty, st)
                        d = decide(eq, st)
                        if d is None and eq is not UNDEF:
                            raise Fork([lambda s, c=eq: assume(c, 1, s), lambda s, c=eq: assume(c, 0, s)])
                        if d: self.store(st, p, nv, i.ty.size, i)
                        regs[i.res] = agg([old, d if d is not None else UNDEF])
                    elif op == 'freeze':
                        regs[i.res] = self.opval(i.ty, i.a[0], regs, st)
                    elif op == 'fcmp':
                        a = self.opval(i.ty, i.a[0], regs, st); b = self.opval(i.ty, i.a[1], regs, st)
                        regs[i.res] = self.fcmp(i.x, a, b)
                    elif op == 'fneg':
                        a = self.opval(i.ty, i.a[0], regs, st)
                        regs[i.res] = flt(-a.v) if isinstance(a, Flt) else term('fneg', (a,), 64)
                    elif op == 'unreachable':
                        dead = True; break
                    elif op == 'phi':
                        pass
                    else:
                        regs[i.res] = UNDEF
                except Fork as fk:
                    self.nforks += 1
                    alts = fk.alts
                    for k, alt in enumerate(alts):
                        s2 = st.clone() if k < len(alts) - 1 else st
                        if alt(s2) is not False:
                            push(bb, idx, prev, dict(regs), s2)
                    dead = True
                    break
                idx += 1
        self.depth -= 1
        if len(outs) > 1: outs = [(s, v) for v, s in self.fact_join([(v, s) for s, v in outs])]
        return outs

    # ---- join points
    def merge_point(self, f, bb, code, arr):
        live = f.live_in[bb]
        res = []
        for prev, regs, st in arr:
            upd = {}
            for i in code:
                if i.op != 'phi': break
                for v, pb in i.x:
                    if pb == prev:
                        upd[i.res] = self.opval(i.ty, v, regs, st); break
            regs = {k: v for k, v in regs.items() if k in live}
            regs.update(upd)
            self.hook('settle', st)
            self.gc_regs(st, regs)
            res.append((regs, st))
        return self.fact_join(res)

    def join_key(self, st):
        ks = []
        for oid, o in st.mem.items():
            if oid == ERRNO: continue
            k = o.key()
            if any(isinstance(c[1], Opaque) and c[1].kind == 'map' for c in o.cells.values()):
                k = (frozenset((a, (c[0], opaque('map', c[1].d[0], '*', '*')) if isinstance(c[1], Opaque) and c[1].kind == 'map' else c)
                               for a, c in o.cells.items()),) + k[1:]
            ks.append((oid, k))
        return (frozenset(ks), frozenset(st.mon.items()))

    def fact_join(self, arr):
        groups = {}
        for x, st in arr:
            k = (frozenset(x.items()) if isinstance(x, dict) else x, self.join_key(st))
            groups.setdefault(k, []).append((x, st))
        out = []
        for g in groups.values():
            x, st = g[0]
            for y, s2 in g[1:]: st = self.join2(st, s2)
            out.append((x, st))
        return out

    def join2(self, a, b):
        """a state covering both a and b, which agree on memory"""
        rng = {}
        for k in list(a.rng) + [k for k in b.rng if k not in a.rng]:
            q, r = a.range(k), b.range(k)
            lo, hi = min(q[0], r[0]), max(q[1], r[1])
            if lo > -INF or hi < INF: rng[k] = (lo, hi)
        fin = {}
        for k, d in a.fin.items():
            d2 = b.dom(k)
            if d2 is not None: fin[k] = d | d2
        if self.unroll:
            for k in rng:
                if isinstance(k, Sym) and k not in fin:
                    ds = [s.dom(k) or (r[1] - r[0] < 16 and frozenset(range(r[0], r[1] + 1))) for s in (a, b) for r in (s.range(k),)]
                    if all(ds): fin[k] = ds[0] | ds[1]
        ne = {}
        for k, e in a.ne.items():
            e2 = frozenset(x for x in e if decide_icmp('ne', k, x, 64, b) == 1)
            if e2: ne[k] = e2
        if self.unroll:
            for k in rng:          # a character which is below something, or above something else
                if isinstance(k, Sym) and isinstance(k.name, tuple) and k.name[0] == 'char':
                    q, r = sorted((a.range(k), b.range(k)))
                    if 1 < r[0] - q[1] <= 256: ne[k] = ne.get(k, frozenset()) | frozenset(range(q[1] + 1, r[0]))
        bt = {k: v for k, v in a.bt.items() if b.bt.get(k) == v or decide(k, b) == v}
        ea, eb = a.mem.get(ERRNO), b.mem.get(ERRNO)
        if ea is not eb and ea is not None and eb is not None:
            x, y = ea.cells.get(0), eb.cells.get(0)
            if x and y and x[1] is not y[1] and x[1] != y[1]:
                d1 = frozenset((x[1],)) if isinstance(x[1], int) else a.dom(x[1]) if isinstance(x[1], Sym) else None
                d2 = frozenset((y[1],)) if isinstance(y[1], int) else b.dom(y[1]) if isinstance(y[1], Sym) else None
                for k, n in b.cnt.items():
                    if isinstance(n, int) and n > a.cnt.get(k, 0): a.cnt[k] = n
                n = a.fresh('errno?', 32, dom=sorted(d1 | d2) if d1 is not None and d2 is not None else range(0, 134))
                a.wobj(ERRNO).cells[0] = (4, n)
        for oid in a.mem:
            o, p = a.mem[oid], b.mem.get(oid)
            if o is p or p is None or oid == ERRNO: continue
            for k, c in list(o.cells.items()):
                c2 = p.cells.get(k)
                if c2 is not None and c[1] is not c2[1] and isinstance(c[1], Opaque) and c[1].kind == 'map':
                    for h in self.hooks:
                        j = getattr(h, 'join_opaque', None)
                        r = j(self, c[1], c2[1]) if j else None
                        if r is not None: a.wobj(oid).cells[k] = (c[0], r)
        a.rng, a.fin, a.ne, a.bt = rng, fin, ne, bt
        for k, n in b.cnt.items():
            if isinstance(n, int) and n > a.cnt.get(k, 0): a.cnt[k] = n
        w = a.cnt.get('W!', frozenset()) | b.cnt.get('W!', frozenset())
        if w: a.cnt['W!'] = w
        return a

    def insert(self, a, v, idx, ty):
        if not isinstance(a, Agg):
            n = len(ty.el) if ty.k == 'struct' else ty.n
            a = agg([UNDEF] * n)
        els = list(a.els)
        if len(idx) == 1: els[idx[0]] = v
        else: els[idx[0]] = self.insert(els[idx[0]], v, idx[1:], ty.el[idx[0]] if ty.k == 'struct' else ty.el)
        return agg(els)

    def fcmp(self, pred, a, b):
        if isinstance(a, Flt) and isinstance(b, Flt):
            x, y = a.v, b.v
            return int({'oeq': x == y, 'one': x != y, 'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y, 'ueq': x == y, 'une': x != y,
                        'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'ord': True, 'uno': False}.get(pred, False))
        if a is UNDEF or b is UNDEF: return UNDEF
        return term('fcmp', (pred, a, b), 1)

    def do_switch(self, i, bb, regs, st, push):
        v = self.opval(i.ty, i.a[0], regs, st)
        w = i.ty.n
        if isinstance(v, int):
            for cv, t in i.x[1]:
                if cv == v:
                    push(t, 0, bb, regs, st); return
            push(i.x[0], 0, bb, regs, st)
            return
        dflt = st.clone()
        dok = True
        for cv, t in i.x[1]:
            c = self.icmp('eq', v, cv, i.ty, st)
            s2 = st.clone()
            if assume(c, 1, s2) if c is not UNDEF else True: push(t, 0, bb, dict(regs), s2)
            if dok and c is not UNDEF: dok = assume(c, 0, dflt)
        if dok: push(i.x[0], 0, bb, dict(regs), dflt)

    # ---- garbage collection of facts and unreachable objects
    def vsum(self, v):
        """(symbols, offsets, places, objects) a value mentions"""
        if isinstance(v, Val):
            r = _VSUM.get(v)
            if r is not None: return r
            syms, offs, ptrs, objs = set(v.syms or ()), set(), set(), set()
            sub = ()
            if isinstance(v, P):
                offs.add(v.off); ptrs.add((v.obj, v.off)); objs.add(v.obj)
            elif isinstance(v, Agg): sub = v.els
            elif isinstance(v, Str): sub = v.p
            elif isinstance(v, Opaque): sub = v.d
            elif isinstance(v, Sym):
                if v.w == 64: objs.add(('deref', v))
                if isinstance(v.name, tuple):
                    if v.name[0] == 'rec': offs.add(v.name[3])
                    elif v.name[:2] == ('fd', 'handle') and isinstance(v.name[-1], tuple): offs.add(v.name[-1][-1])
            elif isinstance(v, Term): sub = v.args
            for x in sub:
                if isinstance(x, (Val, tuple)):
                    y = self.vsum(x)
                    syms |= y[0]; offs |= y[1]; ptrs |= y[2]; objs |= y[3]
                    if isinstance(x, tuple) and x[0] == 'NAME': offs.add(x[2])       # a path keeps what is known of its record
            r = _VSUM[v] = (frozenset(syms), frozenset(offs), frozenset(ptrs), frozenset(objs))
            return r
        if isinstance(v, (tuple, frozenset)):
            syms, offs, ptrs, objs = set(), set(), set(), set()
            for x in v:
                if isinstance(x, (Val, tuple, frozenset)):
                    y = self.vsum(x)
                    syms |= y[0]; offs |= y[1]; ptrs |= y[2]; objs |= y[3]
            return (syms, offs, ptrs, objs)
        return _NONE4

    def osum(self, ob):
        r = ob._r
        if r is None:
            syms, offs, ptrs, objs = set(), set(), set(), set()
            for k, c in ob.cells.items():
                if isinstance(k, Val): syms |= k.syms
                x = c[1]
                if isinstance(x, Val):
                    y = self.vsum(x)
                    syms |= y[0]; offs |= y[1]; ptrs |= y[2]; objs |= y[3]
            r = ob._r = (syms, offs, ptrs, objs)
        return r

    def reach(self, st, roots):
        """(objects, symbols) reachable from values"""
        syms, offs, ptrs, objs = set(), set(), set(), set()
        todo = [o for o in st.mem if o[0] in ('a', 'g', 'root', 'ext')]
        for v in st.mon.values():
            if isinstance(v, (int, Val)): offs.add(v)
            elif isinstance(v, tuple): offs.update(x for x in v if isinstance(x, (int, Val)))

        def add(y):
            if y is _NONE4: return
            syms.update(y[0]); offs.update(y[1]); ptrs.update(y[2])
            todo.extend(y[3])
        for v in st.mon.values(): add(self.vsum(v))
        for v in roots: add(self.vsum(v))
        for ks in st.keep: add(ks)
        kern = []
        while todo:
            oid = todo.pop()
            if oid in objs: continue
            objs.add(oid)
            ob = st.mem.get(oid)
            if ob is not None:
                add(self.osum(ob))
                if ob.kern: kern.append(oid)
        self.live_offs = offs
        # a buffer filled by the kernel is of interest while its length or a place inside it is known
        for oid in kern:
            ks = st.mem[oid].kern
            new = tuple(k for k in ks if not isinstance(k[4], Val) or k[4] in syms
                        or any(o == oid and (k[1] <= x < k[2] if isinstance(x, int) else True) for o, x in ptrs))
            if new != ks: st.wobj(oid).kern = new or None
            for k in new:
                if isinstance(k[4], Val): syms |= k[4].syms
        return objs, syms

    def gc(self, st, ret=None):
        objs, syms = self.reach(st, [ret] if isinstance(ret, Val) else [])
        for o in list(st.mem):
            if o not in objs and isinstance(o, tuple) and o[0] in ('h', 'deref', 'tmp', 'dirent'):
                if o[0] == 'h' and st.mem[o].default == 'heap!': continue
                del st.mem[o]
        self.drop_facts(st, syms)

    def drop_facts(self, st, syms):
        for d in (st.rng, st.fin, st.ne, st.bt):
            dead = [k for k in d if not (k.syms <= syms) and not all(x in syms or self.lives(x, syms) for x in k.syms)]
            if d is st.rng:
                # what it says of the one which is still of interest
                for k in dead:
                    if isinstance(k, Lin) and len(k.t) == 2:
                        for x, _ in k.t:
                            if isinstance(x, Sym) and x in syms and isinstance(x.name, tuple) and x.name[0] == 'W' and st.range(x)[1] >= 1 << 62: st.tighten(x)
            for k in dead: del d[k]

    def lives(self, x, syms):
        n = x.name
        if isinstance(n, tuple) and n[0] in FACTSYM:
            if n[0] == 'rec' and n[3] not in self.live_offs: return False
            return all(y in syms or self.lives(y, syms) for y in x.syms if y is not x)
        return False

    # ---- loops
    def array_init(self, f, bb, code, regs, st):
        """the loop the compiler makes to fill an array with one constant, done in one step; its exit block, or None when it is not of that form"""
        if [i.op for i in code if i.op not in ('store', 'gep')] != ['phi', 'icmp', 'condbr']: return None
        cur, cmp_, br = code[0].res, code[-2], code[-1]
        if cmp_.op != 'icmp' or cmp_.x != 'eq' or br.x[1] != bb or bb not in [b for _, b in code[0].x]: return None
        nxt = [v for v, b in code[0].x if b == bb][0]
        zero = True
        for i in code:
            if i.op == 'store':
                if i.a[0] not in (('i', 0), ('null',)): zero = False
                if i.a[0][0] not in ('i', 'null'): return None
        if cmp_.a[0] != nxt: return None
        a, e = regs.get(cur), self.opval(PTRTY, cmp_.a[1], regs, st)
        if not (isinstance(a, P) and isinstance(e, P) and a.obj == e.obj and isinstance(a.off, int) and isinstance(e.off, int) and a.off < e.off): return None
        a = ptr(a.obj, a.off)
        n = e.off - a.off
        self.hook('on_memset', st, a, n, code[1])
        self.memset(st, a, 0 if zero else UNDEF, n)
        regs[nxt[1]] = ptr(e.obj, e.off); regs[cmp_.res] = 1
        return br.x[0]

    def limits(self, f):
        """constants that f, or what it calls, compares something with: candidates for the bound of a counter"""
        r = getattr(f, '_limits', None)
        if r is None:
            r, seen, todo = set(), {f.name}, [(f, 0)]
            while todo:
                g, d = todo.pop()
                g.ensure()
                for b in g.blocks.values():
                    for i in b:
                        if i.op == 'icmp':
                            for a in i.a:
                                if a[0] == 'i' and 16 <= a[1] < 1 << 31: r |= {a[1], a[1] + 1}
                        elif i.op == 'call' and i.x[0][0] == 'g' and d < 3:
                            h = self.m.funcs.get(i.x[0][1])
                            if h is not None and not h.is_decl and h.name not in seen and self.is_repo(h):
                                seen.add(h.name); todo.append((h, d + 1))
            r = f._limits = sorted(r)
        return r

    def loop_head(self, f, bb, fid, templates, regs, st, phis):
        self.hook('at_loop_head', st, f, bb, regs)
        self.hook('settle', st)
        self.gc_regs(st, regs)
        if self.unroll:
            n = templates.get(('n', bb), 0)
            if n < self.unroll and self.decided_exit(f, bb, regs, st):
                templates['n', bb] = n + 1
                return regs, st
        ts = templates.setdefault(bb, [])
        # exact or instance match
        for t in ts:
            if self.matches(t, regs, st): return None
        best = None
        # a path which leaves the loop at once has nothing to do with one which goes round it
        lv = self.leaves_at_once(f, bb, regs, st) if ts and len(ts) < 6 else None
        for n, t in enumerate(ts):
            if lv is not None and lv != self.leaves_at_once(f, bb, t[0], t[1]): continue
            r = self.generalise(f, bb, fid, t, regs, st, phis, len(ts), bool(lv))
            if r is not None:
                best = (n, r); break
        self.loopstats += 1
        if best is None:
            ts.append((dict(regs), st.clone()))
            if len(ts) > 400: raise Budget('loop partitions in %s' % f.name)
            return regs, st
        n, (r2, s2) = best
        if r2 == ts[n][0] and s2.key() == ts[n][1].key(): return None      # nothing new: already covered
        ts[n] = (dict(r2), s2.clone())
        return r2, s2

    @staticmethod
    def str_prefix(a, v):
        """the pieces by which v is longer than a, or None"""
        n = len(a.p)
        if not n: return v.p
        if len(v.p) < n or v.p[:n-1] != a.p[:n-1]: return None
        x, y = a.p[-1], v.p[n-1]
        if x == y: return v.p[n:]
        if isinstance(x, bytes) and isinstance(y, bytes) and y.startswith(x): return (y[len(x):],) + v.p[n:]
        return None

    def decided_exit(self, f, bb, regs, st):
        """is the next branch of the loop's head already decided?"""
        return self.head_target(f, bb, regs, st, False) is not None

    def leaves_at_once(self, f, bb, regs, st):
        t = self.head_target(f, bb, regs, st)
        return t is not None and t not in f.body[bb]

    def head_target(self, f, bb, regs, st, on=True):
        """the block to which the next branch of the loop's head goes, where that is already decided"""
        regs, head = dict(regs), bb
        prev = None
        for _ in range(4):
            nxt = None
            for i in f.blocks[bb]:
                op = i.op
                try:
                    if op == 'phi':
                        if prev is not None: regs[i.res] = self.opval(i.ty, next(v for v, pb in i.x if pb == prev), regs, st)
                        continue
                    if op == 'load': regs[i.res] = self.load(st, self.opval(PTRTY, i.a[0], regs, st), i.ty, i)
                    elif op == 'gep':
                        base = self.opval(PTRTY, i.a[0], regs, st)
                        regs[i.res] = self.gep(i.ty, base, [(t, self.opval(t, o, regs, st)) for t, o in i.x], st)
                    elif op == 'icmp': regs[i.res] = self.icmp(i.x, self.opval(i.ty, i.a[0], regs, st), self.opval(i.ty, i.a[1], regs, st), i.ty, st)
                    elif op == 'bin': regs[i.res] = self.binop(i.x, self.opval(i.ty, i.a[0], regs, st), self.opval(i.ty, i.a[1], regs, st), i.ty, st)
                    elif op == 'cast': regs[i.res] = self.cast(i.x[0], self.opval(i.x[1], i.a[0], regs, st), i.x[1], i.ty, st)
                    elif op == 'select' and on:
                        x, y, z = (self.opval(BOOL if n == 0 else i.ty, o, regs, st) for n, o in enumerate(i.a))
                        d = decide(x, st)
                        if d is None and decide(y, st) == decide(z, st) is not None: d = 1
                        # `a && b`, `a || b`: decided when the one is
                        if d is None and i.ty.size == 1 and z == 0 and decide(y, st) == 0: regs[i.res] = 0
                        elif d is None and i.ty.size == 1 and y == 1 and decide(z, st) == 1: regs[i.res] = 1
                        elif d is None: return None
                        else: regs[i.res] = y if d else z
                    elif op == 'condbr':
                        d = decide(self.opval(i.ty, i.a[0], regs, st), st)
                        t = None if d is None else i.x[0] if d else i.x[1]
                        # `a && b`: the way on is through another test
                        if on and t is not None and t in f.body[head] and f.blocks[t][-1].op in ('br', 'condbr') and len(f.blocks[t]) <= 6 and t not in f.heads and all(x.op in ('icmp', 'phi', 'gep', 'load', 'cast', 'bin', 'br', 'condbr') for x in f.blocks[t]): nxt = t; break
                        return t
                    elif op == 'switch':
                        v = self.opval(i.ty, i.a[0], regs, st)
                        return dict(i.x[1]).get(v, i.x[0]) if isinstance(v, int) else None
                    elif op == 'br': nxt = i.x[0]
                    else: return None
                except (Fork, KeyError): return None
            if nxt is None or nxt in f.heads: return None
            prev = bb
            bb = nxt
        return None

    def gc_regs(self, st, regs):
        objs, syms = self.reach(st, list(regs.values()))
        for o in list(st.mem):
            if o not in objs and isinstance(o, tuple) and o[0] in ('h', 'deref', 'tmp', 'dirent'):
                del st.mem[o]
        self.drop_facts(st, syms)

    def cells_of(self, regs, st):
        out = {}
        for k, v in regs.items(): out[('r', k)] = (None, v)
        for o, ob in st.mem.items():
            for k, c in ob.cells.items(): out[('m', o, k)] = c
        for k, v in st.mon.items(): out[('mon', k)] = (None, v)
        return out

    def matches(self, t, regs, st):
        """is (regs, st) an instance of template t? (template loop symbols are universal)"""
        tr, ts = t
        if set(tr) != set(regs): return False
        for o in ts.mem:
            if o not in st.mem: return False
        for o in st.mem:
            if o not in ts.mem and o[0] in ('a', 'root'): return False
        if set(ts.mon) != set(st.mon): return False
        b = {}
        # registers first: they bind loop symbols
        tw = ts.cnt.get('W!', frozenset())
        defer = []
        def unify(a, v):
            if a is v or a == v: return True
            if isinstance(a, Sym) and a in tw:
                if a in b: return b[a] is v or b[a] == v
                if isinstance(v, (int, Sym, Term, Lin)):
                    b[a] = v
                    return True
                if a.w == 64 and isinstance(v, (P, Fn)) and a.name and a.name[0] == 'WP':
                    b[a] = v
                    return True
                return False
            if isinstance(a, P) and isinstance(v, P) and a.obj == v.obj:
                return unify(a.off, v.off)
            if isinstance(a, Val) and isinstance(v, (Val, int)) and a.syms & tw:
                if isinstance(a, Lin) and len(a.t) == 1 and a.t[0][1] > 1 and a.t[0][0] in tw and a.t[0][0] not in b:
                    q = divided(ladd(v, a.k, 64, 1, -1), a.t[0][1]) if isinstance(v, (int, Sym, Term, Lin)) else None
                    if q is None: return False
                    b[a.t[0][0]] = q
                    return True
                defer.append((a, v))
                return True
            if isinstance(a, tuple) and isinstance(v, tuple) and len(a) == len(v):
                return all(unify(x, y) for x, y in zip(a, v))
            return False
        for k in sorted(tr):
            if not unify(tr[k], regs[k]): return False
        for o in ts.mem:
            to, so = ts.mem[o], st.mem[o]
            if to is so: continue
            if to.default != so.default: return False
            if to.kern and to.kern != so.kern:
                ks = {k[:3]: k[3:] for k in so.kern or ()}
                for k in to.kern:
                    if k[:3] not in ks or not unify(k[3:], ks[k[:3]]): return False
            for k, c in to.cells.items():
                if not isinstance(k, int): continue
                c2 = so.cells.get(k)
                if c2 is None:
                    return False
                if c2[0] != c[0] or not unify(c[1], c2[1]): return False
        for k in ts.mon:
            if not unify(ts.mon[k], st.mon[k]): return False
        # symbolic cells of the template must be reproduced
        for o in ts.mem:
            to, so = ts.mem[o], st.mem[o]
            for k, c in to.cells.items():
                if isinstance(k, int): continue
                c2 = so.cells.get(subst(k, b))
                if c2 is None or not unify(c[1], c2[1]): return False
            if to.zr != so.zr or to.syw != so.syw:
                # the arrival may know more (zeroed), never less
                if not set(to.zr) <= set(so.zr): return False
                if not set(so.syw) <= set(to.syw): return False
        for a, v in defer:
            s = subst(a, b)
            if not (s is v or s == v): return False
        # template facts must hold in the arrival
        for k, (l, h) in ts.rng.items():
            s = subst(k, b)
            r = st.range(s) if isinstance(s, (int, Sym, Term, Lin)) else None
            if r is None or r[0] < l or r[1] > h: return False
        for k, d in ts.fin.items():
            s = subst(k, b)
            if isinstance(s, int):
                if s not in d: return False
            elif isinstance(s, Sym):
                d2 = st.dom(s)
                if d2 is None or not d2 <= d: return False
            else: return False
        for k, e in ts.ne.items():
            s = subst(k, b)
            if isinstance(s, int):
                if s in e: return False
                continue
            if not isinstance(s, (Sym, Term, Lin)): return False
            for x in e:
                if decide_icmp('ne', s, x, 64, st) != 1: return False
        for k, v in ts.bt.items():
            s = subst(k, b)
            if decide(s, st) != v: return False
        return True

    def generalise(self, f, bb, fid, t, regs, st, phis, nt, hull=False):
        """template covering both t and the arrival, or None when they must stay apart"""
        tr, ts = t
        if set(tr) != set(regs) or set(ts.mon) != set(st.mon): return None
        tw = set(ts.cnt.get('W!', frozenset()))
        neww = []
        defs = []        # (W, tv, av)
        pairs = {}
        bind = {}
        fail = []
        grown = []
        livew = set()
        tag0 = ('W', f.name[-40:], bb, fid[1])
        if self.unroll: tag0 = tag0[:3] + ((fid[1], self.sites.setdefault(tuple(id(c) for c in st.stack), len(self.sites))),)

        def joinval(a, v, key, w, small, stride=None):
            if a is v or a == v: return a
            if a is UNDEF or v is UNDEF: return UNDEF
            if isinstance(a, Sym) and a in tw:
                if a in bind:
                    if bind[a] is v or bind[a] == v: return a
                elif isinstance(v, (int, Sym, Term, Lin)):
                    bind[a] = v
                    defs.append((a, a, v))
                    return a
            if isinstance(a, Val) and a.syms & tw and isinstance(a, (Lin, P, Term)):
                s = subst(a, bind)
                if s is v or s == v: return a
            if (a, v) in pairs: return pairs[(a, v)]
            if isinstance(a, (int, Sym, Term, Lin)) and isinstance(v, (int, Sym, Term, Lin)):
                if isinstance(a, int) and isinstance(v, int):
                    if small or not (w is None or w >= 4): return fail
                    if abs(signed(a & ((1 << 64) - 1), 64) - signed(v & ((1 << 64) - 1), 64)) > 4096: return fail
                if small and (isinstance(a, int) or isinstance(v, int)): return fail
                for W, ta, va in defs:
                    d1, d2 = ladd(a, ta, 64, 1, -1), ladd(v, va, 64, 1, -1)
                    if d1 is not None and d2 is not None and (d1 is d2 or d1 == d2):
                        return ladd(W, d1, 64)
                    d1, d2 = ladd(a, ta, 64, 1, 1), ladd(v, va, 64, 1, 1)
                    if d1 is not None and d2 is not None and (d1 is d2 or d1 == d2):
                        return ladd(d1, W, 64, 1, -1)
                bits = (w or 8) * 8
                n = ts.cnt.get((tag0, key), 0) + 1
                # a name which nothing has yet, here or there
                if not livew:
                    for t in (st, ts):
                        livew.update(x.name for x in self.reach(t, list((regs if t is st else tr).values()))[1] if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name and x.name[0] == 'W')
                    livew.add(None)
                while ('W',) + tag0[1:] + (key, n) in livew: n += 1
                if isinstance(a, Lin) and len(a.t) == 1 and a.t[0][0] in tw and a.t[0][0] not in bind and a.t[0][1] > 1:
                    K, c = a.t[0]
                    d = ladd(v, a.k, 64, 1, -1)
                    q = divided(d, c)
                    if q is not None:
                        if q is K or q == K: bind[K] = q
                        else: bind[K] = q; defs.append((K, K, q))
                        return a
                if stride:
                    # a place which advances by the size of an element: so many elements
                    ka, kv = (x if isinstance(x, int) else x.k if isinstance(x, Lin) else 0 for x in (a, v))
                    c = kv - ka
                    for x in (a, v):
                        for _, y in x.t if isinstance(x, Lin) else ((x, 1),) if isinstance(x, Val) else (): c = gcd(c, y)
                    if c > 1:
                        xa, xv = divided(ladd(a, ka, 64, 1, -1), c), divided(ladd(v, ka, 64, 1, -1), c)
                        K = sym(('W',) + tag0[1:] + (key, n), 64, signed=True, lo=-(1 << 63), hi=(1 << 64) - 1)
                        ts.cnt[(tag0, key)] = n
                        neww.append((K, xa, xv))
                        defs.append((K, xa, xv)); pairs[(xa, xv)] = K; pairs[(a, v)] = W = lin({K: c}, ka, 64)
                        return W
                W = sym(('W',) + tag0[1:] + (key, n), bits, signed=True, lo=-(1 << 63), hi=(1 << 64) - 1)
                ts.cnt[(tag0, key)] = n
                neww.append((W, a, v))
                defs.append((W, a, v)); pairs[(a, v)] = W
                return W
            if isinstance(a, P) and isinstance(v, P) and a.obj == v.obj:
                o = joinval(a.off, v.off, key, 8, False, True)
                if o is fail: return fail
                return ptr(a.obj, o, a.reg if a.reg == v.reg else None)
            if isinstance(a, Str) and isinstance(v, Str):
                if self.unroll:
                    if len(a.p) == 1 and a.p[0][0] == 'acc' and a.p[0][:-1] == ('acc',) + tag0[1:] + (key,): acc = a.p[0]
                    else: acc = ('acc',) + tag0[1:] + (key, tuple(W for W, _, _ in defs))
                    base = self.accbase.get(acc)
                    if a.p == (acc,) and base is not None and self.str_prefix(a, v) is None and self.str_prefix(base, v) is not None:
                        grown.append((acc, base, v))
                        return a
                    if self.str_prefix(a, v) is not None:
                        if a.p != (acc,): self.accbase[acc] = a
                        grown.append((acc, a, v))
                        return mkstr([acc])
                r = mkstr([('joined',) + tag0[1:] + (key,)])
                return r
            if isinstance(a, Opaque) and isinstance(v, Opaque) and a.kind == v.kind:
                for h in self.hooks:
                    j = getattr(h, 'join_opaque', None)
                    if j:
                        r = j(self, a, v)
                        if r is not None: return r
                return fail
            if isinstance(a, Agg) and isinstance(v, Agg) and len(a.els) == len(v.els):
                els = []
                for n, (x, y) in enumerate(zip(a.els, v.els)):
                    e = joinval(x, y, (key, n), w, small)
                    if e is fail: return fail
                    els.append(e)
                return agg(els)
            if isinstance(a, tuple) and isinstance(v, tuple) and len(a) == len(v):
                els = []
                for n, (x, y) in enumerate(zip(a, v)):
                    e = joinval(x, y, (key, n), 8, isinstance(x, int))
                    if e is fail: return fail
                    els.append(e)
                return tuple(els)
            if isinstance(a, (Sym, Term)) and isinstance(v, (P, Sym)) or isinstance(v, (Sym, Term)) and isinstance(a, P):
                return fail
            return fail

        if hull:
            # what leaves the loop does not come back: no need to see far ahead
            n = ts.cnt.get(('hull', f.name, bb), 0)
            hull = n < 24
            ts.cnt['hull', f.name, bb] = n + 1
        s2 = ts.clone()
        s2.cnt = dict(ts.cnt)
        for k, n in st.cnt.items():
            if isinstance(n, int) and n > s2.cnt.get(k, 0): s2.cnt[k] = n
        r2 = {}
        for k in sorted(tr, key=lambda x: (x not in phis, not isinstance(tr[x], P), x)):
            w = self.regw(f, k)
            v = joinval(tr[k], regs[k], ('r', k), w, w is not None and w < 4)
            if v is fail: return None
            r2[k] = v
        for k in sorted(ts.mon):
            v = joinval(ts.mon[k], st.mon[k], ('mon', k), 8, isinstance(ts.mon[k], int))
            if v is fail: return None
            s2.mon[k] = v
        for o in list(set(ts.mem) | set(st.mem)):
            to, so = ts.mem.get(o), st.mem.get(o)
            if to is None or so is None:
                # object known on one side only
                s2.mem.pop(o, None)
                if isinstance(o, tuple) and o[0] in ('a', 'root'): return None
                continue
            if to is so: continue
            if to.default != so.default: return None
            if {k[:3] for k in to.kern or ()} != {k[:3] for k in so.kern or ()}: return None
            if to.kern != so.kern:
                ks = {k[:3]: k[3:] for k in so.kern or ()}
                kk = ()
                for k in to.kern or ():
                    if k[:3] in ks:
                        j = joinval(k[3:], ks[k[:3]], ('k', o) + k[:3], 8, False)
                        if j is fail: return None
                        kk += (k[:3] + j,)
                kk = kk or None
            else: kk = to.kern
            wo = s2.wobj(o)
            wo.kern = kk
            wo.syw = tuple(dict.fromkeys(to.syw + so.syw))
            wo.zr = tuple(z for z in to.zr if z in so.zr) if to.zr != so.zr else to.zr
            for k in sorted(set(to.cells) | set(so.cells), key=str):
                c, c2 = to.cells.get(k), so.cells.get(k)
                if c is None or c2 is None or c[0] != c2[0]:
                    # zero knowledge on the other side?
                    if c is None and isinstance(k, int) and c2 is not None and self._zeroed(to, k, self._csize(c2)) and isinstance(c2[1], (int, Sym, Lin, Term)): c = (c2[0], 0)
                    elif c2 is None and isinstance(k, int) and c is not None and self._zeroed(so, k, self._csize(c)) and isinstance(c[1], (int, Sym, Lin, Term)): c2 = (c[0], 0)
                    else:
                        wo.cells.pop(k, None)
                        if isinstance(k, int) and to.default == 'zero': wo.syw = tuple(dict.fromkeys(wo.syw + ((k, k + 8),)))
                        continue
                sz = c[0] if isinstance(c[0], int) else 8
                v = joinval(c[1], c2[1], ('m', o, k), sz, sz < 4)
                if v is fail:
                    if self.dead_ok(o): v = UNDEF
                    else: return None
                wo.cells[k] = (c[0], v)
        # facts: keep what both sides know, about symbols and the new loop symbols
        def limit(W, h):
            if not self.use_limits: return INF
            up = [x for x in self.limits(f) if x >= h]
            if not up: return INF
            k = ('limit', W, up[0])
            n = s2.cnt.get(k, 0)
            s2.cnt['limit', W] = 1
            if n >= 12: return INF
            s2.cnt[k] = n + 1
            return up[0]

        fresh = {W for W, a, v in neww}
        for k in [k for k in s2.cnt if k[0] == 'limit' and k[1] in fresh]: del s2.cnt[k]

        def facts_for(W, a, v):
            l1, h1 = ts.range(a); l2, h2 = st.range(v)
            if W in tw:
                o = ts.rng.get(W, (W.lo, W.hi))
                l1, h1 = o
            if hull: return min(l1, l2), max(h1, h2)
            lo = l1 if l2 >= l1 else -INF
            hi = h1 if h2 <= h1 else INF
            if hi == INF and lo >= 0 and isinstance(a, int) and isinstance(v, int) and v == a + 1: hi = limit(W, h2)
            if W.w == 32:
                # step by step: first the limits of the type
                if hi == INF and h2 <= (1 << 31) - 1: hi = (1 << 31) - 1
                elif hi == INF and h2 <= M32: hi = M32
                if lo == -INF and l2 >= 0: lo = 0
                elif lo == -INF and l2 >= -(1 << 31): lo = -(1 << 31)
            return lo, hi
        both = {W: (a, v) for W, a, v in neww}
        for W in bind: both[W] = (W, bind[W])
        mT = {W: a for W, a, v in neww}
        mA = dict(bind); mA.update({W: v for W, a, v in neww})
        rng = {}
        for k, (l, h) in ts.rng.items():
            s = subst(k, mA)
            if isinstance(s, (int, Sym, Term, Lin)):
                r = st.range(s)
                if k in ts.fin: l = max(l, ts.range(k)[0])
                lo = l if r[0] >= l else -INF
                hi = h if r[1] <= h else INF
                if hull: lo, hi = min(l, r[0]), max(h, r[1])
                if hi == INF and r[1] < INF and ('limit', k) in s2.cnt: hi = limit(k, r[1])
                if lo > -INF or hi < INF: rng[k] = (lo, hi)
        # what the template knows of a value which now has a loop symbol, and something else
        ren, mR = {}, dict(mA)
        for W, a, v in neww:
            if isinstance(a, Sym) and a not in tw and a not in ren: ren[a] = W; mR[a] = v
        if ren:
            for k, (l, h) in ts.rng.items():
                if not isinstance(k, Lin) or len(k.t) < 2 or not any(x in ren for x in k.syms): continue
                n, s = subst(k, ren), subst(k, mR)
                if not isinstance(n, Lin) or not isinstance(s, (int, Sym, Term, Lin)): continue
                r = st.range(s)
                base, flip = linkey(n)
                lo, hi = (l if r[0] >= l else -INF) - n.k, (h if r[1] <= h else INF) - n.k
                if flip: lo, hi = -hi, -lo
                if (lo > -INF or hi < INF) and base not in rng: rng[base] = (lo, hi)
        for W, a, v in neww:
            lo, hi = facts_for(W, a, v)
            rng[W] = (lo, hi)
        s2.rng = rng
        # a cursor over records and a counter of them: so many bytes for each
        for W, (a, v) in both.items():
            if isinstance(v, int) or not isinstance(v, (Sym, Lin)) or not isinstance(a, (int, Sym)) or W.w == 32: continue
            for N, x, y in neww:
                if N is W or not isinstance(x, int) or not (isinstance(y, int) and y == x + 1 or isinstance(y, Lin) and y.k == 1 and len(y.t) == 1 and y.t[0][1] == 1): continue
                for step in (24, 16, 1):
                    l1, d = ts.range(a)[0] - step * x, ladd(v, y, 64, 1, -step)
                    if d is not None and l1 > -INF and st.range(d)[0] >= l1:
                        k, flip = linkey(lin({W: 1, N: -step}, 0, 64))
                        rng[k] = (l1, INF) if not flip else (-INF, -l1)
        # what only grows, or only shrinks, stays on that side of where it began
        for W, a, v in neww:
            if not isinstance(a, (Sym, Lin)) or not isinstance(v, (Sym, Lin)) or vsyms(a) & tw: continue
            d = ladd(v, a, 64, 1, -1)
            if d is None: continue
            l, h = st.range(d) if not isinstance(d, int) else (d, d)
            lo, hi = 0 if l >= 0 else -INF, 0 if h <= 0 else INF
            n = ladd(W, a, 64, 1, -1)
            if (lo == 0) == (hi == 0) or not isinstance(n, Lin): continue
            base, flip = linkey(n)
            lo, hi = lo - n.k, hi - n.k
            if flip: lo, hi = -hi, -lo
            if base not in rng: rng[base] = (lo, hi)
        # what the arrival knows of the new value and something else (as: it lies before the end), if it was so in the template, too
        for W, a, v in neww + [(W, W, v) for W, v in bind.items() if v is not W]:
            if not isinstance(v, (Sym, Lin)) or not isinstance(a, (int, Sym, Lin)): continue
            for k, (l, h) in list(st.rng.items()):
                if not isinstance(k, Lin) or len(k.t) < 2 or not (k.syms & v.syms): continue
                for sg in (1, -1):
                    d = ladd(k, v, 64, 1, -sg)
                    if not isinstance(d, (Sym, Lin)) or len(d.t if isinstance(d, Lin) else (d,)) >= len(k.t): continue
                    x, y = ts.range(ladd(d, a, 64, 1, sg)), st.range(k)
                    lo, hi = min(x[0], y[0]), max(x[1], y[1])
                    n = ladd(d, W, 64, 1, sg)
                    if not isinstance(n, Lin) or len(n.t) < 2 or lo == -INF and hi == INF: continue
                    base, flip = linkey(n)
                    lo, hi = lo - n.k, hi - n.k
                    if flip: lo, hi = -hi, -lo
                    if base in rng: continue
                    if W in bind:
                        if base in ts.rng or s2.cnt.get(('rel', W, base)): continue
                        s2.cnt['rel', W, base] = 1
                    rng[base] = (lo, hi)
        # a counter which so far has not passed something that stays as it is (a count, an end)
        for W, a, v in neww:
            if not (isinstance(a, int) and isinstance(v, int) and v > a) or rng[W][1] <= v: continue
            for k in r2:
                if not isinstance(r2[k], Val) or W not in r2[k].syms: continue
                x, y, z = (o.off if isinstance(o, P) else o for o in (tr[k], regs[k], r2[k]))
                if not isinstance(x, int) or not isinstance(y, int) or not isinstance(z, (Sym, Lin)): continue
                for k2 in r2:
                    e = tr[k2]
                    if k2 == k or e is not regs[k2] and e != regs[k2] or isinstance(e, P) != isinstance(tr[k], P) or isinstance(e, P) and e.obj != tr[k].obj: continue
                    e = e.off if isinstance(e, P) else e
                    if not isinstance(e, (Sym, Lin)) or e.syms & {W}: continue
                    d1, d2, n = ladd(x, e, 64, 1, -1), ladd(y, e, 64, 1, -1), ladd(z, e, 64, 1, -1)
                    if not isinstance(n, Lin) or len(n.t) < 2: continue
                    h = max(ts.range(d1)[1], st.range(d2)[1])
                    if h > 0: continue
                    base, flip = linkey(n)
                    lo, hi = -INF, h - n.k
                    base, g = quot(base)
                    if not isinstance(base, Lin): continue
                    if flip: lo, hi = -(hi // g), INF
                    else: hi = hi // g
                    if base not in rng: rng[base] = (lo, hi)
        for W, a, v in neww:
            if rng[W][1] >= 1 << 62: s2.tighten(W)
        fin = {}
        for k, d in ts.fin.items():
            s = subst(k, mA)
            d2 = frozenset((s,)) if isinstance(s, int) else st.dom(s) if isinstance(s, Sym) else None
            if d2 is not None and len(d | d2) <= 16: fin[k] = d | d2
        for k, d in ts.fin.items():
            # no longer one of so many: but not below, or above, all of them
            if k in fin or k in rng or not isinstance(k, Sym) or k not in bind: continue
            r, q = ts.range(k), st.range(bind[k]) if isinstance(bind[k], Val) else (bind[k], bind[k])
            lo, hi = r[0] if q[0] >= r[0] else -INF, r[1] if q[1] <= r[1] else INF
            if hull: lo, hi = min(r[0], q[0]), max(r[1], q[1])
            if lo > -INF or hi < INF: rng[k] = (lo, hi)
        for W, a, v in neww:
            d1 = frozenset((a,)) if isinstance(a, int) else ts.dom(a) if isinstance(a, Sym) else None
            d2 = frozenset((v,)) if isinstance(v, int) else st.dom(v) if isinstance(v, Sym) else None
            if d1 is not None and d2 is not None and len(d1 | d2) <= 16: fin[W] = d1 | d2
        s2.fin = fin
        s2.ne = {}
        for k, e in ts.ne.items():
            s = subst(k, mA)
            if isinstance(s, int): e2 = frozenset(x for x in e if x != s)
            elif isinstance(s, (Sym, Term, Lin)): e2 = frozenset(x for x in e if decide_icmp('ne', s, x, 64, st) == 1)
            else: e2 = frozenset()
            if e2: s2.ne[k] = e2
        s2.bt = {k: v for k, v in ts.bt.items() if decide(subst(k, mA), st) == v}
        for W, a, v in neww:
            self.hook('on_widen', s2, W, a, v, ts, st)
        s2.cnt['W!'] = frozenset(tw) | frozenset(W for W, _, _ in neww)
        s2.trace = st.trace
        for acc, a, v in grown:
            self.trans.setdefault(acc, []).append((a, v, self.str_prefix(a, v), {W: x for W, (x, y) in both.items()}, mA, st.clone()))
        self.gc_regs(s2, r2)
        return r2, s2

    def dead_ok(self, o): return False

    def regw(self, f, r):
        ws = getattr(f, '_regw', None)
        if ws is None:
            ws = f._regw = {}
            for nm, ty, _a, _b in f.params: ws[nm] = ty.size
            for b in f.blocks.values():
                for i in b:
                    if i.res:
                        ws[i.res] = 1 if i.op in ('icmp', 'fcmp') else 8 if i.op in ('gep', 'alloca') else i.ty.size
        return ws.get(r)

    # ---- calls
    def call(self, f, i, regs, st):
        c, argl = i.x
        if c[0] == 'g':
            name = c[1]
            if name.startswith('llvm.'):
                return self.intrinsic(name, i, argl, regs, st)
            target = name
        elif c[0] == 'r':
            tv = regs.get(c[1], UNDEF)
            if isinstance(tv, Fn): target = tv.name
            else:
                args = [self.opval(t, o, regs, st) for t, o, _ in argl]
                return self.indirect(tv, args, i, regs, st)
        else:
            return [(st, UNDEF)]
        args = []
        for t, o, byval in argl:
            v = self.opval(t, o, regs, st)
            args.append(v)
        return self.call_named(target, args, i, regs, st)

    def call_named(self, target, args, i, regs, st):
        f = self.m.funcs.get(target)
        base = self.base(target) if f is not None else str(target)
        mdl = None
        if f is None or not self.is_repo(f):
            mdl = self.models.get(base)
            if mdl is None and f is None and isinstance(target, str):
                mdl = self.models.get(target)
        else:
            mdl = self.models.get('repo:' + base)
        if mdl is not None:
            call = Call(target, base, args, i, regs, f)
            r = mdl(self, st, call)
            if r is not NotImplemented:
                return r
        if f is not None and not f.is_decl:
            return self.enter(f, args, i, regs, st)
        return self.unknown(target, base, args, i, st)

    def enter(self, f, args, i, regs, st):
        # recursion?
        depth = 0
        for ci in st.stack:
            if ci is not None and getattr(ci, 'callee', None) == f.name: depth += 1
        n = sum(1 for x in st.cnt.get('calls', ()) if x == f.name)
        lim = 6 if self.unroll else 1
        if n:
            for h in self.hooks:
                m = getattr(h, 'recursion_limit', None)
                if m: lim = max(lim, m(self, f))
        if n >= lim:
            self.recursive.add(f.name)
            r = None
            for h in self.hooks:
                m = getattr(h, 'on_recursion', None)
                if m:
                    r = m(self, st, f, args, i)
                    if r is not None: return r
            f.ensure()
            return [(st, st.fresh(('rec', f.name), max(f.ret.size * 8, 8)) if f.ret.k != 'void' else None)]
        keep, stack, calls = st.keep, st.stack, st.cnt.get('calls', ())
        act = st.cnt.get(('act', f.name), 0)
        live = frozenset(v for v in regs.values() if isinstance(v, Val))
        st.keep = keep + (self.vsum(live),)
        st.stack = stack + (i,)
        if self.is_repo(f): st.cnt['calls'] = calls + (f.name,)
        elif n == 0 and f.name in self.recursive_std(f): st.cnt['calls'] = calls + (f.name,)
        args = self.byval_copy(f, args, st)
        self.hook('on_enter', st, f, args, i)
        outs = self.exec_function(f, args, st, i)
        res = []
        for s, v in outs:
            s.keep, s.stack = keep, stack
            s.cnt['calls'] = calls
            s.cnt[('act', f.name)] = act
            self.hook('on_leave', s, f, args, v, i)
            res.append((s, v))
        return res

    def recursive_std(self, f):
        """std functions that can call themselves (bounded descent)"""
        r = getattr(self, '_recstd', None)
        if r is None:
            r = self._recstd = set()
            g = {}
            for n, fu in self.m.funcs.items():
                if fu.is_decl: continue
                fu.ensure()
                g[n] = {x.x[0][1] for b in fu.blocks.values() for x in b if x.op == 'call' and x.x[0][0] == 'g'}
            # Tarjan-free: a function in a cycle through direct calls
            idx = {}
            low = {}
            st, on = [], set()
            c = [0]
            def strong(v):
                work = [(v, iter(g.get(v, ())))]
                idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
                while work:
                    x, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in g: continue
                        if w not in idx:
                            idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                            work.append((w, iter(g[w]))); adv = True
                            break
                        elif w in on: low[x] = min(low[x], idx[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == idx[x]:
                        comp = []
                        while True:
                            y = st.pop(); on.discard(y); comp.append(y)
                            if y == x: break
                        if len(comp) > 1 or x in g[x]: r.update(comp)
            for v in g:
                if v not in idx: strong(v)
        return r

    def byval_copy(self, f, args, st):
        f.ensure()
        out = list(args)
        for n, (nm, ty, sret, byval) in enumerate(f.params):
            if byval and n < len(args) and isinstance(args[n], P):
                oid = st.freshid('byval')
                oid = ('h', oid)
                st.new(oid, 'undef')
                st.mem[oid].size = None
                src = args[n]
                so = st.mem.get(src.obj)
                size = so.size if so is not None and so.size else 64
                self.memcpy(st, ptr(oid, 0), src, size - (src.off if isinstance(src.off, int) else 0))
                out[n] = ptr(oid, 0)
        return out

    def indirect(self, tv, args, i, regs, st):
        for h in self.hooks:
            m = getattr(h, 'on_indirect', None)
            if m:
                r = m(self, st, tv, args, i)
                if r is not None: return r
        return self.unknown('<indirect>', '<indirect>', args, i, st)

    def unknown(self, target, base, args, i, st):
        k = self.unmodelled
        if base not in k: k[base] = self.site(st, i)
        self.hook('on_unknown', st, base, args, i)
        st.ev('unmodelled call', base)
        for a in args:
            if isinstance(a, P) and isinstance(a.obj, tuple) and a.obj[0] not in ('g', 'root'):
                self.havoc(st, ptr(a.obj, a.off, a.reg))
        if i.ty.k == 'void': return [(st, None)]
        if i.ty.k in ('struct', 'arr'): return [(st, UNDEF)]
        return [(st, st.fresh(('unk', base), max(i.ty.size * 8, 8)))]

    def intrinsic(self, name, i, argl, regs, st):
        a = [self.opval(t, o, regs, st) if t.k != 'metadata' else None for t, o, _ in argl]
        if name.startswith('llvm.lifetime.end'):
            p = a[1]
            if isinstance(p, P) and isinstance(p.obj, tuple) and p.obj[0] == 'a' and p.off == 0 and p.obj in st.mem:
                o = st.mem[p.obj]
                st.new(p.obj, 'undef', o.size)
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.experimental') or name.startswith('llvm.stack') or name.startswith('llvm.invariant'):
            return None
        if name.startswith('llvm.threadlocal.address'):
            return [(st, a[0])]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.hook('on_memcpy', st, a[0], a[1], a[2], i)
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if name.startswith('llvm.memset'):
            self.hook('on_memset', st, a[0], a[2], i)
            self.memset(st, a[0], a[1], a[2])
            return None
        if name.startswith('llvm.expect'):
            if i.res: regs[i.res] = a[0]
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'): return []
        if name.startswith(('llvm.umin', 'llvm.smin', 'llvm.umax', 'llvm.smax')):
            c = self.icmp(('u' if name[5] == 'u' else 's') + ('lt' if 'min' in name else 'gt'), a[0], a[1], i.ty, st)
            d = decide(c, st)
            if d is None and c is not UNDEF: raise Fork([lambda s: assume(c, 1, s), lambda s: assume(c, 0, s)])
            return [(st, a[0] if d else a[1])]
        if name.startswith(('llvm.sadd.with', 'llvm.uadd.with', 'llvm.smul.with', 'llvm.umul.with', 'llvm.ssub.with', 'llvm.usub.with')):
            op = name[6:9]
            r = self.binop(op, a[0], a[1], i.ty.el[0], st)
            return [(st, agg([r, 0]))]
        if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop', 'llvm.fabs', 'llvm.bswap', 'llvm.abs', 'llvm.fshl', 'llvm.floor', 'llvm.is.constant', 'llvm.objectsize')):
            if name.startswith('llvm.is.constant'): return [(st, 0)]
            if name.startswith('llvm.objectsize'): return [(st, (1 << 64) - 1)]
            if isinstance(a[0], int) and name.startswith('llvm.ctlz'):
                w = i.ty.n
                return [(st, w - a[0].bit_length())]
            return [(st, term(name[5:9], tuple(x for x in a if x is not None), i.ty.size * 8))]
        if i.res:
            self.hook('on_unknown', st, name, a, i)
            return [(st, st.fresh(('unk', name), max(i.ty.size * 8, 8)))]
        return None


class Call:
    __slots__ = ('name', 'base', 'args', 'inst', 'regs', 'f')

    def __init__(self, name, base, args, inst, regs, f):
        self.name, self.base, self.args, self.inst, self.regs, self.f = name, base, args, inst, regs, f


def cut(r, lo, hi):
    a, b = r
    out = []
    if a < lo: out.append((a, min(b, lo)))
    if b > hi: out.append((max(a, hi), b))
    if b <= lo or a >= hi: return [r]
    return [x for x in out if x[0] < x[1]]


def parse_hexfloat(x):
    import struct
    if x.startswith('0xK'):
        v = int(x[3:], 16)
        sign = v >> 79; exp = (v >> 64) & 0x7fff; man = v & ((1 << 64) - 1)
        if exp == 0x7fff: return float('inf')
        return (-1) ** sign * man * 2.0 ** (exp - 16383 - 63)
    return struct.unpack('>d', int(x[2:], 16).to_bytes(8, 'big'))[0]


from llir import PTR as PTRTY, int_ty
BOOL = int_ty(1)
_TI = {1: int_ty(8), 2: int_ty(16), 4: int_ty(32), 8: int_ty(64)}
