"""Abstract evaluation of Python and TypeScript: both syntax trees are turned into one small tree (tuples), whose
meaning is given here over abstract values. Nothing of the analysed program is run. Where a condition is not known
both ways are taken: the paths are enumerated by evaluating anew with each sequence of choices."""
import ast, builtins, math


class Raise(Exception):
    def __init__(self, v): self.v = v


class Stop(Exception): pass           # budget
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass


class Abs:
    """a value which is not known: a term. truth: None, True or False; ty: its type as far as it is known"""
    __slots__ = ('t', 'ty', 'truth', 'attrs')
    def __init__(self, t, ty='any', truth=None): self.t = t; self.ty = ty; self.truth = truth; self.attrs = {}
    def __eq__(self, o): return isinstance(o, Abs) and self.t == o.t
    def __hash__(self): return hash(self.t)
    def __repr__(self): return '<%s>' % show(self.t)


def show(t):
    if isinstance(t, tuple): return ' '.join(show(x) for x in t)
    return str(t) if not isinstance(t, Abs) else show(t.t)


class Cat:
    """text made of parts: str, and ('val', Abs) for text of an unknown string, ('num', Abs) for the digits of a number, ('json', Abs) for JSON text of a value"""
    __slots__ = ('p',)
    def __init__(self, parts):
        q = []
        for x in parts:
            if isinstance(x, str):
                if not x: continue
                if q and isinstance(q[-1], str): q[-1] += x; continue
            q.append(x)
        self.p = tuple(q)
    def __eq__(self, o): return isinstance(o, Cat) and self.p == o.p
    def __hash__(self): return hash(self.p)
    def __repr__(self): return 'text%r' % (self.p,)


class Obj:
    def __init__(self, cls, d=None): self.cls = cls; self.d = d if d is not None else {}
    def __repr__(self): return '<%s object>' % (getattr(self.cls, 'name', self.cls))


class Cls:
    def __init__(self, name, bases, ns): self.name = name; self.bases = bases; self.ns = ns; self.members = None; self.fields = None
    def mro(self):
        out = [self]
        for b in self.bases:
            for x in (b.mro() if isinstance(b, Cls) else [b]):
                if x not in out: out.append(x)
        return out
    def find(self, n):
        for c in self.mro():
            if isinstance(c, Cls) and n in c.ns: return c.ns[n]
        return None
    def has_ext(self, *names): return any(isinstance(c, Ext) and c.name in names for c in self.mro())
    def __repr__(self): return '<class %s>' % self.name


class Fn:
    def __init__(self, name, params, body, scope, kind='py', this=None, defaults=None, expr=False):
        self.name = name; self.params = params; self.body = body; self.scope = scope; self.kind = kind; self.defaults = defaults or {}; self.expr = expr; self.this = this; self.deco = None; self.nonlocals = None
        self.d = {}
    def __repr__(self): return '<function %s>' % self.name


class Bound:
    def __init__(self, f, self_): self.f = f; self.self_ = self_
    def __repr__(self): return '<bound %r>' % self.f


class Ext:
    """something from outside: a dotted name, with attributes which have been set"""
    def __init__(self, name): self.name = name; self.d = {}
    def __repr__(self): return '<%s>' % self.name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Lst:
    def __init__(self, x, kind='list'): self.x = list(x); self.kind = kind
    def __repr__(self): return '%s%r' % (self.kind, self.x)


class Dct:
    def __init__(self, kind='dict'): self.k = []; self.v = []; self.kind = kind
    def find(self, k):
        for i, x in enumerate(self.k):
            if type(x) == type(k) and (x is k or (not isinstance(x, (Obj, Lst, Dct)) and x == k)): return i
        return -1
    def set(self, k, v):
        i = self.find(k)
        if i < 0: self.k.append(k); self.v.append(v)
        else: self.v[i] = v
    def get(self, k, d=None):
        i = self.find(k)
        return self.v[i] if i >= 0 else d
    def pop(self, k):
        i = self.find(k)
        if i >= 0: del self.k[i]; return self.v.pop(i)
    def __repr__(self): return '{%s}' % ', '.join('%r: %r' % x for x in zip(self.k, self.v))


class Undef:
    def __repr__(self): return 'undefined'
UNDEFINED = Undef()
MISSING = object()


class Scope:
    def __init__(self, parent, kind): self.v = {}; self.parent = parent; self.kind = kind; self.glob = set(); self.nonl = set()
    def lookup(self, n):
        s = self
        while s is not None:
            if n in s.v and not (s.kind == 'class' and s is not self): return s
            s = s.parent
        return None
    def module(self):
        s = self
        while s.parent is not None: s = s.parent
        return s


PRIM = (int, str, bytes, bool, float, type(None))


class Interp:
    """one path. choices: the decisions to take first"""
    def __init__(self, lang, choices=(), models=None, budget=200000):
        self.lang = lang; self.choices = list(choices); self.n = 0; self.trail = []
        self.models = models or {}
        self.log = []; self.unknown = []; self.memo = {}; self.budget = budget
        self.line = 0; self.depth = 0
        self.globals = Scope(None, 'module')
        self.counter = 0
        self.taint = 0

    # -- choices
    def choose(self, n, why=''):
        if self.n < len(self.choices): k = self.choices[self.n]
        else: k = 0
        self.trail.append((k, n, why)); self.n += 1
        return k

    def unk(self, what):
        self.unknown.append('%s (line %s)' % (what, self.line))
        self.counter += 1
        return Abs(('unknown', what, self.counter))

    def raise_(self, name, *args):
        raise Raise(Obj(Ext('builtins.' + name), {'args': Lst(args, 'tuple')}))

    # -- truth
    def truth(self, v):
        if isinstance(v, Abs):
            if v.truth is not None: return v.truth
            k = ('truth', v.t)
            if k not in self.memo: self.memo[k] = self.choose(2, 'is %r true' % (v,)) == 0
            return self.memo[k]
        if isinstance(v, Cat): return any(isinstance(x, str) or (isinstance(x[1], Abs) and x[1].truth) for x in v.p) or (self.choose(2) == 0 if v.p else False)
        if v is UNDEFINED: return False
        if isinstance(v, PRIM):
            if isinstance(v, float) and v != v: return False
            return bool(v)
        if isinstance(v, Lst): return bool(v.x) or self.lang == 'js'
        if isinstance(v, Dct): return bool(v.k) or self.lang == 'js'
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and self.lang == 'py':
            f = v.cls.find('__bool__')
            if f is not None: return self.truth(self.call(Bound(f, v), []))
        return True

    # -- equality
    def eq(self, a, b):
        if isinstance(a, (Abs, Cat)) or isinstance(b, (Abs, Cat)):
            if isinstance(a, Abs) and isinstance(b, Abs) and a.t == b.t: return True
            if isinstance(a, Cat) and a == b: return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Abs) and x.ty != 'any' and not isinstance(y, (Abs, Cat)):
                    if y is None or y is UNDEFINED: return False
                    if isinstance(y, (Obj, Cls, Fn, Bound, Ext, Lst, Dct)): return False
                    if isinstance(y, str) and x.ty not in ('str',) or isinstance(y, bytes) and x.ty != 'bytes' or isinstance(y, (int, float)) and x.ty not in ('int', 'bool', 'float'): return False
                    if y in ('', b'') and x.truth: return False
                    if y == 0 and x.truth: return False
            k = ('eq', repr(a), repr(b))
            if k not in self.memo: self.memo[k] = self.choose(2, '%r == %r' % (a, b)) == 1
            return self.memo[k]
        if isinstance(a, Lst) and isinstance(b, Lst): return a.kind == b.kind and len(a.x) == len(b.x) and all(self.eq(x, y) for x, y in zip(a.x, b.x)) if self.lang == 'py' else a is b
        if isinstance(a, Obj) and isinstance(a.cls, Cls) and self.lang == 'py':
            f = a.cls.find('__eq__')
            if f is not None: return self.truth(self.call(Bound(f, a), [b]))
            if a.cls.fields is not None and isinstance(b, Obj) and b.cls is a.cls: return all(self.eq(a.d.get(n), b.d.get(n)) for n, _ in a.cls.fields)
            if a.cls.members is not None and a.cls.has_ext('enum.IntEnum', 'enum.StrEnum', 'enum.IntFlag') and isinstance(b, PRIM): return a.d.get('value') == b
        if isinstance(b, Obj) and isinstance(a, PRIM) and self.lang == 'py' and isinstance(b.cls, Cls) and b.cls.members is not None: return self.eq(b, a) if b.cls.has_ext('enum.IntEnum', 'enum.StrEnum', 'enum.IntFlag') else False
        if isinstance(a, (Obj, Cls, Fn, Bound, Dct)) or isinstance(b, (Obj, Cls, Fn, Bound, Dct)): return a is b
        if self.lang == 'js' and type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))): return False
        return a == b

    def is_(self, a, b):
        if isinstance(a, Abs) and isinstance(b, Abs): return a.t == b.t
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Abs):
                if y is None or y is UNDEFINED:
                    if x.ty != 'any' or x.truth: return False
                    k = ('is', x.t, repr(y))
                    if k not in self.memo: self.memo[k] = self.choose(2, '%r is %r' % (x, y)) == 1
                    return self.memo[k]
                return self.eq(a, b)
        if isinstance(a, PRIM) and isinstance(b, PRIM): return type(a) == type(b) and a == b
        return a is b or (isinstance(a, Ext) and a == b)

    # -- text
    def text(self, v):
        """str(v) as a list of parts"""
        if isinstance(v, Cat): return list(v.p)
        if isinstance(v, str): return [v]
        if isinstance(v, Abs): return [('num' if v.ty == 'int' else 'val', v)]
        if v is UNDEFINED: return ['undefined']
        if isinstance(v, bool) or v is None:
            return [str(v)] if self.lang == 'py' else [{True: 'true', False: 'false', None: 'null'}[v]]
        if isinstance(v, (int, float, bytes)): return [str(v)]
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and self.lang == 'py':
            for n in ('__str__', '__repr__'):
                f = v.cls.find(n)
                if f is not None: return self.text(self.call(Bound(f, v), []))
            if v.cls.members is not None:
                if v.cls.has_ext('enum.IntEnum', 'enum.StrEnum') or (v.cls.has_ext('builtins.str') and False): return self.text(v.d.get('value'))
                return ['%s.%s' % (v.cls.name, v.d.get('name'))]
        return [('val', v if isinstance(v, Abs) else self.unk('text of %r' % (v,)))]

    def string(self, parts):
        c = Cat(parts)
        if all(isinstance(x, str) for x in c.p): return ''.join(c.p)
        if len(c.p) == 1 and c.p[0][0] == 'val' and c.p[0][1].ty in ('str', 'any'): return c.p[0][1]
        return c

    # -- attributes
    def getattr(self, o, n, default=MISSING):
        r = self._getattr(o, n)
        if r is not MISSING: return r
        if default is not MISSING: return default
        if self.lang == 'js':
            if o is None or o is UNDEFINED: raise Raise(Obj(Ext('TypeError'), {'args': Lst((n,))}))
            return UNDEFINED
        self.raise_('AttributeError', n)

    def _getattr(self, o, n):
        if isinstance(o, Obj):
            if n in o.d: return o.d[n]
            if n == '__class__': return o.cls
            if n == '__dict__' and self.lang == 'py':
                d = Dct()
                for k, v in o.d.items(): d.set(k, v)
                return d
            if isinstance(o.cls, Cls):
                v = o.cls.find(n)
                if v is not None:
                    if isinstance(v, Fn) and v.deco == 'property': return self.call(Bound(v, o), [])
                    if isinstance(v, Fn) and v.deco == 'staticmethod': return v
                    if isinstance(v, Fn) and v.deco == 'classmethod': return Bound(v, o.cls)
                    if isinstance(v, Fn): return Bound(v, o)
                    return v
                if o.cls.members is not None and n in ('name', '_name_'): return o.d.get('name')
                if o.cls.members is not None and n == '_value_': return o.d.get('value')
                g = o.cls.find('__getattr__')
                if g is not None: return self.call(Bound(g, o), [n])
            m = self.models.get('attr:' + (o.cls.name if isinstance(o.cls, (Cls, Ext)) else str(o.cls)))
            if m:
                r = m(self, o, n)
                if r is not MISSING: return r
            if ('method:' + n) in self.models and isinstance(o.cls, Ext): return Bound(Ext('method:' + n), o)
            return MISSING
        if isinstance(o, Cls):
            if n == '__name__': return o.name
            v = o.find(n)
            if v is not None:
                if isinstance(v, Fn) and v.deco == 'classmethod': return Bound(v, o)
                return v
            if o.members is not None and n == '__members__':
                d = Dct()
                for m in o.members: d.set(m.d['name'], m)
                return d
            return MISSING
        if isinstance(o, Ext):
            if n in o.d: return o.d[n]
            m = self.models.get('const:' + o.name + '.' + n, MISSING)
            if m is not MISSING: return m
            e = Ext(o.name + '.' + n)
            o.d[n] = e
            return e
        if isinstance(o, Fn):
            if n in o.d: return o.d[n]
            if n in ('call', 'apply', 'bind') and self.lang == 'js': return Bound(Ext('method:fn.' + n), o)
            if n in ('__name__', 'name'): return o.name
            return MISSING
        if isinstance(o, Abs):
            if n in o.attrs: return o.attrs[n]
            return Bound(Ext('method:' + n), o)
        if isinstance(o, (str, bytes, Cat, Lst, Dct, int, float)):
            if n == 'length' and self.lang == 'js': return len(o.x) if isinstance(o, Lst) else len(o) if isinstance(o, str) else self.unk('length')
            if isinstance(o, Dct) and o.kind == 'obj':
                i = o.find(n)
                if i >= 0: return o.v[i]
                if n in ('hasOwnProperty', 'toString'): return Bound(Ext('method:' + n), o)
                return MISSING
            return Bound(Ext('method:' + n), o)
        if isinstance(o, Bound):
            if n == '__self__': return o.self_
            if n in ('call', 'apply', 'bind'): return Bound(Ext('method:fn.' + n), o)
            if isinstance(o.f, Ext): return self._getattr(o.f, n)
        return MISSING

    def setattr(self, o, n, v):
        if isinstance(o, (Obj, Ext, Fn)):
            if isinstance(o, Obj) and isinstance(o.cls, Cls) and self.lang == 'py':
                f = o.cls.find(n)
                if isinstance(f, Fn) and f.deco == 'property':
                    s = f.d.get('setter')
                    if s is None: self.raise_('AttributeError', n)
                    self.call(Bound(s, o), [v]); return
            o.d[n] = v
        elif isinstance(o, Cls): o.ns[n] = v
        elif isinstance(o, Dct) and o.kind == 'obj': o.set(n, v)
        elif isinstance(o, Abs): o.attrs[n] = v
        elif o is None or o is UNDEFINED:
            if self.lang == 'js': raise Raise(Obj(Ext('TypeError')))
            self.raise_('AttributeError', n)
        else: self.unk('attribute %s set' % n)

    def getitem(self, o, k):
        if isinstance(o, Dct):
            if isinstance(k, Abs): return self.unk('item')
            i = o.find(k)
            if i < 0 and o.kind == 'obj' and isinstance(k, int): i = o.find(str(k))
            if i >= 0: return o.v[i]
            if self.lang == 'js': return UNDEFINED
            if isinstance(k, Obj) and isinstance(k.cls, Cls) and k.cls.has_ext('enum.IntEnum'):
                i = o.find(k.d.get('value'))
                if i >= 0: return o.v[i]
            self.raise_('KeyError', k)
        if isinstance(o, Lst):
            if isinstance(k, Obj) and isinstance(k.cls, Cls) and k.cls.has_ext('enum.IntEnum'): k = k.d.get('value')
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int):
                if self.lang == 'js': return o.x[k] if 0 <= k < len(o.x) else UNDEFINED
                if -len(o.x) <= k < len(o.x): return o.x[k]
                self.raise_('IndexError')
            if isinstance(k, slice): return Lst(o.x[k], o.kind)
            if self.lang == 'js' and isinstance(k, str): return self.getattr(o, k)
            return self.unk('item')
        if isinstance(o, (str, bytes)) and isinstance(k, (int, slice)):
            try: return o[k]
            except IndexError:
                if self.lang == 'js': return UNDEFINED
                self.raise_('IndexError')
        if isinstance(o, Cls):
            if o.members is not None and isinstance(k, str):
                for m in o.members:
                    if m.d['name'] == k: return m
                self.raise_('KeyError', k)
            if o.members is None: return o            # generic alias
        if isinstance(o, (Obj, Cls)) and self.lang == 'js' and isinstance(k, str): return self.getattr(o, k)
        if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.find('__getitem__') is not None: return self.call(Bound(o.cls.find('__getitem__'), o), [k])
        if isinstance(o, Ext): return Ext(o.name + '[]')
        if isinstance(o, (Abs, Cat)):
            if isinstance(k, slice): k = ('slice', k.start, k.stop, k.step)
            return Abs(('item', o.t if isinstance(o, Abs) else o, k if isinstance(k, (int, str, tuple)) else repr(k)), o.ty if isinstance(o, Abs) and o.ty in ('str', 'bytes') else 'any')
        if self.lang == 'js':
            if o is None or o is UNDEFINED: raise Raise(Obj(Ext('TypeError')))
            return self.unk('item')
        self.raise_('TypeError', 'not subscriptable')

    def setitem(self, o, k, v):
        if isinstance(o, Dct): o.set(k, v)
        elif isinstance(o, Lst) and isinstance(k, int) and -len(o.x) <= k <= len(o.x):
            if k == len(o.x): o.x.append(v)
            else: o.x[k] = v
        elif isinstance(o, (Obj,)) and isinstance(k, str): o.d[k] = v
        else: self.unk('item set')

    def iterate(self, o):
        if isinstance(o, Lst): return list(o.x)
        if isinstance(o, Dct): return list(o.k) if o.kind == 'dict' else self.unk('iteration over an object') and []
        if isinstance(o, (str, bytes)): return list(o)
        if isinstance(o, Cls) and o.members is not None: return list(o.members)
        if isinstance(o, Obj) and o.d.get('__iter_list__') is not None: return list(o.d['__iter_list__'].x)
        self.unk('iteration over %r' % (o,))
        return []

    # -- calls
    def call(self, f, args, kw=None, this=None):
        kw = kw or {}
        self.budget -= 1
        if self.budget < 0: raise Stop('too many steps')
        if isinstance(f, Bound):
            if isinstance(f.f, Ext): return self.ext(f.f, [f.self_] + list(args), kw)
            if f.f.kind == 'js': return self.invoke(f.f, args, kw, f.self_)
            return self.invoke(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Fn): return self.invoke(f, args, kw, this)
        if isinstance(f, Cls): return self.construct(f, args, kw)
        if isinstance(f, Ext): return self.ext(f, list(args), kw)
        if isinstance(f, Obj):
            if isinstance(f.cls, Cls):
                c = f.cls.find('__call__')
                if c is not None: return self.call(Bound(c, f), args, kw)
            m = self.models.get('call:' + (f.cls.name if isinstance(f.cls, (Ext, Cls)) else str(f.cls)))
            if m: return m(self, f, args, kw)
        if isinstance(f, Abs):
            m = self.models.get('callabs')
            if m: return m(self, f, args, kw)
        if (f is None or f is UNDEFINED or isinstance(f, PRIM)) and self.lang == 'js': raise Raise(Obj(Ext('TypeError')))
        if isinstance(f, PRIM) and self.lang == 'py': self.raise_('TypeError', 'not callable')
        return self.unk('call of %r' % (f,))

    def invoke(self, f, args, kw, this=None):
        self.depth += 1
        if self.depth > 60: raise Stop('calls nested too deeply')
        try:
            s = Scope(f.scope, 'func')
            s.v['arguments'] = Lst(args) if f.kind == 'js' else None
            if f.kind != 'js': del s.v['arguments']
            if f.kind == 'js' and not f.expr_arrow: s.v['this'] = this if this is not None else UNDEFINED
            args = list(args)
            kw = dict(kw)
            for p in f.params:
                k, n = p[0], p[1]
                if k == 'star': s.v[n] = Lst(args, 'tuple' if self.lang == 'py' else 'list'); args = []
                elif k == 'kwstar':
                    d = Dct()
                    for a, b in kw.items(): d.set(a, b)
                    s.v[n] = d; kw = {}
                elif k == 'pat':
                    v = args.pop(0) if args else UNDEFINED
                    self.assign(n, v, s, True)
                else:
                    if args and k != 'kwonly': s.v[n] = args.pop(0)
                    elif n in kw: s.v[n] = kw.pop(n)
                    elif n in f.defaults: s.v[n] = f.defaults[n]
                    elif len(p) > 2 and p[2] is not None and self.lang == 'js': s.v[n] = self.ev(p[2], s)
                    elif self.lang == 'js': s.v[n] = UNDEFINED
                    else: self.raise_('TypeError', 'missing argument ' + n)
                    if self.lang == 'js' and s.v[n] is UNDEFINED and len(p) > 2 and p[2] is not None: s.v[n] = self.ev(p[2], s)
            if self.lang == 'py' and (args or kw): self.raise_('TypeError', 'too many arguments for ' + str(f.name))
            if f.expr: return self.ev(f.body, s)
            if f.d.get('gen'): return self.unk('generator')
            try: self.block(f.body, s)
            except Ret as r: return r.v
            return None if self.lang == 'py' else UNDEFINED
        finally: self.depth -= 1

    def construct(self, c, args, kw):
        if c.members is not None:
            if len(args) == 1:
                for m in c.members:
                    if not isinstance(args[0], Abs) and self.eq(m.d['value'], args[0]) or m is args[0]: return m
                if isinstance(args[0], Abs): return Abs(('enum', c.name, args[0].t))
                f = c.find('_missing_')
                if f is not None:
                    v = self.call(Bound(f, c), [args[0]])
                    if v is not None: return v
            self.raise_('ValueError', 'not a member')
        o = Obj(c)
        m = self.models.get('new:' + c.name)
        for b in c.mro():
            if isinstance(b, Ext) and ('new:' + b.name) in self.models: m = self.models['new:' + b.name]
        if m:
            r = m(self, c, o, args, kw)
            if r is not None: return r
        f = c.find('__init__' if self.lang == 'py' else 'constructor')
        if f is not None:
            self.constructing = o
            self.call(Bound(f, o), args, kw)
        elif c.fields is not None:
            args = list(args); kw = dict(kw)
            for n, d in c.fields:
                if args: o.d[n] = args.pop(0)
                elif n in kw: o.d[n] = kw.pop(n)
                elif d is not MISSING: o.d[n] = d
                else: self.raise_('TypeError', 'missing argument ' + n)
            if args or kw: self.raise_('TypeError', 'too many arguments')
            p = c.find('__post_init__')
            if p is not None: self.call(Bound(p, o), [])
        return o

    def ext(self, f, args, kw):
        n = f.name
        m = self.models.get(n)
        if m is not None:
            r = m(self, args, kw)
            if r is not MISSING: return r
        if n.startswith('method:'):
            r = self.method(n[7:], args[0], args[1:], kw)
            if r is not MISSING: return r
        r = self.builtin(n, args, kw)
        if r is not MISSING: return r
        m = self.models.get('call')
        if m is not None:
            r = m(self, f, args, kw)
            if r is not MISSING: return r
        return self.unk('call of %s' % n)

    def method(self, n, o, args, kw):
        if isinstance(o, (str, bytes)) and all(isinstance(a, PRIM) for a in args) and not isinstance(o, bool):
            py = {'toLowerCase': 'lower', 'toUpperCase': 'upper', 'trim': 'strip', 'startsWith': 'startswith', 'endsWith': 'endswith'}.get(n, n)
            if n == 'charAt': return o[args[0]:args[0] + 1]
            if n == 'includes': return args[0] in o
            if n == 'slice' or n == 'substring': return o[slice(*args)]
            if hasattr(o, py) and not py.startswith('_'):
                try: r = getattr(o, py)(*args, **kw)
                except Exception as e: self.raise_(type(e).__name__)
                if isinstance(r, (list, tuple)): r = Lst(r, 'list' if isinstance(r, list) else 'tuple')
                return r
            return MISSING
        if isinstance(o, str) and n == 'join':
            parts = []
            for i, x in enumerate(self.iterate(args[0])):
                if i: parts.append(o)
                parts += self.text(x)
            return self.string(parts)
        if isinstance(o, str) and n == 'replace' and self.lang == 'js' and len(args) == 2:
            a, f = args
            if isinstance(a, Obj) and isinstance(a.cls, Ext) and a.cls.name == 'RegExp' and isinstance(f, (Fn, str)):
                import re
                out, pos = [], 0
                try: rx = re.compile(a.d['source'])
                except re.error: return MISSING
                for m in rx.finditer(o):
                    out.append(o[pos:m.start()]); pos = m.end()
                    if isinstance(f, str): return MISSING
                    out += self.text(self.call(f, [m.group(0)] + [g if g is not None else UNDEFINED for g in m.groups()]))
                    if 'g' not in a.d['flags']: break
                return self.string(out + [o[pos:]])
            return MISSING
        if isinstance(o, str) and n == 'format':
            import string
            out = []; i = 0
            for lit, fld, spec, conv in string.Formatter().parse(o):
                out.append(lit)
                if fld is None: continue
                if spec or conv: return MISSING
                if fld == '': v = args[i]; i += 1
                elif fld.isdigit(): v = args[int(fld)]
                elif fld in kw: v = kw[fld]
                else: return MISSING
                out += self.text(v)
            return self.string(out)
        if isinstance(o, Lst):
            L = o.x
            if n in ('append', 'push'): L.extend(args[:1]); return None
            if n == 'pop':
                if not L: return UNDEFINED if self.lang == 'js' else self.raise_('IndexError')
                return L.pop(*args)
            if n == 'map': return Lst([self.call(args[0], [x, i]) for i, x in enumerate(L)])
            if n == 'filter': return Lst([x for i, x in enumerate(L) if self.truth(self.call(args[0], [x, i]))])
            if n == 'find':
                for i, x in enumerate(L):
                    if self.truth(self.call(args[0], [x, i])): return x
                return UNDEFINED
            if n == 'forEach':
                for i, x in enumerate(L): self.call(args[0], [x, i])
                return UNDEFINED
            if n in ('index', 'indexOf'):
                for i, x in enumerate(L):
                    if self.eq(x, args[0]): return i
                return -1 if n == 'indexOf' else self.raise_('ValueError')
            if n == 'includes': return any(self.eq(x, args[0]) for x in L)
            if n == 'at': return L[args[0]] if -len(L) <= args[0] < len(L) else UNDEFINED
            if n == 'extend': L.extend(self.iterate(args[0])); return None
            if n == 'clear': L.clear(); return None
            if n in ('copy', 'slice') and not args: return Lst(L, o.kind)
            if n == 'join': return self.method('join', args[0] if args else ',', [o], {})
            if n == 'concat': return Lst(L + [y for a in args for y in (a.x if isinstance(a, Lst) else [a])])
            if n == 'add' : 
                if not any(self.eq(x, args[0]) for x in L): L.append(args[0])
                return None
            if n == 'discard' or n == 'remove': o.x = [x for x in L if not self.eq(x, args[0])]; return None
            if n == 'reverse': L.reverse(); return o
            if n == 'entries': return Lst([Lst([i, x]) for i, x in enumerate(L)])
        if isinstance(o, Dct):
            if n == 'get':
                if isinstance(args[0], Abs): return MISSING
                d = args[1] if len(args) > 1 else (UNDEFINED if self.lang == 'js' else None)
                i = o.find(args[0])
                return o.v[i] if i >= 0 else d
            if n == 'set': o.set(*args); return o
            if n == 'has' or n == 'hasOwnProperty': return o.find(args[0]) >= 0
            if n == 'delete': o.pop(args[0]); return True
            if n == 'items' or n == 'entries': return Lst([Lst([a, b], 'tuple') for a, b in zip(o.k, o.v)])
            if n == 'keys': return Lst(o.k)
            if n == 'values': return Lst(o.v)
            if n == 'update' and args and isinstance(args[0], Dct):
                for a, b in zip(args[0].k, args[0].v): o.set(a, b)
                return None
            if n == 'setdefault':
                i = o.find(args[0])
                if i >= 0: return o.v[i]
                o.set(args[0], args[1] if len(args) > 1 else None); return args[1] if len(args) > 1 else None
            if n == 'pop':
                i = o.find(args[0])
                if i >= 0: return o.pop(args[0])
                if len(args) > 1: return args[1]
                self.raise_('KeyError')
            if n == 'clear': o.k.clear(); o.v.clear(); return None
            if n == 'copy':
                d = Dct(o.kind); d.k = list(o.k); d.v = list(o.v); return d
        if n == 'fn.call': return self.call(o, args[1:], {}, args[0] if args else None)
        if n == 'fn.apply': return self.call(o, self.iterate(args[1]) if len(args) > 1 else [], {}, args[0])
        if n == 'fn.bind': return o if len(args) <= 1 and not isinstance(o, Fn) else MISSING if len(args) > 1 else (Bound(o, args[0]) if args else o)
        if isinstance(o, (int, float)) and n in ('toString', 'valueOf') and not args: return self.string(self.text(o)) if n == 'toString' else o
        if isinstance(o, Abs):
            if n in ('encode', 'decode'):
                enc = args[0] if args else kw.get('encoding', 'utf-8')
                err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
                return self.recode(o, n, enc, err)
            if n == 'tobytes': return o
            if n == 'toString' and not args: return o if o.ty == 'str' else self.string(self.text(o))
            if all(isinstance(a, PRIM) or isinstance(a, Abs) for a in args):
                ty = {'startswith': 'bool', 'endswith': 'bool', 'find': 'int', 'index': 'int', 'count': 'int', 'startsWith': 'bool', 'endsWith': 'bool', 'includes': 'bool'}.get(n)
                if ty is None and o.ty in ('str', 'bytes') and n in ('strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'title', 'capitalize', 'expandtabs', 'casefold', 'trim', 'toLowerCase', 'toUpperCase',
                                                                    'slice', 'substring', 'normalize', 'removeprefix', 'removesuffix', 'replaceAll'): ty = o.ty
                if ty: return Abs((n, o.t) + tuple(a.t if isinstance(a, Abs) else a for a in args), ty)
        return MISSING

    def recode(self, o, n, enc, err):
        want = 'str' if n == 'encode' else 'bytes'
        if o.ty not in (want, 'any'): self.raise_('AttributeError', n)
        enc = enc.lower().replace('_', '-') if isinstance(enc, str) else enc
        safe = enc in ('latin-1', 'iso-8859-1', 'latin1', 'iso8859-1') if n == 'decode' else False
        if isinstance(err, str) and err not in ('strict',):
            safe = safe or (err in ('surrogateescape', 'replace', 'ignore', 'backslashreplace', 'xmlcharrefreplace', 'surrogatepass', 'namereplace') and not (n == 'decode' and err == 'surrogatepass'))
        if not safe and not o.t[:1] == ('ascii',):
            k = ('recode', n, o.t, enc, err)
            if k not in self.memo: self.memo[k] = self.choose(2, '%s of %r fails' % (n, o))
            if self.memo[k] == 1: self.raise_('UnicodeDecodeError' if n == 'decode' else 'UnicodeEncodeError')
        if err == 'ignore': return Abs((n, o.t, enc, err), 'bytes' if n == 'encode' else 'str')
        return Abs((n, o.t, enc, err), 'bytes' if n == 'encode' else 'str', o.truth)

    def isinstance_(self, v, c):
        if isinstance(c, Lst): return any(self.isinstance_(v, x) for x in c.x)
        if isinstance(c, Cls):
            return isinstance(v, Obj) and isinstance(v.cls, Cls) and c in v.cls.mro()
        if isinstance(c, Ext):
            n = c.name.split('.')[-1]
            if isinstance(v, Cat): return n == 'str'
            if isinstance(v, Abs):
                if v.ty == 'any':
                    k = ('inst', v.t, n)
                    if k not in self.memo: self.memo[k] = self.choose(2, 'is %r a %s' % (v, n)) == 0
                    return self.memo[k]
                return n == v.ty or (v.ty == 'bool' and n == 'int') or n == 'object'
            if n in ('str', 'bytes', 'int', 'float', 'bool'): return isinstance(v, getattr(builtins, n))
            if n in ('NoneType',): return v is None
            if n in ('list', 'tuple', 'set'): return isinstance(v, Lst) and v.kind == n
            if n == 'dict': return isinstance(v, Dct)
            if n == 'object': return True
            if n in ('memoryview', 'bytearray'): return False
            if isinstance(v, Obj): return self.exc_is(v.cls, c) or (isinstance(v.cls, Cls) and c in v.cls.mro())
            return False
        return self.truth(self.unk('isinstance'))

    def exc_is(self, cls, c):
        if isinstance(c, Lst): return any(self.exc_is(cls, x) for x in c.x)
        ms = cls.mro() if isinstance(cls, Cls) else [cls]
        if isinstance(c, Cls): return c in ms
        if not isinstance(c, Ext): return False
        b = getattr(builtins, c.name.split('.')[-1], None)
        for m in ms:
            if isinstance(m, Ext):
                if m.name == c.name: return True
                a = getattr(builtins, m.name.split('.')[-1], None)
                if isinstance(a, type) and isinstance(b, type) and issubclass(a, b): return True
        return False

    def builtin(self, n, args, kw):
        a = args
        if self.lang == 'py':
            if n.startswith('builtins.'): n = n[9:]
            elif n in ('os.fsdecode', 'os.fsencode', 'os.fspath'):
                v = a[0]
                if n == 'os.fspath': return v
                w, m = ('bytes', 'decode') if n == 'os.fsdecode' else ('str', 'encode')
                if isinstance(v, Abs) and v.ty == w: return self.recode(v, m, 'utf-8', 'surrogateescape')
                return v
            elif n in ('functools.wraps', 'functools.lru_cache', 'functools.cache', 'typing.cast', 'contextlib.suppress', 'typing.TypeVar', 'functools.partial'):
                if n == 'typing.cast': return a[1]
                if n == 'functools.partial': return MISSING if kw else Obj(Ext('partial'), {'f': a[0], 'a': Lst(a[1:])})
                return MISSING
            elif n in ('threading.Lock', 'threading.RLock'): return Obj(Ext('lock'))
            elif n in ('method:acquire', 'method:release') and isinstance(a[0], Obj): return True
            elif n == 'method:__enter__' and isinstance(a[0], Obj): return a[0]
            else: return MISSING
            b = getattr(builtins, n, None)
            if n == 'isinstance': return self.isinstance_(a[0], a[1])
            if n == 'getattr': return self.getattr(a[0], a[1], *( [a[2]] if len(a) > 2 else []))
            if n == 'hasattr':
                return self._getattr(a[0], a[1]) is not MISSING if not isinstance(a[0], (Ext, Abs)) else True
            if n == 'setattr': self.setattr(*a); return None
            if n == 'callable': return isinstance(a[0], (Fn, Bound, Cls, Ext))
            if n == 'str':
                if not a: return ''
                if len(a) > 1 and isinstance(a[0], Abs): return self.recode(a[0], 'decode', a[1], a[2] if len(a) > 2 else kw.get('errors', 'strict'))
                if isinstance(a[0], Abs) and a[0].ty == 'bytes': return Abs(('repr', a[0].t), 'str')
                return self.string(self.text(a[0]))
            if n == 'repr':
                if isinstance(a[0], (int, str, bytes, float, type(None))): return repr(a[0])
                if isinstance(a[0], Abs): return self.string(self.text(a[0])) if a[0].ty == 'int' else Abs(('repr', a[0].t), 'str')
                return MISSING
            if n in ('int', 'bool', 'float', 'bytes', 'abs', 'ord', 'chr', 'hex', 'min', 'max', 'round', 'ascii') and all(isinstance(x, PRIM) for x in a):
                try: return b(*a, **kw)
                except Exception as e: self.raise_(type(e).__name__)
            if n == 'bool' and a: return self.truth(a[0])
            if n == 'int' and len(a) == 1 and isinstance(a[0], Abs): return a[0] if a[0].ty == 'int' else Abs(('int', a[0].t), 'int')
            if n == 'int' and len(a) == 1 and isinstance(a[0], Obj) and isinstance(a[0].cls, Cls) and a[0].cls.members is not None: return a[0].d['value']
            if n == 'bytes' and len(a) >= 1 and isinstance(a[0], Abs):
                if a[0].ty == 'bytes': return a[0]
                if len(a) > 1: return self.recode(a[0], 'encode', a[1], a[2] if len(a) > 2 else kw.get('errors', 'strict'))
            if n == 'len':
                if isinstance(a[0], Lst): return len(a[0].x)
                if isinstance(a[0], Dct): return len(a[0].k)
                if isinstance(a[0], (str, bytes)): return len(a[0])
                if isinstance(a[0], Cls) and a[0].members is not None: return len(a[0].members)
                if isinstance(a[0], Abs): return Abs(('len', a[0].t), 'int', a[0].truth)
            if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed'):
                x = self.iterate(a[0]) if a else []
                if n == 'sorted':
                    if kw or not all(isinstance(y, (int, str)) for y in x): return MISSING
                    x = sorted(x)
                if n == 'reversed': x = x[::-1]
                return Lst(x, {'tuple': 'tuple', 'set': 'set', 'frozenset': 'set'}.get(n, 'list'))
            if n == 'dict':
                d = Dct()
                if a:
                    if isinstance(a[0], Dct): d.k, d.v = list(a[0].k), list(a[0].v)
                    else:
                        for x in self.iterate(a[0]):
                            y = self.iterate(x)
                            d.set(y[0], y[1])
                for k, v in kw.items(): d.set(k, v)
                return d
            if n == 'enumerate': return Lst([Lst([i + (a[1] if len(a) > 1 else kw.get('start', 0)), x], 'tuple') for i, x in enumerate(self.iterate(a[0]))])
            if n == 'zip': return Lst([Lst(x, 'tuple') for x in zip(*[self.iterate(x) for x in a])])
            if n == 'range' and all(isinstance(x, int) for x in a): return Lst(list(range(*a)))
            if n == 'map': return Lst([self.call(a[0], list(x)) for x in zip(*[self.iterate(y) for y in a[1:]])])
            if n == 'any': return any(self.truth(x) for x in self.iterate(a[0]))
            if n == 'all': return all(self.truth(x) for x in self.iterate(a[0]))
            if n == 'next' and isinstance(a[0], Lst):
                if a[0].x: return a[0].x.pop(0)
                if len(a) > 1: return a[1]
                self.raise_('StopIteration')
            if n == 'iter' and len(a) == 1: return a[0]
            if n == 'id': return id(a[0]) if not isinstance(a[0], Abs) else self.unk('id')
            if n == 'type' and len(a) == 1:
                if isinstance(a[0], Obj): return a[0].cls
                if isinstance(a[0], PRIM): return Ext('builtins.' + type(a[0]).__name__)
                if isinstance(a[0], Abs) and a[0].ty in ('str', 'bytes', 'int', 'bool'): return Ext('builtins.' + a[0].ty)
            if n == 'print': return None
            if n == 'super':
                o = getattr(self, 'cur_self', None)
                return Obj(Ext('super'))
            if n in ('property', 'staticmethod', 'classmethod') and isinstance(a[0], Fn): a[0].deco = n; return a[0]
            if n == 'object': return Obj(Ext('object'))
            if n == 'memoryview': return a[0]
            if isinstance(b, type) and issubclass(b, BaseException): return Obj(Ext('builtins.' + n), {'args': Lst(a, 'tuple')})
            return MISSING
        # JavaScript
        if n == 'Object.keys' or n == 'Object.values' or n == 'Object.entries':
            o = a[0]
            if isinstance(o, Dct) and o.kind == 'obj': ks, vs = list(o.k), list(o.v)
            else: return MISSING
            # integer keys come first, in ascending order
            idx = [i for i, k in enumerate(ks) if isinstance(k, str) and k.isdigit()]
            order = sorted(idx, key=lambda i: int(ks[i])) + [i for i in range(len(ks)) if i not in idx]
            return Lst([ks[i] if n.endswith('keys') else vs[i] if n.endswith('values') else Lst([ks[i], vs[i]]) for i in order])
        if n == 'Object.freeze': return a[0]
        if n == 'Object.fromEntries':
            d = Dct('obj')
            for x in self.iterate(a[0]): d.set(x.x[0], x.x[1])
            return d
        if n in ('Map', 'new Map', 'new WeakMap'):
            d = Dct()
            if a and isinstance(a[0], Lst):
                for x in a[0].x: d.set(x.x[0], x.x[1])
            return d
        if n == 'Object.assign':
            for o in a[1:]:
                if isinstance(o, Dct):
                    for k, v in zip(o.k, o.v): a[0].set(k, v)
            return a[0]
        if n in ('Array.from',) and len(a) == 1: return Lst(self.iterate(a[0]))
        if n == 'Array.isArray': return isinstance(a[0], Lst)
        if n == 'Boolean': return self.truth(a[0])
        if n == 'Number' or n == 'parseInt':
            if isinstance(a[0], (int, float)): return a[0]
            if isinstance(a[0], Abs) and a[0].ty == 'int': return a[0]
            if isinstance(a[0], str) and a[0].isdigit(): return int(a[0])
            return MISSING
        if n in ('Math.floor', 'Math.trunc', 'Math.round', 'Math.ceil', 'Math.abs') and isinstance(a[0], Abs):
            return a[0] if a[0].ty == 'int' and n != 'Math.abs' else Abs((n, a[0].t), 'int')
        if n == 'BigInt' and isinstance(a[0], (int, Abs)): return Abs((n, a[0].t if isinstance(a[0], Abs) else a[0]), 'bigint')
        if n == 'String': return self.string(self.text(a[0]))
        if n.startswith('console.'): return UNDEFINED
        if n.startswith('new ') and n.endswith('Error'): return Obj(Ext(n[4:]), {'message': a[0] if a else ''})
        return MISSING

    # -- expressions
    def ev(self, e, s):
        self.budget -= 1
        if self.budget < 0: raise Stop('too many steps')
        return getattr(self, 'e_' + e[0])(e, s)

    def e_const(self, e, s): return e[1]
    def e_undefined(self, e, s): return UNDEFINED
    def e_name(self, e, s):
        n = e[1]
        c = s.lookup(n)
        if c is not None: return c.v[n]
        if self.lang == 'py':
            if hasattr(builtins, n) or n in ('__file__', '__name__'):
                m = self.models.get('const:' + n, MISSING)
                return m if m is not MISSING else Ext('builtins.' + n)
            self.raise_('NameError', n)
        if n == 'undefined': return UNDEFINED
        if n == 'NaN': return math.nan
        return Ext(n)
    def e_attr(self, e, s):
        o = self.ev(e[1], s)
        if len(e) > 3 and (o is None or o is UNDEFINED): return UNDEFINED     # a?.b
        return self.getattr(o, e[2])
    def e_index(self, e, s):
        o = self.ev(e[1], s)
        if len(e) > 3 and (o is None or o is UNDEFINED): return UNDEFINED
        return self.getitem(o, self.ev(e[2], s))
    def e_slice(self, e, s): return slice(*[self.ev(x, s) if x is not None else None for x in e[1:]])
    def e_call(self, e, s):
        f, this = e[1], None
        if f[0] in ('attr', 'index'):
            this = self.ev(f[1], s)
            if len(f) > 3 and (this is None or this is UNDEFINED): return UNDEFINED
            if f[0] == 'attr' and f[1] == ('super',): return UNDEFINED
            fn = self.getattr(this, f[2]) if f[0] == 'attr' else self.getitem(this, self.ev(f[2], s))
        else: fn = self.ev(f, s)
        if len(e) > 4 and (fn is None or fn is UNDEFINED): return UNDEFINED     # f?.()
        args = []
        for a in e[2]:
            if a[0] == 'star': args += self.iterate(self.ev(a[1], s))
            else: args.append(self.ev(a, s))
        kw = {}
        for k, v in e[3]:
            x = self.ev(v, s)
            if k is None:
                for a, b in zip(x.k, x.v): kw[a] = b
            else: kw[k] = x
        if len(e) > 5: self.line = e[5]
        if isinstance(fn, Obj) and isinstance(fn.cls, Ext) and fn.cls.name == 'partial': return self.call(fn.d['f'], fn.d['a'].x + args, kw)
        if isinstance(fn, Fn) and fn.kind == 'js': return self.call(fn, args, kw, this)
        return self.call(fn, args, kw)
    def e_new(self, e, s):
        c = self.ev(e[1], s)
        args = [self.ev(a, s) for a in e[2]]
        if isinstance(c, Cls): return self.construct(c, args, {})
        if isinstance(c, Ext): return self.ext(Ext('new ' + c.name), args, {})
        return self.unk('new')
    def e_regex(self, e, s): return Obj(Ext('RegExp'), {'source': e[1], 'flags': e[2]})
    def e_super(self, e, s): return Obj(Ext('super'))
    def e_bin(self, e, s): return self.binop(e[1], self.ev(e[2], s), self.ev(e[3], s))
    def binop(self, op, a, b):
        T = (str, Cat)
        isT = lambda v: isinstance(v, T) or isinstance(v, Abs) and v.ty == 'str'
        if op == '+':
            if isT(a) or isT(b):
                if self.lang == 'js' or (isT(a) and isT(b)): return self.string(self.text(a) + self.text(b))
                if isinstance(a, Abs) or isinstance(b, Abs): return self.unk('text')
                self.raise_('TypeError')
            if isinstance(a, Lst) and isinstance(b, Lst): return Lst(a.x + b.x, a.kind)
        if op == '|' and self.lang == 'py' and (isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext)) or a is None or b is None): return Lst([a, b], 'union')
        if op == '%' and isinstance(a, str) and self.lang == 'py': return self.percent(a, b)
        if isinstance(a, PRIM) and isinstance(b, PRIM) and a is not None and b is not None:
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                        '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b, '>>>': lambda: a >> b}[op]()
            except TypeError: self.raise_('TypeError')
            except ZeroDivisionError:
                if self.lang == 'py': self.raise_('ZeroDivisionError')
                return self.unk('division')
            except KeyError: return self.unk(op)
        if isinstance(a, Abs) or isinstance(b, Abs):
            if a == 0 and op == '+' and isinstance(b, Abs) and b.ty == 'int': return b
            t = 'int' if op in '+-*//%**<<>>|&^' and all(isinstance(x, int) or isinstance(x, Abs) and x.ty == 'int' for x in (a, b)) and op != '/' else 'bytes' if op == '+' and any(isinstance(x, bytes) or isinstance(x, Abs) and x.ty == 'bytes' for x in (a, b)) else 'any'
            if t == 'any' and op != '/': return self.unk('%r %s %r' % (a, op, b))
            return Abs((op, a.t if isinstance(a, Abs) else a, b.t if isinstance(b, Abs) else b), t)
        return self.unk('%r %s %r' % (a, op, b))
    def percent(self, a, b):
        import re
        vals = b.x if isinstance(b, Lst) and b.kind == 'tuple' else [b]
        out, i = [], 0
        for p in re.split(r'(%[sdri%]|%\([^)]*\)[sdr])', a):
            if p in ('%s', '%d', '%i', '%r'):
                if i >= len(vals): self.raise_('TypeError')
                v = vals[i]; i += 1
                out += self.text(v) if p != '%r' else self.text(self.builtin('builtins.repr', [v], {}) if not isinstance(v, Obj) else v)
            elif p.startswith('%('):
                k = p[2:p.index(')')]
                out += self.text(b.get(k) if isinstance(b, Dct) else self.unk('format'))
            elif p == '%%': out.append('%')
            elif '%' in p: return self.unk('format')
            else: out.append(p)
        return self.string(out)
    def e_unary(self, e, s):
        op = e[1]
        if op == 'typeof':
            v = self.ev(e[2], s)
            if isinstance(v, (str, Cat)): return 'string'
            if isinstance(v, bool): return 'boolean'
            if isinstance(v, (int, float)): return 'number'
            if v is UNDEFINED: return 'undefined'
            if isinstance(v, (Fn, Bound, Cls, Ext)): return 'function'
            if isinstance(v, Abs): return {'str': 'string', 'int': 'number', 'bool': 'boolean', 'fn': 'function', 'object': 'object'}.get(v.ty) or self.unk('typeof')
            return 'object'
        if op == 'delete':
            t = e[2]
            if t[0] == 'attr': self.delete(t, s)
            return True
        v = self.ev(e[2], s)
        if op in ('not', '!'): return not self.truth(v)
        if op == 'void': return UNDEFINED
        if isinstance(v, (int, float)): return {'-': lambda: -v, '+': lambda: v, '~': lambda: ~v}[op]()
        if op == '+' and isinstance(v, Abs) and v.ty == 'int': return v
        return self.unk(op)
    def e_bool(self, e, s):
        a = self.ev(e[2], s)
        if e[1] == '??':
            return self.ev(e[3], s) if (a is UNDEFINED or self.is_(a, None)) else a
        if self.truth(a) == (e[1] == 'or'):
            return a
        return self.ev(e[3], s)
    def e_cmp(self, e, s):
        l = self.ev(e[1], s)
        for op, r in e[2]:
            r = self.ev(r, s)
            if not self.compare(op, l, r): return False
            l = r
        return True
    def compare(self, op, a, b):
        if op in ('==', '==='):
            if self.lang == 'js' and op == '==' and (b is None or b is UNDEFINED or a is None or a is UNDEFINED):
                return all(x is None or x is UNDEFINED or (isinstance(x, Abs) and x.ty == 'any' and self.is_(x, None)) for x in (a, b))
            return self.eq(a, b)
        if op in ('!=', '!=='): return not self.compare({'!=': '==', '!==': '==='}[op], a, b)
        if op == 'is': return self.is_(a, b)
        if op == 'is not': return not self.is_(a, b)
        if op in ('in', 'not in'):
            if self.lang == 'js': r = (b.find(a) >= 0) if isinstance(b, Dct) else (a in b.d) if isinstance(b, (Obj, Ext)) else self.truth(self.unk('in'))
            elif isinstance(b, Dct): r = b.find(a) >= 0
            elif isinstance(b, Lst): r = any(self.eq(x, a) for x in b.x)
            elif isinstance(b, (str, bytes)) and isinstance(a, type(b)): r = a in b
            elif isinstance(b, Cls) and b.members is not None: r = any(m is a or self.eq(m.d['value'], a) for m in b.members)
            else:
                k = ('in', repr(a), repr(b))
                if k not in self.memo: self.memo[k] = self.choose(2, '%r in %r' % (a, b)) == 0
                r = self.memo[k]
            return r == (op == 'in')
        if op == 'instanceof': return self.truth(self.unk('instanceof'))
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)) and not (a is None or b is None):
            try: return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
            except TypeError:
                if self.lang == 'js': return False
                self.raise_('TypeError')
        if isinstance(a, Abs) and a.ty == 'int' and a.truth and b == 0 and op in ('>', '<='): return op == '>'
        k = ('cmp', op, repr(a), repr(b))
        if k not in self.memo: self.memo[k] = self.choose(2, '%r %s %r' % (a, op, b)) == 0
        return self.memo[k]
    def e_if(self, e, s): return self.ev(e[2], s) if self.truth(self.ev(e[1], s)) else self.ev(e[3], s)
    def items(self, xs, s):
        out = []
        for x in xs:
            if x[0] == 'star': out += self.iterate(self.ev(x[1], s))
            else: out.append(self.ev(x, s))
        return out
    def e_list(self, e, s): return Lst(self.items(e[1], s))
    def e_tuple(self, e, s): return Lst(self.items(e[1], s), 'tuple')
    def e_set(self, e, s): return Lst(self.items(e[1], s), 'set')
    def e_dict(self, e, s):
        d = Dct('obj' if len(e) > 2 else 'dict')
        for k, v in e[1]:
            if k is None:
                x = self.ev(v, s)
                if isinstance(x, Dct):
                    for a, b in zip(x.k, x.v): d.set(a, b)
                elif isinstance(x, Obj) and self.lang == 'js':
                    for a, b in x.d.items(): d.set(a, b)
                elif x is not None and x is not UNDEFINED: self.unk('spread')
            else:
                kk = self.ev(k, s)
                if d.kind == 'obj' and isinstance(kk, int): kk = str(kk)
                d.set(kk, self.ev(v, s))
        return d
    def e_fstr(self, e, s):
        out = []
        for p in e[1]:
            if p[0] == 'str': out.append(p[1])
            else:
                v = self.ev(p[1], s)
                if p[2] == 'r' and isinstance(v, (str, Abs, Cat)) and not (isinstance(v, Abs) and v.ty == 'int'):
                    out += [repr(v)] if isinstance(v, str) else [('val', Abs(('repr', v.t if isinstance(v, Abs) else v), 'str'))]
                    continue
                if p[3]:
                    if isinstance(v, PRIM) and all(x[0] == 'str' for x in p[3]):
                        out.append(format(v, ''.join(x[1] for x in p[3]))); continue
                    if not (isinstance(v, Abs) and v.ty == 'int' and p[3] == [('str', 'd')]): v = self.unk('format')
                out += self.text(v)
        return self.string(out)
    def e_fn(self, e, s):
        _, name, params, body, isexpr, kind = e[:6]
        f = Fn(name, params, body, s, kind, expr=isexpr)
        f.expr_arrow = len(e) > 6 and e[6]
        if kind == 'py':
            for p in params:
                if len(p) > 2 and p[2] is not None: f.defaults[p[1]] = self.ev(p[2], s)
        if len(e) > 7 and e[7]: f.d['gen'] = True
        return f
    def e_class(self, e, s): return self.mkclass(e, s)
    def e_comp(self, e, s):
        kind, elt, gens = e[1:4]
        out = []
        def go(i, sc):
            if i == len(gens):
                out.append((self.ev(elt[0], sc), self.ev(elt[1], sc)) if kind == 'dict' else self.ev(elt, sc)); return
            t, it, conds = gens[i]
            for x in self.iterate(self.ev(it, sc)):
                s2 = Scope(sc, 'func')
                self.assign(t, x, s2, True)
                if all(self.truth(self.ev(c, s2)) for c in conds): go(i + 1, s2)
        go(0, s)
        if kind == 'dict':
            d = Dct()
            for k, v in out: d.set(k, v)
            return d
        return Lst(out, kind)
    def e_assign(self, e, s):
        v = self.ev(e[2], s)
        self.assign(e[1], v, s)
        return v
    def e_aug(self, e, s):
        op = e[1]
        cur = self.ev(e[2], s)
        if op in ('or', 'and', '??'):
            if op == '??' and not (cur is None or cur is UNDEFINED): return cur
            if op == 'or' and self.truth(cur): return cur
            if op == 'and' and not self.truth(cur): return cur
            v = self.ev(e[3], s)
        else: v = self.binop(op, cur, self.ev(e[3], s))
        self.assign(e[2], v, s)
        return v
    def e_seq(self, e, s):
        v = UNDEFINED
        for x in e[1]: v = self.ev(x, s)
        return v
    def e_unsup(self, e, s): return self.unk('expression %s' % e[1])

    # -- assignment
    def assign(self, t, v, s, decl=False):
        k = t[0]
        if k == 'name':
            n = t[1]
            if n in s.glob: s.module().v[n] = v
            elif decl or (self.lang == 'py' and n not in s.nonl): s.v[n] = v
            else:
                c = (s.parent if n in s.nonl else s).lookup(n)
                if c is None: s.module().v[n] = v
                else: c.v[n] = v
        elif k == 'attr': self.setattr(self.ev(t[1], s), t[2], v)
        elif k == 'index': self.setitem(self.ev(t[1], s), self.ev(t[2], s), v)
        elif k in ('tuple', 'list'):
            xs = self.iterate(v)
            if any(x[0] == 'star' for x in t[1]):
                i = [x[0] for x in t[1]].index('star'); m = len(t[1]) - 1 - i
                xs = xs[:i] + [Lst(xs[i:len(xs) - m])] + xs[len(xs) - m:]
                for a, b in zip(t[1], xs): self.assign(a[1] if a[0] == 'star' else a, b, s, decl)
                return
            if len(xs) != len(t[1]) and self.lang == 'py': self.raise_('ValueError')
            for i, a in enumerate(t[1]): self.assign(a, xs[i] if i < len(xs) else UNDEFINED, s, decl)
        elif k == 'objpat':
            for key, tgt, dflt in t[1]:
                if key is None:          # the rest
                    d = Dct('obj')
                    if isinstance(v, Dct):
                        named = [y[0] for y in t[1]]
                        for a, b in zip(v.k, v.v):
                            if a not in named: d.set(a, b)
                    else: self.unk('rest pattern')
                    self.assign(tgt, d, s, decl); continue
                x = self.getattr(v, key)
                if x is UNDEFINED and dflt is not None: x = self.ev(dflt, s)
                self.assign(tgt, x, s, decl)
        elif k == 'hole': pass
        else: self.unk('assignment')

    def delete(self, t, s):
        if t[0] == 'name':
            c = s.lookup(t[1])
            if c is not None: c.v.pop(t[1], None)
        elif t[0] == 'attr':
            o = self.ev(t[1], s)
            if isinstance(o, Obj):
                if t[2] not in o.d:
                    if self.lang == 'py': self.raise_('AttributeError', t[2])
                else: del o.d[t[2]]
            elif isinstance(o, Dct): o.pop(t[2])
        elif t[0] == 'index':
            o = self.ev(t[1], s)
            if isinstance(o, Dct): o.pop(self.ev(t[2], s))
            else: self.unk('del')

    # -- statements
    def block(self, b, s):
        for x in b: self.st(x, s)

    def st(self, x, s):
        self.budget -= 1
        if self.budget < 0: raise Stop('too many steps')
        k = x[0]
        if k == 'expr': self.ev(x[1], s)
        elif k == 'assign':
            v = self.ev(x[2], s)
            for t in x[1]: self.assign(t, v, s)
        elif k == 'let': self.assign(x[1], self.ev(x[2], s) if x[2] is not None else UNDEFINED, s, True)
        elif k == 'aug': self.e_aug(x, s)
        elif k == 'if':
            b = x[2] if self.truth(self.ev(x[1], s)) else x[3]
            self.block(b, Scope(s, 'block') if self.lang == 'js' else s)
        elif k == 'block': self.block(x[1], Scope(s, 'block') if self.lang == 'js' else s)
        elif k == 'return': raise Ret(self.ev(x[1], s) if x[1] is not None else (None if self.lang == 'py' else UNDEFINED))
        elif k == 'while':
            n = 0
            while x[3] and n == 0 or self.truth(self.ev(x[1], s)):
                n += 1
                if n > 300: raise Stop('loop')
                try: self.block(x[2], Scope(s, 'block') if self.lang == 'js' else s)
                except Brk: break
                except Cont: pass
                if x[4] is not None: self.ev(x[4], s)
        elif k == 'for':
            done = True
            for v in self.iterate(self.ev(x[2], s)):
                s2 = Scope(s, 'block') if self.lang == 'js' else s
                self.assign(x[1], v, s2, x[5])
                try: self.block(x[3], s2)
                except Brk: done = False; break
                except Cont: pass
            if done: self.block(x[4], s)
        elif k == 'raise':
            if x[1] is None: raise Raise(self.exc)
            v = self.ev(x[1], s)
            if self.lang == 'py' and isinstance(v, (Cls, Ext)): v = self.call(v, [])
            raise Raise(v)
        elif k == 'try': self.try_(x, s)
        elif k == 'with': self.with_(x[1], x[2], s)
        elif k == 'def':
            f = self.ev(x[2], s)
            for d in reversed(x[3]): f = self.decorate(d, f, s)
            self.assign(('name', x[1]), f, s, self.lang == 'js')
        elif k == 'class': self.assign(('name', x[1]), self.mkclass(x, s), s, self.lang == 'js')
        elif k == 'del':
            for t in x[1]: self.delete(t, s)
        elif k == 'break': raise Brk()
        elif k == 'continue': raise Cont()
        elif k == 'pass': pass
        elif k == 'global': s.glob |= set(x[1])
        elif k == 'nonlocal': s.nonl |= set(x[1])
        elif k == 'import':
            for n, v in x[1]: self.assign(('name', n), self.imported(v), s, True)
        elif k == 'assert':
            if not self.truth(self.ev(x[1], s)): self.raise_('AssertionError')
        elif k == 'switch':
            v = self.ev(x[1], s)
            hit = None
            for i, (c, _b) in enumerate(x[2]):
                if c is not None and self.eq(v, self.ev(c, s)): hit = i; break
            if hit is None: hit = next((i for i, (c, _b) in enumerate(x[2]) if c is None), None)
            if hit is not None:
                try:
                    for _c, b in x[2][hit:]: self.block(b, s)
                except Brk: pass
        elif k == 'match': self.match(x, s)
        elif k == 'enum':
            d = Dct('obj')
            nxt = 0
            for n, e in x[2]:
                v = nxt if e is None else self.ev(e, s)
                d.set(n, v)
                if isinstance(v, int): d.set(str(v), n); nxt = v + 1
            self.assign(('name', x[1]), d, s, True)
        else: self.unk('statement %s' % (x[1] if k == 'unsup' else k))

    def imported(self, name):
        m = self.models.get('module:' + name)
        return m if m is not None else Ext(name)

    def decorate(self, d, f, s):
        if d[0] == 'attr' and d[2] in ('setter', 'deleter') and d[1][0] == 'name':
            p = self.ev(d[1], s)
            if isinstance(p, Fn): p.d[d[2]] = f; return p
        v = self.ev(d, s)
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            if n in ('property', 'staticmethod', 'classmethod') and isinstance(f, Fn): f.deco = n; return f
            if n in ('cached_property',): f.deco = 'property'; return f
            if n == 'dataclass' and isinstance(f, Cls): f.fields = self.dcfields(f); return f
            if n in ('override', 'final', 'unique', 'total_ordering', 'wraps', 'no_type_check', 'runtime_checkable', 'abstractmethod'): return f
            if n in ('cache', 'lru_cache'): return self.cached(f)
            return self.unk('decorator ' + v.name)
        if isinstance(v, Abs) and isinstance(f, (Cls, Fn)): return f
        if isinstance(v, Obj) and isinstance(v.cls, Ext) and v.cls.name == 'decorator': 
            n = v.d['n']
            if n == 'dataclass' and isinstance(f, Cls): f.fields = self.dcfields(f)
            return self.cached(f) if n == 'lru_cache' else f
        return self.call(v, [f])

    def cached(self, f):
        o = Obj(Ext('cached'), {'f': f, 'm': Dct()})
        self.models.setdefault('call:cached', lambda I, o, a, kw: I.cachecall(o, a, kw))
        return o
    def cachecall(self, o, a, kw):
        k = repr(a) + repr(kw)
        if o.d['m'].find(k) < 0: o.d['m'].set(k, self.call(o.d['f'], a, kw))
        return o.d['m'].get(k)

    def dcfields(self, c):
        out = []
        for b in c.bases:
            if isinstance(b, Cls) and b.fields: out += b.fields
        for n in c.ns.get('__annotations__', ()):
            d = c.ns.get(n, MISSING)
            if isinstance(d, Abs): d = d.attrs.get('default', d)
            out.append((n, d))
        return out

    def mkclass(self, x, s):
        _, name, bases, body, decos, kws = x
        bs = [self.ev(b, s) for b in bases]
        c = Cls(name, bs, {})
        sc = Scope(s, 'class')
        sc.v['__annotations__'] = []
        self.block(body, sc) if self.lang == 'py' else self.jsclass(body, sc)
        c.ns = sc.v
        if c.has_ext('enum.Enum', 'enum.IntEnum', 'enum.StrEnum', 'enum.Flag', 'enum.IntFlag') or any(isinstance(b, Cls) and b.members is not None for b in bs):
            c.members = []
            n = 0
            for k, v in list(sc.v.items()):
                if k.startswith('__') or isinstance(v, (Fn, Cls, Bound)) or k in ('__annotations__', '_ignore_'): continue
                if isinstance(v, Ext) and v.name == 'enum.auto()' or isinstance(v, Obj) and isinstance(v.cls, Ext) and v.cls.name == 'auto':
                    v = n + 1 if not c.has_ext('enum.StrEnum') else k.lower()
                if isinstance(v, Lst) and len(v.x) == 1 and v.kind == 'tuple': v = v.x[0]
                if isinstance(v, int): n = v
                dup = next((m for m in c.members if not isinstance(v, (Obj, Lst)) and m.d['value'] == v), None)
                m = dup or Obj(c, {'name': k, 'value': v})
                if not dup: c.members.append(m)
                c.ns[k] = m
        m = self.models.get('class')
        if m: m(self, c)
        for d in reversed(decos): c = self.decorate(d, c, s)
        return c

    def jsclass(self, body, sc):
        for x in body: self.st(x, sc)

    def try_(self, x, s):
        _, body, handlers, els, fin = x
        try:
            try:
                self.block(body, s)
            except Raise as r:
                for h in handlers:
                    if h[0] is None or self.exc_is(r.v.cls if isinstance(r.v, Obj) else None, self.ev(h[0], s)):
                        old = getattr(self, 'exc', None); self.exc = r.v
                        s2 = Scope(s, 'block') if self.lang == 'js' else s
                        if h[1]: self.assign(('name', h[1]) if isinstance(h[1], str) else h[1], r.v, s2, True)
                        try: self.block(h[2], s2)
                        finally: self.exc = old
                        break
                else: raise
            else: self.block(els, s)
        finally:
            if fin: self.block(fin, s)

    def with_(self, items, body, s):
        if not items: self.block(body, s); return
        e, t = items[0]
        m = self.ev(e, s)
        sup = isinstance(m, Obj) and isinstance(m.cls, Ext) and m.cls.name == 'suppress'
        if isinstance(m, Obj) and isinstance(m.cls, Cls) and m.cls.find('__enter__') is not None: v = self.call(Bound(m.cls.find('__enter__'), m), [])
        else:
            v = m
            if not (isinstance(m, Obj) and isinstance(m.cls, Ext)): self.unk('with')
        if t is not None: self.assign(t, v, s)
        def ex(*a):
            if isinstance(m, Obj) and isinstance(m.cls, Cls) and m.cls.find('__exit__') is not None: return self.call(Bound(m.cls.find('__exit__'), m), list(a))
            return None
        try: self.with_(items[1:], body, s)
        except Raise as r:
            if sup:
                if any(self.exc_is(r.v.cls, c) for c in m.d['a'].x): return
                raise
            if self.truth(ex(r.v.cls, r.v, None)): return
            raise
        except (Ret, Brk, Cont): ex(None, None, None); raise
        else: ex(None, None, None)

    def match(self, x, s):
        v = self.ev(x[1], s)
        for pat, guard, body in x[2]:
            if self.matches(pat, v, s) and (guard is None or self.truth(self.ev(guard, s))):
                self.block(body, s); return
    def matches(self, p, v, s):
        k = p[0]
        if k == 'value': return self.eq(v, self.ev(p[1], s))
        if k == 'single': return self.is_(v, p[1])
        if k == 'as':
            if p[1] is not None and not self.matches(p[1], v, s): return False
            if p[2]: self.assign(('name', p[2]), v, s)
            return True
        if k == 'or': return any(self.matches(q, v, s) for q in p[1])
        if k == 'class':
            if not self.isinstance_(v, self.ev(p[1], s)): return False
            if len(p[2]) == 1: return self.matches(p[2][0], v, s)
            if p[2]: return self.truth(self.unk('pattern'))
            return True
        return self.truth(self.unk('pattern'))


def paths(make, run, limit=4000):
    """evaluates run(interp) along every sequence of choices. yields (interp, result, error)"""
    todo = [()]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > limit: raise Stop('too many paths')
        I = make(pre)
        err = res = None
        try: res = run(I)
        except Raise as r: err = r.v
        yield I, res, err
        for i in range(len(pre), len(I.trail)):
            k, m, _ = I.trail[i]
            base = [t[0] for t in I.trail[:i]]
            for alt in range(1, m): todo.append(tuple(base) + (alt,))


# ------------------------------------------------------------------ Python front end
OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>',
       'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in', 'USub': '-', 'UAdd': '+', 'Not': 'not', 'Invert': '~', 'And': 'and', 'Or': 'or'}


class Py:
    def mod(self, src): return self.body(ast.parse(src).body)
    def body(self, b): return [y for x in b for y in [self.s(x)] if y is not None]
    def o(self, x): return OPS.get(type(x).__name__, type(x).__name__)

    def params(self, a):
        out = []
        pos = a.posonlyargs + a.args
        d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for x, y in zip(pos, d): out.append(('arg', x.arg, self.e(y) if y is not None else None))
        if a.vararg: out.append(('star', a.vararg.arg))
        for x, y in zip(a.kwonlyargs, a.kw_defaults): out.append(('kwonly', x.arg, self.e(y) if y is not None else None))
        if a.kwarg: out.append(('kwstar', a.kwarg.arg))
        return out

    def s(self, x):
        t = type(x).__name__
        if t == 'Expr': return ('expr', self.e(x.value))
        if t == 'Assign': return ('assign', [self.e(y) for y in x.targets], self.e(x.value))
        if t == 'AnnAssign':
            r = []
            if isinstance(x.target, ast.Name): r.append(('annot', x.target.id))
            if x.value is not None: r.append(('assign', [self.e(x.target)], self.e(x.value)))
            return ('anns', r)
        if t == 'AugAssign': return ('aug', self.o(x.op), self.e(x.target), self.e(x.value))
        if t == 'If': return ('if', self.e(x.test), self.body(x.body), self.body(x.orelse))
        if t == 'While': return ('while', self.e(x.test), self.body(x.body), False, None)
        if t == 'For': return ('for', self.e(x.target), self.e(x.iter), self.body(x.body), self.body(x.orelse), False)
        if t == 'Return': return ('return', self.e(x.value) if x.value is not None else None)
        if t == 'Raise': return ('raise', self.e(x.exc) if x.exc is not None else None)
        if t == 'Try': return ('try', self.body(x.body), [(self.e(h.type) if h.type else None, h.name, self.body(h.body)) for h in x.handlers], self.body(x.orelse), self.body(x.finalbody))
        if t == 'With': return ('with', [(self.e(i.context_expr), self.e(i.optional_vars) if i.optional_vars else None) for i in x.items], self.body(x.body))
        if t == 'FunctionDef':
            gen = any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x))
            return ('def', x.name, ('fn', x.name, self.params(x.args), self.body(x.body), False, 'py', False, gen), [self.e(d) for d in x.decorator_list])
        if t == 'ClassDef': return ('class', x.name, [self.e(b) for b in x.bases], self.body(x.body), [self.e(d) for d in x.decorator_list], [])
        if t == 'Delete': return ('del', [self.e(y) for y in x.targets])
        if t in ('Break', 'Continue', 'Pass'): return (t.lower(),)
        if t in ('Global', 'Nonlocal'): return (t.lower(), x.names)
        if t == 'Import': return ('import', [(a.asname or a.name.split('.')[0], a.name if a.asname else a.name.split('.')[0]) for a in x.names])
        if t == 'ImportFrom':
            if x.module == '__future__': return ('pass',)
            return ('import', [(a.asname or a.name, '%s.%s' % (x.module, a.name)) for a in x.names])
        if t == 'Assert': return ('assert', self.e(x.test))
        if t == 'Match': return ('match', self.e(x.subject), [(self.pat(c.pattern), self.e(c.guard) if c.guard else None, self.body(c.body)) for c in x.cases])
        return ('unsup', t)

    def pat(self, p):
        t = type(p).__name__
        if t == 'MatchValue': return ('value', self.e(p.value))
        if t == 'MatchSingleton': return ('single', p.value)
        if t == 'MatchAs': return ('as', self.pat(p.pattern) if p.pattern else None, p.name)
        if t == 'MatchOr': return ('or', [self.pat(q) for q in p.patterns])
        if t == 'MatchClass' and not p.kwd_attrs: return ('class', self.e(p.cls), [self.pat(q) for q in p.patterns])
        return ('unsup', t)

    def e(self, x):
        t = type(x).__name__
        if t == 'Constant': return ('const', x.value if x.value is not Ellipsis else None)
        if t == 'Name': return ('name', x.id)
        if t == 'Attribute': return ('attr', self.e(x.value), x.attr)
        if t == 'Subscript': return ('index', self.e(x.value), self.e(x.slice))
        if t == 'Slice': return ('slice',) + tuple(self.e(y) if y is not None else None for y in (x.lower, x.upper, x.step))
        if t == 'Call': 
            if isinstance(x.func, ast.Name) and x.func.id == 'super': return ('super',)
            return ('call', self.e(x.func), [self.e(a) for a in x.args], [(k.arg, self.e(k.value)) for k in x.keywords]) + (0, x.lineno)[0:0]
        if t == 'Starred': return ('star', self.e(x.value))
        if t == 'BinOp': return ('bin', self.o(x.op), self.e(x.left), self.e(x.right))
        if t == 'UnaryOp': return ('unary', self.o(x.op), self.e(x.operand))
        if t == 'BoolOp':
            r = self.e(x.values[-1])
            for v in reversed(x.values[:-1]): r = ('bool', self.o(x.op), self.e(v), r)
            return r
        if t == 'Compare': return ('cmp', self.e(x.left), [(self.o(o), self.e(c)) for o, c in zip(x.ops, x.comparators)])
        if t == 'IfExp': return ('if', self.e(x.test), self.e(x.body), self.e(x.orelse))
        if t in ('List', 'Tuple', 'Set'): return (t.lower(), [self.e(y) for y in x.elts])
        if t == 'Dict': return ('dict', [(self.e(k) if k is not None else None, self.e(v)) for k, v in zip(x.keys, x.values)])
        if t == 'JoinedStr':
            out = []
            for v in x.values:
                if isinstance(v, ast.Constant): out.append(('str', v.value))
                else: out.append(('val', self.e(v.value), chr(v.conversion) if v.conversion > 0 else '', self.e(v.format_spec)[1] if v.format_spec else None))
            return ('fstr', out)
        if t == 'Lambda': return ('fn', '<lambda>', self.params(x.args), self.e(x.body), True, 'py')
        if t in ('ListComp', 'SetComp', 'GeneratorExp', 'DictComp'):
            g = [(self.e(c.target), self.e(c.iter), [self.e(i) for i in c.ifs]) for c in x.generators]
            if t == 'DictComp': return ('comp', 'dict', (self.e(x.key), self.e(x.value)), g)
            return ('comp', 'set' if t == 'SetComp' else 'list', self.e(x.elt), g)
        if t == 'NamedExpr': return ('assign', self.e(x.target), self.e(x.value))
        return ('unsup', t)


def _anns(self, x, s):
    for y in x[1]:
        if y[0] == 'annot': s.v.setdefault('__annotations__', []); s.v['__annotations__'].append(y[1]) if s.kind == 'class' else None
        else: self.st(y, s)


_st = Interp.st
def st(self, x, s):
    if x[0] == 'anns': return _anns(self, x, s)
    return _st(self, x, s)
Interp.st = st
