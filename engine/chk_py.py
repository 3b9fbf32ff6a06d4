"""C23, C25 and the Python binding's part of C16, C17 and C22: abstract evaluation of the syntax tree of watcher.py (absint.py). ctypes, json and
the C library are replaced by models; the binding is neither imported nor run."""
import itertools, json, os
import absint, build
from absint import Abs, Cat, Cls, Dct, Ext, Fn, Bound, Interp, Lst, Obj, Raise, Stop, MISSING
from chk_event import NAMES, Report

FILE = 'watcher-py/watcher/watcher.py'
SIZES = {'c_int8': (1, 'int'), 'c_byte': (1, 'int'), 'c_uint8': (1, 'uint'), 'c_ubyte': (1, 'uint'), 'c_bool': (1, 'bool'), 'c_char': (1, 'char'), 'c_int16': (2, 'int'), 'c_short': (2, 'int'),
         'c_uint16': (2, 'uint'), 'c_ushort': (2, 'uint'), 'c_int32': (4, 'int'), 'c_int': (4, 'int'), 'c_uint32': (4, 'uint'), 'c_uint': (4, 'uint'), 'c_int64': (8, 'int'), 'c_long': (8, 'int'),
         'c_longlong': (8, 'int'), 'c_ssize_t': (8, 'int'), 'c_uint64': (8, 'uint'), 'c_ulong': (8, 'uint'), 'c_ulonglong': (8, 'uint'), 'c_size_t': (8, 'uint'), 'c_char_p': (8, 'str'),
         'c_void_p': (8, 'ptr'), 'c_float': (4, 'float'), 'c_double': (8, 'float'), 'py_object': (8, 'object'), 'c_wchar_p': (8, 'wstr'), 'c_wchar': (4, 'wchar')}
QUIET = ('logging.', 'traceback.', 'warnings.', 'gc.', 'faulthandler.', 'atexit.')
ENV = ('os.', 'pathlib.', 'glob.', 'platform.', 'sys.', 'sysconfig.', 'importlib.', 'ctypes.util.', 're.', 'shutil.')
_src = {}


def source():
    p = os.path.join(build.REPO, FILE)
    if p not in _src:
        try: _src[p] = absint.Py().mod(open(p).read())
        except (OSError, SyntaxError) as e: raise build.BuildError('%s: %s' % (FILE, e))
    return _src[p]


def ctype(t):
    """(size, kind) of a ctypes type, or None"""
    if isinstance(t, Ext): return SIZES.get(t.name.split('.')[-1]) if t.name.startswith('ctypes.') else None
    if isinstance(t, Obj) and isinstance(t.cls, Ext):
        if t.cls.name == 'pointer': return (8, 'ptr')
        if t.cls.name == 'cfunctype': return (8, 'fn')
        if t.cls.name == 'array':
            e = ctype(t.d['of'])
            return (e[0] * t.d['n'], 'array') if e and isinstance(t.d['n'], int) else None
    return None


class CallEnd(Exception): pass


def models(events):
    M = {}
    M['const:__name__'] = 'watcher'
    M['const:sys.platform'] = 'linux'
    M['const:os.name'] = 'posix'
    M['platform.system'] = lambda I, a, k: 'Linux'
    M['os.uname'] = lambda I, a, k: Obj(Ext('uname'), {'sysname': 'Linux'})
    M['const:__file__'] = Abs(('env', '__file__'), 'str', True)
    M['json.dumps'] = dumps
    M['json.encoder.encode_basestring_ascii'] = M['json.encoder.encode_basestring'] = lambda I, a, k: dumps(I, a[:1], {})
    def asdict(I, a, k):
        d = Dct()
        for n, _ in a[0].cls.fields: d.set(n, a[0].d.get(n))
        return d
    M['dataclasses.asdict'] = asdict
    M['dataclasses.dataclass'] = lambda I, a, k: Obj(Ext('decorator'), {'n': 'dataclass'}) if not a else MISSING
    M['dataclasses.field'] = lambda I, a, k: Abs(('field', id(k)))
    M['enum.auto'] = lambda I, a, k: Obj(Ext('auto'))
    M['functools.lru_cache'] = M['functools.cache'] = lambda I, a, k: I.cached(a[0]) if a and isinstance(a[0], Fn) else Obj(Ext('decorator'), {'n': 'lru_cache'})
    M['contextlib.suppress'] = lambda I, a, k: Obj(Ext('suppress'), {'a': Lst(a)})
    def functype(I, a, k): return Obj(Ext('cfunctype'), {'res': a[0] if a else None, 'args': Lst(a[1:]), 'how': 'CFUNCTYPE', 'kw': k})
    M['ctypes.CFUNCTYPE'] = functype
    def pyfunctype(I, a, k):
        o = functype(I, a, k); o.d['how'] = 'PYFUNCTYPE'
        return o
    M['ctypes.PYFUNCTYPE'] = pyfunctype
    def mkfn(I, o, a, k):
        I.counter += 1
        c = Obj(Ext('cfunc'), {'fn': a[0] if a else None, 'type': o, 'n': I.counter})
        return c
    M['call:cfunctype'] = mkfn
    M['call:cfunc'] = lambda I, o, a, k: I.call(o.d['fn'], a, k)
    M['ctypes.POINTER'] = lambda I, a, k: Obj(Ext('pointer'), {'to': a[0]})
    def lib(I, a, k):
        if I.choose(2, 'the library cannot be loaded') == 1: I.raise_('OSError')
        I.lib = Ext('LIB')
        return I.lib
    for n in ('ctypes.CDLL', 'ctypes.cdll.LoadLibrary'): M[n] = lib
    M['method:__getitem__'] = lambda I, a, k: I.getattr(a[0], a[1])
    def finalize(I, a, k):
        o = Obj(Ext('finalize'), {'of': a[0], 'f': a[1], 'a': Lst(a[2:]), 'kw': k, 'alive': True})
        I.finalizers.append(o)
        return o
    M['weakref.finalize'] = finalize
    def runfin(I, o, a, k):
        if not o.d['alive']: return None
        o.d['alive'] = False
        return I.call(o.d['f'], o.d['a'].x, o.d['kw'])
    M['call:finalize'] = runfin
    def detach(I, a, k):
        if isinstance(a[0], Obj) and isinstance(a[0].cls, Ext) and a[0].cls.name == 'finalize':
            al = a[0].d['alive']; a[0].d['alive'] = False
            return Lst([a[0].d['of'], a[0].d['f'], a[0].d['a'], None], 'tuple') if al else None
        return MISSING
    M['method:detach'] = detach
    M['call'] = lambda I, f, a, k: other(I, f, a, k, events)
    M['class'] = mkclass
    def newstruct(I, c, o, a, k):
        fs = struct_fields(c) or []
        for (n, _), v in zip(fs, a): o.d[n] = v
        o.d.update(k)
        for n, _ in fs: o.d.setdefault(n, 0)
        return o
    M['new:ctypes.Structure'] = newstruct
    return M


def mkclass(I, c): pass


def other(I, f, a, k, events):
    n = f.name
    if n in ('USER', 'USER2'):
        I.log.append(('user', list(a), n, dict(k)))
        return None
    if n.startswith('LIB.'):
        fn = n[4:]
        if fn == 'wtr_watcher_open': return events.opened(I, f, a, k)
        if fn == 'wtr_watcher_close': return events.closed(I, f, a, k)
    if n.startswith(QUIET): return None
    if n.startswith('method:') and a and isinstance(a[0], Abs) and a[0].t[:1] == ('env',): return Abs(('env', n, a[0].t) + tuple(repr(x) for x in a[1:]), 'any')
    if n.startswith('os.path.') and n.split('.')[-1] in ('exists', 'isfile', 'isdir'):
        return I.choose(2, 'the library is missing') == 0
    if n.startswith('ctypes.util.') or n.startswith(ENV): return Abs(('env', n) + tuple(repr(x) for x in a), 'str' if n.startswith('os.path.') else 'any', True)
    return MISSING


# ------------------------------------------------------------------ JSON
def dumps(I, a, k):
    v = a[0]
    asc = k.get('ensure_ascii', True)
    if any(x not in ('ensure_ascii', 'separators', 'indent', 'sort_keys', 'allow_nan', 'default') for x in k): return MISSING
    def go(v):
        if v is None: return ['null']
        if isinstance(v, bool): return ['true' if v else 'false']
        if isinstance(v, (str, int, float)): return [json.dumps(v, ensure_ascii=asc)]
        if isinstance(v, Abs):
            if v.ty == 'int': return [('num', v)]
            if v.ty == 'str': return [('json', v)]
            I.unk('JSON of %r' % (v,)); return ['null']
        if isinstance(v, Cat): return [('json', v)]
        if isinstance(v, Lst):
            out = ['[']
            for i, x in enumerate(v.x): out += ([', '] if i else []) + go(x)
            return out + [']']
        if isinstance(v, Dct):
            out = ['{']
            ks = list(range(len(v.k)))
            if k.get('sort_keys'): ks.sort(key=lambda i: str(v.k[i]))
            for j, i in enumerate(ks): out += ([', '] if j else []) + go(v.k[i]) + [': '] + go(v.v[i])
            return out + ['}']
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.members is not None and v.cls.has_ext('enum.IntEnum', 'enum.StrEnum', 'builtins.str', 'builtins.int'): return go(v.d['value'])
        if k.get('default') is not None: return go(I.call(k['default'], [v]))
        I.raise_('TypeError', 'not JSON serializable')
    return I.string(go(v))


# ------------------------------------------------------------------ structure layout
def struct_fields(c):
    out = []
    for x in reversed(c.mro()):
        if isinstance(x, Cls) and '_fields_' in x.ns:
            f = x.ns['_fields_']
            if not isinstance(f, Lst): return None
            for t in f.x:
                if not isinstance(t, Lst) or len(t.x) not in (2,): return None
                out.append((t.x[0], t.x[1]))
    return out


def layout(c):
    """field -> (offset, size, kind), size"""
    fs = struct_fields(c)
    if fs is None: return None
    pack = c.find('_pack_')
    out, off, al = {}, 0, 1
    for n, t in fs:
        s = ctype(t)
        if s is None: return None
        a = s[0] if s[1] != 'array' else 1
        if pack: a = min(a, pack)
        off = (off + a - 1) // a * a
        out[n] = (off, s[0], s[1])
        off += s[0]; al = max(al, a)
    return out, (off + al - 1) // al * al


class Events:
    """what the binding does to the C interface"""
    def __init__(self): self.reenter = None

    def opened(self, I, f, a, k):
        I.log.append(('open', list(a), dict(f.d)))
        if I.choose(2, 'the watcher cannot be opened') == 1: 
            r = f.d.get('restype')
            return None if isinstance(r, Ext) and r.name == 'ctypes.c_void_p' else 0
        I.nopen = getattr(I, 'nopen', 0) + 1
        return Abs(('handle', I.nopen), 'int', True)

    def closed(self, I, f, a, k):
        I.log.append(('close', list(a), dict(f.d), self.alive(I)))
        if self.reenter and I.choose(2, 'the callback closes the watcher meanwhile') == 1:
            r, self.reenter = self.reenter, None
            try: r()
            except Raise: pass
        return True

    def alive(self, I):
        """the callbacks which are held by the watcher or the module"""
        seen, out = set(), set()
        todo = [x for x in (getattr(I, 'self_', None), I.globals) if x is not None]
        while todo:
            o = todo.pop()
            if id(o) in seen: continue
            seen.add(id(o))
            if isinstance(o, Obj):
                if isinstance(o.cls, Ext) and o.cls.name == 'cfunc': out.add(o.d['n'])
                todo += list(o.d.values()) + ([o.cls] if isinstance(o.cls, Cls) else [])
            elif isinstance(o, (Fn,)): todo += [o.scope] + list(o.d.values())
            elif isinstance(o, Bound): todo += [o.f, o.self_]
            elif isinstance(o, Lst): todo += o.x
            elif isinstance(o, Dct): todo += o.k + o.v
            elif isinstance(o, Cls): todo += list(o.ns.values())
            elif isinstance(o, Ext): todo += list(o.d.values())
            elif isinstance(o, absint.Scope): todo += list(o.v.values()) + ([o.parent] if o.parent else [])
            elif isinstance(o, Abs): todo += list(o.attrs.values())
        if getattr(I, 'finalizers', None):
            for f in I.finalizers:
                if f.d['alive'] and id(f) not in seen: pass
        return out


def load(choices, ev=None):
    ev = ev or Events()
    I = Interp('py', choices, models(ev))
    I.finalizers = []
    I.events = ev
    return I


def start(I):
    I.block(source(), I.globals)
    g = I.globals.v
    for n in ('Watch', 'Event', 'EffectType', 'PathType'):
        if not isinstance(g.get(n), Cls): raise build.BuildError('%s does not define the class %s' % (FILE, n))
    return g


def find_struct(I, c):
    """the structure the callback gets"""
    t = c.d['type'].d['args'].x
    return t[0] if t and isinstance(t[0], Cls) else None


def construct(I):
    """makes a Watch. -> (object, exception)"""
    g = start(I)
    c = g['Watch']
    I.models['new:Watch'] = lambda I, c, o, a, k: setattr(I, 'self_', o)
    I.self_ = None
    err = None
    try: I.call(c, [Abs(('watched path',), 'str', True), Ext('USER')])
    except Raise as r: err = r.v
    return I.self_, err


def exc_name(e): return getattr(getattr(e, 'cls', None), 'name', repr(e)).split('.')[-1]


def runs(fn, R, rule, site):
    """fn over every path; paths which depend on something unknown are undecided"""
    try:
        for I, res, err in absint.paths(load, fn):
            if I.unknown:
                R.unsure(rule, site, 'depends on ' + '; '.join(dict.fromkeys(I.unknown))[:200]); continue
            yield I, res, err
    except (Stop, RecursionError) as e: R.unsure(rule, site, repr(e))
    except build.BuildError: raise
    except Exception as e: R.unsure(rule, site, 'not followed: %r' % (e,))


def site(x): return '%s: %s' % (FILE, x)


def event_fields(I, et, pt, assoc):
    return {'effect_time': Abs(('effect_time',), 'int', True), 'path_name': Abs(('path_name',), 'bytes', True),
            'associated_path_name': Abs(('associated_path_name',), 'bytes', True) if assoc else None, 'effect_type': et, 'path_type': pt}


def deliver(I, c, et, pt, assoc):
    """calls the native callback c with an event; what the user's function is given"""
    s = find_struct(I, c)
    o = Obj(s)
    vals = event_fields(I, et, pt, assoc)
    for n, t in (struct_fields(s) or []) if s is not None else []:
        if n in vals: o.d[n] = vals[n]
        elif isinstance(n, str): o.d[n] = Abs(('field', n))
    n0 = len(I.log)
    err = None
    try: I.call(c.d['fn'], [o] + [None] * max(0, len(c.d['type'].d['args'].x) - 1))
    except Raise as r: err = r.v
    return [x for x in I.log[n0:] if x[0] == 'user'], err


def opens(I): return [x for x in I.log if x[0] == 'open']


def callback(x):
    return next((y for y in x[1] if isinstance(y, Obj) and isinstance(y.cls, Ext) and y.cls.name == 'cfunc'), None)


def delivered(R, rule, st, et, pt, assoc, check):
    """check(I, Event object) for the event every path of the callback gives the user"""
    def run(I):
        construct(I)
        o = opens(I)
        if not o or callback(o[0]) is None: return None
        return (callback(o[0]),) + deliver(I, callback(o[0]), et, pt, assoc)
    for I, res, err in runs(run, R, rule, st):
        if res is None or err is not None: continue
        c, us, e = res
        if e is not None or not us: continue       # C25 says so
        v = us[0][1][0] if us[0][1] else None
        check(I, v)


def is_event(v): return isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.name == 'Event'


# ------------------------------------------------------------------ C22, C16, C17
def codes(r, R, C):
    """C: (kind, name) -> code"""
    st = site('the event given to the user')
    try:
        for k, attr in (('et', 'effect_type'), ('pt', 'path_type')):
            for n in NAMES[k]:
                code = C[(k, n)]
                other = C[('pt', 'file')] if k == 'et' else C[('et', 'modify')]
                def chk(I, v, n=n, code=code, attr=attr):
                    m = v.d.get(attr) if is_event(v) else None
                    nm = m.d.get('name') if isinstance(m, Obj) else None
                    if not isinstance(nm, str): R.unsure('python', st, 'event is %r, %s %r' % (v, attr, m)); return
                    if nm.lower() != n: R.bad('python', st, 'the code %d (%s) becomes the %s %s' % (code, n, attr, nm))
                    elif m.d.get('value') != code: R.bad('python', st, '%s has the value %r, its code in C is %d' % (nm, m.d.get('value'), code))
                    else: R.ok('python', st)
                delivered(R, 'python', st, *((code, other) if k == 'et' else (other, code)), True, chk)
    except build.BuildError as e: r.errors.append(str(e))


def member(g, cls, name):
    for m in g[cls].members or ():
        if m.d['name'].lower() == name: return m
    return None


def texts(R, rule, st, r):
    """(wanted event, text) for each event turned into JSON by the binding"""
    combos = [(e, 'file', a) for e in NAMES['et'] for a in (False, True)] + [('create', p, a) for p in NAMES['pt'] for a in (False, True)]
    for et, pt, a in combos:
        def run(I):
            g = start(I)
            e, p = member(g, 'EffectType', et), member(g, 'PathType', pt)
            if e is None or p is None: raise build.BuildError('%s: no enumerator for %s or %s' % (FILE, et, pt))
            c = g['Event']
            vals = {'effect_time': Abs(('effect_time',), 'int', True), 'path_name': Abs(('path_name',), 'str', True),
                    'associated_path_name': Abs(('associated_path_name',), 'str', True) if a else None, 'effect_type': e, 'path_type': p}
            o = I.call(c, [], vals)
            f = I.getattr(o, 'to_json')
            return I.call(f, [])
        try:
            for I, res, err in runs(run, R, rule, st): yield (et, pt, a), res, err
        except build.BuildError as e:
            r.errors.append(str(e)); return


def json_text(r, R):
    st = site('Event.to_json')
    from chk_event import pairs
    for (et, pt, a), t, err in texts(R, 'json', st, r):
        if err is not None:
            R.bad('well-formed', st, 'the conversion of an event (%s of a %s) fails with %s' % (et, pt, exc_name(err))); continue
        if isinstance(t, str): parts = [t]
        elif isinstance(t, Cat): parts = t.p
        else: R.unsure('json', st, 'text is %r' % (t,)); continue
        out, raw, skip = '', False, False
        for x in parts:
            if isinstance(x, str): out += x
            elif x[0] == 'num': out += '1111'
            elif x[0] == 'json':
                v = x[1]
                if isinstance(v, Abs): out += json.dumps('<%s>' % ' '.join(map(str, v.t)))
                else: skip = True
            elif x[1].t[0] in ('path_name', 'associated_path_name'): raw = True
            else: skip = True
        if raw: R.bad('escape', st, 'a path is put into the JSON as it is: a quote, a backslash or a control character in it makes it malformed'); continue
        if skip: R.unsure('json', st, 'text is %r' % (t,)); continue
        try: v = json.loads(out, object_pairs_hook=pairs)
        except ValueError as e:
            R.bad('well-formed', st, 'not JSON (%s): %s' % (e, out)); continue
        w = dict(effect_time=1111, path_name='<path_name>', associated_path_name='<associated_path_name>' if a else None, effect_type=et, path_type=pt)
        if v != w: R.bad('content', st, 'the event is written as %s, which is not %s' % (json.dumps(v), json.dumps(w)))
        else: R.ok('json', st)


def names(r, R):
    st = site('names in JSON')
    for (et, pt, a), t, err in texts(R, 'python', st, r):
        if err is not None or not isinstance(t, (str, Cat)): continue      # C17 says so
        s = ''.join(x if isinstance(x, str) else '1' if x[0] == 'num' else '"x"' for x in (t.p if isinstance(t, Cat) else [t]))
        try: v = json.loads(s)
        except ValueError: continue
        if not isinstance(v, dict): continue
        for k, w in (('effect_type', et), ('path_type', pt)):
            if v.get(k) != w: R.bad('python', st, '%s %s is spelt %r by the Python binding' % (k, w, v.get(k)))
            else: R.ok('python', '%s: %s %s' % (st, k, w))


# ------------------------------------------------------------------ C23
def c23(r, tier):
    r.rule = ('Abstract evaluation of the Python binding up to its call of wtr_watcher_open and to its call of wtr_watcher_close: the ctypes structure its callback type names is laid out by the rules of the '
              'platform and compared with the layout the C compiler gives wtr_watcher_event (LLVM IR and debug information), and the argument and result types which are set on the two functions at '
              'the time they are called are compared with the C prototypes.')
    R = Report(r)
    st = site('declarations')
    import llir
    try:
        CL = c_layout()
        for I, res, err in runs(lambda I: (construct(I), history(I, ['close'])), R, 'declarations', st):
            o = opens(I)
            if not o: continue
            _, a, at = o[0]
            proto(R, 'wtr_watcher_open', at, ['str', 'fn', 'ptr'], 'ptr', len(a))
            c = callback(o[0])
            if c is None:
                R.bad('callback', st, 'wtr_watcher_open is given %s rather than a C function' % (a[1:2],)); continue
            t = c.d['type']
            if t.d['how'] != 'CFUNCTYPE': R.bad('callback', st, 'the type of the callback is a %s: native threads do not hold the interpreter lock' % t.d['how'])
            if t.d['res'] is not None: R.bad('callback', st, 'the callback is declared to return something')
            ats = at.get('argtypes')
            if isinstance(ats, Lst) and len(ats.x) == 3 and ats.x[1] is not t and not (isinstance(ats.x[1], Ext) and ats.x[1].name == 'ctypes.c_void_p'):
                R.bad('callback', st, 'the callback is not of the type wtr_watcher_open is declared with')
            args = t.d['args'].x
            if len(args) != 2 or not isinstance(args[0], Cls) or ctype(args[1]) != (8, 'ptr'):
                R.bad('callback', st, 'the callback is declared with the arguments %r; C passes an event and a pointer' % (args,)); continue
            if not args[0].has_ext('ctypes.Structure'): R.bad('callback', st, 'the callback\'s first argument is not a structure'); continue
            L = layout(args[0])
            if L is None: R.unsure('layout', st, 'structure not understood'); continue
            fields, size = L
            want, wsize = CL
            for n, (off, sz, kind) in want.items():
                if n not in fields: R.bad('layout', st, 'the field %s of wtr_watcher_event is not declared' % n); continue
                f = fields[n]
                if f[:2] != (off, sz): R.bad('layout', st, 'the field %s is declared at offset %d with %d bytes; in C it is at %d with %d' % (n, f[0], f[1], off, sz))
                elif f[2] != kind and (kind, f[2]) not in (('str', 'ptr'),): R.bad('layout', st, 'the field %s is declared as %s; in C it is %s' % (n, f[2], kind))
                else: R.ok('layout', '%s: %s' % (st, n))
            for n in fields:
                if n not in want: R.bad('layout', st, 'the field %s does not exist in C' % n)
            if size != wsize: R.bad('layout', st, 'the structure is declared with %d bytes; in C it has %d' % (size, wsize))
            for x in I.log:
                if x[0] == 'close': proto(R, 'wtr_watcher_close', x[2], ['ptr'], 'bool', len(x[1]))
        r.cover['analysed'] = [FILE, 'watcher-c/include/wtr/watcher-c.h']
    except build.BuildError as e: r.errors.append(str(e))


def proto(R, fn, at, args, res, n):
    st = site('declaration of ' + fn)
    a = at.get('argtypes')
    K = {'str': ('str', 'ptr'), 'fn': ('fn', 'ptr'), 'ptr': ('ptr',), 'bool': ('bool',)}
    if not isinstance(a, Lst): R.bad('prototype', st, 'the argument types are not declared: a pointer is passed as an int')
    elif len(a.x) != len(args): R.bad('prototype', st, '%d arguments are declared; in C there are %d' % (len(a.x), len(args)))
    else:
        for i, (t, w) in enumerate(zip(a.x, args)):
            c = ctype(t)
            if c is None: R.unsure('prototype', st, 'type %r' % (t,))
            elif c[0] != 8 or c[1] not in K[w] + (('str',) if w == 'ptr' and False else ()): R.bad('prototype', st, 'argument %d is declared as %r, which is not the type it has in C' % (i + 1, t))
            else: R.ok('prototype', '%s: argument %d' % (st, i + 1))
    if n != len(args): R.bad('prototype', st, '%d arguments are passed; in C there are %d' % (n, len(args)))
    t = at.get('restype')
    c = ctype(t) if t is not None else None
    if 'restype' not in at: R.bad('prototype', st, 'the result type is not declared: it is taken for an int' + (', which truncates the handle' if res == 'ptr' else ''))
    elif c is None: R.bad('prototype', st, 'the result is declared as %r' % (t,))
    elif res == 'ptr' and c != (8, 'ptr') or res == 'bool' and c[0] != 1: R.bad('prototype', st, 'the result is declared as %r, which is not the type it has in C' % (t,))
    else: R.ok('prototype', '%s: result' % st)


def c_layout():
    """field -> (offset, size, kind) of wtr_watcher_event, size; by way of the C++ compiler's constants"""
    fs = {'effect_time': 'int', 'path_name': 'str', 'associated_path_name': 'str', 'effect_type': 'int', 'path_type': 'int'}
    q = {}
    for f in fs:
        q[(f, 'o')] = '__builtin_offsetof(wtr_watcher_event, %s)' % f
        q[(f, 's')] = 'sizeof(((wtr_watcher_event*)0)->%s)' % f
        q[(f, 'p')] = '__is_pointer(decltype(wtr_watcher_event::%s))' % f
        q[(f, 'u')] = '__is_unsigned(decltype(wtr_watcher_event::%s))' % f
    q['size'] = 'sizeof(wtr_watcher_event)'
    v = build.constants('c', 'devel', q)
    return {f: (v[(f, 'o')], v[(f, 's')], 'str' if v[(f, 'p')] else 'uint' if v[(f, 'u')] else 'int') for f in fs}, v['size']


# ------------------------------------------------------------------ C25
def gc(I):
    """the object is destroyed"""
    o = I.self_
    if o is None: return None
    err = None
    f = o.cls.find('__del__')
    if f is not None:
        try: I.call(Bound(f, o), [])
        except Raise as r: err = r.v
    for x in list(I.finalizers):
        if x.d['alive']:
            try: I.call(x, [])
            except Raise: pass
    return err


def history(I, ops):
    """a sequence of uses, then destruction. -> exceptions"""
    o = I.self_
    errs = []
    for op in ops:
        f = o.cls.find({'close': 'close', 'exit': '__exit__', 'exit with an exception': '__exit__', 'enter': '__enter__'}[op])
        if f is None: errs.append((op, 'there is no such method')); continue
        try: I.call(Bound(f, o), [] if op in ('close', 'enter') else [None] * 3 if op == 'exit' else [Ext('builtins.ValueError'), Obj(Ext('builtins.ValueError')), Abs(('traceback',), 'object', True)])
        except Raise as r: errs.append((op, exc_name(r.v)))
        if op != 'enter' and getattr(I, 'nopen', 0) and not [y for y in I.log if y[0] == 'close'] and not errs: errs.append(('%s does not close the native watcher' % op, None))
    return errs


def c25(r, tier):
    r.rule = ('Abstract evaluation of the Python binding: construction with each step of it failing or not, then every sequence of up to %d of close(), context exit and exit with an exception, with or without the '
              'callback calling close() while the native close is under way, then destruction (__del__ and finalizers). Exactly one wtr_watcher_close with the handle must follow each successful wtr_watcher_open, '
              'before which the callback given to native code stays reachable from the watcher or the module. The callback is then evaluated with events whose paths are any bytes: every event '
              'must reach the user\'s function, with its own fields.') % (3 if tier == 'quick' else 5)
    R = Report(r)
    sw, se = site('Watch'), site('native callback')
    import chk_c
    try: C = chk_c.c_codes('devel')
    except build.BuildError: C = {}
    try:
        ops = ['close', 'exit', 'exit with an exception', 'enter']
        seqs = [s for n in range((4 if tier == 'quick' else 6)) for s in itertools.product(ops, repeat=n)]
        for seq in seqs:
            def run(I):
                o, err = construct(I)
                reach = I.events.alive(I)
                errs = []
                if o is not None:
                    c = o.cls.find('close')
                    if c is not None: I.events.reenter = lambda: I.call(Bound(c, o), [])
                if err is None: errs = history(I, seq)
                d = gc(I)
                return o, err, reach, errs, d
            what = 'after ' + ', '.join(seq) + ' and destruction' if seq else 'after destruction'
            for I, res, x in runs(run, R, 'close', sw):
                if res is None: R.unsure('close', sw, 'raises %s' % exc_name(x)); continue
                o, err, reach, errs, d = res
                steps = '; '.join(t[2] for t in I.trail if t[0] and t[2])
                w = what + (' (%s)' % steps if steps else '')
                ok = True
                os_ = opens(I)
                hs = getattr(I, 'nopen', 0)
                for n in range(1, hs + 1):
                    cl = [y for y in I.log if y[0] == 'close' and y[1] and isinstance(y[1][0], Abs) and y[1][0].t == ('handle', n)]
                    if len(cl) != 1:
                        ok = False
                        R.bad('close', sw, '%s the native watcher has been closed %s' % (w, 'more than once' if cl else 'never'))
                cls = [y for y in I.log if y[0] == 'close']
                for y in cls:
                    if y[1] and not isinstance(y[1][0], Abs) and y[1][0] not in (None, 0): ok = False; R.bad('close', sw, '%s: wtr_watcher_close is called with %r' % (w, y[1][0]))
                if errs and err is None:
                    ok = False
                    if errs[0][1] is None: R.bad('close', sw, errs[0][0])
                    else: R.bad('raise', sw, '%s: %s fails with %s' % (w, errs[0][0], errs[0][1]))
                if os_ and not hs and err is None: ok = False; R.bad('fail', sw, 'wtr_watcher_open fails and construction does not: the watcher seems to work and sees nothing')
                for y in os_:
                    e = y[1][0] if y[1] else None
                    if isinstance(e, Abs) and e.t[0] == 'encode' and (e.t[1] != ('watched path',) or e.t[3] not in ('strict', 'surrogateescape', 'surrogatepass')): ok = False; R.bad('path', sw, 'what is watched is %s, not the path which was given' % (e,))
                if d is not None: ok = False; R.bad('raise', sw, '%s: destruction fails with %s' % (w, exc_name(d)))
                for y in os_[:1]:
                    c = callback(y)
                    if c is None: continue
                    if hs and err is None and c.d['n'] not in reach: ok = False; R.bad('keep', sw, 'nothing holds on to the callback given to native code once the watcher has been made: it is freed while native code may call it')
                    for z in cls[:1]:
                        if c.d['n'] not in z[3]: ok = False; R.bad('keep', sw, '%s: the callback is let go of before the native watcher has been closed' % w)
                if ok: R.ok('close', sw + ': ' + what)
        # delivery
        for assoc in (False, True):
            for et, pt in [(e, 1) for e in range(6)] + [(2, p) for p in range(6)]:
                def run(I):
                    construct(I)
                    o = opens(I)
                    if not o or callback(o[0]) is None or not getattr(I, 'nopen', 0): return None
                    return deliver(I, callback(o[0]), et, pt, assoc)
                for I, res, x in runs(run, R, 'deliver', se):
                    if res is None: continue
                    us, e = res
                    why = '; '.join(t[2] for t in I.trail if t[0] and t[2])
                    if e is not None: R.bad('deliver', se, 'an event does not reach the user: %s%s' % (exc_name(e), ', as ' + why if why else '')); continue
                    if len(us) != 1: R.bad('deliver', se, 'an event reaches the user %d times%s' % (len(us), ', as ' + why if why else '')); continue
                    v = us[0][1][0] if us[0][1] else None
                    if not is_event(v): R.bad('deliver', se, 'the user is given %r rather than an event' % (v,)); continue
                    F = event_fields(I, et, pt, assoc)
                    bad = None
                    for n in ('effect_time', 'path_name', 'associated_path_name'):
                        y, w = v.d.get(n), F[n]
                        if w is None:
                            if y is not None: bad = '%s is %r when there is none' % (n, y)
                        elif n == 'effect_time':
                            if y != w: bad = '%s is %r' % (n, y)
                        else:
                            if isinstance(y, Abs) and y.t[0] == 'decode' and y.t[1] == w.t: pass
                            else: bad = '%s is %r' % (n, y)
                    for k, n, code in (('et', 'effect_type', et), ('pt', 'path_type', pt)):
                        want = next((x for x in NAMES[k] if C.get((k, x)) == code), None)
                        y = v.d.get(n)
                        if want and isinstance(y, Obj) and 'name' in y.d and y.d['name'] != want.upper(): bad = '%s is %s for an event with %s' % (n, y.d['name'], want)
                    if bad: R.bad('content', se, 'in the event given to the user, ' + bad)
                    else: R.ok('deliver', se)
        # one event after another, and a second watcher: what came before, and what else there is, makes no difference
        evs = [(2, 1, False), (2, 1, False), (0, 1, True), (1, 0, False), (0, 1, True), (0, 1, True)]
        def run(I):
            construct(I)
            o = opens(I)
            if not o or callback(o[0]) is None or not getattr(I, 'nopen', 0): return None
            return [deliver(I, callback(o[0]), *e) for e in evs]
        for I, res, x in runs(run, R, 'history', se):
            if res is None: continue
            for n, (us, e) in enumerate(res):
                if e is not None or len(us) != 1:
                    if n: R.bad('history', se, 'an event which follows others reaches the user %s' % ('never' if not us else '%d times' % len(us)))
                    break
                if any(us[0][1] and q[1] and us[0][1][0] is q[1][0] for q in [y[0][0] for y in res[:n]]): R.bad('history', se, 'two events are given to the user as one object: the first changes when the second comes'); break
            else: R.ok('history', se)
        for order in ((0, 1), (1, 0)):
            def run(I):
                o1, e1 = construct(I)
                if e1 is not None or not getattr(I, 'nopen', 0): return None
                I.self_ = None
                e2 = None
                try: I.call(I.globals.v['Watch'], [Abs(('watched path', 2), 'str', True), Ext('USER2')])
                except Raise as z: e2 = z.v
                o2 = I.self_
                if I.nopen != 2: return None
                if e2 is not None: return e2
                cs = [callback(y) for y in opens(I)]
                ws = [o1, o2]
                if None in cs or None in ws: return None
                out = []
                def holds(i):
                    I.self_ = ws[i]
                    out.append(('held', i, cs[i].d['n'] in I.events.alive(I)))
                def give(i):
                    us, e = deliver(I, cs[i], 2, 1, False)
                    out.append(('event', i, [y[2] for y in us], e))
                for i in (0, 1): holds(i); give(i)
                for j, i in enumerate(order):
                    I.self_ = ws[i]
                    n0 = len(I.log)
                    f = ws[i].cls.find('close')
                    e = None
                    if f is None: return None
                    try: I.call(Bound(f, ws[i]), [])
                    except Raise as z: e = z.v
                    out.append(('close', i, [y[1][0] if y[1] else None for y in I.log[n0:] if y[0] == 'close'], e))
                    if j == 0: holds(order[1]); give(order[1])
                return out
            nth = ('first', 'second')
            for I, res, x in runs(run, R, 'second watcher', sw):
                if res is None: continue
                if not isinstance(res, list): R.bad('second watcher', sw, 'a second Watch can not be made: %s' % exc_name(res)); continue
                for y in res:
                    if y[0] == 'held' and not y[2]: R.bad('second watcher', sw, 'with two watchers, nothing holds on to the callback of the %s: it is freed while native code may call it' % nth[y[1]]); break
                    if y[0] == 'event' and y[3] is not None: R.bad('second watcher', sw, 'with two watchers, an event of the %s does not reach the user: %s' % (nth[y[1]], exc_name(y[3]))); break
                    if y[0] == 'event' and y[2] != [('USER', 'USER2')[y[1]]]: R.bad('second watcher', sw, 'with two watchers, an event of the %s reaches %s' % (nth[y[1]], 'nobody' if not y[2] else 'the user of the other' if len(y[2]) == 1 else '%d callbacks' % len(y[2]))); break
                    if y[0] == 'close' and y[3] is not None: R.bad('second watcher', sw, 'with two watchers, closing the %s fails with %s' % (nth[y[1]], exc_name(y[3]))); break
                    if y[0] == 'close' and not (len(y[2]) == 1 and isinstance(y[2][0], Abs) and y[2][0].t == ('handle', y[1] + 1)): R.bad('second watcher', sw, 'with two watchers, closing the %s closes %r' % (nth[y[1]], y[2])); break
                else: R.ok('second watcher', sw)
        r.cover['analysed'] = [FILE]
    except build.BuildError as e: r.errors.append(str(e))
