"""C16-C19: names, JSON, times, copies and comparisons of events. Functions are evaluated abstractly, one by one."""
import json
import build, models
from evalfn import Ev
from vals import *
from core import ceval, decide, INF

TREES = ('devel', 'include')
FORMS = ('s', 'w', 'sv', 'wsv', 'os', 'wos')
NAMES = {'et': ('rename', 'modify', 'create', 'destroy', 'owner', 'other'),
         'pt': ('dir', 'file', 'hard_link', 'sym_link', 'watcher', 'other')}
KIND = {'et': 'effect type', 'pt': 'path type'}


class Report:
    def __init__(self, r, universe=None): self.r, self.tree = r, None
    def ok(self, rule, site, n=1): self.r.obligations.append((rule, site, n))
    def bad(self, rule, site, msg, **kw):
        v = dict(rule=rule, site=site, msg=msg, tree=self.tree or '-')
        v.update(kw)
        if v not in self.r.violations: self.r.violations.append(v)
    def unsure(self, rule, site, why): self.r.undecided.append((rule, site, why, self.tree or '-'))


class Collect:
    """the text written to streams"""
    def on_output(self, eng, st, stream, s, inst):
        st.mon['out'] = models.cat(st.mon.get('out') or mkstr(()), s)


def known_text(s):
    """the text, or None"""
    if isinstance(s, Str) and all(isinstance(x, bytes) for x in s.p): return b''.join(s.p).decode('utf-8', 'replace')
    return None


def result_str(E, s, form):
    """what a conversion left behind, for the given form"""
    if form in ('os', 'wos'): return s.mon.get('out') or mkstr(())
    o = s.mem.get(('root', 'out'))
    if o is None: return None
    if form in ('sv', 'wsv'):
        n, p = o.cells.get(0), o.cells.get(8)
        if n is None or p is None or not isinstance(n[1], int): return None
        t = models.cstr(E.eng, s, p[1])
        if n[1] == 0: return mkstr(())
        k = known_text(t)
        return mkstr([k.encode()[:n[1]]]) if k is not None and len(k) >= n[1] else t if k is None else mkstr([k.encode() + b'\0' * (n[1] - len(k))])
    c = o.cells.get(0)
    return c[1] if c is not None and isinstance(c[1], Str) else None


def functions(E): return sorted(E.eng.reached)


def cover(r, E, extra=None):
    r.cover.setdefault('functions', [])
    r.cover['functions'] = sorted(set(r.cover['functions']) | set(E.eng.reached))
    r.cover.setdefault('runs', []).append(dict(tree=E.tree, unit=E.unit, steps=E.eng.steps, unmodelled=sorted(E.eng.unmodelled)[:20]))


# ---------------------------------------------------------------- C16
def c16(r, tier):
    r.rule = ('Abstract evaluation of every conversion of effect and path types (string, wide string, views, narrow and wide streams) for each enumerator and for an '
              'arbitrary other value: the text must be the documented name; and of the name tables of the Python, Node.js and Rust bindings, each of which must give the '
              'like-named name (Node.js in camel case).')
    R = Report(r)
    for tree in TREES:
        R.tree = tree
        try: E = Ev('lib', tree, hooks=[Collect()])
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        for t in ('et', 'pt'):
            enum = E.w.et if t == 'et' else E.w.pt
            site = 'event::%s' % ('effect_type' if t == 'et' else 'path_type')
            for n in NAMES[t]:
                if n not in enum: R.bad('name-missing', site, 'there is no %s named %s' % (KIND[t], n))
            used = set(enum.values())
            if len(used) != len(enum): R.bad('same-code', site, 'two %ss have the same value: %s' % (KIND[t], sorted(enum.items(), key=lambda x: x[1])))
            cases = [(v, n) for n, v in enum.items()]
            other = [x for x in (-1, max(used) + 1, 0x7fffffff, -0x80000000) if x not in used]
            for form in FORMS:
                f = 'drv_%s_%s' % (t, form)
                for v, name in cases + [(x, 'other') for x in other]:
                    try: got = evaluate(E, f, v, form)
                    except Exception as e:
                        R.unsure('name', f, repr(e)[:200]); continue
                    what = 'to_string' if form in ('s', 'w') else 'view' if form in ('sv', 'wsv') else 'stream'
                    s2 = '%s as %s%s' % (site, 'wide ' if form[0] == 'w' else '', what)
                    for g in got:
                        k = known_text(g)
                        if k is None: R.unsure('name', s2, 'result not known for %s: %r' % (v, g))
                        elif k != name:
                            R.bad('name', s2, 'the %s %s is called "%s"' % (KIND[t], name if (v, name) in cases else 'with the unknown code %d' % v, k))
                        else: R.ok('name', '%s: %s' % (s2, name))
        cover(r, E)
    R.tree = None
    import chk_bind
    chk_bind.names(r, R)


def evaluate(E, f, v, form):
    st = E.state(out=None)
    o = E.obj(st, 'out', 64)
    out = []
    for s, _ in E.call(f, [o, v & 0xffffffff], st):
        g = result_str(E, s, form)
        if g is None: raise ValueError('no result')
        if g not in out: out.append(g)
    return out


# ---------------------------------------------------------------- C18
def digits_of(s):
    """[('digit', x, n, i)] of a string, piece by piece; None where a piece is something else"""
    out = []
    for x in s.p:
        if isinstance(x, bytes): out += list(x)
        elif x[0] == 'byte' and isinstance(x[1], (Sym, Term, Lin)) and len(x[1].syms) >= 1:
            ds = [y for y in x[1].syms if isinstance(y.name, tuple) and y.name[0] == 'digit']
            if len(ds) != 1: return None
            d = ds[0]
            try: same = all(ceval(x[1], {d: c}) == c for c in (45,) + tuple(range(48, 58)))
            except KeyError: return None
            if not same: return ('changed', d.name)
            out.append(d)
        elif x[0] == 'slice' and len(s.p) == 1 and isinstance(x[2], int):
            inner = digits_of(mkstr(x[1].p[:x[2]]) if len(x[1].p) > 1 else x[1])
            if not isinstance(inner, list): return inner
            return inner[:x[2]] + ['?'] * (x[2] - len(inner))
        else: return None
    return out


def sgn(v, w=64):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def c18(r, tier):
    r.rule = ('Abstract evaluation of the conversion of an arbitrary 64-bit time to narrow and wide strings. std::to_chars yields one of 1 to 20 characters; for each length '
              'the result must hold exactly these characters, in order, each unchanged, and the conversion must never give up.')
    R = Report(r)
    for tree in TREES:
        R.tree = tree
        try: E = Ev('lib', tree)
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        E.eng.digits = tuple(range(1, 21))
        x = sym(('arg', 'time'), 64, signed=True)
        for form in ('s', 'w'):
            f = 'drv_tm_' + form
            site = 'to<%s>(effect_time)' % ('std::string' if form == 's' else 'std::wstring')
            st = E.state()
            o = E.obj(st, 'out', 64)
            st.mon['keep'] = x
            try: outs = E.call(f, [o, x], st)
            except Exception as e:
                R.unsure('digits', site, repr(e)[:200]); continue
            seen = set()
            for s, _ in outs:
                g = result_str(E, s, form)
                if g is None:
                    R.unsure('digits', site, 'no result'); continue
                if len(g.p) == 1 and isinstance(g.p[0], tuple) and g.p[0][0] == 'dec' and x in g.p[0][1].syms:          # to_string and the like
                    if g.p[0][1] == x: R.ok('digits', site); seen |= set(E.eng.digits); continue
                    try: diff = [v for v in (0, 7, -1, 10**10, -10**10, 2**62 + 3) if sgn(ceval(g.p[0][1], {x: v})) != v]
                    except Exception: diff = None
                    if diff: R.bad('digits', site, 'what is converted is not the number itself: %r' % (g.p[0][1],)); continue
                d = digits_of(g)
                if d is None: R.unsure('digits', site, 'result not understood: %r' % (g,)); continue
                if isinstance(d, tuple):
                    R.bad('digits', site, 'a character of the number is changed by the conversion'); continue
                ds = [y for y in d if isinstance(y, Sym)]
                if not ds:
                    R.bad('digits', site, 'for some numbers, the result is %r' % bytes(d)); continue
                n = ds[0].name[2]
                if ds[0].name[1] != x: R.bad('digits', site, 'what is converted is not the number itself: %r' % (ds[0].name[1],)); continue
                want = [sym(('digit', x, n, i), 8, lo=45, hi=57) for i in range(n)]
                if d != want: R.bad('digits', site, 'for numbers of %d characters, the result is %s' % (n, show(d)))
                else:
                    seen.add(n); R.ok('digits', '%s, %d characters' % (site, n))
            if not any(v['site'] == site and v['tree'] == tree for v in r.violations) and not any(u[1] == site for u in r.undecided):
                for n in E.eng.digits:
                    if n not in seen: R.bad('digits', site, 'numbers of %d characters have no result' % n)
        cover(r, E)


def show(d):
    out = ''
    for y in d: out += 'd%d ' % y.name[3] if isinstance(y, Sym) else '? ' if y == '?' else '%r ' % chr(y)
    return out.strip()


# ---------------------------------------------------------------- transductions
class Unknown(Exception): pass


def chars_in(x, out):
    if isinstance(x, Val):
        for y in x.syms:
            if isinstance(y.name, tuple) and y.name[0] == 'char': out.add(y)
    elif isinstance(x, tuple):
        for y in x: chars_in(y, out)


def admits(s, c, v):
    """may the character c have the value v in state s?"""
    env = {c: v}
    def only(k): return isinstance(k, Val) and k.syms and k.syms <= {c} | c.syms and c in k.syms
    for k, (l, h) in s.rng.items():
        if only(k):
            try: x = ceval(k, env)
            except Exception: continue
            if isinstance(k, Sym): x = v
            if not (l <= x <= h): return False
    for k, d in s.fin.items():
        if k is c and v not in d: return False
    for k, e in s.ne.items():
        if only(k):
            try: x = ceval(k, env)
            except Exception: continue
            if x in e: return False
    for k, t in s.bt.items():
        if only(k):
            try: x = ceval(k, env)
            except Exception: continue
            if x != t: return False
    return True


def emitted(ext, c, v, w):
    """characters appended for the character c of value v; raises Unknown"""
    out = []
    for x in ext:
        if isinstance(x, bytes): out += list(x)
        elif x[0] == 'byte':
            if x[1] is c: out.append(v & ((1 << w) - 1)); continue
            try: out.append(ceval(x[1], {c: v}) & ((1 << w) - 1))
            except Exception: raise Unknown('piece %r' % (x,))
        elif x[0] == 'hex':
            try: out += list((x[2] % ceval(x[1], {c: v})).encode())
            except Exception: raise Unknown('piece %r' % (x,))
        else: raise Unknown('piece %r' % (x,))
    return out


def transduction(eng, acc, final):
    """what a loop over a string makes of it: (source, width, function value -> set of outputs)"""
    tr = eng.trans.get(acc)
    if not tr: raise Unknown('no transitions')
    cs = set()
    for a, v, ext, first, mA, s in tr:
        chars_in(ext, cs)
        for f in (s.rng, s.ne, s.fin, s.bt):
            for k in f: chars_in(k, cs)
    srcs = {c.name[1] for c in cs}
    if len(srcs) != 1: raise Unknown('sources: %r' % (srcs,))
    src, = srcs
    base = eng.accbase.get(acc)
    init = {}
    for a, v, ext, first, mA, s in tr:
        for W, x in first.items():
            if x != W: init.setdefault(W, x)

    def start(W, a, first):
        return first.get(W) if a.p == (acc,) else init.get(W)
    cs1 = next(iter(cs))
    cur = None
    for W in acc[-1]:
        steps = set()
        good = True
        for a, v, ext, first, mA, s in tr:
            if W not in mA: good = False; break
            x = start(W, a, first)
            if x is None or isinstance(x, int) and x != 0: good = False; break
            d = ladd(mA[W], x, 64, 1, -1)
            if not isinstance(d, int): good = False; break
            steps.add(d)
        if good and len(steps) == 1 and (st := steps.pop()) > 0:
            cur = (W, st); break
    if cur is None: raise Unknown('no cursor')
    W, step = cur
    u = None
    for c in cs:
        for a, v, ext, first, mA, s in tr:
            for k in (1, c.w // 8):
                if c.name[2] == lmul(start(W, a, first), k, 64): u = max(u or 1, k) if c.name[2] != 0 or u is None else u
    if u is None or u * step != cs1.w // 8: raise Unknown('how the characters are gone through')
    moves = []
    w = None
    for a, v, ext, first, mA, s in tr:
        here = set()
        chars_in(ext, here)
        for f in (s.rng, s.ne, s.fin, s.bt):
            for k in f: chars_in(k, here)
        now = {c for c in here if c.name[2] == lmul(start(W, a, first), u, 64)}
        if len(now) > 1: raise Unknown('characters of several widths')
        mine = set(); chars_in(ext, mine)
        if mine - now: raise Unknown('characters other than the current one: %r' % (mine - now,))
        c = now.pop() if now else None
        if c is not None: w = c.w
        if (c, ext, s) not in moves: moves.append((c, ext, s))
    n = models.slen(src)
    end = final.range(ladd(lmul(n, step, 64), W, 64, 1, -1)) if isinstance(n, (Sym, Lin)) else (1, 1)
    within = all(s.range(ladd(lmul(n, step, 64), mA[W], 64, 1, -1))[0] >= 0 for a, v, ext, first, mA, s in tr) if isinstance(n, (Sym, Lin)) else False
    return src, w, moves, base, end == (0, 0) or within and end[1] <= 0


def json_escaped(eng, acc, final):
    """is what the loop makes of its source the inside of a JSON string which stands for it? -> (source, [problems])"""
    src, w, moves, base, whole = transduction(eng, acc, final)
    if base is not None and base.p: raise Unknown('base %r' % (base,))
    probs = []
    dom = list(range(0, 128)) + ([x for x in range(-128, 0)] if w == 8 else [0x80, 0xff, 0x100, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff])
    for v in dom:
        outs = []
        for c, ext, s in moves:
            if c is not None and not admits(s, c, v): continue
            o = bytes_or(emitted(ext, c, v, w))
            if o not in outs: outs.append(o)
        name = 'the character 0x%02x' % (v & ((1 << w) - 1)) + (" (%s)" % chr(v) if 32 < v < 127 else '')
        if not outs:
            probs.append('%s is left out' % name); continue
        def good(o):
            if w == 8 and v < 0: return o == chr(v & 0xff)      # a part of a character
            try: return json.loads('"' + o + '"') == chr(v & ((1 << w) - 1))
            except ValueError: return False
        res = [good(o) for o in outs]
        if all(res): continue
        if any(res): raise Unknown('%s has several outcomes' % name)
        probs.append('%s becomes %s' % (name, outs[0].encode('unicode_escape').decode()))
    if not whole: raise Unknown('whether the whole of the path is converted')
    return src, probs


def bytes_or(cs): return ''.join(chr(c) if c < 0x110000 else '?' for c in cs)


def identity(eng, acc, final):
    src, w, moves, base, whole = transduction(eng, acc, final)
    if not whole or base is not None and base.p: raise Unknown('parts')
    for c, ext, s in moves:
        if len(ext) != 1 or ext[0] != ('byte', c): raise Unknown('not a copy')
    return src


class Render:
    """text of an abstract string in which times and paths have become recognisable"""
    def __init__(self, eng, st, digit_env):
        self.eng, self.st, self.env = eng, st, digit_env
        self.probs = []

    def text(self, s):
        out = []
        for x in s.p:
            if isinstance(x, bytes): out.append(x.decode('utf-8', 'replace'))
            elif x[0] == 'dec': out.append(self.env('dec', x[1]))
            elif x[0] == 'num': out.append(self.env('dec', x[1]))
            elif x[0] == 'byte' and isinstance(x[1], Val):
                ds = [y for y in x[1].syms if isinstance(y.name, tuple) and y.name[0] == 'digit']
                if len(ds) != 1: raise Unknown('piece %r' % (x,))
                d = ds[0]
                t = self.env('dec', d.name[1])
                out.append(chr(ceval(x[1], {d: ord(t[d.name[3] % len(t)])})))
            elif x[0] == 'acc':
                src, probs = json_escaped(self.eng, x, self.st)
                self.probs += probs
                out.append(self.path(src, True))
            elif x[0] == 'PATH': out.append(self.path(mkstr((x,)), False))
            else: raise Unknown('piece %r' % (x,))
        return ''.join(out)

    def path(self, src, escaped):
        if len(src.p) != 1 or src.p[0][0] != 'PATH': raise Unknown('path from %r' % (src,))
        if not escaped: self.probs.append('the path is put into the JSON as it is: a quote, a backslash or a control character in it makes it malformed')
        return '<path %s>' % src.p[0][1]


def pairs(kv):
    d = dict(kv)
    if len(d) != len(kv): d['!'] = 'the same name twice'
    return d


TIMES = {}


def time_text(kind, x):
    return TIMES.setdefault(x, '%d' % (1111111111111111111 * (len(TIMES) + 1)))


def event_obj(E, st, name, et, pt, t, assoc=0):
    off = {k: v[0] for k, v in E.w.ev_off.items()}
    path = mkstr((('PATH', name),))
    return E.obj(st, name, 64, {off['path_name']: (40, path), off['effect_type']: (4, et), off['path_type']: (4, pt),
                                off['effect_time']: (8, t), off['associated']: (8, assoc)})


def check_json(R, E, runs, site, wrap, want):
    """runs: final states with a string; want(state) -> the structure expected"""
    n = 0
    for s, g in runs:
        if g is None: R.unsure('json', site, 'no result'); continue
        rd = Render(E.eng, s, time_text)
        try: text = rd.text(g)
        except Unknown as e:
            R.unsure('json', site, str(e)[:200]); continue
        for p in dict.fromkeys(rd.probs): R.bad('escape', site, p)
        if rd.probs: continue
        try: v = json.loads('{' + text + '}' if wrap else text, object_pairs_hook=pairs)
        except ValueError as e:
            R.bad('well-formed', site, 'not JSON (%s): %s' % (e, text)); continue
        w = want(s)
        if v != w: R.bad('content', site, 'the event is written as %s, which is not %s' % (json.dumps(v), json.dumps(w)))
        else: n += 1; R.ok('json', site)
    return n


def path_of(s, name):
    n = models.slen(mkstr((('PATH', name),)))
    return '' if s.range(n) == (0, 0) else '<path %s>' % name


def c17(r, tier):
    r.rule = ('Abstract evaluation of the conversions of an event with an arbitrary path (of any length, of any bytes), time and associated event to text: the loop which copies '
              'a path is summarised as what it appends for each character value, which must be the inside of a JSON string standing for that character; the pieces put together '
              'must parse as JSON and hold this event\'s own fields, the associated event exactly when there is one.')
    R = Report(r)
    for tree in TREES:
        R.tree = tree
        try: E = Ev('lib', tree, hooks=[Collect()])
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        for form in ('s', 'w', 'os', 'wos'):
            site = 'event as %s%s' % ('wide ' if form[0] == 'w' else '', 'string' if form in ('s', 'w') else 'stream')
            combos = [(e, 'file', None, None) for e in E.w.et] + [('create', p, None, None) for p in E.w.pt] + \
                [('create', 'dir', e, 'file') for e in E.w.et] + [('modify', 'dir', 'rename', p) for p in E.w.pt]
            for et, pt, aet, apt in combos:
                E.eng.digits = (19,)
                E.eng.trans.clear(); E.eng.accbase.clear()
                st = E.state(out=None)
                o = E.obj(st, 'out', 64)
                t, ta = sym(('arg', 'time'), 64, signed=True), sym(('arg', 'associated time'), 64, signed=True)
                a = event_obj(E, st, 'b', E.w.et[aet], E.w.pt[apt], ta) if aet else 0
                ev = event_obj(E, st, 'a', E.w.et[et], E.w.pt[pt], t, a)
                st.mon['keep'] = (t, ta, models.slen(mkstr((('PATH', 'a'),))), models.slen(mkstr((('PATH', 'b'),))))
                try: outs = E.call('drv_ev_' + form, [o, ev], st)
                except Exception as e:
                    R.unsure('json', site, repr(e)[:200]); continue
                def want(s):
                    d = {'effect_type': et, 'path_name': path_of(s, 'a'), 'path_type': pt}
                    if aet: d['associated'] = {'effect_type': aet, 'path_name': path_of(s, 'b'), 'path_type': apt}
                    return {time_text('dec', t): d}
                check_json(R, E, [(s, result_str(E, s, form)) for s, _ in outs], site, True, want)
        cover(r, E)
    import chk_cli
    chk_cli.json_lines(r, R)
    import chk_py
    R.tree = None
    chk_py.json_text(r, R)


# ---------------------------------------------------------------- C19
FIELDS = ('path_name', 'effect_type', 'path_type', 'effect_time', 'associated')


def fields_of(E, s, p, seen=()):
    """the fields of the event at p in state s, the associated one followed; raises Unknown"""
    off = E.w.ev_off
    if not isinstance(p, P) or not isinstance(p.off, int): raise Unknown('where the event is')
    o = s.mem.get(p.obj)
    if o is None: raise Unknown('no event there')
    d = {'at': (p.obj, p.off)}
    for f in FIELDS:
        c = o.cells.get(p.off + off[f][0])
        d[f] = c[1] if c is not None else UNDEF
    a = d['associated']
    if isinstance(a, P):
        if a.obj in seen: raise Unknown('a circle of events')
        d['associated'] = fields_of(E, s, a, seen + (p.obj,))
    elif a != 0: raise Unknown('the associated event: %r' % (a,))
    return d


def differences(got, want, where=''):
    """names of the fields which differ; 'time' None in want: not compared"""
    out = []
    for f in FIELDS:
        g, w = got[f], want[f]
        if f == 'effect_time' and w is None: continue
        if f == 'associated':
            if w == 0 or g == 0:
                if not (w == 0 and g == 0): out.append(where + f)
            else:
                out += differences(g, w, where + 'associated ')
        elif g != w: out.append(where + f)
    return out


def places(d):
    return {d['at']} | (places(d['associated']) if isinstance(d['associated'], dict) else set())


def c19(r, tier):
    r.rule = ('Abstract evaluation of the constructors of event over arbitrary fields (and an associated event which may have one of its own): every field of the result must be the '
              'one given, and no part be shared; and of == and != over pairs of events which agree in everything or differ in one chosen field, at either level: the result must be '
              'decided and right in every case.')
    R = Report(r)
    for tree in TREES:
        R.tree = tree
        try: E = Ev('lib', tree, hooks=[Collect()])
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue

        def fsym(n, k): return sym(('arg', n + ' ' + k), 64 if k == 'time' else 32, signed=True)

        def event(st, n, depth):
            a = event(st, n + "'", depth - 1) if depth else 0
            return event_obj(E, st, n, fsym(n, 'effect'), fsym(n, 'type'), fsym(n, 'time'), a)

        def expect(n, depth, time=True):
            return dict(path_name=mkstr((('PATH', n),)), effect_type=fsym(n, 'effect'), path_type=fsym(n, 'type'), effect_time=fsym(n, 'time') if time else None,
                        associated=expect(n + "'", depth - 1) if depth else 0)

        def judge(rule, site, fn_, args, st, want, originals):
            try: outs = E.call(fn_, args, st)
            except Exception as e:
                R.unsure(rule, site, repr(e)[:200]); return
            if not outs: R.unsure(rule, site, 'no way out')
            for s, _ in outs:
                try: got = fields_of(E, s, ptr(('root', 'new'), 0))
                except Unknown as e:
                    R.unsure(rule, site, str(e)); continue
                d = differences(got, want)
                undef = [x for x in d if x.split()[-1] != 'associated' and value_at(got, x) is UNDEF]
                if d: R.bad(rule, site, 'the new event does not hold what it was given: %s %s' % (', '.join(d), 'is not set' if undef else 'differs' if len(d) == 1 else 'differ'))
                shared = places(got) & originals
                if shared: R.bad('shared', site, 'the new event shares its associated event with the one it was made from')
                if not d and not shared: R.ok(rule, site)
        for depth in (0, 1, 2):
            st = E.state()
            e = event(st, 'a', depth)
            new = E.obj(st, 'new', 64)
            site = 'copy of an event with %s' % ('no associated event', 'an associated event', 'two levels of associated events')[depth]
            judge('copy', site, 'drv_ev_copy', [new, e], st, expect('a', depth), {(('root', "a" + "'" * i), 0) for i in range(depth + 1)})
            st = E.state()
            a, b = event(st, 'a', 0), event(st, 'b', depth)
            new = E.obj(st, 'new', 64)
            w = expect('a', 0, time=False)
            w['associated'] = expect('b', depth)
            judge('parts', 'event(event, associated)', 'drv_ev_pair', [new, a, b], st, w, {(('root', 'a'), 0)} | {(('root', "b" + "'" * i), 0) for i in range(depth + 1)})
        st = E.state()
        new = E.obj(st, 'new', 64)
        p = E.obj(st, 'p', 40, {0: (40, mkstr((('PATH', 'a'),)))})
        st.mon['keep'] = (fsym('a', 'effect'), fsym('a', 'type'))
        judge('parts', 'event(path, effect, type)', 'drv_ev_parts', [new, p, fsym('a', 'effect'), fsym('a', 'type')], st, expect('a', 0, time=False), set())
        # comparisons
        base = dict(path=b'x/a', et=2, pt=1, t=1234567890123456789)
        changes = [('path', v) for v in (b'', b'x', b'x/b', b'x/ab', b'y/a', b'X/A')] + [('et', v) for v in range(6) if v != 2] + [('pt', v) for v in range(6) if v != 1] + \
            [('t', base['t'] ^ 1 << k) for k in range(64)]

        def build_ev(st, n, f, assoc):
            off = {k: v[0] for k, v in E.w.ev_off.items()}
            return E.obj(st, n, 64, {off['path_name']: (40, mkstr((f['path'],))), off['effect_type']: (4, f['et']), off['path_type']: (4, f['pt']), off['effect_time']: (8, f['t'] & (1 << 64) - 1),
                                     off['associated']: (8, assoc)})

        def compare(site, l, r_, la, ra, equal, what):
            for fn_, want in (('drv_ev_eq', equal), ('drv_ev_ne', not equal)):
                st = E.state()
                lp = build_ev(st, 'l', l, build_ev(st, 'la', la, 0) if la else 0)
                rp = build_ev(st, 'r', r_, build_ev(st, 'ra', ra, 0) if ra else 0)
                E.eng.budget = E.eng.steps + 500000
                s2 = ('==' if fn_ == 'drv_ev_eq' else '!=') + ' of events ' + site
                try: outs = E.call(fn_, [lp, rp], st)
                except Exception as e:
                    R.unsure('compare', s2, repr(e)[:200]); continue
                for s, v in outs:
                    if not isinstance(v, int): R.unsure('compare', s2, 'result %r' % (v,))
                    elif bool(v) != want: R.bad('compare', s2, 'for events which %s, the result is %s' % (what, bool(v) and 'true' or 'false'))
                    else: R.ok('compare', s2)
        words = dict(path='their paths', et='their effect types', pt='their path types', t='their times')
        other = dict(path=b'z', et=0, pt=0, t=5)
        for la in (None, other):
            tag = 'with associated events' if la else 'without associated events'
            compare(tag, base, base, la, la, True, 'agree in everything')
            for k, v in changes:
                compare(tag, base, dict(base, **{k: v}), la, la, False, 'differ in %s' % words[k])
                compare(tag, dict(base, **{k: v}), base, la, la, False, 'differ in %s' % words[k])
        compare('of which one has an associated event', base, base, None, other, False, 'differ in whether they have an associated event')
        compare('of which one has an associated event', base, base, other, None, False, 'differ in whether they have an associated event')
        for k, v in changes:
            compare('with associated events', base, base, base, dict(base, **{k: v}), False, 'have associated events which differ in %s' % words[k])
        # any event equals itself, whatever it holds
        for depth in (0, 1):
            for fn_, want in (('drv_ev_eq', 1), ('drv_ev_ne', 0)):
                st = E.state()
                a, c = event(st, 'a', depth), event(st, 'a', depth)
                st.mem[('root', 'twin')] = st.mem[('root', 'a')]
                for s, v in E.call(fn_, [a, ptr(('root', 'twin'), 0)], st):
                    if not isinstance(v, int): R.unsure('compare', 'equal events', 'result %r' % (v,))
                    elif v != want: R.bad('compare', 'equal events', 'two events with the same fields do not compare equal')
                    else: R.ok('compare', 'equal events')
        cover(r, E)


def value_at(d, name):
    for x in name.split()[:-1]:
        d = d[x] if isinstance(d, dict) else UNDEF
    return d.get(name.split()[-1]) if isinstance(d, dict) else UNDEF
