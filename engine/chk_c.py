"""C20-C22: the C interface over the watcher. wtr_watcher_open and wtr_watcher_close are evaluated abstractly, with the class watch replaced by a record of what is done to it."""
import build, models, core
from evalfn import Ev, Shared
from vals import *
from chk_event import Report, cover, event_obj, NAMES, Unknown
from llir import int_ty, PTR as PTRTY

CEV = '_ZTS17wtr_watcher_event'
CTX = 'context'


class Log:
    """what happens to watchers, to the user's function and to the heap"""
    def add(self, st, *x): st.mon['log'] = st.mon.get('log', ()) + (x,)
    def on_free(self, eng, st, how, p, inst):
        if isinstance(p, P): self.add(st, 'free', how, p.obj, p.off)
    def on_alloc(self, eng, st, how, p, inst): self.add(st, 'alloc', how, p.obj)
    def bad_access(self, eng, st, kind, p, size, inst): self.add(st, 'bad', kind, repr(p)[:80], eng.site(st, inst))


def watch_models(E, log, onctor=None):
    """stand-ins for the members of class watch"""
    eng = E.eng
    names = {}
    for n in E.m.funcs:
        b = eng.base(n)
        if b.startswith('wtr::') and b.split('::')[-2:] in (['watch', 'watch'], ['watch', 'close'], ['watch', '~watch']): names.setdefault(b, b.split('::')[-1])
    def ctor(e, st, c):
        log.add(st, 'watch', c.args[0], )
        if onctor: onctor(st, c)
        return [(st, None)]
    def close(e, st, c):
        st.mon['nclose'] = k = st.mon.get('nclose', 0) + 1
        r = sym(('close', k), 1, dom=(0, 1))
        log.add(st, 'close', c.args[0], r)
        return [(st, r)]
    def dtor(e, st, c):
        log.add(st, '~watch', c.args[0])
        return [(st, None)]
    for b, k in names.items(): eng.models['repo:' + b] = {'watch': ctor, 'close': close, '~watch': dtor}[k]
    return names


def opened(E, log, R, callback='CCB'):
    """[(state after wtr_watcher_open, handle, [(state when the watcher is made, path, callback object)])]"""
    made = []
    def onctor(st, c): made.append((st.clone(), c.args[0], c.args[1], c.args[2] if len(c.args) > 2 else None))
    watch_models(E, log, onctor)
    st = E.state(log=())
    p = ptr(('cs', mkstr((('CPATH',),)), None, 0), 0)
    ctx = sym((CTX,), 64)
    st.mon['keep'] = ctx
    return E.call('wtr_watcher_open', [p, fn(callback), ctx], st), made, ctx


def opened_again(E, log, s, h, callback, made, n=2):
    """a further watcher, in state s where the one behind h is open"""
    s = s.clone()
    s.mon['log'] = (); s.stack = (); s.keep = ()
    ctx = sym((CTX + str(n),), 64)
    s.mon['keep'] = (s.mon.get('keep'), ctx, h)
    for o in [o for o in s.mem if o[0] == 'a']: s.mem.pop(o)
    k = len(made)
    p = ptr(('cs', mkstr((('CPATH%d' % n,),)), None, 0), 0)
    E.eng.budget = E.eng.steps + 2000000
    outs = E.call('wtr_watcher_open', [p, fn(callback), ctx], s)
    return outs, made[k:], ctx


def bring(s, s0, p):
    """(state s with a copy of the callback object at p in s0, and of what it owns; where the copy is): what the watcher keeps"""
    ids = {o: ('h', ('kept', n)) for n, o in enumerate([p.obj] + sorted((x for x in holds(None, s0, p) if x != p.obj), key=repr)) if o in s0.mem}
    for o, n in ids.items():
        ob = s0.mem[o].clone(None)
        for k, c in list(ob.cells.items()):
            if isinstance(c[1], P) and c[1].obj in ids: ob.cells[k] = (c[0], ptr(ids[c[1].obj], c[1].off)) + tuple(c[2:])
        s.mem[n] = ob
        s.own.add(n) if isinstance(s.own, set) else None
    return s, ptr(ids.get(p.obj, p.obj), p.off)


def c20(r, tier):
    r.rule = ('Abstract evaluation of wtr_watcher_open up to the construction of the watcher, then of the callback object it hands over, for an event with arbitrary path, time and each effect and '
              'path type, with and without an associated event, from a context which is any pointer: the C callback must be called exactly once, with that context and a view whose fields are the '
              'event\'s (types as the constant of the like name), and whose strings lie in objects alive at that point.')
    R = Report(r)
    for tree in ('devel', 'include'):
        R.tree = tree
        log = Log()
        try: E = Ev('c', tree, hooks=[log])
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        off = E.m.members(CEV)
        if not off:
            r.errors.append('%s: no struct wtr_watcher_event' % tree); continue
        codes = c_codes(tree)
        site = 'callback of wtr_watcher_open'
        sh = Shared()
        E.eng.hooks.append(sh)
        def user(name):
            def ccb(e, st, c):
                st.mon['calls'] = st.mon.get('calls', 0) + 1
                st.mon['view'] = view(E, st, c, off)
                st.mon['which'] = name
                return [(st, None)]
            return ccb
        for name in ('CCB', 'CCB2'): E.eng.models[name] = user(name)
        try: outs, made, ctx = opened(E, log, R)
        except Exception as e:
            R.unsure('open', site, repr(e)[:300]); continue
        if not made: R.bad('open', 'wtr_watcher_open', 'no watcher is made'); continue

        def deliver(s0, cb, ctx, name, et, pt, assoc, nm=('a', 'b'), when=''):
            """the states after an event; says what is wrong"""
            cbp = E.eng.as_ptr(cb, s0)
            inv = E.eng.raw_load(s0, E.eng.addoff(cbp, 24), PTRTY) if isinstance(cbp, P) else None
            if not isinstance(inv, Fn): R.unsure('deliver', site, 'callback object %r' % (inv,)); return []
            st = s0.clone()
            st.mon['log'] = (); st.mon['calls'] = 0
            t = sym(('arg', 'time') + nm[2:], 64, signed=True)
            a = event_obj(E, st, nm[1], 0, 0, sym(('arg', 'associated time') + nm[2:], 64), 0) if assoc else 0
            ev = event_obj(E, st, nm[0], E.w.et[et], E.w.pt[pt], t, a)
            st.mon['keep'] = (st.mon.get('keep'), ctx, t)
            E.eng.budget = E.eng.steps + 2000000
            sh.on = True
            try: res = E.eng.call_named(inv.name, [cbp, ev], None, {}, st)
            except Exception as e:
                R.unsure('deliver', site, repr(e)[:300]); return []
            finally: sh.on = False
            sh.report(R, 'shared', site, 'the callback of a watcher')
            good = []
            for s, _ in res:
                n = s.mon.get('calls', 0)
                if n != 1:
                    R.bad('once', site, 'the C callback is called %s for an event%s%s' % ('not at all' if not n else '%d times' % n, ' with an associated event' if assoc else '', when)); continue
                if s.mon['which'] != name: R.bad('context', site, 'an event%s is given to the callback of another watcher' % when); continue
                v = s.mon['view']
                if isinstance(v, str): R.unsure('view', site, v); continue
                v = dict(v)
                want = dict(effect_time=t, path_name=mkstr((('PATH', nm[0]),)), associated_path_name=mkstr((('PATH', nm[1]),)) if assoc else 0,
                            effect_type=codes.get(('et', et)), path_type=codes.get(('pt', pt)))
                for f, w in want.items():
                    if f not in v: R.bad('view', site, 'the C event has no field %s' % f); continue
                    g = v[f]
                    if g == w and w is not None: R.ok('view', '%s: %s' % (site, f)); continue
                    if w is None: continue         # reported by C22
                    if g == 'dead': R.bad('alive', site, '%s points to a string which no longer exists when the callback is called%s' % (f, when))
                    elif isinstance(g, tuple) and len(g) == 1 and isinstance(g[0], Str) and g[0] != w and isinstance(w, Str): R.bad('alive', site, '%s points into a string which has been given another value by the time the callback is called%s' % (f, when))
                    elif isinstance(g, tuple): R.unsure('view', site, '%s is %r%s' % (f, g, when))
                    elif f in ('effect_type', 'path_type') and isinstance(g, int): R.bad('view', site, '%s of %s is %d, which is not the constant %d' % (f, et if f == 'effect_type' else pt, g, w))
                    else: R.bad('view', site, '%s of the C event is not that of the event%s: %s' % (f, when, 'not set' if g is UNDEF else 'null' if g == 0 else g))
                if v['context'] != ctx: R.bad('context', site, 'the callback gets another context than the one given to open%s' % when)
                else: R.ok('context', site)
                good.append(s)
            return good

        for s0, this, path, cb in made[:]:
            combos = [(e, 'file', 0) for e in E.w.et] + [('create', p, 0) for p in E.w.pt] + [('rename', p, 1) for p in E.w.pt] + [(e, 'dir', 1) for e in E.w.et]
            for et, pt, assoc in combos: after = deliver(s0, cb, ctx, 'CCB', et, pt, assoc)
            # what an event leaves behind must not show in the next
            for s1 in deliver(s0, cb, ctx, 'CCB', 'rename', 'dir', 1, ('old', 'old associated', 'old'))[:2]:
                for o in [o for o in s1.mem if o[0] == 'a' and o not in s0.mem]: s1.mem.pop(o)
                for o in [('root', 'old'), ('root', 'old associated')]: s1.mem.pop(o, None)
                for et, pt, assoc in (('create', 'file', 0), ('rename', 'file', 1), ('destroy', 'sym_link', 0)): deliver(s1, cb, ctx, 'CCB', et, pt, assoc, when=' after another event')
        # two watchers
        first = list(made)
        for s, h in outs[:1]:
            cb = next((x[3] for x in first if isinstance(x[3], P)), None)
            sA = first[-1][0]
            try: o2, m2, ctx2 = opened_again(E, log, s, h, 'CCB2', made)
            except Exception as e:
                R.unsure('open', site, 'a second watcher: %r' % (e,)); continue
            for s0, this, path, cb2 in m2[:1]:
                for et, pt, assoc in (('create', 'file', 0), ('rename', 'file', 1)):
                    deliver(s0, cb2, ctx2, 'CCB2', et, pt, assoc, when=' of the second of two watchers')
                    if isinstance(cb, P): deliver(*bring(s0.clone(), sA, cb), ctx, 'CCB', et, pt, assoc, when=' of the first of two watchers')
        made = first
        # the callback object outlives wtr_watcher_open: nothing in it may point into that call
        for s0, this, path, cb in made:
            k = models.sget(E.eng, s0, path)
            if k is not None and k.p == (('CPATH',),): R.ok('path', 'wtr_watcher_open')
            elif k is None or any(not isinstance(x, bytes) for x in k.p): R.unsure('path', 'wtr_watcher_open', 'path %r' % (k,))
            else: R.bad('path', 'wtr_watcher_open', 'the watcher is made for %r' % (k,))
            cbp = E.eng.as_ptr(cb, s0)
            held = holds(E, s0, cbp)
            for o in held:
                if o[0] == 'a' and o != cbp.obj: R.bad('escape', 'wtr_watcher_open', 'the callback refers to a local variable of wtr_watcher_open, which is gone when events come')
            R.ok('escape', 'wtr_watcher_open')
        cover(r, E)


def holds(E, s, p):
    """objects which the closure in the std::function at p points to"""
    out, todo = set(), []
    o = s.mem.get(p.obj)
    for k in (0, 8):
        c = o.cells.get(p.off + k) if o is not None and isinstance(p.off, int) else None
        if c is not None and isinstance(c[1], P): todo.append(c[1].obj)
    while todo:
        x = todo.pop()
        if x in out or not isinstance(x, tuple) or x[0] in ('g', 'cs'): continue
        out.add(x)
        if x[0] == 'a': continue
        ob = s.mem.get(x)
        if ob is not None:
            for c in ob.cells.values():
                if isinstance(c[1], P): todo.append(c[1].obj)
    return out


def view(E, st, c, off):
    """the C event as the callback sees it"""
    a = c.args
    p = E.eng.as_ptr(a[0], st)
    if not isinstance(p, P) or len(a) < 2: return 'arguments %r' % (a,)
    o = st.mem.get(p.obj)
    if o is None: return 'no event'
    d = {'context': a[1]}
    for f, (k, sz) in off.items():
        if f in ('path_name', 'associated_path_name'):
            v = E.eng.raw_load(st, E.eng.addoff(p, k), PTRTY)
            d[f] = text_at(E, st, v)
        else:
            v = E.eng.raw_load(st, E.eng.addoff(p, k), int_ty(sz * 8))
            if isinstance(v, int) and sz < 4 and v >> (sz * 8 - 1): v -= 1 << (sz * 8)
            d[f] = v
    return tuple(d.items())


def text_at(E, st, v):
    """the string at v; 'dead' when it lies in an object which is gone; (value,) when not known"""
    if isinstance(v, int): return v
    if v is UNDEF: return UNDEF
    if isinstance(v, P) and isinstance(v.obj, tuple) and v.obj[0] == 'cs' and v.off == 0:
        _, s, oid, k = v.obj
        if oid is not None:
            o = st.mem.get(oid)
            c = o.cells.get(k) if o is not None else None
            if c is None: return 'dead'
            if c[1] != s: return (c[1],)
        return s
    if isinstance(v, P):
        if v.obj not in st.mem and v.obj[0] in ('h', 'a'): return 'dead'
        return models.cstr(E.eng, st, v)
    return (v,)


def c_codes(tree):
    """(kind, name) -> value of the constant of the C header"""
    return build.constants('c', tree, {('et', n): 'WTR_WATCHER_EFFECT_' + n.upper() for n in NAMES['et']} | {('pt', n): 'WTR_WATCHER_PATH_' + n.upper() for n in NAMES['pt']})


# ---------------------------------------------------------------- C21
def c21(r, tier):
    r.rule = ('Abstract evaluation of wtr_watcher_open and then wtr_watcher_close over its handle, with the watcher\'s members replaced by a record of their calls and close() yielding either '
              'result: open must make exactly one watcher and return a non-null handle; close must close and destroy exactly that one, once, free what open allocated exactly once, and return '
              'what the watcher\'s close() returned; for a null handle it must touch nothing and return false.')
    R = Report(r)
    for tree in ('devel', 'include'):
        R.tree = tree
        log = Log()
        try: E = Ev('c', tree, hooks=[log])
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        try: outs, made, ctx = opened(E, log, R)
        except Exception as e:
            R.unsure('open', 'wtr_watcher_open', repr(e)[:300]); continue
        for s, h in outs:
            lg = s.mon['log']
            ws = [x[1] for x in lg if x[0] == 'watch']
            if any(x[0] == 'bad' for x in lg): R.bad('open', 'wtr_watcher_open', 'memory which is not there is accessed: %s' % [x for x in lg if x[0] == 'bad'][0][3])
            if len(ws) != 1:
                R.bad('open', 'wtr_watcher_open', '%d watchers are made' % len(ws)); continue
            if not isinstance(h, P):
                if h == 0: R.bad('open', 'wtr_watcher_open', 'a null handle is returned although a watcher was made')
                else: R.unsure('open', 'wtr_watcher_open', 'handle %r' % (h,))
                continue
            if h.obj not in s.mem or h.obj[0] == 'a': R.bad('open', 'wtr_watcher_open', 'the handle refers to something which is gone when wtr_watcher_open returns'); continue
            if [x for x in lg if x[0] in ('close', '~watch')]: R.bad('open', 'wtr_watcher_open', 'the watcher is closed before wtr_watcher_open returns'); continue
            R.ok('open', 'wtr_watcher_open')
            st = s.clone()
            st.mon['log'] = ()
            st.stack = (); st.keep = ()
            n0 = {x[2] for x in lg if x[0] == 'alloc'} - {x[2] for x in lg if x[0] == 'free'}
            try: res = E.call('wtr_watcher_close', [h], st)
            except Exception as e:
                R.unsure('close', 'wtr_watcher_close', repr(e)[:300]); continue
            for s2, v in res: closed(E, R, s2, v, ws[0], h, n0)
            try: more(E, R, log, s, h, ws[0], n0, made)
            except Exception as e: R.unsure('close', 'wtr_watcher_close', 'with several watchers: %r' % (e,))
        st = E.state(log=())
        site = 'wtr_watcher_close(null)'
        try: res = E.call('wtr_watcher_close', [0], st)
        except Exception as e:
            R.unsure('null', site, repr(e)[:300]); continue
        for s2, v in res:
            lg = s2.mon['log']
            did = [x for x in lg if x[0] in ('close', '~watch', 'bad') or x[0] == 'free' and x[2] is not None]
            if did: R.bad('null', site, 'for a null handle, %s' % {'close': 'a watcher is closed', '~watch': 'a watcher is destroyed', 'bad': 'memory is accessed through it', 'free': 'memory is freed'}[did[0][0]])
            elif v != 0: R.bad('null', site, 'for a null handle, the result is not false')
            else: R.ok('null', site)
        cover(r, E)


def more(E, R, log, s1, h1, w1, n1, made):
    """a second watcher while the first is open and one after it was closed, closed in every order"""
    def opens(s, hs, n):
        for s2, h in opened_again(E, log, s, hs, 'CCB2', made, n)[0][:2]:
            lg = s2.mon['log']
            ws = [x[1] for x in lg if x[0] == 'watch']
            if len(ws) != 1 or not isinstance(h, P): R.bad('open', 'wtr_watcher_open', 'opening a further watcher makes %d watchers%s' % (len(ws), '' if isinstance(h, P) else ' and returns %r' % (h,))); continue
            if h in hs: R.bad('open', 'wtr_watcher_open', 'a further watcher has the same handle as one which is open'); continue
            R.ok('open', 'wtr_watcher_open')
            yield s2, h, ws[0], {x[2] for x in lg if x[0] == 'alloc'} - {x[2] for x in lg if x[0] == 'free'}
    def close(s, h, w, n, others):
        s = s.clone()
        s.mon['log'] = (); s.stack = (); s.keep = (); s.mon['keep'] = (s.mon.get('keep'), others)
        E.eng.budget = E.eng.steps + 2000000
        for s2, v in E.call('wtr_watcher_close', [h], s):
            if closed(E, R, s2, v, w, h, n): yield s2
    for s2, h2, w2, n2 in opens(s1, (h1,), 2):
        for (a, wa, na), (b, wb, nb) in (((h1, w1, n1), (h2, w2, n2)), ((h2, w2, n2), (h1, w1, n1))):
            for s3 in list(close(s2, a, wa, na, (a, b)))[:2]:
                if isinstance(b, P) and b.obj not in s3.mem: R.bad('close', 'wtr_watcher_close', 'closing one watcher releases another'); continue
                for s4 in list(close(s3, b, wb, nb, (b,)))[:1]:
                    for s5, h5, w5, n5 in opens(s4, (), 3):
                        for s6 in close(s5, h5, w5, n5, (h5,)): pass


def closed(E, R, s, v, w, h, owned):
    site = 'wtr_watcher_close'
    lg = s.mon['log']
    cl = [x for x in lg if x[0] == 'close']
    ds = [(n, x) for n, x in enumerate(lg) if x[0] == '~watch']
    fr = [x for x in lg if x[0] == 'free']
    good = True
    def bad(rule, msg):
        nonlocal good
        good = False
        R.bad(rule, site, msg)
    if not cl: return bad('close', 'the watcher is not closed by a call whose result can be returned' if ds else 'the watcher is not closed')
    for x in cl:
        if x[1] != w: bad('close', 'what is closed is not the watcher behind the handle')
    if not ds: bad('destroy', 'the watcher is not destroyed')
    if len(ds) > 1: bad('destroy', 'the watcher is destroyed %d times' % len(ds))
    for n, x in ds:
        if x[1] != w: bad('destroy', 'what is destroyed is not the watcher behind the handle')
        if any(y[0] == 'close' for y in lg[n:]): bad('destroy', 'the watcher is used after it was destroyed')
        if any(y[0] == 'free' and isinstance(w, P) and y[2] == w.obj for y in lg[:n]): bad('free', 'the watcher\'s memory is freed before it is destroyed')
    freed = [x[2] for x in fr]
    for o in owned:
        k = freed.count(o)
        if k == 0 and o in s.mem: bad('free', 'what wtr_watcher_open allocated is never freed')
        if k > 1: bad('free', 'the same memory is freed %d times' % k)
    if any(x[0] == 'bad' for x in lg): bad('destroy', 'memory is accessed after it was freed: %s' % [x for x in lg if x[0] == 'bad'][0][3])
    first = cl[0][2]
    env = s.dom(first)
    if isinstance(v, int):
        if env is None or len(env) != 1 or v & 1 != next(iter(env)): bad('result', 'the result is %s whatever closing the watcher yielded' % ('true' if v & 1 else 'false') if env is None or len(env) > 1 else
                                                                      'the result is %s when closing the watcher yielded %s' % ('true' if v & 1 else 'false', 'true' if next(iter(env)) else 'false'))
    elif v is UNDEF: bad('result', 'the result is not set')
    else:
        syms = set(v.syms)
        if syms <= {first}:
            try: wrong = [x for x in (env or (0, 1)) if core.ceval(v, {first: x}) & 1 != x]
            except Exception: wrong = None
            if wrong is None: R.unsure('result', site, 'result %r' % (v,))
            elif wrong: bad('result', 'the result is not what closing the watcher yielded')
        elif any(x[2] in syms for x in cl[1:]) : bad('result', 'the result is that of closing the watcher a second time')
        else: R.unsure('result', site, 'result %r' % (v,))
    if good: R.ok('close', site)
    return good


# ---------------------------------------------------------------- C22
def c22(r, tier):
    r.rule = ('The values of the enumerators of event::effect_type and event::path_type (from the debug information of the IR) are compared with the constants of watcher-c.h (from the IR of a translation unit '
              'that names them), and with the tables by which the Python, Node.js and Rust bindings turn a C code into a type (from their syntax trees, evaluated for every code): like names must have like codes.')
    R = Report(r)
    for tree in ('devel', 'include'):
        R.tree = tree
        try: E = Ev('lib', tree)
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        try: codes = c_codes(tree)
        except build.BuildError as e:
            R.bad('missing', 'watcher-c.h', 'a documented constant is missing: ' + first_error(str(e))); continue
        for k in ('et', 'pt'):
            cpp = E.w.et if k == 'et' else E.w.pt
            for n in NAMES[k]:
                site = 'watcher-c.h: ' + ('WTR_WATCHER_EFFECT_' if k == 'et' else 'WTR_WATCHER_PATH_') + n.upper()
                if n not in cpp: R.bad('missing', 'event', 'no enumerator %s' % n); continue
                if codes[k, n] != cpp[n]: R.bad('code', site, 'is %d, but event::%s_type::%s is %d' % (codes[k, n], 'effect' if k == 'et' else 'path', n, cpp[n]))
                elif not -128 <= cpp[n] <= 127: R.bad('code', site, 'does not fit the field of the C event')
                else: R.ok('code', site)
            for n in cpp:
                if n not in NAMES[k]: R.bad('missing', 'event', 'the enumerator %s has no constant in watcher-c.h' % n)
        cover(r, E)
    R.tree = None
    import chk_bind
    chk_bind.codes(r, R)


def first_error(t):
    for l in t.split('\n'):
        if 'error:' in l: return l.split('error:', 1)[1].strip()
    return t[:200]
