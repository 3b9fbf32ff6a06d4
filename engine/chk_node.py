"""C24 and the Node.js binding's part of C16 and C22. The native half is evaluated abstractly over its LLVM IR, with the Node-API and the C interface of the
watcher replaced by models; the TypeScript half over its syntax tree (absint.py), with the native half replaced by what the first evaluation found."""
import collections, json, os, subprocess
import build, models, core, absint
from evalfn import Ev
from vals import *
from chk_event import NAMES, Report, cover
from chk_c import text_at, CEV, c_codes
from llir import int_ty, PTR as PTRTY

SITE = 'watcher-nodejs/lib/watcher-napi.cpp'
TSFILE = 'watcher-nodejs/lib/watcher.ts'
OK, INVALID, QUEUE_FULL, CLOSING, FAIL = 0, 1, 15, 16, 9
M64 = (1 << 64) - 1


Tsfn = collections.namedtuple('Tsfn', 'func queue threads fin context call')


class Hooks:
    def add(self, st, *x): st.mon['log'] = st.mon.get('log', ()) + (x,)
    def on_free(self, eng, st, how, p, inst):
        if isinstance(p, P): self.add(st, 'free', how, p.obj, p.off, eng.site(st, inst))
        elif p != 0: self.add(st, 'free?', how, p)
    def on_alloc(self, eng, st, how, p, inst): self.add(st, 'alloc', how, p.obj)
    def bad_access(self, eng, st, kind, p, size, inst): self.add(st, 'bad', kind, repr(p)[:60], eng.site(st, inst))
    def on_unknown(self, eng, st, base, args, inst): self.add(st, 'unknown', base)
    def undef_branch(self, eng, st, inst): self.add(st, 'bad', 'load', 'never set', eng.site(st, inst))
    def on_terminate(self, eng, st, how, inst): self.add(st, 'terminate', how)


class Native:
    def __init__(self):
        self.h = Hooks()
        self.E = E = Ev('node', 'devel', hooks=[self.h])
        self.e = E.eng
        E.eng.malloc_fails = False
        self.off = E.m.members(CEV)
        if not self.off: raise build.BuildError('no struct wtr_watcher_event')
        self.handed = []                # (state when an event is handed over, pointer)
        self.onopen = self.onclose = None
        self.cur = {}
        for n in dir(self):
            if n.startswith('napi_') or n.startswith('wtr_'): E.eng.models[n] = self.wrap(getattr(self, n))
        self.env = sym(('env',), 64, lo=1)
        self.info = sym(('info',), 64, lo=1)

    def wrap(self, f):
        def m(e, st, c):
            st.mon['log'] = st.mon['log']
            return f(st, c.args, c)
        return m

    # -- helpers
    def out(self, st, p, v, n=8):
        p = self.e.as_ptr(p, st)
        if isinstance(p, P): self.e.raw_store(st, p, v, n)

    def fresh(self, st, *k, **kw):
        n = st.mon['njs'] = st.mon.get('njs', 0) + 1
        return sym(('js', n) + k, 64, lo=1)

    def res(self, st, ok, fails=(FAIL,)):
        """both ways a call can end; ok(st) says what it does when it does"""
        r = []
        if st.mon.get('faults', 0) > 0:
            for code in fails:
                b = st.clone()
                b.mon['faults'] -= 1
                self.h.add(b, 'fault', self.cname)
                r.append((b, code))
        v = ok(st)
        return [(st, OK if v is None else v)] + r

    def text(self, st, p):
        t = text_at(self.E, st, p)
        if t == 'dead': self.h.add(st, 'bad', 'load', 'a string', SITE + ': ' + self.cname)
        return t

    # -- values
    def value(self, st, c, outp, *desc):
        self.cname = c.base
        return self.res(st, lambda s: self.out(s, outp, self.fresh(s, *desc)))
    def napi_create_object(self, st, a, c): return self.value(st, c, a[1], 'object')
    def napi_create_int64(self, st, a, c): return self.value(st, c, a[2], 'number', a[1], 64)
    def napi_create_int32(self, st, a, c): return self.value(st, c, a[2], 'number', a[1], 32)
    def napi_create_uint32(self, st, a, c): return self.value(st, c, a[2], 'number', a[1], 32)
    def napi_create_double(self, st, a, c):
        v = a[1]
        if isinstance(v, Term) and v.op == 'itof': v = v.args[0]
        elif isinstance(v, Flt) and v.v == int(v.v): v = int(v.v)
        return self.value(st, c, a[2], 'number', v, 64)
    def napi_create_bigint_int64(self, st, a, c): return self.value(st, c, a[2], 'bigint', a[1], 64)
    def napi_get_null(self, st, a, c): return self.value(st, c, a[1], 'null')
    def napi_get_undefined(self, st, a, c): return self.value(st, c, a[1], 'undefined')
    def napi_get_global(self, st, a, c): return self.value(st, c, a[1], 'global')
    def napi_get_boolean(self, st, a, c): return self.value(st, c, a[2], 'bool', a[1])
    def napi_create_string_utf8(self, st, a, c):
        self.cname = c.base
        if a[1] == 0:
            return [(st, INVALID)]
        t = self.text(st, a[1])
        d = ('string', t)
        if a[2] != M64 and a[2] != models.slen(t) if isinstance(t, Str) else False: d = ('string', t, a[2])
        return self.value(st, c, a[3], *d)
    napi_create_string_latin1 = napi_create_string_utf8
    def napi_set_named_property(self, st, a, c):
        self.cname = c.base
        t = self.text(st, a[2])
        k = b''.join(t.p).decode() if isinstance(t, Str) and all(isinstance(x, bytes) for x in t.p) else None
        return self.setprop(st, a[1], k, a[3])
    def napi_set_property(self, st, a, c):
        self.cname = c.base
        k = a[2].name[3] if isinstance(a[2], Sym) and a[2].name[0] == 'js' and a[2].name[2] == 'string' else None
        return self.setprop(st, a[1], b''.join(k.p).decode() if isinstance(k, Str) and all(isinstance(x, bytes) for x in k.p) else None, a[3])
    def setprop(self, st, o, k, v):
        if v == 0 or v is UNDEF: return [(st, INVALID)]
        if k is None: self.h.add(st, 'unknown', 'property'); return [(st, OK)]
        def ok(s): s.mon['props'] = s.mon.get('props', ()) + ((o, k, v),)
        return self.res(st, ok)
    def napi_define_properties(self, st, a, c):
        self.cname = c.base
        n, p = a[2], self.e.as_ptr(a[3], st)
        if not isinstance(n, int) or not isinstance(p, P): self.h.add(st, 'unknown', c.base); return [(st, OK)]
        for i in range(n):
            ld = lambda k: self.e.raw_load(st, self.e.addoff(p, 64 * i + k), PTRTY)
            nm, meth, val, data = ld(0), ld(16), ld(40), ld(56)
            t = self.text(st, nm)
            if not isinstance(t, Str) or not all(isinstance(x, bytes) for x in t.p): self.h.add(st, 'unknown', c.base); continue
            if isinstance(meth, Fn): val = self.fresh(st, 'function', meth, data)
            st.mon['props'] = st.mon.get('props', ()) + ((a[1], b''.join(t.p).decode(), val),)
        return [(st, OK)]
    def napi_create_function(self, st, a, c): return self.value(st, c, a[5], 'function', a[3], a[4])
    def napi_call_function(self, st, a, c):
        self.cname = c.base
        args = self.argv(st, a[3], a[4])
        def ok(s): self.h.add(s, 'jscall', a[2], args); self.out(s, a[5], self.fresh(s, 'result'))
        return self.res(st, ok)
    def napi_make_callback(self, st, a, c):
        self.cname = c.base
        args = self.argv(st, a[4], a[5])
        def ok(s): self.h.add(s, 'jscall', a[3], args); self.out(s, a[6], self.fresh(s, 'result'))
        return self.res(st, ok)
    def argv(self, st, n, p):
        p = self.e.as_ptr(p, st)
        if not isinstance(n, int) or not isinstance(p, P): return None
        return tuple(self.e.raw_load(st, self.e.addoff(p, 8 * i), PTRTY) for i in range(n))
    def napi_get_cb_info(self, st, a, c):
        self.cname = c.base
        cur = st.mon['cbinfo']          # (args, data)
        def ok(s):
            n = self.e.raw_load(s, self.e.as_ptr(a[2], s), int_ty(64)) if a[2] != 0 else 0
            if a[3] != 0 and isinstance(n, int):
                for i in range(n): self.out(s, self.e.addoff(self.e.as_ptr(a[3], s), 8 * i), cur[0][i] if i < len(cur[0]) else self.fresh(s, 'undefined'))
            if a[2] != 0: self.out(s, a[2], len(cur[0]))
            if a[4] != 0: self.out(s, a[4], sym(('js', 'this'), 64, lo=1))
            if a[5] != 0: self.out(s, a[5], cur[1])
        ok(st)
        return [(st, OK)]
    def napi_get_value_string_utf8(self, st, a, c):
        self.cname = c.base
        t = mkstr((('UPATH',),))
        def ok(s):
            if a[2] != 0:
                if isinstance(a[3], int) and a[3] < 4096: self.h.add(s, 'short', a[3])
                models.put_chars(self.e, s, a[2], t)
            if a[4] != 0: self.out(s, a[4], models.slen(t))
        return self.res(st, ok)
    def napi_typeof(self, st, a, c):
        self.cname = c.base
        want = 4 if a[1] == self.args[0] else 7
        def ok(s): self.out(s, a[2], sym(('typeof', a[1]), 32, dom=(want, 0)), 4)
        return self.res(st, ok)
    def napi_is_exception_pending(self, st, a, c): self.out(st, a[1], 0, 1); return [(st, OK)]
    def napi_open_handle_scope(self, st, a, c): return self.value(st, c, a[1], 'scope')
    def napi_close_handle_scope(self, st, a, c): return [(st, OK)]
    def napi_get_and_clear_last_exception(self, st, a, c): return self.value(st, c, a[1], 'exception')
    def napi_get_last_error_info(self, st, a, c): self.h.add(st, 'unknown', c.base); return [(st, OK)]
    # -- errors
    def napi_throw_error(self, st, a, c): self.h.add(st, 'throw'); return [(st, OK)]
    napi_throw_type_error = napi_throw_range_error = napi_throw = napi_throw_error
    # -- references
    def napi_create_reference(self, st, a, c):
        self.cname = c.base
        def ok(s):
            v = self.fresh(s, 'ref')
            self.h.add(s, 'ref', v); self.out(s, a[3], v)
        return self.res(st, ok)
    def napi_delete_reference(self, st, a, c): self.h.add(st, 'unref', a[1]); return [(st, OK)]
    def napi_reference_ref(self, st, a, c): return [(st, OK)]
    napi_reference_unref = napi_reference_ref
    def napi_get_reference_value(self, st, a, c): return self.value(st, c, a[2], 'referenced')
    # -- thread-safe functions
    def napi_create_threadsafe_function(self, st, a, c):
        self.cname = c.base
        def ok(s):
            v = self.fresh(s, 'tsfn')
            self.h.add(s, 'tsfn', v, Tsfn(a[1], a[4], a[5], a[7], a[8], a[9]))
            self.out(s, a[10], v)
        return self.res(st, ok)
    def napi_call_threadsafe_function(self, st, a, c):
        self.cname = c.base
        bad = []
        live = isinstance(a[0], Sym) and a[0].name[:1] == ('js',) and a[0].name[2:3] == ('tsfn',) and not any(x[0] == 'release' and x[1] == a[0] for x in st.mon['log'])
        if live and not any(x[0] == 'tsfn' and x[1] == a[0] for x in st.mon['log']):
            self.h.add(st, 'other', a[0])
        if not live:
            self.h.add(st, 'notsfn', a[0])
            return [(st, INVALID)]
        for code in (CLOSING, QUEUE_FULL):
            b = st.clone()
            self.h.add(b, 'refused', a[1]); bad.append((b, code))
        self.h.add(st, 'handed', a[1], a[2])
        self.handed.append((st.clone(), a[1]))
        # from here on the event belongs to the receiver, which may have freed it already
        for o in self.reach(st, a[1]): st.mem.pop(o, None)
        return [(st, OK)] + bad
    def napi_release_threadsafe_function(self, st, a, c): self.h.add(st, 'release', a[0], a[1]); return [(st, OK)]
    def napi_acquire_threadsafe_function(self, st, a, c): self.h.add(st, 'unknown', c.base); return [(st, OK)]
    def napi_unref_threadsafe_function(self, st, a, c): return [(st, OK)]
    napi_ref_threadsafe_function = napi_unref_threadsafe_function
    def napi_get_threadsafe_function_context(self, st, a, c):
        v = next((x[2].context for x in st.mon['log'] if x[0] == 'tsfn' and x[1] == a[0]), 0)
        self.out(st, a[1], v)
        return [(st, OK)]
    def napi_wrap(self, st, a, c): self.h.add(st, 'wrap', a[1], a[2], a[3], a[4]); return [(st, OK)]
    def napi_add_finalizer(self, st, a, c): self.h.add(st, 'wrap', a[1], a[2], a[3], a[4]); return [(st, OK)]
    def napi_unwrap(self, st, a, c):
        v = next((x[2] for x in st.mon['log'] if x[0] == 'wrap'), 0)
        self.out(st, a[2], v)
        return [(st, OK)]
    def napi_remove_wrap(self, st, a, c):
        r = self.napi_unwrap(st, a, c)
        self.h.add(st, 'unwrap', a[1])
        return r
    # -- the watcher
    def wtr_watcher_open(self, st, a, c):
        bad = st.clone()
        self.h.add(bad, 'open fails')
        w = self.fresh(st, 'watcher')
        t = text_at(self.E, st, a[0])
        self.h.add(st, 'open', w, t, a[1], a[2])
        if self.onopen: self.onopen(st.clone(), a[1], a[2], 'while the watcher is being made')
        return [(st, w), (bad, 0)]
    def wtr_watcher_close(self, st, a, c):
        n = st.mon['nclosed'] = st.mon.get('nclosed', 0) + 1
        v = sym(('closed', n), 1, dom=(0, 1))
        if self.onclose: self.onclose(st.clone(), 'while the watcher is being closed')
        self.h.add(st, 'wclose', a[0], v)
        return [(st, v)]

    # -- events
    def reach(self, st, p):
        out, todo = [], [self.e.as_ptr(p, st)]
        while todo:
            q = todo.pop()
            if not isinstance(q, P) or not isinstance(q.obj, tuple) or q.obj[0] != 'h' or q.obj in out: continue
            out.append(q.obj)
            o = st.mem.get(q.obj)
            if o is not None: todo += [x[1] for x in o.cells.values()]
        return out

    def event(self, st, et, pt, assoc, nm='EV'):
        """an event as the watcher passes it"""
        cells = {}
        P1, P2 = mkstr(((nm + 'PATH',),)), mkstr(((nm + 'ASSOC',),))
        o = self.E.obj(st, 'strings', 16, {0: (8, P1), 8: (8, P2)})
        vals = dict(effect_time=sym((nm.lower(), 'time'), 64, signed=True), path_name=ptr(('cs', P1, o.obj, 0), 0),
                    associated_path_name=ptr(('cs', P2, o.obj, 8), 0) if assoc else 0, effect_type=et, path_type=pt)
        for f, (k, sz) in self.off.items(): cells[k] = (sz, vals.get(f, UNDEF))
        v = self.E.obj(st, 'event', 40, cells)
        self.foreign = {o.obj, v.obj}
        return v

    def run(self, f, args, st, budget=1500000):
        self.e.budget = self.e.steps + budget
        if not isinstance(f, Fn): raise ValueError('no function: %r' % (f,))
        return self.e.call_named(f.name, args, None, {}, st)

    def boot(self):
        """the module's initialisation: -> its exports {name: function value}"""
        st = self.E.state(log=(), faults=0)
        ex = sym(('js', 'exports'), 64, lo=1)
        name = 'napi_register_module_v1'
        if name not in self.E.m.funcs: raise build.BuildError('no napi_register_module_v1')
        out = []
        for s, v in self.E.call(name, [self.env, ex], st):
            out.append((s, {k: f for o, k, f in s.mon.get('props', ()) if o == v or o == ex}))
        return out

    def fnvalue(self, v):
        return v.name[3:5] if isinstance(v, Sym) and v.name[:1] == ('js',) and v.name[2:3] == ('function',) else None


WANT = ('effect_time', 'path_name', 'associated_path_name', 'effect_type', 'path_type')


def accounts(lg):
    """[(object, how it was made, [how it was freed])] and frees of what is not there"""
    live, done, stray = {}, [], []
    for x in lg:
        if x[0] == 'alloc': live[x[2]] = [x[1], []]
        elif x[0] == 'free':
            if x[2] in live and x[3] == 0:
                live[x[2]][1].append(x[1]); done.append((x[2], live.pop(x[2])))
            else: stray.append(x)
    return live, done, stray


PAIR = {'malloc': 'free', 'strdup': 'free', 'calloc': 'free', 'realloc': 'free', 'new': 'delete', 'new[]': 'delete[]'}


class C24:
    def __init__(self, r, R, tier):
        self.r, self.R, self.tier = r, R, tier
        self.events = []                # (state after handing over, pointer, receiver, context, et, pt, assoc)
        self.props = {}                 # JavaScript property -> field of the C event

    def common(self, s, st, what):
        """memory which is not there; unknown things. True when the rest can be judged"""
        lg = s.mon['log']
        unk = [x[1] for x in lg if x[0] == 'unknown']
        if unk: self.R.unsure('memory', st, '%s: depends on %s' % (what, ', '.join(map(str, dict.fromkeys(unk))))); return False
        bad = [x for x in lg if x[0] == 'bad']
        if bad: self.R.bad('memory', st, '%s: memory is accessed which is not there or was freed (%s)' % (what, bad[0][3])); return False
        live, done, stray = accounts(lg)
        for x in stray: self.R.bad('free', st, '%s: %s frees what is not (or no longer) its own' % (what, x[4])); return False
        for o, (how, fr) in done:
            if PAIR.get(how, how) != fr[0] and how in PAIR and fr[0] in PAIR.values(): self.R.bad('free', st, '%s: what %s made is freed by %s' % (what, how, fr[0])); return False
        return True

    def bridge(self, s0, cb, ctx, when, collect=False):
        """the watcher delivers an event into state s0"""
        N, R = self.N, self.R
        st = SITE + ': callback given to the watcher'
        combos = [(1, 1, a) for a in (0, 1)] + ([(e, 1, 0) for e in range(6) if e != 1] + [(2, p, 0) for p in range(6)] if collect else [])
        starts = [(s0, '')]
        if collect: starts += [(s, ' after another') for s in self.earlier(s0, cb, ctx)]
        self.bridge1(starts[0][0], cb, ctx, when, collect, combos)
        for s, w in starts[1:]: self.bridge1(s, cb, ctx, when + w, collect and 'after', [(1, 1, 0), (1, 1, 1)])

    def earlier(self, s0, cb, ctx):
        """states after an earlier event was handed over and received"""
        N = self.N
        s1 = s0.clone()
        log = s1.mon['log']
        s1.mon['log'] = tuple(x for x in log if x[0] in ('tsfn', 'release'))
        s1.mon['keep'] = (s1.mon.get('keep'), ctx)
        ev = N.event(s1, 0, 0, 1, 'OLD')
        N.handed.clear()
        out = []
        try:
            N.run(cb, [ev, ctx], s1)
            for h, p in N.handed[:1]:
                t = [x for x in h.mon['log'] if x[0] == 'tsfn'][-1][2]
                if not isinstance(t.call, Fn): continue
                for o in list(h.mem):
                    if isinstance(o, tuple) and (o[0] == 'a' or o in N.foreign): h.mem.pop(o)
                h.mon['faults'] = 0
                for s, _ in N.run(t.call, [N.env, t.func, t.context, p], h)[:1]:
                    for o in list(s.mem):
                        if isinstance(o, tuple) and o[0] == 'a': s.mem.pop(o)
                    s.mon['log'] = log; s.mon['props'] = s0.mon.get('props', ())
                    out.append(s)
        except Exception: pass          # said by the evaluation without an earlier event
        N.handed.clear()
        return out

    def bridge1(self, s0, cb, ctx, when, collect, combos):
        N, R = self.N, self.R
        st = SITE + ': callback given to the watcher'
        for et, pt, assoc in combos:
            s1 = s0.clone()
            s1.mon['log'] = tuple(x for x in s1.mon['log'] if x[0] in ('tsfn', 'release'))
            base = s1.mon['log']
            ev = N.event(s1, et, pt, assoc)
            s1.mon['keep'] = (s1.mon.get('keep'), N.event)
            N.handed.clear()
            what = 'an event %s' % when
            try: outs = N.run(cb, [ev, ctx], s1)
            except Exception as e:
                R.unsure('bridge', st, '%s: %r' % (what, e)); continue
            handed = list(N.handed)
            for s, _ in outs:
                lg = s.mon['log'][len(base):]
                if not self.common_bridge(s, lg, st, what): continue
                hs = [x for x in lg if x[0] == 'handed']
                live, done, stray = accounts([x for x in lg])
                refused = [x for x in lg if x[0] == 'refused']
                if [x for x in lg if x[0] == 'other']: R.bad('other', st, '%s is handed over to what belongs to another watcher' % what); continue
                if [x for x in lg if x[0] == 'notsfn']: R.bad('early', st, '%s is lost: what is needed to hand it over is not there yet (or no more)' % what); continue
                if len(hs) > 1: R.bad('once', st, '%s is handed over %d times' % (what, len(hs))); continue
                if not hs and not refused: R.bad('lost', st, '%s is neither handed over nor refused' % what); continue
                if hs:
                    ok = True
                    reach = set(dict.fromkeys(x for x in self.objs(handed, hs[0][1])))
                    left = [o for o in live if o not in reach]
                    freed = [o for o, _ in done if o in reach]
                    if left: ok = False; R.bad('leak', st, '%s: memory is neither handed over nor freed' % what)
                    if ok:
                        R.ok('bridge', st + ' ' + when)
                        if collect:
                            for h, p in handed:
                                if p == hs[0][1]: self.events.append((h, p, cb, ctx, et, pt, assoc if collect is True else (assoc, 'after'))); break
                else:
                    if live: R.bad('leak', st, '%s which is refused is not freed (or not all of it)' % what)
                    else: R.ok('bridge', st + ' refused')

    def objs(self, handed, p):
        for h, q in handed:
            if q == p: return self.N.reach(h, p)
        return []

    def common_bridge(self, s, lg, st, what):
        unk = [x[1] for x in lg if x[0] == 'unknown']
        if unk: self.R.unsure('bridge', st, '%s: depends on %s' % (what, ', '.join(map(str, dict.fromkeys(unk))))); return False
        bad = [x for x in lg if x[0] == 'bad']
        if bad: self.R.bad('memory', st, '%s: memory is accessed which is not there, was freed or was handed over (%s)' % (what, bad[0][3])); return False
        live, done, stray = accounts(lg)
        for x in stray: self.R.bad('free', st, '%s: %s frees what is not its own, or not any more' % (what, x[4])); return False
        for o, (how, fr) in done:
            if how in PAIR and PAIR[how] != fr[0]: self.R.bad('free', st, '%s: what %s made is freed by %s' % (what, how, fr[0])); return False
        return True

    def native(self):
        R, r = self.R, self.r
        try: self.N = N = Native()
        except build.BuildError as e:
            r.errors.append(str(e)[:2000]); return
        sw, sc, sr = SITE + ': watch', SITE + ': close', SITE + ': receiver of events'
        boots = N.boot()
        opened = []
        N.onopen = lambda s, cb, ctx, when: opened.append((s, cb, ctx, when))
        made = []
        N.args = [sym(('js', 'arg', i), 64, lo=1) for i in range(4)]
        for s0, ex in boots:
            f = N.fnvalue(ex.get('watch'))
            if f is None:
                R.bad('export', SITE, 'the module does not export a function named watch'); continue
            for nargs in (2, 0, 1, 3):
                s1 = s0.clone()
                s1.mon['log'] = ()
                s1.mon['cbinfo'] = (tuple(N.args[:nargs]), f[1])
                s1.mon['faults'] = 2 if self.tier == 'quick' else 4
                s1.mon['faulting'] = True
                try: outs = N.run(f[0], [N.env, N.info], s1)
                except Exception as e:
                    R.unsure('watch', sw, repr(e)[:300]); continue
                for s, v in outs: self.watched(s, v, nargs, made)
        N.onopen = None
        for s, cb, ctx, when in opened:
            self.bridge(s, cb, ctx, when)
        seen = set()
        for s, v, op in made:
            if any(x[0] == 'fault' for x in s.mon['log']) or len(seen) > 3: continue
            seen.add(len(seen))
            self.bridge(s, op[3], op[4], 'after the watcher has been made', collect=not self.events)
        # receiving
        for h, p, cb, ctx, et, pt, assoc in self.events:
            t = [x for x in h.mon['log'] if x[0] == 'tsfn'][-1][2]
            for env in (N.env, 0):
                for c2 in (ctx,):
                    self.receive(h, p, t, env, et, pt, assoc, False)
        # closing
        good = [(s, v, op) for s, v, op in made if not any(x[0] == 'fault' for x in s.mon['log'])]
        for s, v, op in good: self.closing(s, v, op)
        for s, v, op in good[:1]: self.two(boots, s, v, op)
        cover(r, N.E)

    def two(self, boots, s1, v1, op1):
        """a second watcher while there is one, and one after it"""
        N, R = self.N, self.R
        log1 = s1.mon['log']
        f = next((x for x in (N.fnvalue(ex.get('watch')) for _, ex in boots) if x is not None), None)
        if f is None: return
        def again(s0):
            s = s0.clone()
            for o in list(s.mem):
                if isinstance(o, tuple) and o[0] == 'a': s.mem.pop(o)
            s.mon['log'] = (); s.mon['keep'] = (s.mon.get('keep'), op1, v1); s.mon['faults'] = 0; s.mon['cbinfo'] = (tuple(N.args[:2]), f[1])
            made = []
            try: outs = N.run(f[0], [N.env, N.info], s)
            except Exception as e: R.unsure('watch', SITE + ': watch', 'a second watcher: %r' % (e,)); return []
            for s2, v2 in outs: self.watched(s2, v2, 2, made)
            if outs and not made and not R.r.violations: R.bad('watch', SITE + ': watch', 'a second watcher cannot be made')
            return made
        def turn(s, log):
            s = s.clone(); s.mon['log'] = log; s.mon['keep'] = (s.mon.get('keep'), ops)
            return s
        ops = None
        for s2, v2, op2 in again(s1)[:1]:
            log2 = s2.mon['log']
            ops = (op1, op2)
            self.bridge(turn(s2, log1), op1[3], op1[4], 'of the first of two watchers')
            self.bridge(turn(s2, log2), op2[3], op2[4], 'of the second of two watchers')
            for a, la, va, opa, b, lb, vb, opb in ((1, log1, v1, op1, 2, log2, v2, op2), (2, log2, v2, op2, 1, log1, v1, op1)):
                for s3 in self.closing(turn(s2, la), va, opa)[:2]:
                    for o in list(s3.mem):
                        if isinstance(o, tuple) and o[0] == 'a': s3.mem.pop(o)
                    self.bridge(turn(s3, lb), opb[3], opb[4], 'after another watcher was closed')
                    for s4 in self.closing(turn(s3, lb), vb, opb)[:1]:
                        for s5, v5, op5 in again(s4)[:1]: self.closing(s5, v5, op5)

    def watched(self, s, v, nargs, made):
        R, N = self.R, self.N
        sw = SITE + ': watch'
        lg = s.mon['log']
        faults = [x[1] for x in lg if x[0] == 'fault']
        what = ('%d arguments' % nargs) + (', %s fails' % ' and '.join(faults) if faults else '')
        if not self.common(s, sw, what): return
        live, done, _ = accounts(lg)
        op = [x for x in lg if x[0] == 'open']
        ts = [x for x in lg if x[0] == 'tsfn']
        refs = [x[1] for x in lg if x[0] == 'ref']
        rel = [x[1] for x in lg if x[0] == 'release']
        unr = [x[1] for x in lg if x[0] == 'unref']
        for x in set(rel):
            if rel.count(x) > 1: R.bad('release', sw, '%s: the thread-safe function is released more than once' % what); return
        for x in set(unr):
            if unr.count(x) > 1: R.bad('release', sw, '%s: the reference to the callback is deleted more than once' % what); return
        if nargs != 2 and not op and not live: 
            R.ok('watch', sw + ': wrong number of arguments'); return
        wclosed = [x[1] for x in lg if x[0] == 'wclose']
        if not op or op[0][1] in wclosed:
            # failed: everything is given back
            if live: R.bad('leak', sw, '%s: watch fails and does not free what it allocated' % what)
            elif [x for x in ts if x[1] not in rel]: R.bad('leak', sw, '%s: watch fails and does not release the thread-safe function' % what)
            elif [x for x in refs if x not in unr]: R.bad('leak', sw, '%s: watch fails and does not delete the reference to the callback' % what)
            else: R.ok('watch', sw + ': failure')
            return
        if len(op) > 1: R.bad('watch', sw, '%s: %d watchers are made' % (what, len(op))); return
        _, w, text, cb, ctx = op[0]
        after = [x for x in lg[lg.index(op[0]):] if x[0] == 'fault']
        if after: return                 # Node-API calls after the watcher was made are taken to succeed
        if nargs != 2: return
        if text != mkstr((('UPATH',),)) and 'napi_get_value_string_utf8' not in faults:
            R.bad('path', sw, '%s: what is watched is %s, not the path which was given' % (what, text))
        for x in lg:
            if x[0] == 'short': R.bad('path', sw, 'a path of %d bytes or more is cut: something else is watched than was asked for' % x[1])
        for x in ts:
            if x[1] in rel: R.bad('release', sw, '%s: the thread-safe function is released while the watcher is alive' % what)
            q = x[2].queue
            if isinstance(q, int) and q != 0: R.bad('queue', sw, 'the queue of events holds %d: further events are lost (or the watcher blocks, also while it is being closed)' % q)
            if x[2].func not in (0, N.args[1]) : R.bad('watch', sw, 'the function which is called with events is not the callback')
        if not ts: R.bad('watch', sw, '%s: there is nothing by which events could be handed over' % what); return
        c = ctx if isinstance(ctx, P) else None
        if c is not None and isinstance(c.obj, tuple) and c.obj[0] == 'h' and c.obj not in live: R.bad('memory', sw, '%s: the context of the watcher is freed while the watcher is alive' % what); return
        if c is not None and isinstance(c.obj, tuple) and c.obj[0] == 'a': R.bad('memory', sw, '%s: the context of the watcher is a local variable' % what); return
        R.ok('watch', sw + ': success')
        made.append((s, v, op[0]))

    def receive(self, h, p, t, env, et, pt, assoc, closed):
        R, N = self.R, self.N
        sr = SITE + ': receiver of events'
        s1 = h.clone()
        # what belonged to the watcher, or to the callback while it ran, is gone
        for o in list(s1.mem):
            if isinstance(o, tuple) and (o[0] == 'a' or o in N.foreign): s1.mem.pop(o)
        n0 = len(s1.mon['log'])
        base = s1.mon['log']
        s1.mon['faults'] = (2 if self.tier == 'quick' else 3) if env != 0 else 0
        s1.mon['props'] = ()
        js = t.func if env != 0 else 0
        what = 'an event received%s%s' % ('' if env != 0 else ' without an environment', ' after the watcher was closed' if closed else '')
        f = t.call
        if not isinstance(f, Fn):
            R.bad('receive', sr, 'there is no function which receives events and frees them'); return
        try: outs = N.run(f, [env, js, t.context, p], s1)
        except Exception as e:
            R.unsure('receive', sr, '%s: %r' % (what, e)); return
        for s, _ in outs:
            lg = s.mon['log'][n0:]
            full = [x for x in base if x[0] in ('alloc', 'free')] + list(lg)
            faults = [x[1] for x in lg if x[0] == 'fault']
            w = what + (', %s fails' % ' and '.join(faults) if faults else '')
            if not self.common_bridge(s, tuple(full) + tuple(x for x in lg if x[0] not in ('alloc', 'free')), sr, w): continue
            live, done, stray = accounts(full)
            if live: R.bad('leak', sr, '%s is not freed (or not all of it)' % w); continue
            calls = [x for x in lg if x[0] == 'jscall']
            if env == 0:
                if calls: R.bad('receive', sr, '%s: JavaScript is called' % w)
                else: R.ok('receive', sr + ' without an environment')
                continue
            if faults: R.ok('receive', sr + ' with failing calls'); continue
            if len(calls) != 1: R.bad('receive', sr, '%s: the callback is called %s' % (w, 'not at all' if not calls else '%d times' % len(calls))); continue
            if calls[0][1] != js: R.bad('receive', sr, '%s: what is called is not the callback' % w); continue
            args = calls[0][2]
            if not args: R.bad('receive', sr, '%s: the callback is called without the event' % w); continue
            props = {k: v for o, k, v in s.mon.get('props', ()) if o == args[0]}
            want = {'number': {sym(('ev', 'time'), 64, signed=True): 'effect_time'}, 'string': {mkstr((('EVPATH',),)): 'path_name', mkstr((('EVASSOC',),)): 'associated_path_name'}}
            got = {}
            for k, v in props.items():
                d = v.name[2:] if isinstance(v, Sym) and v.name[:1] == ('js',) else None
                got[k] = d
            undef = [k for k, d in got.items() if d and d[0] in ('number', 'bigint', 'bool') and d[1] is UNDEF]
            if undef: R.bad('content', sr, '%s: %s is taken from memory which was never set' % (w, undef[0])); continue
            self.props.setdefault((et, pt, assoc), got)
            R.ok('receive', sr)

    def closing(self, s0, v, op):
        R, N = self.R, self.N
        sc = SITE + ': close'
        _, w, text, cb, ctx = op
        ends = []
        props = {k: x for o, k, x in s0.mon.get('props', ()) if o == v}
        f = N.fnvalue(props.get('close'))
        if f is None:
            if not any(x[0] == 'fault' for x in s0.mon['log']): R.bad('close', sc, 'watch does not return an object with a method close')
            return []
        s1 = s0.clone()
        s1.mon['cbinfo'] = ((), f[1]); s1.mon['faults'] = 0
        during = []
        N.onclose = lambda s, when: during.append((s, when))
        try: outs = N.run(f[0], [N.env, N.info], s1)
        except Exception as e:
            R.unsure('close', sc, repr(e)[:300]); return []
        N.onclose = None
        for s, res in outs:
            lg = s.mon['log']
            if not self.common(s, sc, 'close'): continue
            live, done, _ = accounts(lg)
            i = [n for n, x in enumerate(lg) if x[0] == 'wclose']
            if len(i) != 1 or lg[i[0]][1] != w: R.bad('close', sc, 'the native watcher is closed %s' % ('%d times' % len(i) if len(i) != 1 else 'with something other than its handle')); continue
            i = i[0]
            ts = [x[1] for x in lg if x[0] == 'tsfn']
            refs = [x[1] for x in lg if x[0] == 'ref']
            ok = True
            for t in ts:
                n = [k for k, x in enumerate(lg) if x[0] == 'release' and x[1] == t]
                if len(n) != 1: ok = False; R.bad('release', sc, 'the thread-safe function is released %s' % ('never' if not n else '%d times' % len(n)))
                elif lg[n[0]][2] == 1: ok = False; R.bad('order', sc, 'the thread-safe function is aborted: events which are still queued never reach the user')
                elif n[0] < i: ok = False; R.bad('order', sc, 'the thread-safe function is released before the watcher is closed: events which come meanwhile are lost')
            for t in refs:
                n = [k for k, x in enumerate(lg) if x[0] == 'unref' and x[1] == t]
                if len(n) != 1: ok = False; R.bad('release', sc, 'the reference to the callback is deleted %s' % ('never' if not n else '%d times' % len(n)))
            fr = [k for k, x in enumerate(lg) if x[0] == 'free']
            if isinstance(ctx, P) and [k for k in fr if lg[k][2] == ctx.obj and k < i]: ok = False; R.bad('order', sc, 'what the watcher\'s callback uses is freed before the watcher is closed')
            fin = [x for x in lg if x[0] == 'wrap' and isinstance(x[3], Fn)]
            if fin and not any(x[0] == 'unwrap' for x in lg):
                s2 = s.clone()
                try: fo = N.run(fin[0][3], [N.env, fin[0][2], fin[0][4]], s2)
                except Exception as e: R.unsure('close', sc, 'finalizer: %r' % (e,)); continue
                for s3, _ in fo:
                    if self.common(s3, sc, 'the finalizer, after close'):
                        l3, _, _ = accounts(s3.mon['log'])
                        if l3: R.bad('leak', sc, 'what was allocated for the watcher is not freed')
                        if sum(1 for x in s3.mon['log'] if x[0] == 'wclose') != 1: R.bad('close', sc, 'the native watcher is closed again by the finalizer')
            elif live: ok = False; R.bad('leak', sc, 'what was allocated for the watcher is not freed')
            r = lg[i][2]
            d = res.name[2:] if isinstance(res, Sym) and res.name[:1] == ('js',) else None
            if d is None or d[0] != 'bool': ok = False; R.bad('result', sc, 'close returns %r rather than whether the watcher closed' % (d,))
            elif not self.same_bool(s, d[1], r): ok = False; R.bad('result', sc, 'close returns %s rather than whether the watcher closed' % (d[1],))
            if ok: R.ok('close', sc); ends.append(s)
            for h, p, cb2, ctx2, et, pt, assoc in self.events[:2]:
                # an event which is still queued is received afterwards: what the receiver is given must not be gone
                h2 = h.clone()
                for o in [o for o in list(h2.mem) if isinstance(o, tuple) and o[0] == 'h' and o not in s.mem and o not in N.reach(h, p)]: h2.mem.pop(o, None)
                t = [x for x in h.mon['log'] if x[0] == 'tsfn'][-1][2]
                self.receive(h2, p, t, N.env, et, pt, assoc, True)
        for s, when in during: self.bridge(s, cb, ctx, when)
        return ends

    @staticmethod
    def same_bool(s, a, b):
        if a == b: return True
        if isinstance(a, Term) and (k := core.decide(a, s)) is not None: a = k
        try:
            dom = s.dom(b) if isinstance(b, Sym) else None
            if isinstance(a, int): return dom is not None and len(dom) == 1 and bool(a) == bool(next(iter(dom)))
            return set(a.syms) == {b} and all(bool(core.ceval(a, {b: x})) == bool(x) for x in (dom or (0, 1)))
        except Exception: return False


def c24(r, tier):
    r.rule = ('Abstract evaluation of the Node.js binding. Native half (LLVM IR, with the Node-API calls modelled, up to %d of them failing in every combination): watch, the callback it gives to the watcher '
              '- while the watcher is being made, afterwards and while it is being closed -, the receiver of events - with and without an environment, before and after close - and close. Every allocation '
              'must be handed over or freed exactly once, by the function that belongs to it, nothing accessed after it was freed or handed over, every field copied into memory of its own, the watcher '
              'closed before the thread-safe function and the context it uses are released, once each. TypeScript half (syntax tree): each field the user gets must be that of the event, and any sequence of '
              'calls of close must close the native watcher once.') % (2 if tier == 'quick' else 4)
    R = Report(r)
    c = C24(r, R, tier)
    c.native()
    if r.errors: return
    typescript(r, R, c.props)
    r.cover['analysed'] = [SITE, TSFILE]


# ------------------------------------------------------------------ TypeScript
_ts = {}


def ts_source():
    p = os.path.join(build.REPO, TSFILE)
    if p not in _ts:
        x = subprocess.run(['node', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ts2ir.js'), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if x.returncode: raise build.BuildError('%s: %s' % (TSFILE, x.stderr[-1500:]))
        _ts[p] = tup(json.loads(x.stdout))
    return _ts[p]


def tup(x):
    """lists whose head names a node become tuples"""
    if isinstance(x, list):
        y = [tup(i) for i in x]
        return tuple(y) if y and isinstance(y[0], str) else y
    return x


def ts_models(events):
    M = {}
    def require(I, a, k): return absint.Ext('require')
    M['node:module.createRequire'] = M['module.createRequire'] = require
    M['require'] = lambda I, a, k: absint.Ext('NATIVE')
    M['bindings'] = M['bindings.default'] = M['require']
    M['NATIVE.watch'] = lambda I, a, k: events.watch(I, a)
    def call(I, f, a, k):
        if f.name.startswith('USER'): I.log.append(('user', list(a), f.name)); return absint.UNDEFINED
        if f.name.startswith('NATIVEWATCHER'):
            if f.name.endswith('.close'): I.log.append(('close', f.name)); return absint.Abs(('closed', len(I.log)), 'bool')
        return absint.MISSING
    M['call'] = call
    return M


class TsEvents:
    def watch(self, I, a):
        if I.choose(2, 'the watcher cannot be made') == 1:
            I.log.append(('watch fails',))
            raise absint.Raise(absint.Obj(absint.Ext('Error')))
        I.nwatch = getattr(I, 'nwatch', 0) + 1
        I.log.append(('watch', list(a)))
        return absint.Ext('NATIVEWATCHER%d' % I.nwatch)


def ts_load(choices):
    I = absint.Interp('js', choices, ts_models(TsEvents()))
    return I


def ts_watch(I):
    I.block(ts_source(), I.globals)
    f = I.globals.v.get('watch')
    if not isinstance(f, absint.Fn): raise build.BuildError('%s does not define watch' % TSFILE)
    return I.call(f, [absint.Abs(('user path',), 'str', True), absint.Ext('USER')])


def ts_again(I, n):
    """a further call of watch in the same module"""
    f = I.globals.v.get('watch')
    if not isinstance(f, absint.Fn): raise build.BuildError('%s does not define watch' % TSFILE)
    return I.call(f, [absint.Abs(('user path', n), 'str', True), absint.Ext('USER%d' % n)])


def ts_native(I):
    """the callbacks which the native half was given, one for each watcher"""
    return [x[1][1] if len(x[1]) > 1 else None for x in I.log if x[0] == 'watch']


def ts_event(got):
    ev = absint.Dct('obj')
    for k, d in got.items(): ev.set(k, jsval(d))
    return ev


def ts_given(I, n0): return [x for x in I.log[n0:] if x[0] == 'user']


def ts_runs(fn_, R, rule, st):
    try:
        for I, res, err in absint.paths(ts_load, fn_):
            if I.unknown: R.unsure(rule, st, 'depends on ' + '; '.join(dict.fromkeys(I.unknown))[:200]); continue
            yield I, res, err
    except (absint.Stop, RecursionError) as e: R.unsure(rule, st, repr(e))
    except build.BuildError: raise
    except Exception as e: R.unsure(rule, st, 'not followed: %r' % (e,))


def jsval(d):
    """the value a property which the native half set has, with its field"""
    if d is None: return absint.Abs(('native', 'unknown'), 'any')
    if d[0] in ('number',):
        if isinstance(d[1], int): return d[1]
        if d[1] == sym(('ev', 'time'), 64, signed=True) and d[2] == 64: return absint.Abs(('effect_time',), 'int', True)
        return absint.Abs(('native', repr(d)), 'int')
    if d[0] == 'null': return None
    if d[0] == 'string' and len(d) == 2 and isinstance(d[1], Str):
        if d[1] == mkstr((('EVPATH',),)): return absint.Abs(('path_name',), 'str', True)
        if d[1] == mkstr((('EVASSOC',),)): return absint.Abs(('associated_path_name',), 'str', True)
    return absint.Abs(('native', repr(d)), 'any')


def camel(n):
    w = n.split('_')
    return w[0] + ''.join(x.capitalize() for x in w[1:])


FIELDS = {'effectTime': 'effect_time', 'pathName': 'path_name', 'associatedPathName': 'associated_path_name'}


def ts_events(R, rule, st, props):
    """((et, pt, assoc), interpreter, event object given to the user) for each event"""
    for key, got in props.items():
        def run(I, got=got):
            ts_watch(I)
            w = [x for x in I.log if x[0] == 'watch']
            if not w: return None
            cb = w[0][1][1] if len(w[0][1]) > 1 else None
            ev = absint.Dct('obj')
            for k, d in got.items(): ev.set(k, jsval(d))
            n0 = len(I.log)
            I.call(cb, [ev])
            return [x for x in I.log[n0:] if x[0] == 'user']
        for I, res, err in ts_runs(run, R, rule, st): yield key, I, res, err


def typescript(r, R, props):
    st, sx = TSFILE + ': event given to the user', TSFILE + ': watch'
    try: C = c_codes('devel')
    except build.BuildError: C = {}
    try:
        if not props: R.unsure('event', st, 'the native half was not followed')
        for (et, pt, assoc), I, us, err in ts_events(R, 'event', st, props):
            if isinstance(assoc, tuple): assoc = assoc[0]
            if err is not None and any(x[0] == 'watch fails' for x in I.log): continue
            if err is not None: R.bad('event', st, 'an event does not reach the user: an exception is thrown'); continue
            if us is None: continue
            if len(us) != 1: R.bad('event', st, 'an event reaches the user %s' % ('never' if not us else '%d times' % len(us))); continue
            v = us[0][1][0] if us[0][1] else None
            for js, f in FIELDS.items():
                try: x = I.getattr(v, js)
                except absint.Raise: x = absint.UNDEFINED
                w = None if f == 'associated_path_name' and not assoc else absint.Abs((f,))
                if (x is None) if w is None else x == w: R.ok('event', '%s: %s' % (st, js))
                else: R.bad('content', st, '%s is %s, which is not %s of the event' % (js, x, f))
            for k, c, js in (('et', et, 'effectType'), ('pt', pt, 'pathType')):
                name = next((nm for nm in NAMES[k] if C.get((k, nm)) == c), None)
                try: x = I.getattr(v, js)
                except absint.Raise: x = absint.UNDEFINED
                if name is None: continue
                if x == camel(name): R.ok('event', '%s: %s' % (st, js))
                else: R.bad('content', st, '%s is %s for an event with %s' % (js, x, name))
        # one event after another: what came before makes no difference
        ks = [k for k in props]
        for a, b in [(k, k) for k in ks] + list(zip(ks, ks[1:] + ks[:1])):
            def run(I, a=a, b=b):
                ts_watch(I)
                cb = ts_native(I)
                if not cb: return None
                got = []
                for k in (a, b):
                    n0 = len(I.log)
                    I.call(cb[0], [ts_event(props[k])])
                    got.append(ts_given(I, n0))
                return got
            for I, got, err in ts_runs(run, R, 'history', st):
                if err is not None or got is None: continue          # an event alone: see above
                if len(got[0]) == 1 and len(got[1]) != 1:
                    R.bad('history', st, 'an event which follows another%s reaches the user %s' % (' like it' if a == b else '', 'never' if not got[1] else '%d times' % len(got[1]))); continue
                if a == b and len(got[0]) == 1:
                    x, y = got[0][0][1], got[1][0][1]
                    if x and y and x[0] is y[0] and isinstance(x[0], absint.Dct): R.bad('history', st, 'two events are given to the user as one object: the first changes when the second comes'); continue
                R.ok('history', st)
        # another watcher: neither changes the other
        for order in ((0, 1), (1, 0)):
            def run(I, order=order):
                ws = [ts_watch(I), ts_again(I, 2)]
                cb = ts_native(I)
                if len(cb) != 2 or not ks: return None
                res = []
                def give(i):
                    n0 = len(I.log)
                    try: I.call(cb[i], [ts_event(props[ks[0]])])
                    except absint.Raise as e: res.append(('event', i, e)); return
                    res.append(('event', i, [x[2] for x in ts_given(I, n0)]))
                give(0); give(1)
                for j, i in enumerate(order):
                    n0 = len(I.log)
                    try: v = I.call(I.getattr(ws[i], 'close'), [], {}, ws[i])
                    except absint.Raise as e: v = e
                    res.append(('close', i, v, [x[1] for x in I.log[n0:] if x[0] == 'close']))
                    if j == 0: give(order[1])
                return res
            for I, res, err in ts_runs(run, R, 'second watcher', sx):
                if any(x[0] == 'watch fails' for x in I.log): continue
                if err is not None: R.bad('second watcher', sx, 'the second call of watch throws though the native watcher was made'); continue
                if res is None: continue
                n = 0
                for x in res:
                    if x[0] == 'event':
                        n += 1
                        if isinstance(x[2], absint.Raise): R.bad('second watcher', st, 'with two watchers, an event of the %s makes its callback throw' % ('first', 'second')[x[1]]); break
                        if x[2] != [('USER', 'USER2')[x[1]]]:
                            R.bad('second watcher', st, 'with two watchers%s, an event of the %s reaches %s' % (' of which one has been closed' if n > 2 else '', ('first', 'second')[x[1]],
                                  'nobody' if not x[2] else 'the user of the other' if len(x[2]) == 1 else '%d callbacks' % len(x[2]))); break
                    else:
                        if isinstance(x[2], absint.Raise): R.bad('second watcher', sx, 'with two watchers, closing the %s throws' % ('first', 'second')[x[1]]); break
                        if x[3] != ['NATIVEWATCHER%d.close' % (x[1] + 1)]:
                            R.bad('second watcher', sx, 'with two watchers, closing the %s closes %s' % (('first', 'second')[x[1]], 'none' if not x[3] else 'the other' if len(x[3]) == 1 else '%d' % len(x[3]))); break
                else: R.ok('second watcher', sx)
        for n in range(1, 4):
            def run(I):
                o = ts_watch(I)
                res = []
                for _ in range(n):
                    try: res.append(I.call(I.getattr(o, 'close'), [], {}, o))
                    except absint.Raise as e: res.append(e)
                return res
            for I, res, err in ts_runs(run, R, 'close', sx):
                if any(x[0] == 'watch fails' for x in I.log): continue
                if err is not None: R.bad('close', sx, 'watch throws though the native watcher was made'); continue
                w = [x for x in I.log if x[0] == 'watch']
                cl = [x for x in I.log if x[0] == 'close']
                if len(w) != 1: R.bad('watch', sx, '%d native watchers are made' % len(w)); continue
                if w[0][1][0] != absint.Abs(('user path',)): R.bad('watch', sx, 'what is watched is %r, not the path which was given' % (w[0][1][0],)); continue
                if len(cl) != 1: R.bad('close', sx, 'after %d calls of close the native watcher has been closed %s' % (n, 'never' if not cl else '%d times: its memory is used after it was freed' % len(cl))); continue
                if isinstance(res[0], absint.Raise): R.bad('close', sx, 'close throws'); continue
                if not (isinstance(res[0], absint.Abs) and res[0].t[0] == 'closed'): R.bad('result', sx, 'close returns %r rather than whether the watcher closed' % (res[0],)); continue
                if any(isinstance(x, absint.Raise) or x is True for x in res[1:]): R.bad('result', sx, 'a further call of close %s' % ('throws' if isinstance(res[1], absint.Raise) else 'returns true')); continue
                R.ok('close', sx)
    except build.BuildError as e: r.errors.append(str(e))


def ts_codes(r, R, C, how):
    """C: (kind, name) -> code; how: 'code' or 'name'"""
    st = TSFILE + ': event given to the user'
    try: n = native_props(r, R)
    except build.BuildError as e:
        r.errors.append(str(e)[:2000]); return
    if n is None: return
    try:
        for k, fld in (('et', 'effectType'), ('pt', 'pathType')):
            for name in NAMES[k]:
                code = C[(k, name)]
                key = next((x for x in n if x[0 if k == 'et' else 1] == code), None)
                if key is None: R.unsure('node', st, 'code %d' % code); continue
                for _, I, us, err in ts_events(R, 'node', st, {key: n[key]}):
                    if err is not None or not us or not us[0][1]: continue         # C24 says so
                    try: x = I.getattr(us[0][1][0], fld)
                    except absint.Raise: x = absint.UNDEFINED
                    if x != camel(name):
                        if how == 'code': R.bad('node', st, 'the code %d (%s) becomes the %s %s' % (code, name, fld, x))
                        else: R.bad('node', st, '%s %s is spelt %s by the Node.js binding' % (fld, name, x))
                    else: R.ok('node', '%s: %s %s' % (st, fld, name))
    except build.BuildError as e: r.errors.append(str(e))


_native = None


def native_props(r, R):
    global _native
    if _native is None:
        import report
        rr = report.Result()
        c = C24(rr, Report(rr), 'quick')
        c.native()
        if rr.errors: raise build.BuildError(rr.errors[0])
        _native = c.props
        if not _native: R.unsure('node', SITE, 'the native half was not followed')
    return _native
