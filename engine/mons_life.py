"""Monitors for the life of a watcher: C01-C05, C30."""
from vals import *
from core import ERRNO, decide, ceval
from models import E, M1
from session import Mon
from world import IN, FAN
from llir import int_ty

ABS = mkstr([('abs', mkstr([('PATH',)]))])


def text(s):
    """a message: (prefix up to and including '@', rest) or None"""
    if not isinstance(s, Str): return None
    if s.p and isinstance(s.p[0], bytes):
        i = s.p[0].find(b'@')
        if i >= 0:
            return s.p[0][:i+1].decode('latin1'), mkstr((s.p[0][i+1:],) + s.p[1:])
    return None


def may_et(eng, st, v, table):
    """the names value v (from Ev) may stand for, or None when unknown"""
    if isinstance(v, str): return {v}
    if isinstance(v, int): return {str(v)}
    if v is UNDEF or not isinstance(v, Val): return None
    ss = [x for x in v.syms]
    if len(ss) == 1:
        d = st.dom(ss[0])
        if d is not None and len(d) <= 64:
            try: return {table.get(ceval(v, {ss[0]: x}), '?') for x in d}
            except KeyError: return None
    return None


def is_msg(st, ev): return ev is not None and ev.pt == 'watcher'


def errno_of(st):
    o = st.mem.get(ERRNO)
    c = o.cells.get(0) if o else None
    return c[1] if c else None


def doms(st, v):
    if isinstance(v, int): return {v}
    if isinstance(v, Sym):
        d = st.dom(v)
        if d is not None: return set(d)
        r = st.range(v)
        if r[1] - r[0] < 64: return set(range(int(r[0]), int(r[1]) + 1))
    return None


def fdkind(v):
    if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == 'fd': return v.name[1]
    return None


def failed(ret): return ret in (M1, (1 << 64) - 1, -1)


class LifeMon(Mon):
    def kind(self, eng, st, ev):
        """live / die / other / None (undecided)"""
        if ev is None: return None
        w = self.run.w
        et, pt = may_et(eng, st, ev.et, w.et_n), may_et(eng, st, ev.pt, w.pt_n)
        if pt is None: return None
        if 'watcher' not in pt: return 'other'
        if pt != {'watcher'} or et is None: return None
        if et == {'create'}: return 'live'
        if et == {'destroy'}: return 'die'
        if not et & {'create', 'destroy'}: return 'other'
        return None


class C01(LifeMon):
    keys = dict(s=0, spawned=0)

    def on_spawn(self, eng, st, worker, policy, args, tok, inst):
        st.mon['spawned'] += 1
        if st.mon['spawned'] > 1: self.bad(eng, st, inst, 'second worker', 'more than one worker is started by a constructor')

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        k = self.kind(eng, st, ev)
        s = st.mon['s']
        self.ok('delivery classified', eng.site(st, inst))
        if k is None:
            if s == 0: self.unsure('first', 'could not tell what the first delivery is', eng.site(st, inst))
            elif s == 2: self.bad(eng, st, inst, 'after-die', 'an event is delivered after the die event')
            return
        if s == 2:
            self.bad(eng, st, inst, 'after-die', 'an event (%r) is delivered after the die event' % ev)
            return
        if k == 'live':
            if s == 1: self.bad(eng, st, inst, 'second-live', 'the live event is delivered twice')
            self.check_text(eng, st, ev, inst, 'live')
            st.mon['s'] = 1
        elif s == 0:
            self.bad(eng, st, inst, 'before-live', 'the first event delivered (%r) is not the live event' % ev)
            st.mon['s'] = 2 if k == 'die' else 1
        elif k == 'die':
            self.check_text(eng, st, ev, inst, 'die')
            st.mon['s'] = 2

    def check_text(self, eng, st, ev, inst, which):
        t = text(ev.path)
        self.ok('%s message' % which, eng.site(st, inst))
        if t is None or t[0] not in ('s/self/%s@' % which, 'e/self/%s@' % which):
            if isinstance(ev.path, Str) and any(not isinstance(x, bytes) and x[0] in ('joined', 'value?', 'strobj') for x in ev.path.p):
                return self.unsure('%s text' % which, 'text not resolved: %r' % (ev.path,), eng.site(st, inst))
            return self.bad(eng, st, inst, which + '-text', 'the %s event\'s message is %r' % (which, ev.path))
        if st.mon.get('absfail'): return
        if t[1] is not ABS and t[1] != ABS:
            self.bad(eng, st, inst, which + '-path', 'the %s event names %r, not the absolute watched path' % (which, t[1]))

    def begin(self, eng, st, phase):
        if phase == 'worker': st.mon['s'] = 0

    def end(self, eng, st, phase, ret):
        if phase == 'ctor':
            self.ok('constructor path starts one worker')
            if st.mon['spawned'] != 1: self.bad(eng, st, None, 'no-worker', 'a path through the constructor starts %d workers' % st.mon['spawned'], 'constructor')
        if phase == 'worker':
            self.ok('worker path is bracketed')
            if st.mon['s'] == 0: self.bad(eng, st, None, 'no-live', 'the worker ends without a live event', 'worker')
            elif st.mon['s'] == 1: self.bad(eng, st, None, 'no-die', 'the worker ends without a die event', 'worker')


WHY = {'inotify_init1': 'inotify', 'inotify_init': 'inotify', 'epoll_create1': 'epoll', 'epoll_create': 'epoll', 'epoll_ctl': 'epoll', 'epoll_wait': 'epoll', 'read': 'read'}


PLACES = [mkstr([('PATH',)]), ABS] + [mkstr([(n, x)]) for n in ('canonical', 'weakly_canonical', 'realpath') for x in (ABS, mkstr([('PATH',)]))]


class C02(LifeMon):
    keys = dict(live='', die='', stop=0, emsg=0, isval=0, polled='', perr=0, why='', wrote='', isdir=tuple(sym(('is_directory', x), 1, dom=(0, 1)) for x in PLACES))

    def on_acquire(self, eng, st, kind, val, inst, info):
        if kind == 'fd' and info[0] == 'eventfd':
            self.ok('initial value of the stop descriptor', eng.site(st, inst))
            if info[1] != 0: self.bad(eng, st, inst, 'eventfd-initial', 'the stop descriptor starts with a value of %r: the watcher looks closed from the start' % (info[1],))

    def on_sys(self, eng, st, name, args, ret, inst):
        ph = st.mon['phase']
        if ph == 'worker':
            if name == 'eventfd_read':
                st.mon['polled'] = 'no' if failed(ret) else 'yes'
                st.mon['perr'] = errno_of(st) if failed(ret) else 0
                if not failed(ret): st.mon['stop'] = 1
            elif name in WHY:
                if failed(ret): st.mon['why'] = WHY[name]
                elif name in ('epoll_wait', 'read'): st.mon['why'] = ''
        elif name in ('eventfd_write', 'write'):
            st.mon['wrote'] = 'no' if failed(ret) else 'yes'

    def on_epdata(self, eng, st, entry, idx, inst):
        if fdkind(entry[1]) == 'eventfd' and st.mon['phase'] == 'worker': st.mon['stop'] = 1

    def isdir_known(self, st):
        ks = [st.const(v) for v in st.mon['isdir']]
        return 1 if 1 in ks else 0 if 0 in ks else None

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        k = self.kind(eng, st, ev)
        if k is None or ev is None: return
        t = text(ev.path)
        site = eng.site(st, inst)
        if k == 'live' and not st.mon['live'] and t:
            pre = t[0][:2]
            st.mon['live'] = pre
            isv = st.mon['isval']
            d = doms(st, isv) if isinstance(isv, Sym) else None
            pend = (d == {0}) or st.mon['polled'] == 'no'
            surely = d == {0} or (d is None and st.mon['polled'] == 'no' and doms(st, st.mon['perr']) == {E['EAGAIN']})
            looked = d is not None or st.mon['polled']
            closed = st.mon['polled'] == 'yes' or (d is not None and 0 not in d and st.mon['polled'] != 'no')
            dirk = self.isdir_known(st)
            self.ok('live message prefix', site)
            if pre == 's/':
                if not looked: self.bad(eng, st, inst, 'live-unlooked', 'the live message says s/ without having looked whether the watcher was closed')
                elif not pend: self.bad(eng, st, inst, 'live-closed', 'the live message says s/ though the watcher may have been closed')
                if dirk != 1: self.bad(eng, st, inst, 'live-nodir', 'the live message says s/ though the path is not known to be a directory')
            elif pre == 'e/':
                if surely and dirk == 1 and not st.mon['absfail']:
                    self.bad(eng, st, inst, 'live-e', 'the live message says e/ for a directory and a watcher that was not closed')
            st.mon.update(isdir=(), isval=0, polled='', perr=0)
        elif k == 'die' and t:
            pre = t[0][:2]
            st.mon['die'] = pre
            self.ok('die message prefix', site)
            good = st.mon['live'] == 's/' and st.mon['stop'] and not st.mon['emsg']
            if pre == 's/' and not good:
                self.bad(eng, st, inst, 'die-s', 'the die message says s/ %s' % ('after a live message of e/' if st.mon['live'] != 's/' else 'after an error' if st.mon['emsg'] else 'though the watcher was not asked to stop'))
            if pre == 'e/' and st.mon['live'] == 's/':
                if st.mon['stop']: self.bad(eng, st, inst, 'die-e', 'the die message says e/ though watching ended because it was asked to stop')
                elif not st.mon['emsg']: self.bad(eng, st, inst, 'die-unexplained', 'watching ended with an error of which no e/ message was delivered')
        elif k == 'other' and is_msg(st, ev):
            if t is None:
                if isinstance(ev.path, Str) and all(isinstance(x, bytes) for x in ev.path.p): self.bad(eng, st, inst, 'message-text', 'message without a kind: %r' % (ev.path,))
                return
            self.ok('message', site)
            if t[0][:2] == 'e/':
                if st.mon['stop']: self.bad(eng, st, inst, 'error-after-stop', 'an error (%s) is reported after the watcher was asked to stop' % t[0])
                st.mon['emsg'] = 1
                if not st.mon['absfail'] and t[1] != ABS: self.bad(eng, st, inst, 'error-path', 'the error message names %r, not the watched path' % (t[1],))
                why = st.mon['why']
                if why and why not in t[0]: self.bad(eng, st, inst, 'error-reason', 'a failure of %s is reported as %s' % (why, t[0]))
                elif not why and any(x in t[0] for x in set(WHY.values())) and st.mon['phase'] == 'worker':
                    self.bad(eng, st, inst, 'error-reason', '%s is reported though no such call failed' % t[0])
            elif t[0][:2] != 'w/':
                self.bad(eng, st, inst, 'message-kind', 'message %r is neither a warning nor an error' % t[0])

    def begin(self, eng, st, phase):
        if phase in ('close', 'close again', 'dtor'): st.mon['wrote'] = ''

    def end(self, eng, st, phase, ret):
        if phase == 'worker':
            self.ok('worker result')
            want = int(st.mon['die'] == 's/')
            c = decide(ret, st) if ret is not UNDEF and ret is not None else None
            if c is None: self.unsure('worker result', 'result %r not resolved' % (ret,))
            elif c != want: self.bad(eng, st, None, 'worker-result', 'the worker returns %s after a die message of %s' % (bool(c), st.mon['die']), 'worker')
        elif phase == 'close':
            self.ok('result of close')
            wr = [s for s in (ret.syms if isinstance(ret, Val) else ()) if s.name and s.name[0] == 'worker result']
            for x in (0, 1):
                s2 = st.clone()
                tok = st.mon['joined'][-1] if st.mon['joined'] else None
                if tok is None: return self.unsure('result of close', 'the worker was not joined')
                v = sym(('worker result', tok[1]), 1, dom=(0, 1))
                if not s2.setrange(v, x, x): continue
                r = decide(ret, s2)
                want = int(x and st.mon['wrote'] == 'yes')
                if r is None: self.unsure('result of close', 'result %r not resolved' % (ret,))
                elif r != want:
                    self.bad(eng, st, None, 'close-result', 'close() returns %s when the worker ended with %s and the stop request %s' % (
                        bool(r), 's/' if x else 'e/', {'yes': 'succeeded', 'no': 'failed', '': 'was not made'}[st.mon['wrote']]), 'close')
        elif phase == 'close again':
            self.ok('result of a later close')
            r = decide(ret, st)
            if r is None: self.unsure('result of a later close', 'result %r not resolved' % (ret,))
            elif r: self.bad(eng, st, None, 'close-again', 'close() returns true when it is called again', 'close')


class C03(LifeMon):
    keys = dict(after=0, tok=())

    def __init__(self, run):
        super().__init__(run)
        self.used = {}         # offsets of the watch object the worker uses
        self.late = {}         # stores of the constructor after the worker started

    def on_spawn(self, eng, st, worker, policy, args, tok, inst):
        st.mon['after'] = 1
        st.mon['tok'] = st.mon['tok'] + (tok,)
        self.ok('worker launch', eng.site(st, inst))
        if isinstance(policy, int):
            if not policy & 1 or policy & 2: self.bad(eng, st, inst, 'launch', 'the worker is launched with policy %d: it may never start, or run in close()' % policy)
        elif policy is None: self.bad(eng, st, inst, 'launch', 'the worker is launched without a policy: it may never start, or run in close()')
        else: self.unsure('launch', 'policy %r' % (policy,))
        for n, a in enumerate(args):
            a = eng.as_ptr(a, st)
            if not isinstance(a, P) or a.obj not in st.mem: continue
            self.ok('what the worker holds', eng.site(st, inst))
            for o, (z, v) in st.mem[a.obj].cells.items():
                if isinstance(v, Opaque) or isinstance(v, Str): continue
                if isinstance(v, P) and (v.obj[0] == 'a' or v.obj[0] == 'tmp' or v.obj in (('root', 'path'), ('root', 'cb'))):
                    what = {('root', 'path'): 'the path argument', ('root', 'cb'): 'the callback argument'}.get(v.obj, 'a local of the constructor')
                    self.bad(eng, st, inst, 'borrowed', 'the worker refers to %s, which need not outlive the constructor' % what)

    def on_acquire(self, eng, st, kind, val, inst, info):
        if st.mon['phase'] == 'ctor' and st.mon['after']:
            self.bad(eng, st, inst, 'created-late', 'a %s the worker may use is created after the worker started' % info[0])

    def on_release(self, eng, st, kind, val, inst):
        if st.mon['phase'] != 'worker' and kind == 'fd' and fdkind(val) == 'eventfd':
            self.ok('stop descriptor outlives the worker', eng.site(st, inst))
            if set(st.mon['tok']) - set(st.mon['joined']): self.bad(eng, st, inst, 'released-early', 'the stop descriptor is closed while the worker may still use it')

    def on_store(self, eng, st, p, v, size, inst):
        if isinstance(p, P) and p.obj == ('root', 'watch') and isinstance(p.off, int):
            if st.mon['phase'] == 'ctor' and st.mon['after']: self.late.setdefault((p.off, size), (eng.site(st, inst), st.clone(), inst))
    def on_load(self, eng, st, p, size, inst):
        if isinstance(p, P) and p.obj == ('root', 'watch') and isinstance(p.off, int) and st.mon['phase'] == 'worker':
            self.used.setdefault((p.off, size), eng.site(st, inst))

    def on_emit(self, eng, st, ev, p, inst):
        self.ok('callback called by the worker', eng.site(st, inst))
        if st.mon['phase'] != 'worker': self.bad(eng, st, inst, 'other-thread', 'the callback is called by %s' % {'ctor': 'the constructor', 'dtor': 'the destructor'}.get(st.mon['phase'], 'close()'))

    def end(self, eng, st, phase, ret):
        if phase in ('close', 'dtor'):
            self.ok('%s waits for the worker' % phase)
            if set(st.mon['tok']) - set(st.mon['joined']):
                self.bad(eng, st, None, 'not-joined', '%s may finish while the worker is still running' % ('close()' if phase == 'close' else 'the destructor'), phase)

    def finish(self, eng):
        for (o, z), (site, st, inst) in self.late.items():
            for (o2, z2), use in self.used.items():
                if o < o2 + z2 and o2 < o + z:
                    self.bad(eng, st, inst, 'initialised-late', 'bytes %d..%d of the watcher, which the worker reads at %s, are written after the worker started' % (o, o + z, use), site)


class C04(LifeMon):
    keys = dict(stop=0, ready=(), asked=0, epcur=(0, ptr(('epcur',), 0)), lastread=())

    def on_epdata(self, eng, st, entry, idx, inst):
        if st.mon['phase'] != 'worker': return
        if fdkind(entry[1]) == 'eventfd': st.mon['stop'] = 1
        else: st.mon['ready'] = tuple(x for x in st.mon['ready'] if x is not entry[1]) + (entry[1],)

    def on_epentry(self, eng, st, idx, n, inst):
        c, e = st.mon['epcur']
        if c is not n: return
        d = ladd(idx, e.off, 64, 1, -1)
        r = st.range(d) if isinstance(d, Val) else (d, d)
        if r == (0, 0): st.mon['epcur'] = (c, ptr(('epcur',), ladd(e.off, 1, 64)))

    def on_use(self, eng, st, kind, val, inst, what):
        if what == 'epoll_wait' and st.mon['phase'] == 'worker':
            site = eng.site(st, inst)
            self.ok('wait after a stop request', site)
            if st.mon['stop']: self.bad(eng, st, inst, 'wait-after-stop', 'the worker waits for events again after it has seen the stop request')
            regs = [e for e in st.mon['epreg'] if fdkind(e[1]) == 'eventfd' and (e[0] is val or e[0] == val)]
            self.ok('stop descriptor polled', site)
            if not regs: self.bad(eng, st, inst, 'not-polled', 'the worker waits without polling the stop descriptor: it can not be woken')
            for e in regs:
                ev = e[2]
                if not isinstance(ev, int): self.unsure('events of the stop descriptor', repr(ev), site); continue
                if not ev & 1: self.bad(eng, st, inst, 'not-polled', 'the stop descriptor is not polled for input')
                if ev & (1 << 31) or ev & (1 << 30): self.bad(eng, st, inst, 'edge', 'the stop descriptor is polled edge-triggered or once: a request can be missed')
            c, e = st.mon['epcur']
            if isinstance(c, Val):
                d = ladd(c, e.off, 64, 1, -1)
                r = st.range(d) if isinstance(d, Val) else (d, d)
                self.ok('every ready descriptor looked at', site)
                if r[1] > 0:
                    if isinstance(e.off, int) and e.off <= 1 or r[0] > 0:
                        self.bad(eng, st, inst, 'unseen', 'the worker waits again without having looked at every ready descriptor: a stop request can be put off for ever')
                    else: self.unsure('every ready descriptor looked at', 'remaining entries: %r %r %r' % (r,c,e), site)
            st.mon['ready'] = ()
            st.mon['lastread'] = ()

    def on_sys(self, eng, st, name, args, ret, inst):
        ph = st.mon['phase']
        if ph == 'worker':
            if name == 'eventfd_read':
                if not failed(ret): st.mon['stop'] = 1
                self.blocking(eng, st, args[0], inst)
            if name == 'epoll_wait' and failed(ret): st.mon['epcur'] = (0, ptr(('epcur',), 0))
            if name == 'read' and fdkind(args[0]) in ('inotify', 'fanotify'):
                fd = args[0]
                nb = self.nonblock.get(fd)
                self.ok('read does not block', eng.site(st, inst))
                if not nb:
                    if fd not in st.mon['ready']: self.bad(eng, st, inst, 'blocking-read', 'events are read from a blocking descriptor which was not reported ready: the worker can block for ever')
                if not failed(ret): st.mon['ready'] = tuple(x for x in st.mon['ready'] if x is not fd)
        else:
            if name in ('eventfd_write', 'write'):
                st.mon['asked'] = 1
                if isinstance(args[1], int) and args[1] == 0: st.mon['asked'] = 0
                self.ok('stop request', eng.site(st, inst))

    nonblock = {}
    evnb = {}

    def settle(self, eng, st):
        c, e = st.mon['epcur']
        if isinstance(c, Val):
            d = ladd(c, e.off, 64, 1, -1)
            if (st.range(d) if isinstance(d, Val) else (d, d))[1] <= 0: st.mon['epcur'] = (0, ptr(('epcur',), 0))

    def blocking(self, eng, st, fd, inst):
        self.ok('looking for a stop request does not block', eng.site(st, inst))
        if self.evnb.get(fd) is False:
            self.bad(eng, st, inst, 'blocking-poll', 'the stop descriptor is blocking: looking for a request waits for one')

    def on_acquire(self, eng, st, kind, val, inst, info):
        if kind != 'fd': return
        if info[0] == 'inotify': self.nonblock[val] = isinstance(info[1], int) and bool(info[1] & 0x800)
        if info[0] == 'fanotify': self.nonblock[val] = isinstance(info[1], int) and bool(info[1] & 2)
        if info[0] == 'eventfd': self.evnb[val] = not isinstance(info[2], int) or bool(info[2] & 0x800)

    def on_join(self, eng, st, tok, inst):
        if st.mon['phase'] in ('close', 'dtor', 'close again'):
            self.ok('stop requested before waiting for the worker', eng.site(st, inst))
            if not st.mon['asked']: self.bad(eng, st, inst, 'not-asked', 'the worker is waited for without having been asked to stop')

    def begin(self, eng, st, phase):
        if phase == 'worker': st.mon.update(stop=0, ready=())

    def on_sleep(self, eng, st, v, inst):
        if st.mon['phase'] == 'worker': self.unsure('sleep', 'the worker sleeps', eng.site(st, inst))

    def end(self, eng, st, phase, ret):
        if phase == 'dtor':
            self.ok('destructor requests a stop')
            if not st.mon['asked']: self.bad(eng, st, None, 'not-asked', 'the destructor finishes without having asked the worker to stop', 'destructor')


TRANSIENT = {'epoll_wait': {E['EINTR']}, 'read': {E['EAGAIN'], E['EINTR']}}
NAMES = {v: k for k, v in E.items()}


def most(uni):
    """how many records a read into a buffer of 4 KiB can return at most"""
    return 4096 // (24 if uni == 'fanotify' else 16)


class C05(LifeMon):
    # ctr: what a counter of a loop is known to have got over (-1: it has run out; set by State.setrange)
    # oldk: a record is of another version of the protocol: nothing the kernel says can be understood (set by State.note)
    keys = dict(lf=(), emsg=0, live='', stop=0, why=0, watching=0, oldk=0, ctr=0)
    FATAL = ('epoll_wait', 'read', 'epoll_create', 'epoll_create1', 'epoll_ctl', 'inotify_init', 'inotify_init1')

    def on_sys(self, eng, st, name, args, ret, inst):
        if st.mon['phase'] != 'worker': return
        if name in self.FATAL and failed(ret):
            if name == 'read' and fdkind(args[0]) not in ('inotify', 'fanotify'): return
            if name.startswith('inotify_init') and self.run.uni == 'fanotify': pass
            self.settled(eng, st, inst)
            e = errno_of(st)
            st.mon['lf'] = (name, e if isinstance(e, (Sym, int)) else 0)

    def on_use(self, eng, st, kind, val, inst, what):
        if what == 'epoll_wait' and st.mon['phase'] == 'worker':
            self.settled(eng, st, inst)
            st.mon.update(watching=1, ctr=0)

    def on_epdata(self, eng, st, entry, idx, inst):
        if st.mon['phase'] != 'worker': return
        if fdkind(entry[1]) == 'eventfd' and not (st.mon['lf'] and self.lasting(st)): st.mon['stop'] = 1
        self.settled(eng, st, inst)

    def lasting(self, st):
        n, e = st.mon['lf']
        d = doms(st, e)
        if n not in TRANSIENT: return {0}
        if d is None: return set()
        return d - TRANSIENT[n]

    def settled(self, eng, st, inst):
        """the worker carries on: what failed last must have been transient"""
        if not st.mon['lf']: return
        n, e = st.mon['lf']
        self.ok('failure of %s outlived only if transient' % n, eng.site(st, inst))
        l = self.lasting(st)
        if l: self.bad(eng, st, inst, 'ignored-' + n, 'watching goes on after a lasting failure of %s%s' % (n, ' (' + ', '.join(sorted(NAMES.get(x, str(x)) for x in l)) + ')' if n in TRANSIENT else ''))
        st.mon['lf'] = ()

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        k = self.kind(eng, st, ev)
        t = text(ev.path) if ev is not None else None
        if k == 'live' and t: st.mon['live'] = t[0][:2]
        elif k == 'other' and t and is_msg(st, ev) and t[0][:2] == 'e/':
            st.mon['emsg'] = 1
            if st.mon['lf']: st.mon['why'] = 1
            if st.mon['lf']:
                n, e = st.mon['lf']
                if n in TRANSIENT:
                    d = doms(st, e)
                    self.ok('errors are lasting', eng.site(st, inst))
                    x = (d or set()) & TRANSIENT[n]
                    if x: self.bad(eng, st, inst, 'transient-' + n, 'a transient outcome of %s (%s) is reported as an error' % (n, ', '.join(sorted(NAMES.get(y, str(y)) for y in x))))
            st.mon['lf'] = ()
        elif k == 'die':
            if st.mon['watching']:
                self.ok('ends for a reason', eng.site(st, inst))
                if st.mon['stop'] or st.mon['why'] or st.mon['lf'] or st.mon['oldk']: pass
                elif st.mon['ctr'] > most(self.run.uni): pass            # no batch has that many records
                elif st.mon['ctr'] == -1: self.unsure('ends for a reason', 'a counter ran out', eng.site(st, inst))
                else:
                    self.bad(eng, st, inst, 'ends-unasked', 'watching ends although nobody asked for it and nothing it depends on failed')
            if st.mon['lf']:
                n, e = st.mon['lf']
                self.ok('lasting failures are reported', eng.site(st, inst))
                l = self.lasting(st)
                if l and not st.mon['emsg']: self.bad(eng, st, inst, 'unreported-' + n, 'watching ends after a failure of %s without an error message' % n)
                d = doms(st, e)
                x = (d or set()) & TRANSIENT.get(n, set())
                if x and not st.mon['emsg']: self.bad(eng, st, inst, 'transient-' + n, 'a transient outcome of %s ends the watcher' % n)
            st.mon['lf'] = ()

    def begin(self, eng, st, phase):
        if phase == 'worker': st.mon.update(lf=(), emsg=0, why=0, live='', stop=0, watching=0, oldk=0, ctr=0)


class C30(LifeMon):
    keys = dict(based=(), refused=0, tried=0, live='', stop=0)
    OK = {ABS.p, mkstr([('realpath', ABS)]).p, mkstr([('canonical', ABS)]).p, mkstr([('weakly_canonical', ABS)]).p}

    def on_sys(self, eng, st, name, args, ret, inst):
        if st.mon['phase'] != 'worker': return
        if name == 'fanotify_init':
            if failed(ret): st.mon['refused'] = 1
        elif name in ('inotify_init', 'inotify_init1'): st.mon['tried'] = 1
        elif name == 'inotify_add_watch' and not failed(ret) or name == 'fanotify_mark' and not failed(ret):
            fd = args[0]
            s = args[1]
            if isinstance(s, Str) and s.p in self.OK and not (name == 'fanotify_mark' and isinstance(args[3], int) and not args[3] & 1):
                if fd not in st.mon['based']: st.mon['based'] = st.mon['based'] + (fd,)
            elif isinstance(s, Str) and self.vague(s): self.unsure('base', 'marked path %r' % (s,), eng.site(st, inst))

    def vague(self, s): return any(not isinstance(x, bytes) and x[0] in ('joined', 'strobj', 'value?', 'cstr') for x in s.p)

    def on_epdata(self, eng, st, entry, idx, inst):
        if fdkind(entry[1]) == 'eventfd': st.mon['stop'] = 1

    def on_use(self, eng, st, kind, val, inst, what):
        if what != 'epoll_wait' or st.mon['phase'] != 'worker': return
        site = eng.site(st, inst)
        self.ok('base directory marked before waiting', site)
        fds = [e[1] for e in st.mon['epreg'] if fdkind(e[1]) in ('inotify', 'fanotify') and (e[0] is val or e[0] == val)]
        if not fds: self.bad(eng, st, inst, 'no-source', 'the worker waits without polling any source of filesystem events')
        for fd in fds:
            if fd not in st.mon['based']: self.bad(eng, st, inst, 'deaf', 'the worker waits for events of a %s instance on which the base directory is not marked' % fdkind(fd))

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        k = self.kind(eng, st, ev)
        t = text(ev.path) if ev is not None else None
        if k == 'live' and t: st.mon['live'] = t[0][:2]
        if (k == 'other' and t and is_msg(st, ev) and t[0][:2] == 'e/') or k == 'die':
            if st.mon['live'] != 's/': return
            self.ok('fallback tried before an error', eng.site(st, inst))
            if st.mon['refused'] and not st.mon['tried']:
                self.bad(eng, st, inst, 'no-fallback', 'an error is reported after the privileged event source was refused, without trying the unprivileged one')
            if k != 'die' and 'fanotify' in t[0]:
                self.bad(eng, st, inst, 'fallback-error', 'the refused attempt to use the privileged event source is reported as an error')
            if k == 'die' and not st.mon['tried'] and not st.mon['based'] and not st.mon['stop']:
                self.bad(eng, st, inst, 'no-fallback', 'the worker ends without having tried the unprivileged event source')

    def begin(self, eng, st, phase):
        if phase == 'worker': st.mon.update(based=(), refused=0, tried=0, live='', stop=0)
