"""Monitors about descriptors: C06, C07, C08."""
from vals import *
from core import decide
from models import E, M1
from session import Mon
from world import IN, FAN
from mons_life import LifeMon, doms, fdkind, failed

NAME = {'handle': 'descriptor of a directory handle', 'open': 'opened descriptor', 'dup': 'duplicated descriptor', 'recfd': 'descriptor the kernel passed with an event',
        'inotify': 'inotify descriptor', 'fanotify': 'fanotify descriptor', 'epoll': 'epoll descriptor', 'eventfd': 'stop descriptor', 'pipe': 'descriptor of a pipe', 'dir': 'directory stream'}
RECFD = 5


def sx(v): return signed(v & M1, 32) if isinstance(v, int) else v


class C06(Mon):
    """Every descriptor and directory stream that is acquired is tracked along all paths: it is released once, not used afterwards,
    and nothing else is released; the set that is open when the worker ends is the one it started with, and is empty after the destructor."""
    keys = dict(res=(), spawnres=())

    def __init__(self, run):
        super().__init__(run)
        self.wends = []

    def what(self, r): return NAME.get(r[1], r[1])

    def live(self, st, v):
        for r in st.mon['res']:
            if r[-1] is v or r[-1] == v: return r

    def drop(self, st, r): st.mon['res'] = tuple(x for x in st.mon['res'] if x is not r)

    def on_acquire(self, eng, st, kind, val, inst, info):
        site = eng.site(st, inst)
        if kind == 'dir':
            s = info
            if isinstance(s, Str) and s.p and not isinstance(s.p[0], bytes) and s.p[0][0] == 'fd':
                r = self.live(st, s.p[0][1])
                if r: self.drop(st, r)
        k = 'dir' if kind == 'dir' else info[0]
        self.ok('acquired', site)
        for r in st.mon['res']:
            if r[2] == site and r[1] == k and k != 'pipe' and not self.held(st, r[-1]):
                self.bad(eng, st, inst, 'leak-' + k, 'a %s is lost here: it is acquired again while the last one is still open' % NAME.get(k, k))
                self.drop(st, r)
        st.mon['res'] = st.mon['res'] + ((kind, k, site, val),)

    def held(self, st, v):
        for o in st.mem.values():
            for z, c in o.cells.values():
                if c is v or isinstance(c, Val) and v in c.syms and not isinstance(c, Str): return True
        return False

    def on_recfd(self, eng, st, x):
        st.mon['res'] = tuple(r for r in st.mon['res'] if r[1] != 'recfd') + (('fd', 'recfd', 'read', x),)

    def on_release(self, eng, st, kind, val, inst):
        site = eng.site(st, inst)
        self.ok('released', site)
        r = self.live(st, val)
        if r:
            if r[0] != kind: self.bad(eng, st, inst, 'mixed', 'a %s is released as a %s' % (self.what(r), kind))
            self.drop(st, r)
            return
        if kind == 'dir':
            if val == 0: self.bad(eng, st, inst, 'null-dir', 'a directory stream which was not opened is closed')
            elif isinstance(val, Sym) and isinstance(val.name, tuple) and val.name[0] == 'DIR': self.bad(eng, st, inst, 'double', 'a directory stream is closed again')
            else: self.unsure('released', 'which directory stream is closed: %r' % (val,), site)
            return
        if val is UNDEF:
            return self.bad(eng, st, inst, 'indeterminate', 'an indeterminate descriptor is closed')
        if isinstance(val, int):
            v = sx(val)
            if v >= 0: self.bad(eng, st, inst, 'not-ours' if v != RECFD else 'double', 'descriptor %s is closed, which the watcher does not have' % ('of an event' if v == RECFD else v))
            return
        k = fdkind(val)
        if k: return self.bad(eng, st, inst, 'double', 'the %s is closed again' % NAME.get(k, k))
        if isinstance(val, Val):
            if st.range(val)[1] < 0: return
        self.unsure('released', 'which descriptor is closed: %r' % (val,), site)

    def on_use(self, eng, st, kind, val, inst, what):
        if what == 'epoll_wait' and st.mon['phase'] == 'worker':
            for r in st.mon['res']:
                if r[1] in ('dir', 'handle', 'recfd') and not self.held(st, r[-1]):
                    self.bad(eng, st, inst, 'leak-' + r[1], 'the worker waits for events while a %s which it lost is still open (from %s)' % (self.what(r), r[2]))
                    self.drop(st, r)
        self.ok('used while open', eng.site(st, inst))
        if isinstance(val, Sym) and isinstance(val.name, tuple) and val.name[0] in ('fd', 'DIR') and not self.live(st, val):
            k = fdkind(val) or 'dir'
            self.bad(eng, st, inst, 'used-after', 'the %s is used (%s) after it was released' % (NAME.get(k, k), what))
        if kind == 'dir' and val == 0: self.bad(eng, st, inst, 'null-dir', 'a directory stream which was not opened is used')

    def begin(self, eng, st, phase):
        if phase == 'worker': st.mon['spawnres'] = st.mon['res']

    def end(self, eng, st, phase, ret):
        if phase == 'worker':
            self.ok('worker path')
            sp = set(st.mon['spawnres'])
            for r in st.mon['res']:
                if r not in sp: self.bad(eng, st, None, 'leak-' + r[1], 'the worker ends with a %s still open' % self.what(r), r[2])
            self.wends.append(frozenset(r for r in sp if r in st.mon['res']))
            self.spawned = sp
        if phase == 'dtor':
            self.ok('destructor path')
            for r in st.mon['res']:
                by_worker = self.wends and r in self.spawned and all(r not in e for e in self.wends)
                if not by_worker: self.bad(eng, st, None, 'leak-' + r[1], 'the destructor ends with a %s still open' % self.what(r), r[2])
            if self.wends:
                for r in self.spawned - set(st.mon['res']):
                    if any(r not in e for e in self.wends): self.bad(eng, st, None, 'double', 'the %s is closed by the worker and by the destructor or close()' % self.what(r), r[2])


CLOEXEC = 0x80000
# calls which make descriptors: where the flag is (argument, bit), or None when there is no way to ask for it
MAKERS = {'socket': (1, CLOEXEC), 'socketpair': (1, CLOEXEC), 'accept': None, 'accept4': (3, CLOEXEC), 'timerfd_create': (1, CLOEXEC), 'signalfd': (2, CLOEXEC), 'memfd_create': (1, 1),
          'creat': None, 'creat64': None, 'mkstemp': None, 'mkostemp': (1, CLOEXEC), 'open_tree': (2, CLOEXEC), 'userfaultfd': (0, CLOEXEC), 'shm_open': 'ok', 'pidfd_open': 'ok',
          'std::basic_ifstream::basic_ifstream': None, 'std::basic_ofstream::basic_ofstream': None, 'std::basic_fstream::basic_fstream': None, 'popen': None, 'tmpfile': None}


class C07(Mon):
    """At every call which makes a descriptor the close-on-exec flag must be among its arguments (not set later: another thread may fork in between)."""
    BIT = {'inotify': [(1, CLOEXEC, 'IN_CLOEXEC')], 'epoll': [(1, CLOEXEC, 'EPOLL_CLOEXEC')], 'eventfd': [(2, CLOEXEC, 'EFD_CLOEXEC')],
           'fanotify': [(1, 1, 'FAN_CLOEXEC'), (2, CLOEXEC, 'O_CLOEXEC for the descriptors of events')], 'open': [(1, CLOEXEC, 'O_CLOEXEC')], 'handle': [(1, CLOEXEC, 'O_CLOEXEC')],
           'pipe': [(1, CLOEXEC, 'O_CLOEXEC')], 'dup': []}

    def on_acquire(self, eng, st, kind, val, inst, info):
        site = eng.site(st, inst)
        self.ok('made close-on-exec', site)
        if kind == 'dir': return
        k = info[0]
        if k == 'dup':
            if info[1] not in (1030,) and not (isinstance(info[1], int) and info[1] & CLOEXEC): self.bad(eng, st, inst, 'dup', 'a descriptor is duplicated without close-on-exec')
            return
        for n, bit, name in self.BIT.get(k, []):
            f = info[n]
            if isinstance(f, Val) and f is not UNDEF:
                c = st.const(f)
                f = c if c is not None else f
            if isinstance(f, int):
                if not f & bit: self.bad(eng, st, inst, k, 'the %s is made without %s' % (NAME.get(k, k), name))
            else:
                d = doms(st, f)
                if d and all(not x & bit for x in d): self.bad(eng, st, inst, k, 'the %s is made without %s' % (NAME.get(k, k), name))
                elif not (d and all(x & bit for x in d)): self.unsure('made close-on-exec', 'flags %r' % (f,), site)

    def on_sys(self, eng, st, name, args, ret, inst):
        if name == 'fcntl' and args[1] == 2 and len(args) > 2:
            self.ok('flag kept', eng.site(st, inst))
            if isinstance(args[2], int) and not args[2] & 1: self.bad(eng, st, inst, 'cleared', 'the close-on-exec flag of a descriptor is cleared')

    def on_unknown(self, eng, st, base, args, inst):
        if base not in MAKERS and base not in ('fopen', 'fopen64', 'freopen', 'fdopen'): return
        site = eng.site(st, inst)
        self.ok('made close-on-exec', site)
        k = MAKERS.get(base)
        if base.startswith('fopen'):
            from models import cstr
            m = cstr(eng, st, args[1])
            t = m.p[0] if len(m.p) == 1 and isinstance(m.p[0], bytes) else None
            if t is None: self.unsure('made close-on-exec', 'mode %r' % (m,), site)
            elif b'e' not in t: self.bad(eng, st, inst, base, 'a file is opened without "e" in its mode')
        elif k is None: self.bad(eng, st, inst, base, 'a descriptor is made by %s, without close-on-exec' % base)
        elif isinstance(k, tuple):
            f = args[k[0]]
            if not isinstance(f, int): self.unsure('made close-on-exec', 'flags %r' % (f,), site)
            elif not f & k[1]: self.bad(eng, st, inst, base, 'a descriptor is made by %s without close-on-exec' % base)


def names(mask, table): return ', '.join(n for n, b in table.items() if mask & b) or '0'


class C08(Mon):
    """At every call which subscribes to events (inotify_add_watch, fanotify_mark) the mask holds every required event and none that is forbidden,
    and the flags make it a lasting subscription to the directory itself."""
    I_REQ = IN['CREATE'] | IN['MODIFY'] | IN['MOVED_FROM'] | IN['MOVED_TO'] | IN['DELETE']
    I_FORB = IN['ACCESS'] | IN['OPEN'] | IN['CLOSE_NOWRITE'] | IN['ONESHOT'] | IN['EXCL_UNLINK'] | IN['MASK_CREATE']
    F_REQ = FAN['CREATE'] | FAN['MODIFY'] | FAN['MOVED_FROM'] | FAN['MOVED_TO'] | FAN['DELETE'] | FAN['ONDIR'] | FAN['EVENT_ON_CHILD']
    F_FORB = FAN['ACCESS'] | FAN['OPEN'] | FAN['CLOSE_NOWRITE'] | FAN['OPEN_EXEC'] | 0x10000 | 0x20000 | 0x40000

    def const(self, st, v):
        if isinstance(v, int): return v
        return st.const(v) if isinstance(v, Val) and v is not UNDEF else None

    def mask(self, eng, st, inst, m, req, forb, table, who):
        site = eng.site(st, inst)
        self.ok('subscription', site)
        v = self.const(st, m)
        if v is None:
            d = doms(st, m)
            if not d: return self.unsure('subscription', 'mask %r' % (m,), site)
        else: d = {v}
        for v in d:
            if req & ~v: self.bad(eng, st, inst, 'missing', '%s does not ask for %s' % (who, names(req & ~v, table)))
            if forb & v: self.bad(eng, st, inst, 'forbidden', '%s asks for %s' % (who, names(forb & v, table) if forb & v & ~0x70000 else 'permission events'))

    def on_sys(self, eng, st, name, args, ret, inst):
        if name == 'inotify_add_watch':
            self.mask(eng, st, inst, args[2], self.I_REQ, self.I_FORB, IN, name)
        elif name == 'fanotify_mark':
            fl = self.const(st, args[3])
            if fl is None: self.unsure('kind of mark', repr(args[3]), eng.site(st, inst)); return
            if fl & 0x2 or fl & 0x80: return          # FAN_MARK_REMOVE, FAN_MARK_FLUSH
            self.ok('kind of mark', eng.site(st, inst))
            if not fl & 1: self.bad(eng, st, inst, 'not-added', 'the mark is not added')
            if fl & (0x10 | 0x100): self.bad(eng, st, inst, 'whole-mount', 'the mark is of a whole mount or filesystem, and not of the directory')
            if fl & (0x20 | 0x400): self.bad(eng, st, inst, 'ignored', 'the mark tells the kernel to ignore events')
            if fl & 0x200: self.bad(eng, st, inst, 'evictable', 'the kernel may drop the mark when it wants memory')
            self.mask(eng, st, inst, args[2], self.F_REQ, self.F_FORB, FAN, name)
        elif name == 'fanotify_init' and not failed(ret):
            fl = self.const(st, args[0])
            self.ok('queue', eng.site(st, inst))
            if fl is None: self.unsure('queue', repr(args[0]), eng.site(st, inst)); return
            if (fl & 0xC00) != 0xC00: self.bad(eng, st, inst, 'no-names', 'the events do not tell the directory and name of the entry')
            if fl & 0xC: self.bad(eng, st, inst, 'permission-class', 'the event queue is of a class which can ask for permission events')
