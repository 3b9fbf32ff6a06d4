"""Monitors about memory: C15 (buffer bounds), C28 (races)."""
from vals import *
from core import decide, ERRNO, INF
from models import E, M1, read_region
from session import Mon
from world import rsym, diff, REC, next_off
from mons_life import fdkind, failed
from mons_ev import rng, start_of, lsum, HDR


class C15(Mon):
    """Every load and store through a computed index, every fill of a buffer by a call, and every read of what a call has filled: the offset
    must be provably inside the array (or the object), and inside the part that was filled, for all values the path leaves possible."""
    want_close = False
    limits = True

    def place(self, p): return str(p.obj[0])

    def inside(self, eng, st, p, size, inst, what):
        if not isinstance(p, P): return
        o = st.mem.get(p.obj)
        lo, hi = 0, None
        if p.reg is not None and isinstance(p.reg[0], int) and isinstance(p.reg[1], int): lo, hi = p.reg
        elif o is not None and o.size: hi = o.size
        if hi is None: return
        if o is not None and o.kern:
            r = read_region(st, p)
            if r is not None and what == 'read' and r[0] in ('inotify', 'fanotify', 'epoll'): return          # decided per record / entry
        osz = o.size if o is not None and o.size else None
        site = eng.site(st, inst)
        a, b = rng(st, p.off)
        end = p.off
        if isinstance(size, int): b2 = b + size
        elif isinstance(size, Val) and size is not UNDEF:
            end = ladd(p.off, size, 64)
            b2 = rng(st, end)[1]
        else: return self.unsure(what, 'size %r' % (size,), site)
        if isinstance(p.off, int) and isinstance(size, int) and p.reg is not None and osz is not None:
            # a constant place: the array is only where the address came from (whole objects are cleared through their first member)
            lo, hi = 0, osz
        self.ok(what, site)
        if a >= lo and b2 <= hi: return
        # nothing is known about the place: an index from elsewhere
        if b2 == INF and any(isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] in ('unk', 'J', 'mem') for x in vsyms(end)):
            return self.unsure(what, 'offset %r' % (end,), site)
        # a walk which ends where it meets another place: what lies between is out of reach of the ranges
        w = {x for x in vsyms(end) if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'W' and (st.range(x)[1] >= 1 << 62 or st.range(x)[0] <= -(1 << 62))}
        if w and any(w & set(vsyms(k)) for k in st.ne):
            return self.unsure(what, 'offset %r, of a walk to a place' % (end,), site)
        # a read up to a count which an earlier loop left: what the count is bounded by is lost (the store which would have gone past the end
        # is seen where it happens, with the count's own loop)
        if w and what == 'read' and b2 >= 1 << 62: return self.unsure(what, 'offset %r, up to a count of an earlier loop' % (end,), site)
        rule = 'out-of-bounds'
        if b2 > hi: msg = 'the %s may go past the end of the buffer: %s bytes from its start where it has %d' % (what, 'up to %d' % (b2 - lo) if b2 != INF else 'without limit', hi - lo)
        else: msg = 'the %s may go before the start of the buffer' % what
        self.bad(eng, st, inst, rule, msg)

    def on_load(self, eng, st, p, size, inst): self.inside(eng, st, p, size, inst, 'read')
    def on_store(self, eng, st, p, v, size, inst): self.inside(eng, st, p, size, inst, 'write')

    def on_memcpy(self, eng, st, d, s, n, inst):
        self.inside(eng, st, eng.as_ptr(d, st), n, inst, 'write'); self.inside(eng, st, eng.as_ptr(s, st), n, inst, 'read')

    def on_memset(self, eng, st, d, n, inst): self.inside(eng, st, eng.as_ptr(d, st), n, inst, 'write')

    def on_fill(self, eng, st, dst, n, inst, what):
        site = eng.site(st, inst)
        p = eng.as_ptr(dst, st)
        if not isinstance(p, P): return
        self.ok('filled by ' + what, site)
        o = st.mem.get(p.obj)
        hi = o.size if o is not None and o.size else None
        if p.reg is not None and isinstance(p.reg[1], int): hi = p.reg[1] if hi is None else min(hi, p.reg[1])
        if hi is None: return
        if n is UNDEF or not isinstance(n, (int, Val)): return self.unsure('filled by ' + what, 'size %r' % (n,), site)
        if isinstance(n, int) and n >= 1 << 31: n = 1 << 62
        e = ladd(p.off, n, 64)
        a, b = rng(st, e)
        if b <= hi: return
        if b == INF and any(isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] in ('unk', 'J', 'mem') for x in vsyms(e)): return self.unsure('filled by ' + what, 'end %r' % (e,), site)
        self.bad(eng, st, inst, 'overflow-' + what, '%s may write %s bytes into a buffer which has %s' % (what, n if isinstance(n, int) else 'too many', '%d left' % (hi - p.off) if isinstance(p.off, int) else 'less left'))

    def on_stray_read(self, eng, st, p, region, size, inst):
        kind = region[0]
        what = {'epoll': 'the result of epoll_wait', 'inotify': 'the batch', 'fanotify': 'the batch'}.get(kind, kind)
        site = eng.site(st, inst) if inst is not None else ''
        if kind == 'epoll': return self.unsure('ready entries', 'place %r' % (p,), site)
        if region[2] is None: return self.bad(eng, st, inst, 'no-info', 'information is read from a record which may have none (an overflow, or of another version)')
        self.unsure('records', 'read of %s at %r' % (what, p.off), site)

    def on_record(self, eng, st, kind, L, start, b, field, inst):
        if st.mon['phase'] != 'worker': return
        site = eng.site(st, inst)
        self.ok('record read within the batch', site)
        d = diff(lsum(L, start), b)
        r = rng(st, d)
        if r[0] >= HDR[kind]: return
        # the kernel returns whole records: one that starts before the end is complete
        if r[0] >= 1: return
        if r[1] <= 0: return self.bad(eng, st, inst, 'past-batch', 'a record is read after the end of what the kernel returned')
        self.bad(eng, st, inst, 'past-batch', 'a record is read which may lie after the end of what the kernel returned')

    def on_epentry(self, eng, st, idx, n, inst):
        site = eng.site(st, inst)
        self.ok('ready entries', site)
        a, b = rng(st, idx)
        d = rng(st, diff(idx, n))
        if a < 0 or d[1] >= 0:
            if d[0] >= 0 or d[1] != INF: self.bad(eng, st, inst, 'entry', 'an entry is looked at which epoll_wait may not have filled')
            else: self.unsure('ready entries', 'index %r of %r' % (idx, n), site)

    def bad_access(self, eng, st, kind, p, size, inst):
        site = eng.site(st, inst)
        if isinstance(p, int) and 0 <= p < 4096: self.bad(eng, st, inst, 'null', 'a %s through a null pointer' % kind)
        elif p is not UNDEF and isinstance(p, Val): self.unsure('pointer', '%s through %r' % (kind, p), site)


UNSAFE = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'random', 'setenv', 'putenv', 'unsetenv', 'tmpnam', 'setlocale', 'getpwuid', 'getpwnam', 'basename', 'dirname', 'ttyname',
          'chdir', 'umask', 'drand48', 'std::setlocale', 'std::rand', 'std::strtok', 'std::localtime'}


class C28(Mon):
    """The accesses of the worker, and those the constructor makes after it started the worker and close() and the destructor make before they
    joined it, are collected per byte; two that overlap, of which one writes, must both be atomic. Static storage the worker writes is
    shared with the workers of other watchers."""
    keys = dict(who=0)

    def __init__(self, run):
        super().__init__(run)
        self.acc = {'worker': {}, 'closing thread': {}}
        self.pre = None

    def on_spawn(self, eng, st, worker, policy, args, tok, inst):
        st.mon['who'] = 'after'
        if self.pre is None: self.pre = set()
        self.pre |= {o for o in st.mem if o[0] != 'a'} | {o for o in st.mem if o[0] == 'a'}

    def who(self, st):
        ph = st.mon['phase']
        if ph == 'worker': return 'worker'
        if ph == 'ctor': return 'closing thread' if st.mon['who'] == 'after' else None
        if st.mon.get('joined'): return None
        return 'closing thread'

    def note(self, eng, st, p, size, rw, atomic, inst):
        w = self.who(st)
        if w is None or not isinstance(p, P): return
        o = p.obj
        if o == ERRNO or o[0] in ('tmp', 'a', 'dirent') or o in (('root', 'closure'), ('root', 'cb'), ('root', 'path')) or str(o[1]).startswith('arg'): return
        if o[0] == 'g':
            g = eng.m.global_(o[1])
            if g is None or g[2] or eng.m.thread_local(o[1]) or st.mon['guard']: return
            if o[1].startswith('_ZGV') or o[1].startswith('_ZT'): return
            if rw == 'w' and not atomic and w == 'worker':
                self.ok('static storage', eng.site(st, inst))
                return self.bad(eng, st, inst, 'static', 'the worker writes `%s`, which the workers of other watchers use too, without synchronisation' % eng.m.demangled(o[1])[-60:])
        elif self.pre is None or o not in self.pre: return
        lo, hi = rng(st, p.off)
        if hi == INF or lo < -4096: lo, hi = 0, 1 << 20
        n = size if isinstance(size, int) else 1
        self.acc[w].setdefault((o, lo, hi + n, rw, atomic), eng.site(st, inst))
        self.ok('shared accesses of the ' + w, eng.site(st, inst))

    def on_load(self, eng, st, p, size, inst):
        self.note(eng, st, p, size, 'r', bool(inst is not None and (inst.op in ('atomicrmw', 'cmpxchg') or inst.op == 'load' and inst.x)), inst)

    def on_store(self, eng, st, p, v, size, inst):
        self.note(eng, st, p, size, 'w', bool(inst is not None and (inst.op in ('atomicrmw', 'cmpxchg') or inst.op == 'store' and inst.x)), inst)

    def on_memcpy(self, eng, st, d, s, n, inst):
        self.note(eng, st, eng.as_ptr(d, st), n, 'w', False, inst); self.note(eng, st, eng.as_ptr(s, st), n, 'r', False, inst)

    def on_memset(self, eng, st, d, n, inst): self.note(eng, st, eng.as_ptr(d, st), n, 'w', False, inst)
    def on_fill(self, eng, st, d, n, inst, what): self.note(eng, st, eng.as_ptr(d, st), n, 'w', False, inst)
    def on_future(self, eng, st, p): self.note(eng, st, p, 16, 'r', False, None)

    def on_strset(self, eng, st, p, s, old): self.note(eng, st, p, 32, 'w', False, None)

    def on_unknown(self, eng, st, base, args, inst):
        if base in UNSAFE and self.who(st): self.bad_call(eng, st, inst, base)

    def bad_call(self, eng, st, inst, base):
        self.viol.setdefault(('unsafe-call', eng.site(st, inst)), dict(rule='unsafe-call', site=eng.site(st, inst), msg='the %s calls %s, which uses static storage without synchronisation' % (self.who(st), base),
                             path=eng.callpath(st, inst), trace=[], tree=self.run.tree, universe=self.run.uni, phase=st.mon.get('phase')))

    def finish(self, eng):
        W, C = self.acc['worker'], self.acc['closing thread']
        for (o, lo, hi, rw, at), site in W.items():
            for (o2, lo2, hi2, rw2, at2), site2 in C.items():
                if o != o2 or lo >= hi2 or lo2 >= hi: continue
                self.ok('pairs of accesses to the same bytes', site or site2)
                if rw == rw2 == 'r' or at and at2: continue
                k = ('race', site or site2)
                if k in self.viol: continue
                self.viol[k] = dict(rule='race', site=site or site2, msg='bytes %d-%d of %s are %s by the worker (%s%s) and %s by the thread which closes (%s%s) without anything between them' % (
                    max(lo, lo2), min(hi, hi2) - 1, fmt_name(o), 'written' if rw == 'w' else 'read', 'atomically, ' if at else '', site, 'written' if rw2 == 'w' else 'read', 'atomically, ' if at2 else '', site2),
                    path='', trace=[], tree=self.run.tree, universe=self.run.uni, phase='')
