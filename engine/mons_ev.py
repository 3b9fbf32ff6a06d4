"""Monitors about kernel records and the events made of them: C09-C13."""
from vals import *
from core import decide, ceval
from models import E, M1, read_region, slen
from session import Mon
from world import IN, FAN, D, rsym, next_off, rec_classes, rec_class, IN_CLASSES, FAN_OVF, diff
from mons_life import LifeMon, doms, fdkind, failed, text, may_et, is_msg

VAGUE = ('elsewhere', 'joined', 'value?', 'strobj', 'fmt?', 'bad', 'cstr', 'str?', 'bytes', 'trunc')
HDR = {'inotify': 16, 'fanotify': 24}


def vague(s):
    return not isinstance(s, Str) or any(not isinstance(x, bytes) and (x[0] in VAGUE or any(isinstance(y, Str) and vague(y) for y in x)) for x in s.p)


def rng(st, v): return st.range(v) if isinstance(v, Val) else (v, v)


def rec_of(p):
    """(L, b) of the record a path was made of"""
    if not isinstance(p, Str): return None
    for x in p.p:
        if not isinstance(x, bytes) and x[0] == 'NAME': return x[1], x[2]
    for x in p.p:
        if not isinstance(x, bytes) and x[0] == 'readlink':
            h = handle_of(x)
            if h: return h
    for x in p.p:
        if not isinstance(x, bytes) and x[0] == 'MAP' and isinstance(x[2], Sym) and x[2].name[0] == 'rec': return x[2].name[2], x[2].name[3]
    return None


def handle_of(x):
    """(L, b) of the directory handle behind ('readlink', '/proc/self/fd/N')"""
    s = x[1]
    if isinstance(s, Str) and len(s.p) == 2 and s.p[0] in (b'/proc/self/fd/', b'/dev/fd/') and s.p[1][0] == 'num':
        v = s.p[1][1]
        if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[:2] == ('fd', 'handle') and isinstance(v.name[-1], tuple) and len(v.name[-1]) == 2: return v.name[-1]
    return None


def same(a, b):
    d = diff(a, b) if not (isinstance(a, int) and isinstance(b, int)) else a - b
    return d == 0 if isinstance(d, int) else None


class EvMon(LifeMon):
    want_close = False

    @property
    def kind_(self): return self.run.uni

    def fs(self, eng, st, ev):
        """is this delivery an event about the filesystem (True/False/None)"""
        if ev is None: return None
        k = self.kind(eng, st, ev)
        if k is None:
            pt = may_et(eng, st, ev.pt, self.run.w.pt_n)
            return True if pt is not None and 'watcher' not in pt else None
        if k == 'other':
            pt = may_et(eng, st, ev.pt, self.run.w.pt_n)
            return 'watcher' not in pt
        return False

    def halves(self, ev):
        out = [('', ev)]
        if ev.assoc is not None: out.append(('associated ', ev.assoc))
        return out


def want(mask):
    et = 'create' if mask & IN['CREATE'] else 'destroy' if mask & IN['DELETE'] else 'rename' if mask & 0xC0 else 'modify' if mask & IN['MODIFY'] else None
    return et, 'dir' if mask & D else 'file'


class C09(EvMon):
    """Every delivery is compared with the kernel record its path is made of, for every mask the record can still have on that path."""

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker' or ev is None: return
        site = eng.site(st, inst)
        w = self.run.w
        fs = self.fs(eng, st, ev)
        if fs is None: return self.unsure('delivery', repr(ev)[:200], site)
        if not fs:
            self.ok('messages', site)
            et = may_et(eng, st, ev.et, w.et_n)
            if et is not None and et - {'other', 'create', 'destroy'}: self.bad(eng, st, inst, 'message-effect', 'a message to the user has the effect %s' % sorted(et))
            return
        for which, h in self.halves(ev):
            if isinstance(h, tuple): self.unsure('delivery', 'associated %r' % (h,), site); continue
            r = rec_of(h.path)
            if r is None: self.unsure('delivery', 'path %r' % (h.path,), site); continue
            L, b = r
            m = rsym(self.kind_, L, b, 'mask')
            d = st.dom(m)
            self.ok('effect and type', site)
            cl = rec_classes(st, self.kind_, L, b)
            if self.kind_ == 'inotify' and cl & {'self', 'ovf'} or self.kind_ == 'fanotify' and cl & {'ovf', 'badvers', 'other'}:
                self.bad(eng, st, inst, 'bookkeeping', 'a record which is no change of an entry (%s) is delivered as an event' % ', '.join(sorted(cl & {'self', 'ovf', 'other', 'badvers'})))
                continue
            for x in sorted(d):
                e, t = want(x)
                if e is None: continue
                ge, gt = self.value(st, h.et, m, x, w.et_n), self.value(st, h.pt, m, x, w.pt_n)
                if ge is None: self.unsure('effect', repr(h.et), site)
                elif e not in ge: self.bad(eng, st, inst, 'effect', 'the effect of the %sevent is %s where the record says %s' % (which, '/'.join(sorted(ge)), e))
                if gt is None: self.unsure('type', repr(h.pt), site)
                elif t not in gt: self.bad(eng, st, inst, 'type', 'the path type of the %sevent is %s where the record says %s' % (which, '/'.join(sorted(gt)), t))

    def value(self, st, v, m, x, table):
        if isinstance(v, str): return {v}
        if isinstance(v, int): return {str(v)}
        if v is UNDEF: return {'indeterminate'}
        if isinstance(v, Val) and v.syms <= {m}:
            try: return {table.get(ceval(v, {m: x}), '?')}
            except Exception: return None
        return may_et(None, st, v, table)


class C10(EvMon):
    """The path of every delivery is compared, part by part, with the watched directory of the record (inotify: the entry of the watch map for
    the record's watch; fanotify: what the record's own directory handle resolves to) joined with the name in the same record."""
    def on_map(self, eng, st, op, m, k, v, inst):
        if st.mon['phase'] != 'worker': return
        site = eng.site(st, inst)
        if op in ('at?', 'deref_end', 'find'): self.ok('directory known', site)
        if op == 'at?': self.bad(eng, st, inst, 'unknown-watch', 'the directory of a watch is looked up although it may not be known')
        elif op == 'deref_end': self.bad(eng, st, inst, 'unknown-watch', 'the result of a failed look-up is used')
        elif op == 'index' and isinstance(k, Sym) and isinstance(k.name, tuple) and k.name[0] == 'rec':
            from vals import term
            if decide(term('in', (m.d[0], m.d[2], k), 1), st) != 1: self.bad(eng, st, inst, 'unknown-watch', 'looking up the directory of a watch which may not be known makes an empty one')

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker' or not self.fs(eng, st, ev): return
        site = eng.site(st, inst)
        for which, h in self.halves(ev):
            if isinstance(h, tuple): self.unsure('path', 'associated %r' % (h,), site); continue
            s = h.path
            self.ok('path', site)
            if isinstance(s, Str) and not s.p:
                self.bad(eng, st, inst, 'empty', 'an event with an empty %spath is delivered' % which); continue
            if isinstance(s, Str) and any(not isinstance(x, bytes) and x[0] == 'trunc' for x in s.p):
                self.bad(eng, st, inst, 'cut-off', 'the %spath may be cut off: it is written to a buffer which may be too small' % which); continue
            if vague(s): self.unsure('path', repr(s)[:200], site); continue
            e = self.wrong(st, s)
            if e: self.bad(eng, st, inst, 'path', 'the %spath is %s: %s' % (which, short(s), e)); continue

    def wrong(self, st, s):
        if self.kind_ == 'inotify':
            if len(s.p) != 3 or s.p[1] != b'/' or isinstance(s.p[0], bytes) or isinstance(s.p[2], bytes): return 'not the directory of the watch, a slash and the name'
            a, _, n = s.p
            if a[0] != 'MAP': return 'it does not start with the directory of the watch'
            if n[0] != 'NAME': return 'it does not end in the name of the entry'
            L, b = n[1], n[2]
            if a[2] is not rsym('inotify', L, b, 'wd'): return 'the directory is that of another record than the name'
            return None
        if not s.p or isinstance(s.p[0], bytes): return 'it does not start with the directory of the record'
        a = s.p[0]
        if a[0] == 'MAP': return None
        h = handle_of(a) if a[0] == 'readlink' else None
        if h is None: return 'it does not start with the directory of the record'
        if len(s.p) == 1:
            c = sym(('rec', 'fanotify', h[0], h[1], 'namecls'), 32, dom=(0, 3))
            if st.dom(c) == {0}: return None
            return 'the name of the entry is missing'
        if len(s.p) != 3 or s.p[1] != b'/' or isinstance(s.p[2], bytes) or s.p[2][0] != 'NAME': return 'not the directory, a slash and the name'
        n = s.p[2]
        if n[1] is not h[0] or same(n[2], h[1]) is not True: return 'the directory is that of another record than the name'
        if st.dom(n[3]) == {0}: return 'a record about the directory itself has its own name added'
        return None


def short(s):
    out = []
    for x in s.p: out.append(x.decode('latin1') if isinstance(x, bytes) else '<%s>' % {'MAP': 'directory of the watch', 'NAME': 'name in the record', 'readlink': 'directory of the record'}.get(x[0], x[0]))
    return ''.join(out)


from llir import int_ty as _it
int_ty32 = _it(32)


def lsum(a, b): return ladd(a, b, 64)


def masks(xs):
    out = []
    for x in xs: out.append('|'.join(n for n, v in IN.items() if x & v and v != D) or hex(x))
    return ', '.join(sorted(set(out)))


class Cursor(EvMon):
    """Follows the batch: exp is the first record which is not yet accounted for."""
    keys = dict(cur=0, exp=ptr(('exp',), 0), hf=0, done=0)

    def on_sys(self, eng, st, name, args, ret, inst):
        if st.mon['phase'] != 'worker': return
        if name == 'read' and fdkind(args[0]) == self.kind_:
            if failed(ret) or not isinstance(ret, Val): st.mon.update(cur=0, exp=ptr(('exp',), 0), done=1)
            else:
                q = eng.as_ptr(args[1], st)
                st.mon.update(cur=ret, exp=ptr(('exp',), q.off if isinstance(q, P) else 0), hf=0, done=0)
        elif name == 'open_by_handle_at' and failed(ret):
            w = self.run.w.handle_at(eng, st, eng.as_ptr(args[1], st))
            if w: self.unresolved(eng, st, *w)
        elif name == 'readlink' and failed(ret):
            h = handle_of((0, args[0]))
            if h: self.unresolved(eng, st, *h)

    def unresolved(self, eng, st, L, b):
        """the directory of a record can not be determined: it can not be delivered, nor what it would be associated with"""
        if L is not st.mon['cur']: return
        self.advance(st)
        e = st.mon['exp'].off
        n = next_off(self.kind_, L, e)
        if same(b, e) is True: st.mon.update(exp=ptr(('exp',), n), hf=ptr(('hf',), e))
        elif same(b, n) is True: st.mon.update(exp=ptr(('exp',), next_off(self.kind_, L, n)), hf=0)
        self.advance(st)

    def on_use(self, eng, st, kind, val, inst, what):
        if st.mon['phase'] == 'worker' and (what == 'epoll_wait' or what == 'read' and fdkind(val) == self.kind_):
            self.batch_end(eng, st, inst, 'waits for events' if what == 'epoll_wait' else 'reads the next batch')
            st.mon.update(cur=0, exp=ptr(('exp',), 0), hf=0, done=1)

    def left(self, st):
        """range of the bytes of the batch which are not accounted for"""
        L = st.mon['cur']
        o = start_of(st, L)
        if o is None: return None
        return rng(st, diff(lsum(L, o), st.mon['exp'].off))

    def skippable(self, st, L, b):
        k = self.kind_
        if k == 'inotify':
            cl = rec_classes(st, k, L, b)
            if cl and not cl & {'plain', 'move'}: return True
            wd = rsym(k, L, b, 'wd')
            return any(t.op == 'in' and v == 0 and t.args[2] is wd for t, v in st.bt.items())
        cl = rec_classes(st, k, L, b)
        return bool(cl) and 'named' not in cl

    def advance(self, st):
        L = st.mon['cur']
        if not isinstance(L, Val): return
        k = self.kind_
        for _ in range(6):
            b = st.mon['exp'].off
            h = st.mon['hf']
            if isinstance(h, P):
                if same(next_off(k, L, h.off), b) is not True: st.mon['hf'] = 0
                else:
                    da, db = st.dom(rsym(k, L, h.off, 'mask')), st.dom(rsym(k, L, b, 'mask'))
                    can = {x & IN['MOVED_FROM'] and y & IN['MOVED_TO'] and x & D == y & D for x in da for y in db}
                    if not any(can): st.mon['hf'] = 0
                    elif all(can):
                        st.mon.update(hf=0, exp=ptr(('exp',), next_off(k, L, b)))
                        continue
            if not self.skippable(st, L, b): break
            st.mon['exp'] = ptr(('exp',), next_off(k, L, b))
        r = self.left(st)
        if r is not None and r[1] < HDR[k]: st.mon.update(cur=0, exp=ptr(('exp',), 0), hf=0, done=1)

    def settle(self, eng, st): self.advance(st)

    def batch_end(self, eng, st, inst, what):
        if not isinstance(st.mon['cur'], Val): return
        self.advance(st)
        self.ok('whole batch', eng.site(st, inst))
        if not isinstance(st.mon['cur'], Val): return
        r = self.left(st)
        if r is None: return self.unsure('whole batch', 'the batch buffer is gone', eng.site(st, inst))
        self.lost(eng, st, inst, what, r)

    def lost(self, eng, st, inst, what, r): pass

    def delivered(self, eng, st, ev, inst):
        """None, or (rule, text) when the delivery is not the one that is due"""
        L = st.mon['cur']
        a = rec_of(ev.path)
        if a is None: return None
        if not isinstance(L, Val): return ('again', 'a record is delivered although all of its batch had been delivered')
        c = rec_of(ev.assoc.path) if ev.assoc is not None and not isinstance(ev.assoc, tuple) else None
        k = self.kind_
        if a[0] is not L: return ('old-batch', 'an event is made of a record of an earlier batch')
        self.advance(st)
        if not isinstance(st.mon['cur'], Val): return ('again', 'a record is delivered although all of its batch had been delivered')
        bs = [a[1]] + ([c[1]] if c else [])
        e = st.mon['exp'].off
        hit = [b for b in bs if same(b, e) is True]
        if not hit and isinstance(st.mon['hf'], P):
            e = next_off(k, L, e)
            hit = [b for b in bs if same(b, e) is True]
        out = None
        if not hit:
            d = rng(st, diff(bs[0], st.mon['exp'].off))
            if d[1] < 0: out = ('again', 'a record is delivered again, or after a later one')
            elif d[0] > 0: out = ('skipped', 'a record is passed over: it is neither delivered nor known to be nothing to deliver')
            else: out = (None, 'the place of a delivery in its batch: %r against %r' % (bs[0], e))
            e = bs[-1]
        elif len(bs) == 2:
            n = next_off(k, L, e)
            o = [b for b in bs if b is not hit[0]]
            if not o or same(o[0], n) is not True: out = ('pair', 'the record associated with another is not the next one')
            e = n
        st.mon.update(exp=ptr(('exp',), next_off(k, L, e)), hf=0)
        self.advance(st)
        return out


class C11(Cursor):
    """At every delivery with an associated path: the two records must be neighbours, the moved-from half first, of one cookie (inotify) and
    one path type. At every delivery of a lone moved-from half: the next record of the batch must be known not to be its other half."""

    keys = dict(Cursor.keys, pr=0)

    def on_sys(self, eng, st, name, args, ret, inst):
        super().on_sys(eng, st, name, args, ret, inst)
        if name == 'read' and st.mon['phase'] == 'worker' and fdkind(args[0]) == self.kind_: st.mon['pr'] = 0

    def settle(self, eng, st):
        """what is known of the next record when paths part must not be lost when they meet"""
        self.advance(st)
        L, k = st.mon['cur'], self.kind_
        if not isinstance(L, Val): st.mon['pr'] = 0; return
        b = st.mon['exp'].off
        lone = st.mon['pr']
        if isinstance(lone, P) and same(lone.off, b) is True: return
        froms = {x for x in st.dom(rsym(k, L, b, 'mask')) if x & IN['MOVED_FROM']}
        st.mon['pr'] = 0 if froms and self.pairable(st, k, L, b, froms) else ptr(('lone',), b)

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        L, e, pr = st.mon['cur'], st.mon['exp'].off, st.mon['pr']
        self.check(eng, st, ev, inst, L, e, pr)
        if self.fs(eng, st, ev): self.delivered(eng, st, ev, inst)

    def check(self, eng, st, ev, inst, cur, exp, pr):
        if st.mon['phase'] != 'worker' or not self.fs(eng, st, ev): return
        site = eng.site(st, inst)
        a = rec_of(ev.path)
        k = self.kind_
        if a is None: return self.unsure('association', 'path %r' % (ev.path,), site)
        L, b = a
        ma = rsym(k, L, b, 'mask')
        da = st.dom(ma)
        if ev.assoc is None:
            froms = {x for x in da if x & IN['MOVED_FROM']}
            if not froms: return
            self.ok('lone half', site)
            if isinstance(pr, P) and same(pr.off, b) is True: return
            if self.pairable(st, k, L, b, froms): self.bad(eng, st, inst, 'not-associated', 'a moved-from half is delivered alone although the next record may be its other half')
            return
        self.ok('pair', site)
        if isinstance(ev.assoc, tuple): return self.unsure('association', repr(ev.assoc), site)
        c = rec_of(ev.assoc.path)
        if c is None: return self.unsure('association', 'associated path %r' % (ev.assoc.path,), site)
        L2, b2 = c
        if L2 is not L: return self.bad(eng, st, inst, 'other-batch', 'records of two batches are associated')
        mb = rsym(k, L, b2, 'mask')
        db = st.dom(mb)
        n1, n2 = same(next_off(k, L, b), b2), same(next_off(k, L, b2), b)
        if n1 is not True and n2 is not True: self.bad(eng, st, inst, 'not-adjacent', 'the associated record is not the neighbour of the other')
        if any(not x & IN['MOVED_FROM'] for x in da): self.bad(eng, st, inst, 'not-from', 'the path of an associated event may be of a record which is not a moved-from half (%s)' % masks(x for x in da if not x & IN['MOVED_FROM']))
        if any(not x & IN['MOVED_TO'] for x in db): self.bad(eng, st, inst, 'not-to', 'the associated path may be of a record which is not a moved-to half (%s)' % masks(x for x in db if not x & IN['MOVED_TO']))
        w = self.run.w
        for which, h in self.halves(ev):
            et = may_et(eng, st, h.et, w.et_n)
            if et is not None and et != {'rename'}: self.bad(eng, st, inst, 'effect', 'the %sevent of a pair has the effect %s' % (which, '/'.join(sorted(et))))
        if isinstance(ev.pt, str) and isinstance(ev.assoc.pt, str) and ev.pt != ev.assoc.pt: self.bad(eng, st, inst, 'types', 'the halves of a pair have the path types %s and %s' % (ev.pt, ev.assoc.pt))
        if k == 'inotify':
            ca, cb = rsym(k, L, b, 'cookie'), rsym(k, L, b2, 'cookie')
            if not self.equal(st, ca, cb): self.bad(eng, st, inst, 'cookie', 'two halves are associated without having the same cookie')
        else:
            self.bad(eng, st, inst, 'pair-without-cookie', 'two halves are associated because they are neighbours: nothing shows that they are of one move', 'fanotify/parse_ev')

    def equal(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            for op in ('icmp', 'eq'):
                pass
        d = diff(a, b)
        if rng(st, d) == (0, 0): return True
        return decide(self.run.eng.icmp('eq', a, b, int_ty32, st), st) == 1

    def pairable(self, st, k, L, b, froms):
        n = next_off(k, L, b)
        start = start_of(st, L)
        # at the end of the batch
        if start is not None:
            rest = diff(lsum(L, start), n)
            if rng(st, rest)[1] < HDR[k]: return False
        mb = rsym(k, L, n, 'mask')
        db = st.dom(mb)
        ma = rsym(k, L, b, 'mask')
        rel = [(t, v) for t, v in st.bt.items() if {ma, mb} <= t.syms and t.op != 'in']
        if not any(y & IN['MOVED_TO'] and x & D == y & D and all(holds(t, v, {ma: x, mb: y}) for t, v in rel) for x in froms for y in db): return False
        if k == 'inotify':
            ca, cb = rsym(k, L, b, 'cookie'), rsym(k, L, n, 'cookie')
            d = decide(self.run.eng.icmp('eq', ca, cb, int_ty32, st), st)
            if d == 0: return False
            wd = rsym(k, L, n, 'wd')
            for t, v in st.bt.items():
                if t.op == 'in' and v == 0 and t.args[2] is wd: return False
            cl = rec_classes(st, k, L, n)
            if not cl & {'move'}: return False
        else:
            if 'named' not in rec_classes(st, k, L, n): return False
        return True


def holds(t, v, env):
    try: return int(ceval(t, env)) == v
    except Exception: return True


def start_of(st, L):
    for o in st.mem.values():
        for r in (o.kern or ()):
            if r[4] is L: return r[1]


class C12(Cursor):
    """A cursor accounts for the records of each batch: every delivery has to be made of the record the cursor is at (and the next, for a pair);
    it moves on by itself only over records which need no delivery (records about a watched directory itself, overflows, records of unknown watches,
    records which can not be resolved); when the worker reads or waits again, less than one record may be left."""

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker' or not self.fs(eng, st, ev): return
        site = eng.site(st, inst)
        self.ok('delivery in order', site)
        if rec_of(ev.path) is None: return self.unsure('delivery in order', 'path %r' % (ev.path,), site)
        r = self.delivered(eng, st, ev, inst)
        if r is None: return
        if r[0] is None: self.unsure('delivery in order', r[1], site)
        else: self.bad(eng, st, inst, r[0], r[1])

    keys = dict(Cursor.keys, oldk=0, ctr=0)       # see C05

    def on_sys(self, eng, st, name, args, ret, inst):
        super().on_sys(eng, st, name, args, ret, inst)
        if name == 'read' and st.mon['phase'] == 'worker': st.mon['ctr'] = 0

    def on_release(self, eng, st, kind, val, inst):
        if st.mon['phase'] == 'worker' and kind == 'fd' and fdkind(val) == self.kind_ and not st.mon['oldk']: self.batch_end(eng, st, inst, 'stops')

    def lost(self, eng, st, inst, what, r):
        if what == 'stops' and st.mon['ctr'] > 4096 // HDR[self.kind_]: return          # no batch has that many records
        if what == 'stops' and st.mon['ctr'] == -1: return self.unsure('whole batch', 'a counter ran out', eng.site(st, inst))
        self.bad(eng, st, inst, 'left-over', 'the worker %s although records of the batch may be left which were neither delivered nor need no delivery' % what)


WANTMSG = {'ovf': ('w/sys/q_overflow@',), 'miss': ('w/sys/phantom@',), 'badfd': ('w/sys/bad_fd@',), 'other': ('w/sys/bad_meta@',), 'handle': ('w/sys/bad_fd@', 'w/sys/bad_meta@', 'w/sys/phantom@'),
           'mark': ('w/sys/not_watched@',), 'dir': ('w/sys/not_watched@',)}
WHAT = {'ovf': 'the event queue overflowed', 'miss': 'a record could not be attributed to a directory', 'badfd': 'a record came with a descriptor', 'other': 'a record does not name its directory',
        'handle': 'the directory of a record could not be determined', 'mark': 'a directory could not be marked', 'dir': 'a directory could not be read'}


class Trouble(Cursor):
    """Calls trouble() where something was missed."""

    def trouble(self, eng, st, what, mayend=False): pass

    def skippable(self, st, L, b):
        r = super().skippable(st, L, b)
        if r:
            k = self.kind_
            cl = rec_classes(st, k, L, b)
            if cl == {'ovf'}: self.trouble(self.run.eng, st, 'ovf')
            elif k == 'fanotify':
                if cl == {'badfd'}: self.trouble(self.run.eng, st, 'badfd')
                elif cl == {'other'}: self.trouble(self.run.eng, st, 'other')
            elif cl <= {'plain', 'move'}: self.trouble(self.run.eng, st, 'miss')
        return r

    def unresolved(self, eng, st, L, b):
        self.trouble(eng, st, 'handle')
        super().unresolved(eng, st, L, b)

    def on_sys(self, eng, st, name, args, ret, inst):
        super().on_sys(eng, st, name, args, ret, inst)
        if st.mon['phase'] != 'worker': return
        if name in ('inotify_add_watch', 'fanotify_mark'):
            if name == 'fanotify_mark' and isinstance(args[3], int) and not args[3] & 1: return
            self.marking(eng, st)
            if failed(ret): self.trouble(eng, st, 'mark', self.basedir(st, args[1]))
        elif name == 'opendir' and ret == 0: self.trouble(eng, st, 'dir', self.basedir(st, args[0]))

    def marking(self, eng, st): pass

    def basedir(self, st, s):
        """while setting up: is it the watched directory itself?"""
        return st.mon['done'] == 0 and not isinstance(st.mon['cur'], Val) and 'dname' not in repr(s)

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker' or ev is None: return
        fs = self.fs(eng, st, ev)
        if fs:
            self.delivered(eng, st, ev, inst)
            return
        self.advance(st)
        t = text(ev.path)
        self.told(eng, st, self.kind(eng, st, ev), t[0] if t else '', inst)

    def told(self, eng, st, kind, t, inst): pass


class C13(Trouble):
    """Each trouble (an overflow record, a record of an unknown watch, one which can not be resolved, a mark or directory which is refused) is a debt that has to be
    paid by a message of its kind before the worker waits again."""
    keys = dict(Cursor.keys, owe=(), nw=0)

    def trouble(self, eng, st, what, mayend=False):
        if what == 'dir' and st.mon['nw']: return
        if what not in st.mon['owe']: st.mon['owe'] = tuple(sorted(st.mon['owe'] + (what,)))

    def marking(self, eng, st): st.mon['nw'] = 0

    def at_loop_head(self, eng, st, f, bb, regs):
        if st.mon['nw'] and eng.is_repo(f): st.mon['nw'] = 0

    def told(self, eng, st, kind, t, inst):
        if kind == 'other' and t.startswith('w/'):
            self.ok('warning', eng.site(st, inst))
            st.mon['owe'] = tuple(o for o in st.mon['owe'] if t not in WANTMSG[o])
            if t == 'w/sys/not_watched@': st.mon['nw'] = 1

    def on_use(self, eng, st, kind, val, inst, what):
        worker = st.mon['phase'] == 'worker'
        if what == 'epoll_wait' and worker:
            self.advance(st)
            self.ok('everything told before waiting', eng.site(st, inst))
            for o in st.mon['owe']:
                self.bad(eng, st, inst, 'silent-' + o, '%s but the user was not told (%s) before the worker waits again' % (WHAT[o], ' or '.join(x.rstrip('@') for x in WANTMSG[o])))
            st.mon['owe'] = ()
        super().on_use(eng, st, kind, val, inst, what)
        if worker and what in ('epoll_wait', 'read'): st.mon['nw'] = 0


class C13goeson(Trouble):
    """Trouble must not be what ends the watcher."""
    keys = dict(Cursor.keys, trouble='')

    def on_epdata(self, eng, st, entry, idx, inst):
        if fdkind(entry[1]) == 'eventfd': st.mon['trouble'] = ''          # asked to stop

    def trouble(self, eng, st, what, mayend=False):
        st.mon['trouble'] = '' if mayend else 'mark' if what == 'dir' else what

    def at_loop_head(self, eng, st, f, bb, regs):
        # the loop over the records: what comes next is about the next one
        self.advance(st)
        if not st.mon['trouble']: return
        x = st.mon['exp'].off if isinstance(st.mon['cur'], Val) else None
        for v in regs.values():
            if x is not None and isinstance(v, Val) and same(v, x) is True or isinstance(v, P) and v.obj in st.mem \
               and any(r[0] == self.kind_ and (r[1] <= v.off < r[2] if isinstance(v.off, int) else True) for r in st.mem[v.obj].kern or ()):
                st.mon['trouble'] = ''
                return

    def on_sys(self, eng, st, name, args, ret, inst):
        super().on_sys(eng, st, name, args, ret, inst)
        if st.mon['phase'] == 'worker' and name == 'eventfd_read' and not failed(ret): st.mon['trouble'] = ''
        if st.mon['phase'] == 'worker' and failed(ret) and name in ('epoll_wait', 'read', 'epoll_create1', 'epoll_create', 'epoll_ctl', 'inotify_init1', 'inotify_init', 'fanotify_init'):
            st.mon['trouble'] = ''

    def told(self, eng, st, kind, t, inst):
        if kind == 'die' or kind == 'other' and t.startswith('e/'): self.ended(eng, st, inst, 'an error is reported' if kind == 'other' else 'the watcher ends')

    def ended(self, eng, st, inst, what):
        self.ok('trouble does not end the watcher', eng.site(st, inst) if inst is not None else '')
        t = st.mon['trouble']
        if t: self.bad(eng, st, inst, 'ended-' + t, '%s because %s' % (what, WHAT[t]), eng.site(st, inst) if inst is not None else 'worker')
        st.mon['trouble'] = ''

    def end(self, eng, st, phase, ret):
        if phase == 'worker': self.ended(eng, st, None, 'the worker ends')

    def on_use(self, eng, st, kind, val, inst, what):
        super().on_use(eng, st, kind, val, inst, what)
        if st.mon['phase'] == 'worker' and what in ('epoll_wait', 'read'): st.mon['trouble'] = ''


class C13batch(Trouble):
    """Trouble with one record must not keep the rest of its batch from being processed."""
    keys = dict(Cursor.keys, had=0)

    def trouble(self, eng, st, what, mayend=False):
        if isinstance(st.mon['cur'], Val): st.mon['had'] = 1

    def on_use(self, eng, st, kind, val, inst, what):
        super().on_use(eng, st, kind, val, inst, what)
        if st.mon['phase'] == 'worker' and what in ('epoll_wait', 'read'): st.mon['had'] = 0

    def lost(self, eng, st, inst, what, r):
        self.ok('rest of the batch', eng.site(st, inst))
        if st.mon['had']: self.bad(eng, st, inst, 'rest-of-batch', 'after trouble with one record the rest of its batch is not processed')
