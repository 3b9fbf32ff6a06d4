"""The environment of the code under analysis: the user's callback, threads,
kernel event records, poll results. Attached to an Engine as a hook object."""
import re
from vals import *
from core import *
import models
from models import E, M1, M1L, sget, sset, cstr, put_chars, slen, read_region, set_errno, S_IFDIR, S_IFMT
from llir import PTR as PTRTY, int_ty

EVENT_ID = '_ZTSN3wtr7watcher5eventE'
WATCH_ID = '_ZTSN3wtr7watcher5watchE'
SEMA_ID = '_ZTSN6detail3wtr7watcher7semabinE'

IN = dict(ACCESS=1, MODIFY=2, ATTRIB=4, CLOSE_WRITE=8, CLOSE_NOWRITE=0x10, OPEN=0x20, MOVED_FROM=0x40, MOVED_TO=0x80, CREATE=0x100,
          DELETE=0x200, DELETE_SELF=0x400, MOVE_SELF=0x800, UNMOUNT=0x2000, Q_OVERFLOW=0x4000, IGNORED=0x8000, ONLYDIR=0x1000000,
          DONT_FOLLOW=0x2000000, EXCL_UNLINK=0x4000000, MASK_ADD=0x20000000, MASK_CREATE=0x10000000, ISDIR=0x40000000, ONESHOT=0x80000000)
FAN = dict(ACCESS=1, MODIFY=2, ATTRIB=4, CLOSE_WRITE=8, CLOSE_NOWRITE=0x10, OPEN=0x20, MOVED_FROM=0x40, MOVED_TO=0x80, CREATE=0x100,
           DELETE=0x200, DELETE_SELF=0x400, MOVE_SELF=0x800, OPEN_EXEC=0x1000, Q_OVERFLOW=0x4000, EVENT_ON_CHILD=0x08000000, ONDIR=0x40000000)

D = IN['ISDIR']
IN_PLAIN = frozenset([IN['MODIFY'], IN['CREATE'], IN['CREATE'] | D, IN['DELETE'], IN['DELETE'] | D])
IN_MOVE = frozenset([IN['MOVED_FROM'], IN['MOVED_FROM'] | D, IN['MOVED_TO'], IN['MOVED_TO'] | D])
IN_SELF = frozenset([IN['IGNORED'], IN['DELETE_SELF'], IN['DELETE_SELF'] | D, IN['MOVE_SELF'], IN['MOVE_SELF'] | D, IN['UNMOUNT'], IN['UNMOUNT'] | D])
IN_OVF = frozenset([IN['Q_OVERFLOW']])
IN_ALL = IN_PLAIN | IN_MOVE | IN_SELF | IN_OVF
IN_CLASSES = {'plain': IN_PLAIN, 'move': IN_MOVE, 'self': IN_SELF, 'ovf': IN_OVF}

FAN_NAMED = IN_PLAIN | IN_MOVE
FAN_OVF = frozenset([FAN['Q_OVERFLOW']])
FAN_ALL = FAN_NAMED | FAN_OVF

REC = {'inotify': dict(hdr=16, fields={0: ('wd', 4), 4: ('mask', 4), 8: ('cookie', 4), 12: ('len', 4)}),
       'fanotify': dict(hdr=24, fields={0: ('event_len', 4), 4: ('vers', 1), 5: ('reserved', 1), 6: ('metadata_len', 2), 8: ('mask', 8), 16: ('fd', 4),
                                        20: ('pid', 4), 24: ('info_type', 1), 25: ('pad', 1), 26: ('info_len', 2), 28: ('fsid0', 4), 32: ('fsid1', 4),
                                        36: ('handle_bytes', 4), 40: ('handle_type', 4)})}


def diff(a, b): return ladd(a, b, 64, 1, -1)


def rsym(kind, L, b, field):
    n = ('rec', kind, L, b, field)
    if kind == 'inotify':
        if field == 'wd': return sym(n, 32, signed=True, lo=-1, hi=1 << 30)
        if field == 'mask': return sym(n, 32, dom=IN_ALL)
        if field == 'cookie': return sym(n, 32, lo=0, hi=M1)
        if field == 'len': return sym(n, 32, lo=0, hi=272)
    else:
        if field == 'event_len': return sym(n, 32, lo=24, hi=4096)
        if field == 'vers': return sym(n, 8, dom=(3, 2))
        if field == 'metadata_len': return sym(n, 16, lo=24, hi=24)
        if field == 'mask': return sym(n, 64, dom=FAN_ALL)
        if field == 'fd': return sym(n, 32, signed=True, dom=(M1, 5))
        if field == 'info_type': return sym(n, 8, dom=(1, 2, 3))
        if field == 'handle_bytes': return sym(n, 32, lo=0, hi=128)
    return sym(n, 32)


def next_off(kind, L, b):
    if kind == 'inotify':
        return ladd(ladd(b, 16, 64), rsym(kind, L, b, 'len'), 64)
    return ladd(b, rsym(kind, L, b, 'event_len'), 64)


def boundary(st, kind, L, start, off, depth=0):
    """is off the start of a record (of the batch of length L), or its end?"""
    if isinstance(off, int): return off == start
    if isinstance(L, Val) and off == ladd(L, start, 64): return True
    if depth > 4: return False
    if isinstance(off, Sym):
        return st.bt.get(term('isrec', (kind, L, start, off), 1)) == 1
    if not isinstance(off, Lin): return False
    if st.bt.get(term('isrec', (kind, L, start, off), 1)) == 1: return True
    for a, c in off.t:
        if c == 1 and isinstance(a, Sym) and isinstance(a.name, tuple) and a.name[0] == 'rec' and a.name[1] == kind and a.name[2] is L \
           and a.name[4] == ('len' if kind == 'inotify' else 'event_len'):
            b = a.name[3]
            if next_off(kind, L, b) is off or next_off(kind, L, b) == off:
                return boundary(st, kind, L, start, b, depth + 1)
    return False


def bases(st, kind, L, start, off):
    """candidate record starts for a field address: (base, field offset)"""
    hdr = REC[kind]['hdr'] + (20 if kind == 'fanotify' else 0)
    if isinstance(off, int):
        b = start
        if start <= off < start + hdr: return (b, off - start)
        return None
    for k in range(0, hdr):
        b = ladd(off, -k, 64)
        if boundary(st, kind, L, start, b): return (b, k)
    return None


def _isrec(c, st):
    kind, L, start, off = c.args
    return 1 if boundary(st, kind, L, start, off, 1) else None


DECIDERS['isrec'] = _isrec
FACTSYM.add('rec')
FACTSYM.add('epwhich')


# the kernel gives the two halves of one move the same cookie: from, then to, of one kind of path
def _cookies(a, b, st):
    if not (isinstance(a.name, tuple) and isinstance(b.name, tuple) and a.name[0] == b.name[0] == 'rec' and a.name[4] == b.name[4] == 'cookie'): return None
    if a.name[2] is not b.name[2]: return None
    d = diff(b.name[3], a.name[3])
    l, h = st.range(d) if isinstance(d, Val) else (d, d)
    if h < 0: a, b = b, a
    elif l <= 0: return None
    return tuple(rsym('inotify', x.name[2], x.name[3], 'mask') for x in (a, b))


def _halves(ma, mb, st):
    da, db = st.dom(ma), st.dom(mb)
    x = frozenset(m for m in da if m & IN['MOVED_FROM'] and any(n & IN['MOVED_TO'] and (n & D) == (m & D) for n in db))
    y = frozenset(n for n in db if n & IN['MOVED_TO'] and any(m & IN['MOVED_FROM'] and (n & D) == (m & D) for m in da))
    return x, y


def _cookie_decide(a, b, st):
    ms = _cookies(a, b, st)
    if ms is None: return None
    return None if _halves(*ms, st)[0] else 0


def _cookie_assume(a, b, st):
    ms = _cookies(a, b, st)
    if ms is None: return True
    x, y = _halves(*ms, st)
    if not x: return False
    st.fin[ms[0]], st.fin[ms[1]] = x, y
    return True


EQ_DECIDE.append(_cookie_decide)
EQ_ASSUME.append(_cookie_assume)


class World:
    def __init__(self, eng, mon):
        self.eng, self.mons = eng, mon
        m = eng.m
        self.ev_off = m.members(EVENT_ID)
        self.watch_off = m.members(WATCH_ID)
        self.sema_off = m.members(SEMA_ID)
        self.et = pick_enum(m, 'effect_type', 'rename')
        self.pt = pick_enum(m, 'path_type', 'dir')
        self.et_n = {v: k for k, v in self.et.items()}
        self.pt_n = {v: k for k, v in self.pt.items()}
        self.spawns = []
        self.worker_mode = False
        self.shared = {}          # accesses to the watch object
        self.emissions = 0
        self.walks = {}

    def recursion_limit(self, eng, f):
        return 3 if 'watcher::event::' in eng.m.demangled(f.name).split('(')[0] else 1

    def opens_dir(self, eng, f, seen=None):
        r = self.walks.get(f.name)
        if r is not None: return r
        seen = seen if seen is not None else set()
        if f.name in seen or f.is_decl: return False
        seen.add(f.name)
        f.ensure()
        r = False
        for b in f.blocks.values():
            for i in b:
                if i.op == 'call' and i.x[0][0] == 'g':
                    n = i.x[0][1]
                    if n in ('opendir', 'readdir', 'readdir64', 'fdopendir'): r = True
                    else:
                        g = eng.m.funcs.get(n)
                        if g is not None and eng.is_repo(g) and self.opens_dir(eng, g, seen): r = True
        self.walks[f.name] = r
        return r

    def on_recursion(self, eng, st, f, args, i):
        if not self.opens_dir(eng, f): return None
        # inductively: the recursive walk handles its own subtree; it may add entries to any map in reach
        eng.hook('on_walk_recursion', st, f, args, i)
        out = [(st, None)]
        maps = [(o, k, c[1]) for o, ob in st.mem.items() for k, c in ob.cells.items() if isinstance(c[1], Opaque) and c[1].kind == 'map']
        if any(m.d[1] != 'nonempty' for _, _, m in maps):
            s2 = st.clone()
            for o, k, m in maps: models.bump(eng, s2, ptr(o, k), m, 'nonempty')
            out.append((s2, None))
        else:
            for o, k, m in maps: models.bump(eng, st, ptr(o, k), m, 'nonempty')
        if f.ret.k != 'void':
            f.ensure()
            out = [(s, s.fresh(('walked', f.name), max(f.ret.size * 8, 8))) for s, _ in out]
        return out

    def join_opaque(self, eng, a, b):
        if a.kind == 'map' and a.d[0] == b.d[0]:
            stt = a.d[1] if a.d[1] == b.d[1] else 'maybe'
            return opaque('map', a.d[0], stt, ('J', 1))
        return None

    # ---------------------------------------------------------- callback
    def read_event(self, st, p, depth=0):
        eng = self.eng
        p = eng.as_ptr(p, st)
        if not isinstance(p, P) or not self.ev_off: return None
        path = sget(eng, st, eng.addoff(p, self.ev_off['path_name'][0]))
        et = eng.raw_load(st, eng.addoff(p, self.ev_off['effect_type'][0]), int_ty(32))
        pt = eng.raw_load(st, eng.addoff(p, self.ev_off['path_type'][0]), int_ty(32))
        tm = eng.raw_load(st, eng.addoff(p, self.ev_off['effect_time'][0]), int_ty(64))
        a = eng.raw_load(st, eng.addoff(p, self.ev_off['associated'][0]), PTRTY)
        assoc = None
        if isinstance(a, P) and depth == 0: assoc = self.read_event(st, a, 1)
        elif a != 0: assoc = ('?', a)
        return Ev(path, self.et_n.get(st.const(et), et), self.pt_n.get(st.const(pt), pt), tm, assoc)

    def on_indirect(self, eng, st, tv, args, i): return None

    # ---------------------------------------------------------- kernel records and poll results
    def load_override(self, eng, st, p, ty, inst):
        if self.worker_mode and p.obj == ('root', 'watch') and inst is not None and inst.op == 'load':
            if inst.x and ty.size <= 4 and p.off == self.watch_off['living'][0] + self.sema_off['is'][0]:
                v = st.fresh('living.is', 32, dom=(0, 1, 2))
                if 'isval' in st.mon: st.mon['isval'] = v
                return v
        if ty.size == 1 and p.obj[0] == 'dirent' and p.off in (19, 20, 21):
            # the first characters of the name of a directory entry
            a = name_in(st.mem[p.obj])
            return term('tab', (((46, 46, 46, 97), (0, 46, 104, 98), (0, 0, 104, 98))[p.off - 19], a[2]), 8) if a else None
        r = read_region(st, p)
        if r is None:
            return None
        kind, start, end, gen, L = r
        if kind == 'fanotify' and ty.size == 1:
            for k in (0, 1):
                for b in self.name_bases(st, kind, gen, start, ladd(p.off, -k, 64)):
                    eng.hook('on_name', st, kind, gen, start, b)
                    return term('tab', (((46, 0, 0, 97), (0, 0, 0, 98))[k], name_atom(kind, gen, b)[3]), 8)
        if kind == 'epoll':
            return self.ep_load(eng, st, p, ty, inst, r)
        if kind not in REC: return None
        bk = bases(st, kind, gen, start, p.off)
        if bk is None:
            eng.hook('on_stray_read', st, p, r, ty.size, inst)
            return None
        b, k = bk
        f = REC[kind]['fields'].get(k)
        if f is None:
            if kind == 'inotify' and k >= 16: return None
            eng.hook('on_stray_read', st, p, r, ty.size, inst)
            return None
        if f[1] != ty.size:
            w = ty.size
            full = self.rec_field(eng, st, kind, gen, start, b, f[0], inst)
            if w < f[1]: return eng.trunc(full, f[1] * 8, ty.n, st)
            eng.hook('on_stray_read', st, p, r, ty.size, inst)
            return None
        return self.rec_field(eng, st, kind, gen, start, b, f[0], inst)

    def rec_field(self, eng, st, kind, L, start, b, field, inst):
        eng.hook('on_record', st, kind, L, start, b, field, inst)
        m = rsym(kind, L, b, 'mask')
        d = st.dom(m)
        if kind == 'inotify':
            cl = [c for c, s in IN_CLASSES.items() if s & d]
            if len(cl) > 1:
                raise Fork([lambda s, c=c: self.enter_class(s, kind, L, start, b, c) for c in cl])
            c = cl[0]
            # the kernel never returns part of a record
            end = next_off(kind, L, b)
            st.setrange(diff(end, ladd(L, start, 64)), -INF, 0)
            if field == 'wd' and c == 'ovf': return M1
            if field == 'cookie' and c != 'move': return 0
            return rsym(kind, L, b, field)
        v = rsym(kind, L, b, field)
        st.setrange(diff(next_off(kind, L, b), ladd(L, start, 64)), -INF, 0)
        if field == 'fd' and st.const(v) is None:
            raise Fork([lambda s: self.enter_fd(s, v, M1, b), lambda s: self.enter_fd(s, v, 5, b)])
        if field in ('info_type', 'pad', 'info_len', 'fsid0', 'fsid1', 'handle_bytes', 'handle_type'):
            # the information that follows the header: not there for an overflow
            if st.dom(rsym(kind, L, b, 'mask')) & FAN_OVF or 3 not in st.dom(rsym(kind, L, b, 'vers')):
                eng.hook('on_stray_read', st, ptr(('record', kind), b), (kind, start, None, L, L), 4, inst)
            EL = rsym(kind, L, b, 'event_len')
            st.setrange(EL, 46, 4096)
            st.setrange(diff(ladd(rsym(kind, L, b, 'handle_bytes'), 46, 64), EL), -INF, 0)
        k = st.const(v)
        return v if k is None or field == 'event_len' else k

    def enter_fd(self, s, v, x, b):
        if not s.setrange(v, x, x): return False
        if x != M1:
            s.ev('record with a descriptor', b)
            self.eng.hook('on_recfd', s, x)
        return True

    def enter_class(self, s, kind, L, start, b, c):
        m = rsym(kind, L, b, 'mask')
        if kind == 'inotify':
            nd = s.dom(m) & IN_CLASSES[c]
            if not nd: return False
            s.fin[m] = nd
            ln = rsym(kind, L, b, 'len')
            if c in ('ovf', 'self'):
                if not s.setrange(ln, 0, 0): return False
            else:
                if not s.setrange(ln, 16, 272): return False
            if c == 'ovf':
                if not s.setrange(rsym(kind, L, b, 'wd'), -1, -1): return False
            else:
                if not s.setrange(rsym(kind, L, b, 'wd'), 1, 1 << 30): return False
            if c == 'move':
                if not s.setrange(rsym(kind, L, b, 'cookie'), 1, M1): return False
            s.ev('record %s' % c, b)
            return True

    def ep_load(self, eng, st, p, ty, inst, r):
        kind, start, end, gen, n = r
        o = st.mem[p.obj]
        c = o.cells.get(p.off)
        if c is not None: return None
        reg = st.mon.get('epreg', ())
        d = diff(p.off, start)
        # which entry and field
        f, idx = None, None
        if isinstance(d, int):
            f = d % 12; idx = d // 12
        elif isinstance(d, (Lin, Sym)):
            l = to_lin(d, 64)
            if all(c % 12 == 0 for c in l[0].values()):
                f = l[1] % 12
                idx = lin({a: c // 12 for a, c in l[0].items()}, (l[1] - f) // 12, 64)
        if f is None:
            eng.hook('on_stray_read', st, p, r, ty.size, inst)
            return None
        eng.hook('on_epentry', st, idx, n, inst)
        if f == 0: return None
        if not reg: return None
        # an entry is about one of the registered descriptors
        which = sym(('epwhich', gen, idx), 8, dom=range(len(reg)))
        k = st.const(which)
        if k is None:
            dd = sorted(st.dom(which))
            raise Fork([lambda s, x=x, q=p, rg=reg: self.ep_pick(s, which, x, q, rg, f) for x in dd])
        e = reg[k]
        data = e[3]
        eng.hook('on_epdata', st, e, idx, inst)
        if data is None: return None
        if f == 4: return data[1]
        return None

    def ep_pick(self, s, which, x, p, reg, f):
        if not s.setrange(which, x, x): return False
        s.ev('ready descriptor', reg[x][1])
        return True

    # C strings inside records
    def cstr_override(self, eng, st, p):
        r = read_region(st, p)
        if r is None or r[0] not in REC: return None
        kind, start, end, L, _ = r
        # a name inside a record
        for b in self.name_bases(st, kind, L, start, p.off):
            eng.hook('on_name', st, kind, L, start, b)
            return mkstr([name_atom(kind, L, b)])
        eng.hook('on_stray_read', st, p, r, 1, None)
        odd = isinstance(p.off, Val) and bases(st, kind, L, start, p.off) is None and any(not (isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] in ('rec', 'read')) for x in vsyms(p.off))
        return mkstr([('elsewhere' if odd else 'stray', p.obj, p.off)])

    def name_bases(self, st, kind, L, start, off):
        if kind == 'inotify':
            b = ladd(off, -16, 64)
            if boundary(st, kind, L, start, b): yield b
            return
        l = to_lin(off, 64)
        if not l: return
        for a, c in l[0].items():
            if c == 1 and isinstance(a, Sym) and isinstance(a.name, tuple) and a.name[0] == 'rec' and a.name[4] == 'handle_bytes':
                b = a.name[3]
                if ladd(ladd(b, 44, 64), a, 64) == off and boundary(st, kind, L, start, b): yield b

    def handle_at(self, eng, st, p):
        """the record whose directory handle p points at"""
        if not isinstance(p, P): return None
        r = read_region(st, p)
        if r is None or r[0] != 'fanotify': return None
        b = ladd(p.off, -36, 64)
        return (r[4], b) if boundary(st, 'fanotify', r[4], r[1], b) else ('?', p.off)

    # loop generalisation: a cursor stays on record starts
    def on_widen(self, eng, s2, W, a, v, ts, st):
        for o in s2.mem.values():
            for r in (o.kern or ()):
                kind, start, end, L, _ = r
                if kind not in REC: continue
                La, Lv = L, L
                if boundary(ts, kind, La, start, a) and boundary(st, kind, Lv, start, v):
                    s2.bt[term('isrec', (kind, L, start, W), 1)] = 1
                # or how far it is into the batch, or what is left of the batch
                if isinstance(L, Val) and isinstance(start, int):
                    for b, sg in ((start, 1), (ladd(L, start, 64), -1)):
                        pa, pv, pw = ladd(b, a, 64, 1, sg), ladd(b, v, 64, 1, sg), ladd(b, W, 64, 1, sg)
                        if pw is not None and pw is not W and boundary(ts, kind, L, start, pa) and boundary(st, kind, L, start, pv): s2.bt[term('isrec', (kind, L, start, pw), 1)] = 1
        # candidate relation between a record cursor and a counter
        ws = [w for w in s2.cnt.get('W!', frozenset())] + [W]

    # ---------------------------------------------------------- threads
    def find_worker(self, callee_dem):
        i = callee_dem.find('std::async<')
        if i < 0: return None
        s = callee_dem[i + len('std::async<'):]
        d = 0
        for k, c in enumerate(s):
            if c == '<': d += 1
            elif c == '>':
                if d == 0: break
                d -= 1
            elif c == ',' and d == 0: break
            elif c in '(': d += 1
            elif c == ')': d -= 1
        t = s[:k].strip().rstrip('&').strip()
        if t.endswith(' const'): t = t[:-6]
        for n, f in self.eng.m.funcs.items():
            if f.is_decl: continue
            dn = self.eng.m.demangled(n)
            if dn.startswith(t + '::operator()'): return f
            j = dn.find(t + '::operator()')
            if j > 0 and dn[j-1] in ' ': return f
        return None


class Ev:
    __slots__ = ('path', 'et', 'pt', 'time', 'assoc')

    def __init__(self, path, et, pt, time, assoc):
        self.path, self.et, self.pt, self.time, self.assoc = path, et, pt, time, assoc

    def __repr__(self): return 'event(%r %s %s%s)' % (self.path, self.et, self.pt, ' assoc=%r' % (self.assoc,) if self.assoc else '')


def name_in(o):
    c = o.cells.get(19)
    if c is not None and isinstance(c[1], Opaque) and c[1].kind == 'chars':
        q = c[1].d[0].p
        if len(q) == 1 and q[0][0] == 'dname': return q[0]


def fan_classes(st, L, b):
    """which kinds of fanotify record b can be"""
    k = 'fanotify'
    v, f, m, t = (st.dom(rsym(k, L, b, x)) for x in ('vers', 'fd', 'mask', 'info_type'))
    out = set()
    if 2 in v and (v == {2} or not any(x == {3} and n.name[0] == 'rec' and n.name[2] is L and n.name[4] == 'vers' for n, x in st.fin.items() if isinstance(n.name, tuple))):
        out.add('badvers')          # all records of a queue are of one version
    if 3 in v:
        if 5 in f: out.add('badfd')
        if M1 in f:
            if m & FAN_OVF: out.add('ovf')
            if m - FAN_OVF:
                if 2 in t: out.add('named')
                if t - {2} and (m - FAN_OVF - IN_MOVE or 2 not in t): out.add('other')          # the kernel names both halves of every move
    return out


def rec_classes(st, kind, L, b):
    if kind == 'fanotify': return fan_classes(st, L, b)
    d = st.dom(rsym(kind, L, b, 'mask'))
    return {c for c, s in IN_CLASSES.items() if s & d}


def rec_class(st, kind, L, b):
    c = rec_classes(st, kind, L, b)
    return next(iter(c)) if len(c) == 1 else None


def name_atom(kind, L, b):
    if kind == 'inotify': return ('NAME', L, b)
    return ('NAME', L, b, sym(('rec', kind, L, b, 'namecls'), 32, dom=(0, 3)))


def pick_enum(m, name, has):
    for k, e in m.enumerators(name).items():
        if has in e: return e
    return {}


# ------------------------------------------------------------------ models that need the world
def install(eng, w):
    M = eng.models

    def usercb(e, st, c):
        # std::function invoker: (any_data const&, arg)
        ev = w.read_event(st, c.args[1])
        w.emissions += 1
        if ev is not None: st.ev('deliver', ev)
        e.hook('on_emit', st, ev, c.args[1], c.inst)
        return [(st, None)]

    def usermgr(e, st, c):
        dst, src, op = c.args
        if op == 2:
            tok = e.raw_load(st, e.as_ptr(src, st), PTRTY)
            e.raw_store(st, e.as_ptr(dst, st), tok, 8)
            e.hook('on_cbcopy', st, dst, src, c.inst)
        elif op == 3:
            e.hook('on_cbdestroy', st, dst, c.inst)
        return [(st, 0)]

    M['USERCB'] = usercb
    M['USERMGR'] = usermgr

    def async_(e, st, c):
        dem = e.m.demangled(c.name)
        ps = models.params(dem)
        i = 0
        sret = None
        args = list(c.args)
        if c.f is not None and models.has_sret(c.f):
            sret = args.pop(0)
        policy = None
        if ps and 'launch' in ps[0]:
            policy = args.pop(0)
        worker = w.find_worker(dem)
        n = len(w.spawns)
        tok = st.freshid('thread')
        rv = sym(('worker result', tok[1]), 1, dom=(0, 1))
        if sret is not None:
            p = e.as_ptr(sret, st)
            o = st.wobj(p.obj)
            if isinstance(p.off, int): e.kill(o, p.off, 16)
            o.cells[p.off] = (16, opaque('future', tok, rv))
        st.ev('worker started')
        e.hook('on_spawn', st, worker, policy, args, tok, c.inst)
        return [(st, None)]
    M['std::async'] = async_

    def fut(e, st, p):
        p = e.as_ptr(p, st)
        e.hook('on_future', st, p)
        o = st.mem.get(p.obj) if isinstance(p, P) else None
        c = o.cells.get(p.off) if o is not None else None
        return (p, c[1]) if c is not None and isinstance(c[1], Opaque) and c[1].kind == 'future' else (p, None)

    def join(e, st, f, inst):
        if f is not None and f.d and f.d[0] not in st.mon.get('joined', ()):
            st.mon['joined'] = st.mon.get('joined', ()) + (f.d[0],)
            st.ev('worker joined')
            e.hook('on_join', st, f.d[0], inst)

    def fvalid(e, st, c):
        p, f = fut(e, st, c.args[0])
        if f is None: return [(st, sym(('future valid?',), 1, dom=(0, 1)))]
        return [(st, int(bool(f.d)))]

    def fget(e, st, c):
        sr = c.f is not None and models.has_sret(c.f)
        p, f = fut(e, st, c.args[0])
        if f is None: return NotImplemented
        if not f.d:
            e.hook('on_terminate', st, 'get() on a future without state', c.inst)
            return []
        join(e, st, f, c.inst)
        st.wobj(p.obj).cells[p.off] = (16, opaque('future'))
        return [(st, f.d[1])]

    def fwait(e, st, c):
        p, f = fut(e, st, c.args[0])
        if f is None: return NotImplemented
        join(e, st, f, c.inst)
        return [(st, None)]

    def fwaitfor(e, st, c):
        p, f = fut(e, st, c.args[0])
        if f is None: return NotImplemented
        s2 = st.clone()
        join(e, st, f, c.inst)
        return [(st, 0), (s2, 1)]

    def fdtor(e, st, c):
        p, f = fut(e, st, c.args[0])
        if f is None: return NotImplemented
        if f.d: join(e, st, f, c.inst)
        st.wobj(p.obj).cells[p.off] = (16, opaque('future'))
        return [(st, None)]

    def fctor(e, st, c):
        p = e.as_ptr(c.args[0], st)
        ps = models.params(e.m.demangled(c.name))
        v = opaque('future')
        if ps and 'future' in ps[0]:
            q, f = fut(e, st, c.args[1])
            if f is None: return NotImplemented
            v = f
            st.wobj(q.obj).cells[q.off] = (16, opaque('future'))
        o = st.wobj(p.obj)
        if isinstance(p.off, int): e.kill(o, p.off, 16)
        o.cells[p.off] = (16, v)
        return [(st, None)]

    def fassign(e, st, c):
        p, f = fut(e, st, c.args[0]); q, g = fut(e, st, c.args[1])
        if g is None: return NotImplemented
        if f is not None and f.d: join(e, st, f, c.inst)
        st.wobj(q.obj).cells[q.off] = (16, opaque('future'))
        o = st.wobj(p.obj)
        if isinstance(p.off, int): e.kill(o, p.off, 16)
        o.cells[p.off] = (16, g)
        return [(st, c.args[0])]
    for b in ('std::__basic_future', 'std::future', 'std::shared_future'):
        s = b.split('::')[-1]
        M[b + '::valid'] = fvalid
        M[b + '::get'] = fget
        M[b + '::wait'] = fwait
        M[b + '::wait_for'] = fwaitfor
        M[b + '::wait_until'] = fwaitfor
        M[b + '::~' + s] = fdtor
        M[b + '::' + s] = fctor
        M[b + '::operator='] = fassign
