"""Monitors about the tree of watched directories: C14 (all of it is watched), C29 (the remembered paths)."""
from vals import *
from core import decide
from models import cstr, cat, slen, DT, mode_sym, dtype_sym
from session import Mon
from world import IN, FAN, D, rsym, rec_classes
from mons_life import fdkind, failed, doms
from mons_ev import EvMon, C10, rec_of, rng, same, vague, short, masks

ALIAS = ('realpath', 'canonical', 'weakly_canonical', 'abs')
BASE = mkstr([('PATH',)])
S_IFMT, S_IFDIR, S_IFLNK = 0o170000, 0o040000, 0o120000


def strip(s):
    while isinstance(s, Str) and len(s.p) == 1 and not isinstance(s.p[0], bytes) and s.p[0][0] in ALIAS: s = s.p[0][1]
    return s


def deep(s):
    """s with every alias of a directory inside it replaced by the directory"""
    s = strip(s)
    if not isinstance(s, Str): return s
    out = []
    for x in s.p:
        if not isinstance(x, bytes) and x[0] in ALIAS and len(x) > 1 and isinstance(x[1], Str): out.extend(deep(x[1]).p)
        else: out.append(x)
    return mkstr(out)


def dent_of(s):
    """(d, cls, key) of the directory entry a path ends in"""
    s = strip(s)
    if isinstance(s, Str):
        for x in reversed(s.p):
            if not isinstance(x, bytes):
                if x[0] == 'dname': return x[1:4]
                if x[0] == 'trunc': return dent_of(x[1])
    return None


def text_of(eng, st, v):
    """content of a string handed over as an argument (a C string, or a string or path object)"""
    p = eng.as_ptr(v, st) if not isinstance(v, int) and v is not UNDEF else v
    if not isinstance(p, P): return None
    o = st.mem.get(p.obj)
    c = o.cells.get(p.off) if o is not None else None
    if c is not None:
        if isinstance(c[1], Str): return c[1]
        if isinstance(c[1], P):
            o2 = st.mem.get(c[1].obj)
            c2 = o2.cells.get(c[1].off) if o2 is not None else None
            if c2 is not None and isinstance(c2[1], Str): return c2[1]
        if isinstance(c[1], Opaque) and c[1].kind == 'chars': return c[1].d[0]
    if p.obj[0] in ('cs', 'g') or p.reg is not None: return cstr(eng, st, p)
    return None


class C14(EvMon):
    """Contract of the walk over a directory, checked at each listing (opendir, readdir, closedir), each recursive call and each delivery: a directory
    is marked before it is listed; every entry which can be a directory is walked in turn, with its own path, unless it is '.', '..', too long
    to name, or turns out not to be a directory; links are not followed; the listing goes on to its end. The base directory is walked before
    the first wait, and a directory which appeared before its event is delivered."""
    keys = dict(tried=0, dir=0, lst=0, ent=0, nm=0, rd=0, stm=0, lst2=0, wk=0, wb=0, vag=0, gen=0, wn=0, lng=0)

    def rep(self, eng, st, inst, rule, msg, site=None):
        if st.mon['vag']: return self.unsure(rule, msg + ' (a path could not be followed)', site or eng.site(st, inst))
        self.bad(eng, st, inst, rule, msg, site)

    # ---- what a path stands for
    def rec(self, st, s):
        s = strip(s)
        if not isinstance(s, Str) or dent_of(s): return None
        r = rec_of(s)
        if r is None or vague(s): return None
        return r if C10.wrong(self, st, s) is None else None

    def walked(self, eng, st, s):
        s = strip(s)
        if s is BASE or s == BASE: st.mon['wb'] = 1
        if st.mon['gen'] and s == st.mon['gen']: st.mon['wn'] = 1
        r = self.rec(st, s)
        if r is not None:
            w = st.mon['wk']
            if isinstance(w, P) and not (w.obj[1] is r[0] and same(w.off, r[1]) is True): st.mon['vag'] = 1          # more than one ahead of its delivery
            st.mon['wk'] = ptr(('wk', r[0]), r[1])

    def hopeless(self, eng, st, s):
        """s could not be marked, whatever is tried"""
        m = st.mon
        m['tried'] = strip(s)
        self.walked(eng, st, s)
        if m['dir'] and m['dir'][0] == 0 and m['dir'][1] == strip(s): m.update(dir=0, tried=0)

    # ---- calls
    def on_sys(self, eng, st, name, args, ret, inst):
        if st.mon['phase'] not in ('ctor', 'worker'): return
        m = st.mon
        if name in ('realpath', 'canonical') and ret == 0: self.hopeless(eng, st, args[0])
        elif name in ('stat', 'is_directory', 'lstat', 'exists'):
            if failed(ret) or name in ('is_directory', 'exists') and ret == 0: self.hopeless(eng, st, args[0])
            elif name == 'stat': m['stm'] = (strip(args[0]), args[1])
            if name == 'lstat' or name == 'stat':
                e = dent_of(args[0])
                if e and m['ent'] and m['ent'][1] == e[2]:
                    if failed(ret): m['ent'] = 0
                    else: m['lst2'] = (name, args[1])
        elif name in ('inotify_add_watch', 'fanotify_mark'):
            s = args[1]
            if name == 'fanotify_mark' and isinstance(args[3], int) and not args[3] & 1: return
            if vague(s): m['vag'] = 1
            m['stm'] = 0
            if failed(ret): self.hopeless(eng, st, s); return
            m['tried'] = strip(s)
            self.linkrule(eng, st, s, inst)
            if m['dir'] and m['dir'][1] == strip(s) and not m['rd']:
                self.walked(eng, st, s)
                if m['dir'][0] == 0: m.update(dir=0, tried=0)
        elif name == 'opendir':
            s = args[0]
            self.settle(eng, st)
            m['stm'] = 0
            if vague(s) or not isinstance(s, Str) or any(not isinstance(x, bytes) and x[0] == 'fd' for x in s.p): m['vag'] = 1
            if ret == 0:
                if m['tried'] == strip(s): self.walked(eng, st, s); m['tried'] = 0
                else: m.update(dir=(0, strip(s)), rd=0, ent=0)
                return
            m.update(dir=(ret, strip(s)), rd=0, ent=0)
            if m['tried'] == strip(s): self.walked(eng, st, s)
        elif name == 'readdir':
            self.settle(eng, st)
            self.left(eng, st, inst, 'the listing goes on')
            if not m['dir'] or m['dir'][0] is not args[0]: m['rd'] = 2; return
            if m['rd'] == 0:
                self.ok('marked before it is listed', eng.site(st, inst))
                if m['tried'] != m['dir'][1]: self.rep(eng, st, inst, 'list-before-mark', 'a directory is listed before it was tried to mark it: what is created in between is missed')
            m['rd'] = 1
            if ret == 0: m.update(rd=3, ent=0)
            else:
                o = st.mem.get(ret.obj)
                a = o.cells[19][1].d[0].p[0]
                m.update(ent=(o.cells[18][1], a[3]), nm=a[2], lst2=0, lng=0)
        elif name == 'closedir':
            self.settle(eng, st)
            self.left(eng, st, inst, 'the listing is closed')
            if m['dir'] and m['dir'][0] is args[0]:
                self.ok('listing to its end', eng.site(st, inst))
                if m['rd'] == 1: self.rep(eng, st, inst, 'listing-cut', 'the listing of a directory is given up before its end')
                m.update(dir=0, rd=0, tried=0)
        elif name == 'read' and fdkind(args[0]) == self.kind_: m['wk'] = 0

    def left(self, eng, st, inst, what):
        m = st.mon
        if not m['ent']: return
        if m['lng'] or self.toolong(st, m['ent'][1]): m.update(ent=0, lng=0); return
        d, n = st.dom(m['ent'][0]), st.dom(m['nm'])
        self.rep(eng, st, inst, 'not-walked', 'an entry which may be a directory (type %s, name %s) is not walked when %s' % (
            '/'.join(k for k, v in DT.items() if v in d and v in (DT['DT_DIR'], DT['DT_UNKNOWN'])), '/'.join({0: '.', 1: '..', 2: 'starting with a dot', 3: 'any'}[x] for x in sorted(n)), what))
        m['ent'] = 0

    def on_acquire(self, eng, st, kind, val, inst, info):
        if kind == 'fd' and info and info[0] in ('inotify', 'fanotify'): st.mon['wb'] = 0

    def on_snprintf(self, eng, st, dst, n, s, inst):
        # an entry whose path does not fit can not be named
        m = st.mon
        if m['ent'] and any(not isinstance(x, bytes) and x[0] == 'trunc' for x in s.p):
            e = dent_of(s)
            if e and e[2] == m['ent'][1]: m['ent'] = 0

    def toolong(self, st, n):
        """is the path of entry n known to be longer than any path can be?"""
        for k, (lo, hi) in st.rng.items():
            if lo < 4090 or not isinstance(k, Lin): continue
            if any(c < 0 for _, c in k.t): continue
            for x, _ in k.t:
                if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'len' and isinstance(x.name[1], Str) and any(not isinstance(a, bytes) and a[0] == 'dname' and a[3] == n for a in x.name[1].p): return True
        return False

    def settle(self, eng, st):
        m = st.mon
        if not m['ent']: m.update(nm=0, lst2=0)
        if m['stm']:
            s, v = m['stm']
            d = doms(st, v)
            if d and not any((x & S_IFMT) == S_IFDIR for x in d): self.hopeless(eng, st, s); m['stm'] = 0
        if not m['ent']: m['lng'] = 0
        elif not m['lng'] and self.toolong(st, m['ent'][1]): m['lng'] = 1
        if m['ent']:
            t = st.dom(m['ent'][0])
            if not t & {DT['DT_DIR'], DT['DT_UNKNOWN']} or st.dom(m['nm']) <= {0, 1}: m['ent'] = 0
            elif m['lst2']:
                d = doms(st, m['lst2'][1])
                if d and not any((x & S_IFMT) == S_IFDIR for x in d): m['ent'] = 0

    def at_loop_head(self, eng, st, f, bb, regs):
        # (not where branches meet: what is known of the length would be lost with it, and a later test of it would be taken to go either way)
        self.settle(eng, st)
        if st.mon['lng']: st.mon.update(ent=0, lng=0)

    def linkrule(self, eng, st, s, inst):
        r = self.rec(st, s)
        if r is None: return
        d = st.dom(rsym(self.kind_, r[0], r[1], 'mask'))
        self.ok('no links', eng.site(st, inst))
        x = mode_sym('lstat', strip(s))
        l = doms(st, x)
        if any(not y & D for y in d) and not (l and all((y & S_IFMT) == S_IFDIR for y in l)):
            self.rep(eng, st, inst, 'link', 'what appeared is watched although it may be a link to a directory: the record does not say that it is one (%s)' % masks(y for y in d if not y & D))

    # ---- the walk calls itself
    def on_walk_recursion(self, eng, st, f, args, i):
        m = st.mon
        self.settle(eng, st)
        site = eng.site(st, i)
        self.ok('entry walked', site)
        ps = [t for t in (text_of(eng, st, a) for a in args) if t is not None]
        es = [(t, dent_of(t)) for t in ps]
        hit = [(t, e) for t, e in es if e is not None]
        if not hit or not m['dir'] or m['dir'][0] == 0:
            m['vag'] = 1
            return self.unsure('entry walked', 'the path of a recursive walk: %r' % (ps,), site)
        t, e = hit[0]
        if m['ent'] and e[2] != m['ent'][1]: m['vag'] = 1; return self.unsure('entry walked', 'another entry than the last', site)
        dt = dtype_sym(e[0], e[2])
        d = st.dom(dt)
        n = st.dom(e[1])
        if n & {0, 1}: self.rep(eng, st, i, 'dots', 'the walk may go into "." or ".."')
        l = doms(st, m['lst2'][1]) if m['lst2'] else None
        real = m['lst2'] and m['lst2'][0] == 'lstat' and l and all((x & S_IFMT) == S_IFDIR for x in l)
        if DT['DT_LNK'] in d and not real: self.rep(eng, st, i, 'follows-link', 'the walk goes into entries which are symbolic links')
        elif DT['DT_UNKNOWN'] in d and not real and not any(DT['DT_UNKNOWN'] == x for x in ()):
            self.rep(eng, st, i, 'follows-unknown', 'the walk goes into an entry of unknown type%s: it may be a symbolic link' % (', asked about with stat, which follows links' if m['lst2'] and m['lst2'][0] == 'stat' else ''))
        want = deep(cat(m['dir'][1], mkstr([b'/', ('dname',) + tuple(e)])))
        got = deep(t)
        if got != want:
            if vague(got) or any(not isinstance(x, bytes) and x[0] == 'trunc' for x in got.p): self.unsure('entry walked', 'path %r' % (got,), site)
            elif got == mkstr(want.p) or slash(got) == slash(want): pass
            else: self.rep(eng, st, i, 'path', 'the walk goes into %s, which is not the entry of the directory listed' % short(got))
        m.update(ent=0, nm=0, lst2=0)
        self.general(eng, st, f, args, i, t)

    def general(self, eng, st, f, args, i, path):
        """the recursive call has other numbers among its arguments than the first: the walk must do its work for any"""
        if st.mon['gen'] or getattr(self, '_g', None) and f.name in self._g: return
        f.ensure()
        ks = [k for k, (a, pr) in enumerate(zip(args, f.params)) if pr[1].k == 'int' and (isinstance(a, (int, Sym, Lin, Term)))]
        if not ks: return
        if not hasattr(self, '_g'): self._g = set()
        self._g.add(f.name)
        s = st.clone()
        a2 = list(args)
        for k in ks:
            a2[k] = s.fresh(('depth', f.name, k), max(f.params[k][1].n, 8), lo=0, hi=1 << 20) if f.params[k][1].n > 1 else s.fresh(('depth', f.name, k), 1, dom=(0, 1))
        s.mon.update(gen=strip(path), wn=0, tried=0, dir=0, rd=0, ent=0)
        for s2, v in eng.exec_function(f, a2, s, i):
            self.settle(eng, s2)
            self.ok('any depth', eng.site(st, i))
            if not s2.mon['wn']: self.rep(eng, s2, i, 'depth', 'the walk of a directory may not mark and list it, depending on %s' % 'a number which changes from call to call')

    # ---- uses
    def on_use(self, eng, st, kind, val, inst, what):
        if what != 'epoll_wait' or st.mon['phase'] != 'worker': return
        self.settle(eng, st)
        st.mon.update(tried=0, stm=0)
        site = eng.site(st, inst)
        self.ok('base walked', site)
        if not st.mon['wb']: self.rep(eng, st, inst, 'base', 'the watcher waits for events although the base directory was not marked and walked')

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker' or not self.fs(eng, st, ev): return
        self.settle(eng, st)
        st.mon.update(tried=0, stm=0)
        site = eng.site(st, inst)
        w, st.mon['wk'] = st.mon['wk'], 0
        for which, h in self.halves(ev):
            if isinstance(h, tuple): continue
            r = rec_of(h.path)
            if r is None: continue
            d = {x for x in st.dom(rsym(self.kind_, r[0], r[1], 'mask')) if x & (IN['CREATE'] | IN['MOVED_TO']) and x & D}
            if not d: continue
            if which == '' and not isinstance(ev.assoc, tuple) and ev.assoc is not None and all(x & IN['MOVED_FROM'] for x in st.dom(rsym(self.kind_, r[0], r[1], 'mask'))): continue
            self.ok('new directory walked', site)
            if not (isinstance(w, P) and w.obj[1] is r[0] and same(w.off, r[1]) is True):
                self.rep(eng, st, inst, 'appeared', 'the event of a directory which appeared (%s) is delivered although the directory was not marked and walked' % masks(d))


def slash(s):
    return tuple(x.replace(b'//', b'/') if isinstance(x, bytes) else x for x in s.p)


DROPS = IN['DELETE_SELF'] | IN['IGNORED'] | IN['UNMOUNT']


class C29(EvMon):
    """The map from watches to paths is followed: a watch which was established must have its path stored, replacing what was there, before anything
    else is marked, listed, delivered or waited for; an entry is only erased for a record which tells that the kernel dropped the watch
    (directly, or through the array the watch was noted in), and nothing of the same batch is delivered after that."""
    keys = dict(pend=0, er=0)

    def __init__(self, run):
        super().__init__(run)
        self.noted = {}        # arrays in which watches of records are noted which the kernel did not drop

    def due(self, eng, st, inst, what):
        q = st.mon['pend']
        if not q: return
        self.settle(eng, st)
        q = st.mon['pend']
        if not q: return
        st.mon['pend'] = 0
        if q[2] == 0: self.bad(eng, st, inst, 'not-stored', 'a watch is established, but %s before its path was stored' % what)
        else: self.bad(eng, st, inst, 'stale', 'the path of a watch which is established may not be stored, when there is an entry for the same watch already')

    def settle(self, eng, st):
        q = st.mon['pend']
        if q and isinstance(q[2], Sym) and st.dom(q[2]) == {1}: st.mon['pend'] = 0

    def on_sys(self, eng, st, name, args, ret, inst):
        m = st.mon
        if name == 'inotify_add_watch':
            self.due(eng, st, inst, 'another is established')
            if isinstance(args[2], int) and args[2] & 0x10000000:
                self.bad(eng, st, inst, 'not-again', 'a directory which is watched already (one which was renamed, say) can not be marked again (IN_MASK_CREATE): its path stays what it was')
            if not failed(ret): m['pend'] = (ret, strip(args[1]), 0)
        elif name in ('opendir', 'readdir'): self.due(eng, st, inst, 'a directory is listed')
        elif name == 'read' and m['phase'] == 'worker': m['er'] = 0

    def path(self, eng, st, v, inst):
        q = st.mon['pend']
        self.ok('path stored', eng.site(st, inst))
        if vague(v): return self.unsure('path stored', 'path %r' % (v,), eng.site(st, inst))
        if deep(v) != deep(q[1]): self.bad(eng, st, inst, 'path', 'the path stored for a watch (%s) is not the one it was established on (%s)' % (short(v), short(q[1])))

    def on_map(self, eng, st, op, m, k, v, inst):
        q = st.mon['pend']
        site = eng.site(st, inst)
        mine = q and k is q[0]
        if op == 'assign':
            if mine: self.path(eng, st, v, inst); st.mon['pend'] = 0
            elif isinstance(k, Sym) and isinstance(k.name, tuple) and k.name[0] == 'rec': self.unsure('path stored', 'for the watch of a record', site)
        elif op == 'emplace' and mine:
            self.path(eng, st, v, inst)
            known = q[2] == 'erased' or decide(term('in', (m.d[0], m.d[2], k), 1), st) == 0 or m.d[1] == 'empty'
            st.mon['pend'] = 0 if known else (q[0], q[1], eng.inserted)
        elif op == 'erase':
            if mine: st.mon['pend'] = (q[0], q[1], 'erased'); return
            if st.mon['phase'] != 'worker': return
            self.ok('entry dropped', site)
            n = k.name if isinstance(k, Sym) and isinstance(k.name, tuple) else ()
            if n[:2] == ('rec', 'inotify') and n[4] == 'wd':
                d = st.dom(rsym('inotify', n[2], n[3], 'mask'))
                live = {x for x in d if not x & DROPS}
                if live: self.bad(eng, st, inst, 'live', 'the path of a watch is dropped which the kernel still has (%s)' % masks(live))
                if any(not x & IN['IGNORED'] for x in d): st.mon['er'] = 1
            elif n and (n[0] == 'mem' or n[0] == 'W' and any(isinstance(x, tuple) and x[:1] == ('m',) for x in n)):
                src = [x[1] for x in n if isinstance(x, tuple) and x[:1] == ('m',)] if n[0] == 'W' else [n[1]]
                for o, (t, where) in self.noted.items():
                    if o in src or str(o) in map(str, src): self.bad(eng, st, inst, 'live', 'the path of a watch is dropped which was noted at %s, where the kernel may still have it (%s)' % (where, t))
            else: self.unsure('entry dropped', 'watch %r' % (k,), site)
        elif op == 'clear' and st.mon['phase'] == 'worker': self.bad(eng, st, inst, 'all', 'all paths are dropped while there are watches')

    def on_strset(self, eng, st, p, s, old):
        q = st.mon['pend']
        if q and p.obj[0] == 'tmp' and isinstance(p.obj[1], tuple) and p.obj[1][0] == 'ent' and p.obj[1][3] is q[0] and p.off == 16:
            self.path(eng, st, s, None); st.mon['pend'] = 0

    def on_store(self, eng, st, p, v, size, inst):
        if st.mon['phase'] == 'worker' and isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[:2] == ('rec', 'inotify') and v.name[4] == 'wd' and isinstance(p, P) and (p.reg is not None or not isinstance(p.off, int)):
            d = st.dom(rsym('inotify', v.name[2], v.name[3], 'mask'))
            live = {x for x in d if not x & DROPS}
            self.ok('watch noted', eng.site(st, inst))
            if live: self.noted.setdefault(p.obj, (masks(live), eng.site(st, inst)))

    def on_emit(self, eng, st, ev, p, inst):
        if st.mon['phase'] != 'worker': return
        from mons_life import text
        t = text(ev.path) if ev is not None else None
        fs = self.fs(eng, st, ev)
        if fs: self.due(eng, st, inst, 'an event is delivered')
        if st.mon['er'] and (fs or t and t[0] == 'w/sys/phantom@'):
            self.bad(eng, st, inst, 'early', 'an entry was dropped for a record of this batch before the records after it were attributed')

    def on_use(self, eng, st, kind, val, inst, what):
        if what == 'epoll_wait': self.due(eng, st, inst, 'the worker waits'); st.mon['er'] = 0

    def end(self, eng, st, phase, ret): st.mon['pend'] = 0
