"""C27 and the command line's part of C17: main of the program evaluated abstractly, with the class watch replaced by a record of what is done to it."""
import json
import build, models, core
from evalfn import Ev
from vals import *
import chk_event
from chk_event import Report, cover, event_obj, Unknown, Render, time_text, path_of, pairs
from chk_c import Log, watch_models
from llir import PTR as PTRTY

SITE = 'src/wtr/watcher/main.cpp: main'
UNITS = {'nanoseconds ns': 1, 'microseconds us': 10**3, 'milliseconds ms': 10**6, 'seconds s': 10**9, 'minutes m': 60 * 10**9, 'hours h': 3600 * 10**9, 'days d': 86400 * 10**9,
         'weeks w': 7 * 86400 * 10**9, 'months mts': 30 * 86400 * 10**9, 'years y': 365 * 86400 * 10**9}


class Watching(Log):
    def on_output(self, eng, st, stream, s, inst): self.add(st, 'out', stream, s)
    def on_sys(self, eng, st, name, *a): self.add(st, 'sys', name)
    def on_input(self, eng, st, *a): self.add(st, 'in')
    def on_sleep(self, eng, st, v, *a): self.add(st, 'sleep', v)
    def on_clock(self, eng, st, base, inst): self.add(st, 'unknown', base)   # a wait until a point in time is not followed
    def on_unknown(self, eng, st, base, args, inst): self.add(st, 'unknown', base)


class Cli:
    def __init__(self, tree, unit='cli'):
        self.log = Watching()
        self.E = E = Ev(unit, tree, hooks=[self.log])
        self.made = []
        watch_models(E, self.log, self.onctor)
        def exists(e, st, c):
            p = models.sget(e, st, c.args[0])
            no = st.clone()
            if len(c.args) > 1:
                ec = e.as_ptr(c.args[1], st)
                if isinstance(ec, P):
                    for s in (st, no): e.raw_store(s, ec, 0, 4)
            for s, v in ((st, 1), (no, 0)): self.log.add(s, 'exists', p, v)
            return [(st, 1), (no, 0)]
        E.eng.models['std::filesystem::exists'] = exists
        if 'main' not in E.m.funcs: raise build.BuildError('%s has no main' % unit)

    def onctor(self, st, c):
        self.log.add(st, 'path', models.sget(self.E.eng, st, c.args[1]))
        self.made.append((st.clone(), c.args))

    def run(self, argv):
        E = self.E
        st = E.state(log=())
        av = E.obj(st, 'argv', 8 * (len(argv) + 1), {8 * i: (8, ptr(('cs', mkstr((a.encode(),) if isinstance(a, str) else (a,)), None, 0), 0)) for i, a in enumerate(argv)}, default='zero')
        E.eng.budget = E.eng.steps + 1000000
        return E.call('main', [len(argv), av], st)


def outcome(s, v):
    """what a run of main did: dict"""
    lg = [x for x in s.mon['log'] if x[0] not in ('alloc', 'free')]
    d = dict(out=models.mkstr(()), err=models.mkstr(()), log=lg, unknown=[x[1] for x in lg if x[0] == 'unknown'], bad=[x for x in lg if x[0] == 'bad'])
    for x in lg:
        if x[0] == 'out': k = 'err' if x[1] == 'stderr' else 'out'; d[k] = models.cat(d[k], x[2])
    d['watches'] = [x[1] for x in lg if x[0] == 'path']
    d['waits'] = [x for x in lg if x[0] in ('in', 'sleep')]
    d['closes'] = [x[2] for x in lg if x[0] == 'close']
    d['exists'] = [x[2] for x in lg if x[0] == 'exists']
    d['order'] = [x[0] for x in lg if x[0] in ('watch', 'in', 'sleep', 'close', '~watch')]
    d['status'] = v
    return d


def status_is(s, v, close):
    """does the status v, given the symbol of close()'s result, say success exactly when that was true? True, False or None"""
    if isinstance(v, int):
        d = s.dom(close)
        if d is not None and len(d) == 1: return (v & 0xff == 0) == bool(next(iter(d)))
        return False
    if v is UNDEF or set(v.syms) != {close}: return None
    try: return all((core.ceval(v, {close: x}) & 0xff == 0) == bool(x) for x in (s.dom(close) or (0, 1)))
    except Exception: return None


def c27(r, tier):
    r.rule = ('Abstract evaluation of main for each documented form of the command line: no argument, -h, --help, a path (which may or may not exist), a path with each documented unit and times which are '
              'positive, zero, negative or no number, and a time which is any number (symbolic). Along every path the help must go to the documented stream, the watcher be made for the given path (the current '
              'directory by default), the wait be TIME x UNIT or for input, and the status be 0 exactly when close() was true.')
    R = Report(r)
    for tree in ('devel', 'include'):
        R.tree = tree
        try: C = Cli(tree)
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue

        def case(argv, what, expect):
            try: outs = C.run(['wtr.watcher'] + argv)
            except Exception as e:
                R.unsure('run', what, repr(e)[:200]); return
            if not outs: R.unsure('run', what, 'no way out')
            for s, v in outs:
                d = outcome(s, v)
                if d['unknown']: R.unsure('run', what, 'depends on ' + ', '.join(d['unknown'])); continue
                if d['bad']: R.bad('memory', SITE, '%s: memory which is not there is accessed: %s' % (what, d['bad'][0])); continue
                expect(s, v, d, what)

        def helped(ok):
            def f(s, v, d, what):
                stream, other = (d['out'], d['err']) if ok else (d['err'], d['out'])
                if d['watches'] or d['order']: R.bad('help', SITE, '%s: a watcher is made' % what)
                elif not stream.p: R.bad('help', SITE, '%s: nothing is printed on standard %s' % (what, 'output' if ok else 'error'))
                elif other.p: R.bad('help', SITE, '%s: something is printed on standard %s' % (what, 'error' if ok else 'output'))
                elif not isinstance(v, int): R.unsure('help', what, 'status %r' % (v,))
                elif (v & 0xff == 0) != ok: R.bad('help', SITE, '%s: the exit status is %d' % (what, v & 0xff))
                else:
                    t = chk_event.known_text(stream)
                    if t is None: R.unsure('help', what, 'text not known'); return
                    miss = [u for us in UNITS for u in ['-' + x for x in us.split()] if u not in t]
                    if miss: R.bad('help', SITE, '%s: what is printed is not the help: it lacks %s' % (what, ', '.join(miss[:4])))
                    else: R.ok('help', what)
            return f

        def watched(path, wait):
            def f(s, v, d, what):
                if path is not None and d['exists'] and not all(d['exists']): return helped(False)(s, v, d, what + ', which does not exist')
                if path is not None and not d['exists'] and not any(x[0] == 'sys' for x in d['log']): R.bad('exists', SITE, '%s: whether the path exists is not looked at' % what); return
                if len(d['watches']) != 1: R.bad('watch', SITE, '%s: %d watchers are made' % (what, len(d['watches']))); return
                if d['out'].p or d['err'].p: R.bad('watch', SITE, '%s: something other than events is printed' % what); return
                p = d['watches'][0]
                want = mkstr((path.encode(),)) if path is not None else None
                if p is None: R.unsure('watch', what, 'path not known'); return
                if want is not None and p != want: R.bad('watch', SITE, '%s: what is watched is %s' % (what, p)); return
                if want is None and not (p.p == (('cwd',),) or p.p in ((b'.',), (b'./',))): R.bad('watch', SITE, '%s: what is watched is %s, not the current directory' % (what, p)); return
                ws = d['waits']
                if d['order'].count('close') < 1 or d['order'].index('close') < max([n for n, x in enumerate(d['order']) if x in ('in', 'sleep')], default=0):
                    R.bad('close', SITE, '%s: the watcher is %s' % (what, 'closed before the wait is over' if 'close' in d['order'] else 'not closed')); return
                if len(ws) != 1: R.bad('wait', SITE, '%s: it waits %s' % (what, 'for nothing' if not ws else 'for more than one thing')); return
                w = ws[0]
                k = wait(s) if callable(wait) else wait
                if k is None and w[0] != 'in': R.bad('wait', SITE, '%s: it sleeps (%s ns) rather than wait for the end of input' % (what, w[1])); return
                if k is not None and w[0] == 'in': R.bad('wait', SITE, '%s: it waits for input rather than sleep for %s ns' % (what, k)); return
                if k is not None and w[1] != k:
                    if w[1] is UNDEF: R.unsure('wait', what, 'duration not known'); return
                    R.bad('wait', SITE, '%s: it sleeps for %s ns, which is not %s ns' % (what, w[1], k)); return
                ok = status_is(s, v, d['closes'][0])
                if ok is None: R.unsure('status', what, 'status %r' % (v,))
                elif not ok: R.bad('status', SITE, '%s: the exit status does not tell whether the watcher closed successfully' % what)
                else: R.ok('watch', what)
            return f
        case([], 'no argument', watched(None, None))
        case(['-h'], '-h', helped(True))
        case(['--help'], '--help', helped(True))
        for p in ('some dir', '/', '-s', '-help', 'h', '-H', '--help.d'): case([p], 'path "%s"' % p, watched(p, None))
        for us, k in UNITS.items():
            for u in us.split():
                case(['/a', '-' + u], '-%s without a time' % u, watched('/a', None))
                for t in ('1', '2', '59', '100000', '123456789', '4000000001', '0', '-3', 'x', ''):
                    n = int(t) if t.lstrip('-').isdigit() else 0
                    if n * k >= 1 << 63: continue
                    case(['/a', '-' + u, t], 'time "%s" of unit -%s' % (t, u), watched('/a', n * k if n > 0 else None))
                case(['-h', '-' + u, '5'], '-h with a unit and a time', helped(True))
                # any number
                def symbolic(s, v, d, what):
                    if d['exists'] and not all(d['exists']): return
                    for w in d['waits']:
                        if w[0] != 'sleep' or not isinstance(w[1], (Lin, Sym)): continue
                        sy = [x for x in w[1].syms]
                        if len(sy) != 1 or 'TIME' not in repr(sy[0].name): continue
                        if w[1] != lmul(sy[0], k, 64): R.bad('unit', SITE, '%s: it sleeps for %s ns, a multiple other than %d' % (what, w[1], k))
                        else: R.ok('unit', '-' + u)
                case(['/a', '-' + u, ('TIME',)], 'any time of unit -%s' % u, symbolic)
        cover(r, C.E)


# ---------------------------------------------------------------- JSON lines
def json_lines(r, R):
    """what main's callback prints for an event"""
    for tree in ('devel', 'include'):
        R.tree = tree
        try: C = Cli(tree)
        except build.BuildError as e:
            r.errors.append('%s: %s' % (tree, str(e)[:2000])); continue
        E = C.E
        site = 'line printed by the command-line program'
        try: C.run(['wtr.watcher'])
        except Exception as e:
            R.unsure('json', site, repr(e)[:200]); continue
        if not C.made: R.unsure('json', site, 'no watcher is made'); continue
        s0, args = C.made[0]
        cbp = E.eng.as_ptr(args[2], s0) if len(args) > 2 else None
        inv = E.eng.raw_load(s0, E.eng.addoff(cbp, 24), PTRTY) if isinstance(cbp, P) else None
        if not isinstance(inv, Fn): R.unsure('json', site, 'callback object %r' % (inv,)); continue
        combos = [(e, 'file', None, None) for e in E.w.et] + [('create', p, None, None) for p in E.w.pt] + [('create', 'dir', e, 'file') for e in E.w.et] + [('modify', 'dir', 'rename', p) for p in E.w.pt]
        combos += [(e, p, x, 'file') for e in E.w.et for p in E.w.pt for x in (None, 'rename') if (e, p, x, 'file') not in combos and (e, p, x, None) not in combos]
        ran = []
        for et, pt, aet, apt in combos:
            E.eng.digits = (19,)
            E.eng.trans.clear(); E.eng.accbase.clear()
            st = s0.clone()
            st.mon['log'] = ()
            t, ta = sym(('arg', 'time'), 64, signed=True), sym(('arg', 'associated time'), 64, signed=True)
            a = event_obj(E, st, 'b', E.w.et[aet], E.w.pt[apt], ta) if aet else 0
            ev = event_obj(E, st, 'a', E.w.et[et], E.w.pt[pt], t, a)
            st.mon['keep'] = (t, ta, models.slen(mkstr((('PATH', 'a'),))), models.slen(mkstr((('PATH', 'b'),))))
            E.eng.budget = E.eng.steps + 2000000
            try: res = E.eng.call_named(inv.name, [cbp, ev], None, {}, st)
            except Exception as e:
                R.unsure('json', site, repr(e)[:300]); continue
            texts = set()
            for s, _ in res:
                d = outcome(s, None)
                if d['unknown']: R.unsure('json', site, 'depends on ' + ', '.join(d['unknown'])); continue
                rd = Render(E.eng, s, time_text)
                try: text = rd.text(d['out'])
                except Unknown as e:
                    R.unsure('json', site, str(e)[:200]); continue
                for p in dict.fromkeys(rd.probs): R.bad('escape', site, p)
                if rd.probs: continue
                if not text.endswith('\n') or '\n' in text[:-1]: R.bad('line', site, 'an event is not printed as one line: %r' % text); continue
                try: v = json.loads(text, object_pairs_hook=pairs)
                except ValueError as e:
                    R.bad('well-formed', site, 'not JSON (%s): %s' % (e, text)); continue
                def obj(n, e, p, time, assoc): return dict(path_type=p, path_name=path_of(s, n), effect_type=e, effect_time=int(time_text('dec', time)), associated=assoc)
                w = obj('a', et, pt, t, obj('b', aet, apt, ta, None) if aet else None)
                if v != w: R.bad('content', site, 'the event is printed as %s, which is not %s' % (json.dumps(v), json.dumps(w)))
                else:
                    R.ok('json', site)
                    texts.add(text)
                    if len(ran) < 4 and s is res[-1][0]: ran.append((s, ev, et, pt, texts))
        # one event after another
        for s, ev, et, pt, before in ran:
            for a in ((et, pt), ('destroy', 'dir'), ('create', 'file')):
                E.eng.trans.clear(); E.eng.accbase.clear()
                s1 = s.clone()
                s1.mon['log'] = ()
                e2 = ev if a == (et, pt) else event_obj(E, s1, 'c', E.w.et[a[0]], E.w.pt[a[1]], sym(('arg', 'time of the next'), 64, signed=True), 0)
                s1.mon['keep'] = tuple(s1.mon['keep']) + (sym(('arg', 'time of the next'), 64, signed=True), models.slen(mkstr((('PATH', 'c'),))), models.slen(mkstr((('PATH', 'a'),))))
                E.eng.budget = E.eng.steps + 2000000
                try: res = E.eng.call_named(inv.name, [cbp, e2], None, {}, s1)
                except Exception as e:
                    R.unsure('history', site, repr(e)[:300]); continue
                for s2, _ in res:
                    d = outcome(s2, None)
                    if d['unknown']: R.unsure('history', site, 'depends on ' + ', '.join(d['unknown'])); continue
                    rd = Render(E.eng, s2, time_text)
                    try: text = rd.text(d['out'])
                    except Unknown as e:
                        R.unsure('history', site, str(e)[:200]); continue
                    if rd.probs: continue
                    if e2 is ev and text not in before: R.bad('history', site, 'an event which follows another like it is printed as %r' % text)
                    elif not text.endswith('\n') or '\n' in text[:-1]: R.bad('history', site, 'an event which follows another is not printed as one line: %r' % text)
                    else: R.ok('history', site)
        cover(r, E)
