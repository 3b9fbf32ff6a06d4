"""Analysis of a whole watcher: constructor, worker, close and destruction, with one property's monitor attached."""
import time, collections, traceback
import build, core, models, world
from vals import *
from core import State
from llir import int_ty

WATCH = ptr(('root', 'watch'), 0)


class Mon:
    """Base of the property monitors. Hook methods are called by the engine as method(eng, st, ...)."""
    keys = {}              # initial values in st.mon
    tree_uni = None        # which runs are wanted
    want_worker = True
    limits = False         # look for bounds of counters among the constants of the code
    want_close = True

    def __init__(self, run):
        self.run = run
        self.viol = {}
        self.obl = collections.Counter()
        self.und = {}

    # ---- results
    def ok(self, rule, site=''):
        self.obl[(rule, site)] += 1

    def bad(self, eng, st, inst, rule, msg, site=None):
        site = site or (eng.site(st, inst) if inst is not None else '')
        k = (rule, site)
        t = st.trace_list(400)
        if any(x[0] == 'unmodelled call' for x in t):
            self.und[(rule, site)] = 'depends on a call without a model: ' + ', '.join(str(x[1]) for x in t if x[0] == 'unmodelled call')[:200]
            return
        if k not in self.viol:
            eng.budget = min(eng.budget, eng.steps + 2000000)          # the verdict is known: only look a little further
            self.viol[k] = dict(rule=rule, site=site, msg=msg, path=eng.callpath(st, inst), trace=[' '.join(fmt_ev(y) for y in x) for x in t[-40:]],
                                tree=self.run.tree, universe=self.run.uni, phase=st.mon.get('phase'))

    def unsure(self, rule, msg, site=''):
        self.und[(rule, site)] = msg

    # ---- to override
    def begin(self, eng, st, phase): pass
    def end(self, eng, st, phase, ret): pass
    def finish(self, eng): pass


def fmt_ev(x):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) < 160 else s[:157] + '...'


BASEMON = dict(epreg=(), epexp=0, joined=(), absfail=0, dirgen=0, phase='ctor', guard=0)


class Anchor(Exception):
    pass


class Run:
    def __init__(self, tree, uni, mon_cls, budget=8000000):
        self.tree, self.uni, self.mon_cls, self.budget = tree, uni, mon_cls, budget
        self.error = None
        self.spawned = []
        self.phases = collections.Counter()

    def on_spawn(self, eng, st, f, pol, args, tok, inst):
        if st.mon.get('phase') == 'ctor':
            self.spawned.append((f, st.clone(), args, tok, inst))

    def fail_budget(self, e):
        self.error = 'gave up: %s' % e

    def go(self):
        t0 = time.time()
        self.m = m = build.module('lib', self.tree)
        self.t_build = time.time() - t0
        self.eng = eng = core.Engine(m, budget=self.budget)
        eng.universe = self.uni
        eng.use_limits = self.mon_cls.limits
        eng.models.update(models.MODELS)
        self.w = w = world.World(eng, None)
        world.install(eng, w)
        self.mon = mon = self.mon_cls(self)
        eng.hooks = [w, self, mon]
        for f in ('drv_ctor', 'drv_close', 'drv_dtor'):
            if f not in m.funcs: raise Anchor('no entry point ' + f)
        if not w.ev_off or not w.watch_off: raise Anchor('event or watch class not found in debug information')
        st = State()
        models.get_errno_obj(st)
        st.mon.update(BASEMON); st.mon.update(mon.keys)
        cb = st.new(('root', 'cb'), 'undef', 32)
        cb.cells[0] = (8, sym(('usertoken',), 64, lo=1)); cb.cells[16] = (8, fn('USERMGR')); cb.cells[24] = (8, fn('USERCB'))
        pp = st.new(('root', 'path'), 'undef', 40); pp.cells[0] = (40, mkstr([('PATH',)]))
        st.new(('root', 'watch'), 'undef', 24)
        try:
            mon.begin(eng, st, 'ctor')
            outs = eng.run('drv_ctor', [WATCH, ptr(('root', 'path'), 0), ptr(('root', 'cb'), 0)], st)
            for s, v in outs: mon.end(eng, s, 'ctor', v); self.phases['ctor'] += 1
            if mon.want_worker:
                for f, s, args, tok, inst in self.spawned: self.worker(f, s, args, tok, inst)
            if mon.want_close: self.close(outs)
        except core.Budget as e:
            self.fail_budget(e)
        mon.finish(eng)
        self.wall = time.time() - t0
        return self.result()

    def worker(self, f, st, args, tok, inst):
        eng, w, mon = self.eng, self.w, self.mon
        if f is None:
            mon.unsure('worker', 'the function run by the worker could not be resolved', eng.site(st, inst))
            return
        s = st.clone()
        f.ensure()
        call = []
        cl = args[0] if args else 0
        if isinstance(cl, P) and cl.obj in s.mem:
            src = s.mem[cl.obj]
            size = src.size or 128
            s.new(('root', 'closure'), 'undef', size)
            eng.memcpy(s, ptr(('root', 'closure'), 0), cl, size)
        else: s.new(('root', 'closure'), 'undef', 128)
        call.append(ptr(('root', 'closure'), 0))
        for n, a in enumerate(args[1:]):
            # std::async passes copies of its arguments
            if isinstance(a, P) and a.obj in s.mem:
                oid = ('root', 'arg%d' % n)
                sz = s.mem[a.obj].size or 64
                s.new(oid, 'undef', sz)
                eng.memcpy(s, ptr(oid, 0), a, sz - (a.off if isinstance(a.off, int) else 0))
                call.append(ptr(oid, 0))
            else: call.append(a)
        for o in list(s.mem):
            if o[0] == 'a': del s.mem[o]
        s.stack = (); s.keep = (); s.cnt['calls'] = ()
        for k in list(s.cnt):
            if isinstance(k, tuple) and k and k[0] == 'act': del s.cnt[k]
        s.mon['phase'] = 'worker'
        w.worker_mode = True
        mon.begin(eng, s, 'worker')
        n = len(f.params)
        for s2, v in eng.exec_function(f, call[:n] + [UNDEF] * (n - len(call)), s, None):
            self.phases['worker'] += 1
            mon.end(eng, s2, 'worker', v)
        w.worker_mode = False

    def close(self, outs):
        eng, mon = self.eng, self.mon

        def step(ins, fn_, phase):
            res = []
            for s in ins:
                s = s.clone()
                s.mon['phase'] = phase
                mon.begin(eng, s, phase)
                for s2, v in eng.run(fn_, [WATCH], s):
                    self.phases[phase] += 1
                    mon.end(eng, s2, phase, v)
                    res.append(s2)
            return res
        first = [s for s, _ in outs]
        step(first, 'drv_dtor', 'dtor')
        a = step(first, 'drv_close', 'close')
        b = step(a, 'drv_close', 'close again')
        step(b, 'drv_dtor', 'dtor')

    def result(self):
        eng, m, mon = self.eng, self.m, self.mon
        fns = sorted({m.demangled(n).split('(')[0][-100:] for n in eng.reached})
        return dict(tree=self.tree, universe=self.uni, violations=list(mon.viol.values()), obligations=[(r, s, n) for (r, s), n in mon.obl.items()],
                    undecided=[(r, s, x) for (r, s), x in mon.und.items()], unmodelled=dict(eng.unmodelled), steps=eng.steps, partitions=eng.loopstats,
                    splits=eng.nforks, functions=fns, emissions=self.w.emissions, phases=dict(self.phases), error=self.error, wall=round(self.wall, 2),
                    build=round(self.t_build, 2), spawns=len(self.spawned))


def job(a):
    tree, uni, mon_cls, budget = a
    try:
        return Run(tree, uni, mon_cls, budget).go()
    except (Anchor, build.BuildError) as e:
        return dict(tree=tree, universe=uni, fatal=str(e))
    except core.Budget as e:
        return dict(tree=tree, universe=uni, fatal='gave up: %s' % e)
    except Exception:
        return dict(tree=tree, universe=uni, fatal=traceback.format_exc())


def analyse(mons, trees=('devel', 'include'), unis=('inotify', 'fanotify'), budget=8000000):
    import multiprocessing as mp
    if isinstance(mons, type): mons = [mons]
    jobs = [(t, u, k, budget) for u in reversed(unis) for k in mons for t in trees]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(len(jobs), 8)) as p:
        return p.map(job, jobs, 1)
