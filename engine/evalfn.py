"""Evaluation of single functions (conversions, constructors, the C interface) by the abstract interpreter."""
import build, core, models, world
from vals import *
from core import State


class Ev:
    def __init__(self, unit, tree, budget=2000000, hooks=()):
        self.m = build.module(unit, tree)
        self.tree, self.unit = tree, unit
        self.eng = eng = core.Engine(self.m, budget=budget)
        eng.universe = None
        eng.unroll = 400
        eng.models.update(models.MODELS)
        self.w = world.World(eng, None)
        world.install(eng, self.w)
        eng.hooks = [self.w] + list(hooks)

    def state(self, **mon):
        import session
        st = State()
        models.get_errno_obj(st)
        st.mon.update(session.BASEMON); st.mon.update(mon)
        return st

    def obj(self, st, name, size, cells=(), default='undef'):
        o = st.new(('root', name), default, size)
        for k, (n, v) in dict(cells).items(): o.cells[k] = (n, v)
        return ptr(('root', name), 0)

    def call(self, fn_, args, st):
        if fn_ not in self.m.funcs: raise build.BuildError('no function ' + fn_)
        return self.eng.run(fn_, args, st)


class Shared:
    """static storage which is written, without anything that keeps another thread away, by code which several threads run at once"""
    def __init__(self): self.on, self.writes = False, {}

    def note(self, eng, st, p, inst, atomic=False):
        if not self.on or atomic or not isinstance(p, P) or not isinstance(p.obj, tuple) or p.obj[0] != 'g' or st.mon.get('guard'): return
        g = eng.m.global_(p.obj[1])
        if g is None or g[2] or eng.m.thread_local(p.obj[1]) or p.obj[1].startswith(('_ZGV', '_ZT')): return
        self.writes.setdefault((eng.m.demangled(p.obj[1]), eng.site(st, inst) if inst is not None else ''))

    def on_store(self, eng, st, p, v, size, inst):
        self.note(eng, st, p, inst, bool(inst is not None and (inst.op in ('atomicrmw', 'cmpxchg') or inst.op == 'store' and inst.x)))
    def on_memcpy(self, eng, st, d, s, n, inst): self.note(eng, st, eng.as_ptr(d, st), inst)
    def on_memset(self, eng, st, d, n, inst): self.note(eng, st, eng.as_ptr(d, st), inst)
    def on_fill(self, eng, st, d, n, inst, what): self.note(eng, st, eng.as_ptr(d, st), inst)
    def on_strset(self, eng, st, p, s, old): self.note(eng, st, p, None)

    def report(self, R, rule, site, who):
        for v, at in self.writes:
            R.bad(rule, site, '%s writes `%s`, which is the same for every thread, with nothing to keep another one away%s' % (who, v[-60:], ' (%s)' % at if at else ''))
        self.writes.clear()
