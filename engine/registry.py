"""Which analysis decides which property."""
import importlib
import report

SESSION = {
    'C01': 'mons_life.C01', 'C02': 'mons_life.C02', 'C03': 'mons_life.C03', 'C04': 'mons_life.C04', 'C05': 'mons_life.C05',
    'C06': 'mons_res.C06', 'C07': 'mons_res.C07', 'C08': 'mons_res.C08',
    'C09': 'mons_ev.C09', 'C10': 'mons_ev.C10', 'C11': 'mons_ev.C11', 'C12': 'mons_ev.C12', 'C13': 'mons_ev.C13goeson mons_ev.C13batch mons_ev.C13',
    'C14': 'mons_tree.C14', 'C15': 'mons_mem.C15', 'C28': 'mons_mem.C28', 'C29': 'mons_tree.C29', 'C30': 'mons_life.C30',
}
OTHER = {'C23': 'chk_py.c23', 'C24': 'chk_node.c24', 'C25': 'chk_py.c25', 'C26': 'chk_rust.c26', 'C27': 'chk_cli.c27', 'C20': 'chk_c.c20', 'C21': 'chk_c.c21', 'C22': 'chk_c.c22', 'C16': 'chk_event.c16', 'C17': 'chk_event.c17', 'C18': 'chk_event.c18', 'C19': 'chk_event.c19'}

WHAT = ('Abstract interpretation to a fixpoint of the constructor, the worker, close() and the destructor over the LLVM IR of the current source, '
        'for both event sources (inotify, fanotify) and both copies of the header (devel/include, include). Every system call may succeed or fail with each of its '
        'documented errors, every buffer of kernel records is symbolic (any number of records of any kind), every poll result any ready set; the monitor '
        'of the property runs along all paths. ')


def run(pid, tier):
    r = report.Result()
    if pid in SESSION:
        import session
        Ks = []
        for x in SESSION[pid].split():
            mod, cls = x.split('.')
            Ks.append(getattr(importlib.import_module(mod), cls))
        r.rule = WHAT + ' '.join(' '.join((K.__doc__ or '').split()) for K in Ks)
        r.cover = dict(runs=[], functions=[])
        fns = set()
        for x in session.analyse(Ks, budget=8000000 if tier == 'quick' else 40000000):
            if 'fatal' in x:
                r.errors.append('%s/%s: %s' % (x['tree'], x['universe'], x['fatal']))
                continue
            r.violations += x['violations']
            r.obligations += x['obligations']
            r.undecided += [u + (x['universe'],) for u in x['undecided']]
            if x['error']: r.undecided.append(('exploration', '%s/%s' % (x['tree'], x['universe']), x['error']))
            fns |= set(x['functions'])
            r.cover['runs'].append({k: x[k] for k in ('tree', 'universe', 'steps', 'partitions', 'splits', 'emissions', 'phases', 'wall', 'build', 'spawns', 'unmodelled')})
        r.cover['functions'] = sorted(fns)
        r.cover['trusted'] = report.TRUSTED
    else:
        mod, fn = OTHER[pid].rsplit('.', 1)
        try: getattr(importlib.import_module(mod), fn)(r, tier)
        except Exception as e:
            import traceback
            tb = traceback.format_exc().strip().split('\n')
            r.errors.append('the analysis failed: %r (%s)' % (e, tb[-3].strip() if len(tb) > 2 else ''))
    return r
