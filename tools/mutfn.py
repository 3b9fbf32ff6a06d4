"""mutfn.py FILE [names]: mutations for the checks which are functions. FILE defines M = {name: (check id, file suffix, [old, new]…)}; each is applied to every file of a copy of
the sources whose path ends with the suffix, in parallel, and the check run on the copy."""
import sys, os, subprocess, tempfile, shutil, runpy, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2:]


def go(a):
    n, (cid, suf, *subs) = a
    d = tempfile.mkdtemp(prefix='wtr-mut-')
    try:
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git', 'out', 'build', 'target', 'node_modules'), symlinks=True)
        hits = 0
        for root, _, fs in os.walk(d + '/repo'):
            for f in fs:
                p = os.path.join(root, f)
                if not p.endswith(suf): continue
                s = t = open(p, errors='surrogateescape').read()
                for o, w in zip(subs[::2], subs[1::2]): t = t.replace(o, w)
                if s != t:
                    hits += 1
                    open(p, 'w', errors='surrogateescape').write(t)
        if not hits: return n, 'NO MATCH'
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'build', 'evidence', 'seeded'))
        r = subprocess.run([d + '/verif/check', cid], capture_output=True, text=True, env=dict(os.environ, WATCHER_REPO=d + '/repo'), cwd=d + '/verif')
        und = ''
        try:
            import json
            c = json.load(open('%s/verif/evidence/%s.json' % (d, cid)))['coverage']
            und = 'undecided %d %s' % (c['undecided_count'], c['undecided'][:2])
        except Exception: pass
        return n, 'exit %d (%d files)\n%s%s%s' % (r.returncode, hits, r.stdout[:900], r.stderr[-600:], und[:500])
    finally: shutil.rmtree(d)


with cf.ThreadPoolExecutor(6) as ex:
    for n, o in ex.map(go, [(n, m) for n, m in ms.items() if not only or n in only]): print('=====', n, '\n' + o)
