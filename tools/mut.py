"""Mutation runner: mut.py MOD.CLS[,MOD.CLS] UNIS FILE-suffix 'old' 'new' ['old' 'new' …]
applies the text substitutions to a scratch copy of /repo (devel tree and, where the text is there, the amalgam) and runs monitors."""
import sys, os, subprocess, shutil, tempfile, glob
clss, unis, fn = sys.argv[1:4]; subs = sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'out', '/repo/', d + '/'], check=False) if shutil.which('rsync') else subprocess.run(f"cd /repo && git ls-files -z | xargs -0 cp -a --parents -t {d}", shell=True, check=True)
    fs = [x for x in glob.glob(d + '/**/*', recursive=True) if x.endswith(fn) and os.path.isfile(x)]
    assert fs, 'no such file'
    for f in fs[:1]:
        s = open(f).read()
        for o, n in zip(subs[::2], subs[1::2]):
            assert o in s, f'text not found: {o!r} in {f}'
            s = s.replace(o, n, 1)
        open(f, 'w').write(s)
    env = dict(os.environ, WATCHER_REPO=d)
    for c in clss.split(','):
        subprocess.run(['python3', '/verif/tools/trymon.py', c, 'devel', unis], env=env)
finally:
    shutil.rmtree(d, ignore_errors=True)
