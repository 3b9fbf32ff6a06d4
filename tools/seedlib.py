"""Planted bugs: seed() records one; main writes seeded/<id>/ (patch.diff, demo.sh, meta.json and the files of the demo)."""
import os, sys, json, subprocess, shutil, textwrap
I = 'devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp'
F = 'devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp'
L = 'devel/include/detail/wtr/watcher/adapter/linux/watch.hpp'
S = 'devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp'
SEM = 'devel/include/detail/wtr/watcher/semabin.hpp'
W = 'devel/include/wtr/watcher-/watch.hpp'
EV = 'devel/include/wtr/watcher-/event.hpp'
SEEDS = {}

SH = '''#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s'''
CPP = 'g++ -std=c++17 %s -Iinclude "$D/demo.cpp" -o "$T/demo" -pthread || exit 2\n'


def seed(id, prop, needs, what, edits, run='timeout 60 "$T/demo" "$T"\n', cpp=None, title='', flags='', files=None, pre=''):
    SEEDS[id] = dict(prop=prop, needs=needs, what=what, edits=edits, run=run, cpp=cpp, title=title or needs, flags=flags, files=files or {}, pre=pre)


def write(id):
    s = SEEDS[id]
    w = '/tmp/wk-' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for e in s['edits']:
        f, old, new = e[:3]
        p = w + '/' + f
        t = open(p).read()
        n = t.count(old)
        assert n == (e[3] if len(e) > 3 else 1), (id, f, n, old)
        open(p, 'w').write(t.replace(old, new))
    if any(e[0].startswith('devel') for e in s['edits']):
        x = subprocess.check_output([w + '/tool/hone', '--header-content-amalgam'], cwd=w)
        open(w + '/include/wtr/watcher.hpp', 'wb').write(x)
    d = '/verif/seeded/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', 'diff'], cwd=w))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    if s['cpp']: open(d + '/demo.cpp', 'w').write(s['cpp'].lstrip('\n'))
    for k, v in s['files'].items(): open(d + '/' + k, 'w').write(v.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH % (s['title'], s['pre'] + (CPP % s['flags'] if s['cpp'] else '') + s['run']))
    shutil.rmtree(w)
    print(id)
