#!/usr/bin/env python3
"""Which planted bugs change lines which the original repository did not have (or change none of it)?"""
import subprocess, sys, os, re, collections
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[-1]
BASE = os.environ.get('BASE', '14290eb')
def orig(f):
    r = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], capture_output=True, text=True)
    return set(r.stdout.split('\n'))
cache = {}
for d in sorted(os.listdir('/verif/seeded')):
    f, gone, mine = None, 0, []
    for l in open('/verif/seeded/%s/patch.diff' % d):
        l = l.rstrip('\n')
        if l.startswith('--- '): f = l[6:]
        elif l.startswith('-') and f:
            if f not in cache: cache[f] = orig(f)
            gone += 1
            if l[1:] not in cache[f]: mine.append(l)
    if mine or not gone: print(d, gone, mine[:3])
