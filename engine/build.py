"""Translate the code under analysis to LLVM IR with the flags of its build."""
import os, re, subprocess, sys, tempfile, shutil, atexit
import llir

REPO = os.environ.get('WATCHER_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = shutil.which('clang++-18') or 'clang++'
CC = shutil.which('clang-18') or 'clang'
OPT = shutil.which('opt-18') or 'opt'
_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='wtr-ir-')
        atexit.register(lambda d=_tmp: shutil.rmtree(d, ignore_errors=True))
    return _tmp


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


TREES = {'devel': 'devel/include', 'include': 'include'}


def units(name, tree):
    inc = TREES.get(tree)
    R = REPO + '/'
    if name == 'lib': return (HERE + '/drivers/lib.cpp', ['-I' + R + inc])
    if name == 'cli': return (R + 'src/wtr/watcher/main.cpp', ['-I' + R + inc])
    if name == 'tiny': return (R + 'src/wtr/tiny_watcher/main.cpp', ['-I' + R + inc])
    if name == 'c': return (R + 'watcher-c/src/watcher-c.cpp', ['-I' + R + 'watcher-c/include', '-I' + R + inc])
    if name == 'node': return (R + 'watcher-nodejs/lib/watcher-napi.cpp', ['-I' + R + 'watcher-c/include', '-I/usr/include/node', '-DNODE_GYP_MODULE_NAME=watcher_napi'])
    raise KeyError(name)


def compile_ir(name, tree):
    src, flags = units(name, tree)
    d = tmpdir()
    bc, ll = '%s/%s-%s.bc' % (d, name, tree), '%s/%s-%s.ll' % (d, name, tree)
    sh([CXX, '-std=gnu++17', '-fno-exceptions', '-fno-rtti', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w']
       + flags + ['-emit-llvm', '-S', src, '-o', bc])
    mark_inline(bc)
    sh([OPT, '-passes=always-inline,sroa,early-cse,simplifycfg', bc, '-S', '-o', ll])
    os.unlink(bc)
    return ll


DEF = re.compile(r'^define [^@]*@("?)([A-Za-z0-9_.$]+)\1\(')


def mark_inline(path):
    """library templates that have no model of their own are expanded into their callers"""
    import models
    lines = open(path).read().split('\n')
    idx = {}
    noin = {m.group(1) for l in lines if l.startswith('attributes') and 'noinline' in l for m in [re.match(r'attributes (#\d+)', l)]}
    for n, l in enumerate(lines):
        if l.startswith('define'):
            m = DEF.match(l)
            if m and re.match(r'_ZNK?St|_ZSt|_ZNK?9__gnu_cxx', m.group(2)): idx[m.group(2)] = n
    dem = subprocess.run(['c++filt'], input='\n'.join(idx), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    for (name, n), d in zip(idx.items(), dem):
        if llir.base_name(d) in models.MODELS or llir.base_name(d) in ('std::async',): continue
        if llir.base_name(d).startswith(('std::future', 'std::__basic_future', 'std::shared_future')): continue
        l = lines[n]
        k = re.search(r'\) [^()]*?(#\d+)', l)
        if not k or k.group(1) in noin: continue
        i = l.rindex(k.group(1))
        lines[n] = l[:i] + 'alwaysinline ' + l[i:]
    open(path, 'w').write('\n'.join(lines))


def module(name, tree):
    ll = compile_ir(name, tree)
    m = llir.load(ll, name + '/' + tree)
    os.unlink(ll)
    return m


def constants(unit, tree, names):
    """values of integer constant expressions: names: key -> expression; the header of the C interface is included"""
    d = tmpdir()
    src, out = '%s/k.cpp' % d, '%s/k.ll' % d
    keys = list(names)
    with open(src, 'w') as f:
        f.write('#include "wtr/watcher-c.h"\n')
        for n, k in enumerate(keys): f.write('extern "C" const long long k_%d;\nconst long long k_%d = (long long)(%s);\n' % (n, n, names[k]))
    sh([CXX, '-std=gnu++17', '-w', '-S', '-emit-llvm', '-I' + REPO + '/watcher-c/include', src, '-o', out])
    vals = {}
    for l in open(out):
        m = re.match(r'@k_(\d+) = .*constant i64 (-?\d+|zeroinitializer)', l)
        if m: vals[keys[int(m.group(1))]] = 0 if m.group(2)[0] == 'z' else int(m.group(2))
    for k in keys:
        if k not in vals: raise BuildError('%s is not a constant' % names[k])
    return vals
