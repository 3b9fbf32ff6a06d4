"""mutbatch.py FILE: runs a list of mutations, each a tuple (monitors, universes, file suffix, [old, new]…), in parallel, and prints what the monitors say of each"""
import sys, subprocess, concurrent.futures as cf, runpy
ms = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2:]
def go(a):
    n, (c, u, f, *subs) = a
    r = subprocess.run(['python3', '/verif/tools/mut.py', c, u, f] + list(subs), capture_output=True, text=True)
    return n, r.stdout + r.stderr[-600:]
with cf.ThreadPoolExecutor(6) as ex:
    for n, o in ex.map(go, [(n, m) for n, m in ms.items() if not only or n in only]): print('=====', n); print(o[:1500])
