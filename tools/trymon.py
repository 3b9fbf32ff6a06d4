import sys,importlib; sys.path.insert(0,'/verif/engine')
import session, build
mod,cls=sys.argv[1].split('.')
K=getattr(importlib.import_module(mod),cls)
trees=sys.argv[2].split(',') if len(sys.argv)>2 else ('devel','include')
unis=sys.argv[3].split(',') if len(sys.argv)>3 else ('inotify','fanotify')
for r in session.analyse(K,trees,unis):
    if 'fatal' in r: print(r['tree'],r['universe'],r['fatal'][-700:]); continue
    print('==',r['tree'],r['universe'],'viol',len(r['violations']),'obl',sum(n for _,_,n in r['obligations']),'steps',r['steps'],'wall',r['wall'],r['phases'],r['error'] or '',r['unmodelled'] or '')
    for v in r['violations']:
        print('  V',v['rule'],v['site'],v['msg']); 
        if '-t' in sys.argv:
            for t in v['trace']: print('       ',t)
            print('       path',v['path'])
    for u in r['undecided']: print('  U',u)
    if '-o' in sys.argv:
        for o in r['obligations']: print('  O',o)
