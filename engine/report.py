"""Turn the outcome of a check into the exit status, the lines on stdout, the replay file and the evidence."""
import json, os, re, collections

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ['the translation of the source to LLVM IR by clang and to its sroa/simplifycfg form by opt', 'the models of kernel and standard library calls (engine/models.py, engine/world.py)',
           'the abstract interpreter (engine/core.py)']


class Result:
    """violations: dicts(rule, site, msg, ...); obligations: [(rule, site, n)]; undecided: [(rule, site, why)]; errors: [text]"""
    def __init__(self):
        self.violations, self.obligations, self.undecided, self.errors = [], [], [], []
        self.cover = {}
        self.rule = ''


def findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        l = l.strip()
        if not l.startswith('finding:'): continue
        kv, _, text = l[8:].partition('|')
        d = dict(x.split('=', 1) for x in re.findall(r'(?:[\w]+=(?:"[^"]*"|\S+))', kv))
        d = {k: v.strip('"') for k, v in d.items()}
        d['text'] = text.strip()
        out.append(d)
    return out


def known(pid, v):
    for f in findings():
        if f.get('property') != pid or f.get('rule') != v['rule']: continue
        if 'universe' in f and f['universe'] != v.get('universe'): continue
        if 'in' in f and f['in'] not in v.get('site', '') + ' ' + ' '.join(v.get('path') or []): continue
        return f
    return None


def write(pid, tier, r, wall):
    os.makedirs(os.path.join(HERE, 'build', 'replay'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    new, old = [], []
    for v in r.violations:
        f = known(pid, v)
        (old if f else new).append((v, f))
    seen = set()
    for v, f in old:
        if f['text'] not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
        seen.add(f['text'])
    obl = collections.Counter()
    for rule, site, n in r.obligations: obl[rule] += n
    sites = {(rule, site) for rule, site, n in r.obligations}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(wall, 2))
    cov = dict(explanation=r.rule, rules={k: n for k, n in sorted(obl.items())}, obligations=sum(obl.values()), places=len(sites),
               violations=len(new), known_findings=len(seen), undecided=[' | '.join(map(str, u)) for u in r.undecided][:60], undecided_count=len(r.undecided))
    cov['place_list'] = sorted('%s: %s' % x for x in sites)[:200]
    cov.update(r.cover)
    if r.errors: cov['errors'] = r.errors
    ev['coverage'] = cov
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if new:
        rp = os.path.join(HERE, 'build', 'replay', pid + '.json')
        json.dump([v for v, _ in new], open(rp, 'w'), indent=1, default=str)
        shown = set()
        for v, _ in new:
            k = (v['rule'], v.get('site'), v['msg'])
            if k in shown: continue
            shown.add(k)
            print('%s: %s' % (v.get('site') or '-', v['msg']) + (' [%s, %s]' % (v['tree'], v['universe']) if 'universe' in v else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if r.errors:
        for e in r.errors: print('ERROR: ' + e)
        return 2
    print('ok: %s: %d obligations at %d places%s' % (pid, sum(obl.values()), len(sites), ', %d undecided' % len(r.undecided) if r.undecided else ''))
    return 0
