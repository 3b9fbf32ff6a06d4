"""Fills in the table of DESIGN.md (between the markers) from seeded/ and the registry."""
import json, os, re, glob
SEC = {'C01':18,'C02':32,'C03':17,'C04':41,'C05':28,'C06':15,'C07':14,'C08':16,'C09':17,'C10':18,'C11':73,'C12':58,'C13':129,'C14':22,'C15':36,'C16':5,'C17':21,'C18':4,'C19':4,'C20':4,'C21':4,'C22':5,'C23':0.4,'C24':1,'C25':0.5,'C26':5,'C27':9,'C28':17,'C29':16,'C30':15}
HOW = {'C16':'1.2, 1.3','C17':'1.2, 1.3','C18':'1.2','C19':'1.2','C20':'1.2','C21':'1.2','C22':'1.2, 1.3','C23':'1.3','C24':'1.2, 1.3','C25':'1.3','C26':'1.4','C27':'1.2'}
by = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    by.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
import sys
sys.path.insert(0, '/verif/engine')
import registry
rows = ['| id | engine | s | planted bugs it catches |', '|---|---|---|---|']
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    if p in registry.SESSION or p in registry.OTHER:
        rows.append('| %s | %s | %s | %s |' % (p, HOW.get(p, '1.1'), SEC.get(p, ''), ', '.join(by.get(p, []))))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'\| id \|.*?(?=\n\n)', lambda m: '\n'.join(rows), s, count=1, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
