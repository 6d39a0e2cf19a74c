"""python3-vt tools/one.py ID [substring]: run matching contracts here."""
import importlib
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import spec
m = importlib.import_module('checks.' + sys.argv[1])
sub = sys.argv[2] if len(sys.argv) > 2 else ''
for c in m.contracts():
    if sub in c.label:
        t = time.time()
        E = spec.verify(c, repo=os.environ.get('PV_REPO', '/repo'))
        print('%-60s gen %d dis %d paths %d %s %.1fs' % (
            c.label, E.stats.generated, E.stats.discharged, E.stats.paths,
            dict(E.stats.by), time.time() - t))
        for f in E.failures[:int(os.environ.get('NF', '3'))]:
            d = f.as_dict()
            print('   FAIL', d['obligation'], d['outcome'], str(d['detail'])[:700])
            print('     model', d['model'])
            for p in d['path'] or []:
                print('      ', str(p)[:300])
