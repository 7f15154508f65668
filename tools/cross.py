#!/usr/bin/env python3
"""cross.py [substr] : run every behaviour-preserving edit of tools/mutants through every check its file concerns."""
import sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools'); sys.path.insert(0, V)
import mut, checks
from concurrent.futures import ThreadPoolExecutor
REL = {'oimerge.c': 'C11 C13 C15 C19', 'oifilter.c': 'C01 C02 C03 C11 C15 C19 C20', 'oicheck.c': 'C12 C11 C15 C19', 'oiiter.c': 'C14 C11 C15 C19',
       'read_fits.c': 'C04 C05 C06 C07 C10 C11 C15 C19', 'write_fits.c': 'C04 C05 C06 C07 C10 C11 C15 C19', 'chkmalloc.c': 'C19 C15', 'oifits-': 'C17 C19 C15'}
allp = sorted(checks.CHECKS)
ms = []
for f in sorted(glob.glob(V + '/tools/mutants/*')):
    if f.endswith('.json'):
        M = json.load(open(f))
    elif f.endswith('.py'):
        g = {}
        exec(open(f).read(), g)
        M = g['M']
    else:
        continue
    for m in M:
        if m['expect'] == []:
            m = dict(m)
            m['name'] = os.path.basename(f) + ': ' + m['name']
            own = set(m.get('run') or [])
            fs = {e['file'] for e in (m.get('edits') or [m])}
            want = set()
            for x in fs:
                k = [r for r in REL if r in x]
                want |= set(REL[k[0]].split()) if k else set(allp)
            m['run'] = sorted(want)
            if len(sys.argv) < 2 or sys.argv[1] in m['name']:
                ms.append(m)
bad = 0
print(len(ms), 'edits', flush=True)
with ThreadPoolExecutor(int(os.environ.get('W', '7'))) as ex:
    for m, res, text in ex.map(mut.one, ms):
        if res == 'NOMATCH':
            print('NOMATCH', m['name'], flush=True)
            continue
        b = {k: v for k, v in res.items() if v}
        if b:
            bad += 1
            print('FALSE-ALARM', m['name'], b, flush=True)
            print(text, flush=True)
print('done', bad, 'wrong')
