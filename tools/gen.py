#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from checks/meta.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import meta
import checks
with open(V + '/properties.jsonl', 'w') as f:
    for pid in sorted(meta.P):
        p = meta.P[pid]
        d = {'id': pid, 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': [x if '/' in x else meta.SRC + x for x in p['files']],
                         'mechanism': [{'name': n, 'where': w if '/' in w else meta.SRC + w} for n, w in p['mech']],
                         'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(d['title']) <= 80, (pid, len(d['title']))
        f.write(json.dumps(d) + '\n')
cs = []
na = []
for pid in sorted(meta.P):
    p = meta.P[pid]
    if p.get('na'):
        na.append({'property': pid, 'reason': p['na']})
        continue
    assert pid in checks.CHECKS, pid
    cs.append({'property': pid, 'quick_cmd': 'python3 run.py %s quick' % pid, 'thorough_cmd': 'python3 run.py %s thorough' % pid,
               'evidence_file': 'evidence/%s.json' % pid, 'technique': p['technique'], 'level': 'other',
               'level_note': p.get('note') or 'Static: every obligation listed in the evidence is decided for all inputs from the IR of the current tree; what the abstract domain cannot decide is listed as undecided, not as held. Assumes: ' + '; '.join(meta.COMMON[:3]) + '.'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q engine checks run.py', 'checks': cs, 'not_applicable': na,
           'notes': 'Static analysis only; see DESIGN.md. No hooks in /repo.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(cs), 'claimed', len(na), 'n/a')
