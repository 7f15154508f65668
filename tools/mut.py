#!/usr/bin/env python3
"""Self-test of the checkers on scratch copies: apply textual edits to a copy of
/repo/src and run the given checks on it (never touches /repo).
  mut.py FILE.json [name-substring]
FILE.json: [{"name","file","old","new","n"(occurrence,optional),"expect":[pids] or [] for behaviour-preserving}]"""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
allp = None


def one(m):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree(REPO + '/src', d + '/src')
        edits = m.get('edits') or [m]
        for e in edits:
            p = d + '/' + e['file']
            s = open(p).read()
            k = e.get('n', 0)
            if k == 'all':
                if e['old'] not in s:
                    return m, 'NOMATCH', ''
                s = s.replace(e['old'], e['new'])
            else:
                pos = -1
                for _ in range(k + 1):
                    pos = s.find(e['old'], pos + 1)
                if pos < 0:
                    return m, 'NOMATCH', ''
                s = s[:pos] + e['new'] + s[pos + len(e['old']):]
            open(p, 'w').write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev')
        res = {}
        text = ''
        for pid in m.get('run') or m['expect'] or allp:
            r = subprocess.run([sys.executable, V + '/run.py', pid], env=env, capture_output=True, text=True)
            res[pid] = r.returncode
            if r.returncode == 1 or r.returncode == 2:
                text += r.stdout[:600] + r.stderr[-600:]
        return m, res, text
    finally:
        shutil.rmtree(d)


def main():
    global allp
    if sys.argv[1].endswith('.py'):
        g = {}
        exec(open(sys.argv[1]).read(), g)
        ms = g['M']
    else:
        ms = json.load(open(sys.argv[1]))
    if len(sys.argv) > 2:
        ms = [m for m in ms if sys.argv[2] in m['name']]
    sys.path.insert(0, V)
    import checks
    allp = sorted(checks.CHECKS)
    miss = 0
    with ThreadPoolExecutor(7) as ex:
        for m, res, text in ex.map(one, ms):
            if res == 'NOMATCH':
                print('NOMATCH', m['name']); miss += 1
                continue
            ok = all(v == 0 for v in res.values()) if not m['expect'] else any(res.get(p) == 1 for p in m['expect'])
            if not ok:
                miss += 1
            print('%-4s %-60s %s' % ('ok' if ok else 'MISS' if m['expect'] else 'FALSE-ALARM', m['name'], {k: v for k, v in res.items() if v}))
            if not ok and not m['expect']:
                print(text)
            if os.environ.get('V'):
                print(text)
    print('%d mutants, %d wrong' % (len(ms), miss))


if __name__ == '__main__':
    main()
