#!/usr/bin/env python3
"""seed.py SPEC.json [id...] : build /verif/seeded/<id>/ from specs {id, property, file, old, new, n, needs, breaks, demo, extra}
and confirm each in a scratch copy: builds, passes the stable tests, demo passes without and fails with."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = V + '/tools/seedlib'
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    specs = json.load(open(sys.argv[1]))
    want = sys.argv[2:]
    for s in specs:
        if want and s['id'] not in want:
            continue
        d = V + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(L + '/fix.h', d)
        open(d + '/demo.c', 'w').write('#include "fix.h"\n' + (s['demo'] if isinstance(s['demo'], str) else '\n'.join(s['demo'])) + '\n')
        open(d + '/demo.sh', 'w').write(s.get('script') or open(L + '/demo.sh').read().replace('EXTRA', s.get('extra', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        t = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        w = t + '/repo'
        try:
            sh('git clone -q /repo %s' % w)
            r0 = sh('bash %s/demo.sh' % d, cwd=w)
            for e in s.get('edits') or [s]:
                p = w + '/' + e['file']
                x = open(p).read()
                k = e.get('n', 0)
                pos = -1
                for _ in range(k + 1):
                    pos = x.find(e['old'], pos + 1)
                assert pos >= 0, (s['id'], 'no match')
                x = x[:pos] + e['new'] + x[pos + len(e['old']):]
                open(p, 'w').write(x)
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=w).stdout)
            r1 = sh('bash %s/demo.sh' % d, cwd=w)
            print(s['id'], 'demo unpatched', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-200:] if r0.returncode else '', (r1.stdout + r1.stderr)[-120:].replace('\n', ' '), flush=True)
        finally:
            shutil.rmtree(t)
        # tests, in /repo itself (git apply, undo)
        if os.environ.get('NOTEST'):
            continue
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            b = sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/seed-out.json')
            o = json.load(open('/tmp/seed-out.json'))
            print('   build', b.returncode, 'passed', len(o['passed']), flush=True)
            for pid in [s['property']]:
                r = sh('python3 run.py ' + pid, cwd=V, env=dict(os.environ, VERIF_EVIDENCE='/tmp/seed-ev'))
                print('   check', pid, r.returncode, r.stdout.strip().split('\n')[0][:200], flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')


main()
