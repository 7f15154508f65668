#!/usr/bin/env python3
"""run.py <property-id> [quick|thorough]  -- decide one property on /repo's current tree.

exit 0  property held on everything analysed (known findings are printed)
exit 1  VIOLATION line(s)
exit 2  the analysis could not be carried out (anchor gone, rule matched nothing)
"""
import sys, os, json, time, traceback, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine.lib import Ctx, Broken, guarded
from engine.prog import BuildError
import checks

VERIF = os.path.dirname(os.path.abspath(__file__))
EVD = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                # known: property=<id> obligation=<oid> :: <what fails>
                head, _, what = l.partition('::')
                d = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                out.append((d.get('property'), d.get('obligation'), what.strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    meta = checks.CHECKS[pid]
    ctx = Ctx(pid, tier)
    broken = None
    try:
        for fn in meta['rules']:
            guarded(fn)(ctx)
        n = len(ctx.ok) + len(ctx.violations)
        if n < meta['floor']:
            raise Broken('only %d obligations decided (floor %d): %s' % (n, meta['floor'], ctx.undecided[:6]))
    except (Broken, BuildError) as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = load_known()
    real = []
    for v in ctx.violations:
        k = [w for (p, o, w) in known if p == pid and o == v['obligation']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
        else:
            real.append(v)
    wall = time.time() - ctx.t0
    cov = {'explanation': meta['explanation'],
           'rule': meta.get('rule', ''),
           'obligations_decided_ok': len(ctx.ok),
           'obligations_violated': len(ctx.violations),
           'obligations_undecided': len(ctx.undecided),
           'undecided': ctx.undecided[:40],
           'samples': sorted(set(ctx.ok))[:400] if tier == 'thorough' else sorted(set(ctx.ok))[:60]}
    cov.update(ctx.counts)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + ctx.assumptions, 'wall_s': round(wall, 3),
          'violations': len(real)}
    if broken:
        ev['coverage']['analysis_error'] = broken[-2000:]
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if real:
        rp = os.path.join(EVD, pid + '.report.txt')
        with open(rp, 'w') as f:
            for v in real:
                f.write('%s: %s\n    rule instance: %s\n' % (v['where'], v['message'], v['obligation']))
        for v in real:
            print('%s: %s [%s]' % (v['where'], v['message'], v['obligation']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        print('analysis broken: ' + broken, file=sys.stderr)
        return 2
    print('%s: %d obligations hold, %d undecided, %.1f s' % (pid, len(ctx.ok), len(ctx.undecided), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
