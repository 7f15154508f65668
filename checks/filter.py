"""Filter rules: which records / channels / values the filter functions let through.

Every rule runs the conditional flow analysis of a public filter function (all
callees inlined) under an ordering assumption -- "every record's MJD is below
the range", "equal to the lower limit", ... -- and looks at what the output
table then holds.  The filter touches its numeric criteria only through
comparisons, so the finite set of orderings is exhaustive for each criterion."""
from engine.lib import *

R0 = {'none': (('<', '=', '>'), ('<', '=', '>'))}
R = {'below': ('<', '<'), 'at-low': ('=', '<'), 'inside': ('>', '<'), 'at-high': ('>', '='), 'above': ('>', '>')}
OUT = {'below', 'above'}

KIND = {
    'vis': dict(rec='oi_vis_record', wave=2, use=3, out=4,
                bas={'uv': P2(('ucoord',), ('vcoord',))},
                snr={'amp': ('visamp', 'visamperr'), 'phi': (None, 'visphierr')},
                chan=['visamp', 'visamperr', 'visphi', 'visphierr', 'rvis', 'rviserr', 'ivis', 'iviserr'], sq=['visrefmap']),
    'vis2': dict(rec='oi_vis2_record', wave=2, use=3, out=4,
                 bas={'uv': P2(('ucoord',), ('vcoord',))},
                 snr={'data': ('vis2data', 'vis2err')}, chan=['vis2data', 'vis2err'], sq=[]),
    't3': dict(rec='oi_t3_record', wave=2, use=3, out=4,
               bas={'ab': P2(('u1coord',), ('v1coord',)), 'bc': P2(('u2coord',), ('v2coord',)),
                    'ac': P2(('u1coord', 'u2coord'), ('v1coord', 'v2coord'))},
               snr={'amp': ('t3amp', 't3amperr'), 'phi': (None, 't3phierr')},
               chan=['t3amp', 't3amperr', 't3phi', 't3phierr'], sq=[]),
    'flux': dict(rec='oi_flux_record', wave=None, use=2, out=3, bas={}, snr={'data': ('fluxdata', 'fluxerr')},
                 chan=['fluxdata', 'fluxerr'], sq=[]),
    'inspol': dict(rec='oi_inspol_record', wave=None, use=None, out=3, bas={}, snr={},
                   chan=['jxx', 'jyy', 'jxy', 'jyx'], sq=[]),
}
COORDS = {'ucoord', 'vcoord', 'u1coord', 'v1coord', 'u2coord', 'v2coord'}
RANGES = {'mjd_range', 'bas_range', 'uvrad_range', 'snr_range', 'wave_range'}


def peq(a, b):
    return a is not None and set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in b)


def masked(t):
    """term without element positions (they settle only during the analysis)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'gep':
        st = tuple(x for x in t[2] if x[0] != '[')
        return ('gep', masked(t[1]), st) if st else masked(t[1])
    if t[0] == 'liter':
        return masked(t[1])
    return tuple(masked(x) if isinstance(x, tuple) else x for x in t)


ABS = ('fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32')


class FO(Oracle):
    """orderings of one table kind's criteria"""

    def __init__(self, kind, **A):
        self.k = KIND[kind]
        self.kind = kind
        self.A = dict(mjd='inside', bas={}, uvrad={}, snr={}, flag=0, use=1, pwave='nz', ftarget=-1, rtarget=7,
                      accept_flagged=1, accept_t3amp=1, accept_t3phi=1, usevisrefmap=None, usecomplex=None,
                      pttn='nz', match=1, mjd_obs='inside', mjd_end='inside')
        self.A.update(A)
        self.foreign = {}
        self.forced = {}

    def begin(self):
        self.foreign.clear()

    def other(self, t):
        """t is a member of a neighbour of the current record"""
        x = rec_idx(t[1])
        if x is None or x[0] == 'c':
            return False
        c, ts = tolin(strip_ep(x))
        return c != 0 and len(ts) == 1 and next(iter(ts))[0] == 'iter' and list(ts.values()) == [1]

    def leaf(self, t):
        f = load_field(t)
        if f and f[0] == self.k['rec'] and f[1] in COORDS:
            return f[1]
        return None

    def infield(self, t):
        """scalar field of an input record"""
        f = load_field(t)
        if f and f[0] == self.k['rec'] and region(t[1]) is not None and region(t[1])[0] == 'arg' and region(t[1])[1] == 0:
            return f[1]
        return None

    def inelem(self, t):
        f = elem_field(t)
        if f and f[0] == self.k['rec'] and region(t[1]) is not None and region(t[1])[0] == 'arg' and region(t[1])[1] == 0:
            return f[1]
        return None

    def effwave(self, t):
        return elem_field(t) == ('oi_wavelength', 'eff_wave')

    def rangeof(self, t):
        f = load_field(t)
        if f and f[0] == 'oi_filter_spec' and f[1] in RANGES:
            return f[1], const_index(t)
        return None

    def quantity(self, t):
        """(criterion, sub) of a canonical measured quantity"""
        f = self.infield(t)
        if f in ('mjd', 'mjd_obs', 'mjd_end'):
            return (f, 'other' if self.other(t) else None)
        if t[0] == 'op' and t[1] == 'float' and self.infield(t[2]):
            return (self.infield(t[2]), 'float')
        if t[0] == 'op' and t[1] in ('toint', 'tosint', 'touint'):
            q = self.quantity(t[2])
            return q and (q[0], None if q[0] in ('bas', 'uvrad', 'snr') else 'float')
        if t[0] == 'app' and t[1] in ABS and t[2]:
            q = self.quantity(t[2][0])
            if q and q[0] == 'snr':
                return ('snr', None)
        p = sqrt_arg(t, self.leaf)
        if p is not None:
            for n, q in self.k['bas'].items():
                if peq(p, q):
                    return ('bas', n)
            return ('bas', None)
        if t[0] == 'op' and t[1] == 'fdiv':
            f = elem_field(t[3])
            if f and f[0] == 'oi_wavelength' and f[1] != 'eff_wave':
                return ('uvrad', None) if poly(t[2], self.leaf) or self.quantity(t[2]) else None
            if self.effwave(t[3]):
                q = self.quantity(t[2])
                if q and q[0] == 'bas':
                    return ('uvrad', q[1])
                if q is None and poly(t[2], self.leaf):
                    return ('uvrad', None)
            d = self.inelem(t[3])
            if d is not None:
                n = self.inelem(t[2])
                if n is None and t[2][0] == 'app' and t[2][1] in ('fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32') and self.inelem(t[2][2][0]):
                    return ('snr', None)
                if n is None and t[2][0] == 'cf':
                    if abs(t[2][1] - 57.29578) > 0.5:
                        return ('snr', None)
                elif n is None:
                    return None
                elif elem_index(t[2]) != elem_index(t[3]):
                    return ('snr', None)
                for nm, (a, b) in self.k['snr'].items():
                    if (a, b) == (n, d):
                        return ('snr', nm)
                return ('snr', None)
        return None

    def val(self, t):
        f = load_field(t)
        A = self.A
        if self.forced:
            k = masked(strip_ep(t))
            if k in self.forced:
                return self.forced[k]
        if f and f[0] == 'oi_filter_spec':
            if f[1] == 'target_id':
                return A['ftarget']
            if f[1] in ('accept_flagged', 'accept_t3amp', 'accept_t3phi'):
                return A[f[1]]
            if f[1] == 'insname_pttn':
                return A['pttn']
        if f and f[1] in ('usevisrefmap', 'usecomplex') and region(t[1]) and region(t[1])[0] == 'arg' and region(t[1])[1] == 0:
            return A[f[1]]
        if self.infield(t) == 'target_id' and not self.other(t):
            return A['rtarget']
        if self.inelem(t) == 'flag':
            return A['flag']
        if t[0] == 'arg' and t[1] == self.k['wave']:
            return A['pwave']
        if t[0] == 'ld' and all(x[0] == '[' for x in steps_of(t[1])):
            b = base_of(t[1])
            if b[0] == 'arg' and b[1] == self.k['use']:
                return A['use']
            if self.k['use'] is None and b[0] == 'app' and b[1] == 'g_hash_table_lookup':
                return A['use']
        if t[0] == 'app' and t[1] == 'g_hash_table_lookup' and self.kind == 'inspol':
            return A.get('useptr', 'nz') if self.own_insname(t[2][1], 'the channel selection is looked up by') else None
        if t[0] == 'app' and t[1] == 'g_pattern_match_string':
            return A['match'] if self.own_insname(t[2][1], 'the pattern is matched against') else None
        if t[0] == 'arg' and t[1] != self.k['wave']:
            return 'nz'
        return None

    def own_insname(self, a, what):
        f = last_field(a)
        if f == ('oi_inspol_record', 'insname') and not self.other(('ld', a)):
            return True
        if f and f[0] != 'oi_inspol_record' and region(a) is not None and region(a)[0] == 'arg':
            self.foreign[(('str', what), ('ld', a))] = 1
            return False
        return f != ('oi_inspol_record', 'insname')

    def rel(self, a, b):
        if a == C(0):
            f = load_field(b)
            if f and f[1] in ('nwave', 'numrec'):
                return '<'
        if self.A.get('kcount') and b[0] in ('ld', 'mphi') and last_field(b[1] if b[0] == 'ld' else b[2]) == ('oi_inspol', 'nwave') and a[0] == 'phi':
            return self.A['kcount']
        r = self.rangeof(b)
        if r is None:
            return None
        q = self.quantity(a)
        A = self.A
        if q is not None and q[1] not in ('other', 'float'):
            k, sub = q
            if k == 'mjd' and r[0] == 'mjd_range' and self.kind != 'inspol':
                return dict(R, **R0)[A['mjd']][r[1]]
            if self.kind == 'inspol' and r[0] == 'mjd_range' and k in ('mjd_obs', 'mjd_end'):
                v = A[k]
                return dict(R, **R0)[v][r[1]]
            if k in ('bas', 'uvrad', 'snr') and r[0] == k + '_range' and sub is not None and sub != 'float':
                v = A[k].get(sub, 'inside')
                return R[v][r[1]] if v else None
        if r[0] in ('mjd_range', 'bas_range', 'uvrad_range') and any(x[:2] == ('op', 'float') and self.infield(x[2]) for x in subterms(a)):
            self.foreign[(a, b)] = 1
        if q is not None or (self.infield(a) or self.inelem(a)) or (poly(a, self.leaf) is not None and a[0] not in ('c', 'cf')):
            self.foreign[(a, b)] = 1
        return None


def simple_foreign(o, c):
    """undecided condition comparing one scalar record field with a constant or a filter member"""
    if c is None or c[0] != 'cmp':
        return False
    x, y = c[2], c[3]
    if o.rangeof(x):
        x, y = y, x
    for a, b in ((x, y), (y, x)):
        if (o.infield(a) or o.inelem(a)) and (b[0] in ('c', 'cf') or (load_field(b) or ('', ''))[0] == 'oi_filter_spec' or o.infield(b)):
            return True
    return False


def plain_cond(o, c):
    """a test of input attributes that involves no range of the filter (and is no NaN test)"""
    if c is None or not transparent(c):
        return False
    if c[0] == 'cmp' and any(x[0] == 'iter' for x in c[2:4]):
        return False
    for x in subterms(c):
        f = load_field(x)
        if f and (f[0] == 'oi_filter_spec' or f[1] in RANGES):
            return False
        if x[0] == 'cmp' and (x[2] == x[3] or x[1] in ('uno', 'ord')):
            return False
    return any(load_field(x) for x in subterms(c))


def judge(ctx, oid, fa, vals, ok, msg, o, inst=None, again=None):
    if vals and all(ok(v) for v in vals):
        ctx.good(oid)
        return True
    if not vals and not any(True for _ in rets(fa)):
        ctx.bad(oid, msg + ': the call cannot return (it aborts)', inst or fa.F.blocks[fa.F.entry].term)
        return False
    conds = open_conds(fa)
    fc = [c for n, c in conds if simple_foreign(o, c)]
    if o.foreign:
        a, b = next(iter(o.foreign))
        ctx.bad(oid, '%s: acceptance depends on comparing %s with %s' % (msg, show(a), show(b)), inst)
        return False
    if vals and all(definite(fa, v) for v in vals):
        ctx.bad(oid, '%s: got %s' % (msg, ', '.join(show(v) for v in vals)), inst)
        return False
    if fc:
        ctx.bad(oid, '%s: outcome depends on %s' % (msg, show(fc[0])), inst)
        return False
    if again:
        for n, c in conds:
            c = c and strip_ep(c)
            if not plain_cond(o, c):
                continue
            got = {}
            for k in (1, 0):
                f2, v2 = again({c: k})
                got[k] = True if v2 and all(ok(v) for v in v2) else False if v2 and all(definite(f2, v) for v in v2) else None
            if sorted(got.values(), key=repr) == [False, True]:
                ctx.bad(oid, '%s: outcome depends on %s' % (msg, show(c)), fa.F.blocks[n].term)
                return False
    ctx.maybe(oid, 'value %s; open conditions %s' % ([show(v)[:80] for v in vals], [show(c)[:80] for n, c in conds[:4]]))
    return None


def definite(fa, v):
    return v[0] in ('c', 'cf', 'nan', 'iter', 'null') or (transparent(v) and v[0] in ('ld', 'lin'))


def table_end(ctx, kind, forced=None, **A):
    o = FO(kind, **A)
    o.forced = {masked(strip_ep(k)): v for k, v in (forced or {}).items()}
    fa = ctx.fa('filter_oi_' + kind, o)
    out = arg_of(fa, KIND[kind]['out'])
    return o, fa, out


@guarded
def run_case(ctx, kind, name, expect, **A):
    """expect: 'keep' (every record is in the output) or 'drop' (none is)"""
    o, fa, out = table_end(ctx, kind, **A)
    oid = 'filter_oi_%s/%s/%s' % (kind, name, expect)
    vals = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_' + kind, 'numrec'))]
    inn = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'numrec'))
    if expect == 'keep':
        ok = lambda v: v[0] == 'iter' or v == inn
        msg = 'a record satisfying every criterion (%s) is dropped by filter_oi_%s' % (name, kind)
    else:
        ok = lambda v: v == C(0)
        msg = 'a record that must be rejected (%s) is kept by filter_oi_%s' % (name, kind)
    def again(forced):
        o2, f2, out2 = table_end(ctx, kind, forced=forced, **A)
        return f2, [strip_ep(v) for v in final_mem(f2, fld(out2, 'oi_' + kind, 'numrec'))]
    r = judge(ctx, oid, fa, vals, ok, msg, o, anchor(fa), again)
    # scanning must go on after a rejected (or accepted) record
    if r:
        scan_all(ctx, kind, name, fa, o)
    return o, fa, out, r


def anchor(fa):
    for b in rets(fa):
        return b.term
    return None


def rec_loops(fa, o):
    """loops whose counter indexes the input record array"""
    hs = set()
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for i in b.insts:
            if i.op == 'load' and id(i) in fa.args:
                a = fa.args[id(i)][0]
                if last_field(a) and last_field(a)[0] == o.k['rec'] and region(a) and region(a)[0] == 'arg' and region(a)[1] == 0:
                    for st in steps_of(a):
                        if st[0] == '[':
                            hs |= iters_in(st[1])
    return hs


def base_loops(ctx, kind):
    c = ctx.__dict__.setdefault('_rl', {})
    if kind not in c:
        o, fa, out = table_end(ctx, kind)
        c[kind] = rec_loops(fa, o)
    return c[kind]


@guarded
def scan_all(ctx, kind, name, fa, o):
    for h in sorted(base_loops(ctx, kind)):
        if h not in fa.reach:
            continue
        oid = 'filter_oi_%s/%s/scan-%s' % (kind, name, 'all')
        ex = loop_exits(fa, h)
        early = [(n, c) for n, c, cnt in ex if not cnt]
        bad = None
        if not latch_reached(fa, h):
            bad = 'the record loop never goes on to the next record'
            n = h
        else:
            for n, c in early:
                if c is None or c[0] == 'c' or transparent(c):
                    bad = 'the record loop can be left before the last record'
                    break
        if bad:
            if not early or all(c is None or c[0] == 'c' or transparent(c) for _, c in early):
                ctx.bad(oid, '%s (%s) in filter_oi_%s' % (bad, name, kind), fa.F.blocks[n].term)
                return
            ctx.maybe(oid, 'opaque loop exit')
            return
        if early:
            ctx.maybe(oid, 'opaque loop exit')
            return
        # the loop visits every record
        cnts = count_of(fa, h)
        n_in = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'numrec'))
        if cnts and all(c is not None and transparent(c) for c in cnts):
            if n_in not in cnts:
                ctx.bad(oid, 'the record loop of filter_oi_%s runs %s times, not once per input record' % (kind, show(cnts[0])),
                        fa.F.blocks[h].term)
                return
        else:
            ctx.maybe(oid, 'loop bound not recognised')
            return
        ctx.good(oid)


# ---------------------------------------------------------------- C01 record selection
def records(ctx):
    for kind in KIND:
        own_record(ctx, kind)
    for kind in ('vis', 'vis2', 't3', 'flux'):
        K = KIND[kind]
        has_flagged = kind != 'flux'
        for af in ((0, 1) if has_flagged else (1,)):
            t = 'accept_flagged=%d' % af
            for r in R:
                run_case(ctx, kind, 'MJD %s,%s' % (r, t), 'drop' if r in OUT else 'keep', mjd=r, accept_flagged=af)
                for b in K['bas']:
                    run_case(ctx, kind, 'baseline %s %s,%s' % (b, r, t), 'drop' if r in OUT else 'keep', bas={b: r}, accept_flagged=af)
                for b in K['bas']:
                    run_case(ctx, kind, 'UV radius %s %s,%s' % (b, r, t), 'drop' if r in OUT and not af else 'keep',
                             uvrad={b: r}, accept_flagged=af)
                for s in K['snr']:
                    run_case(ctx, kind, 'SNR %s %s,%s' % (s, r, t), 'drop' if r in OUT and not af else 'keep',
                             snr={s: r}, accept_flagged=af)
            run_case(ctx, kind, 'any target,%s' % t, 'keep', ftarget=-1, rtarget=3, accept_flagged=af)
            run_case(ctx, kind, 'any target (-5),%s' % t, 'keep', ftarget=-5, rtarget=3, accept_flagged=af)
            run_case(ctx, kind, 'target 0 selected and matching,%s' % t, 'keep', ftarget=0, rtarget=0, accept_flagged=af)
            run_case(ctx, kind, 'target 0 selected, other record,%s' % t, 'drop', ftarget=0, rtarget=3, accept_flagged=af)
            run_case(ctx, kind, 'target matching,%s' % t, 'keep', ftarget=3, rtarget=3, accept_flagged=af)
            run_case(ctx, kind, 'target higher,%s' % t, 'drop', ftarget=3, rtarget=4, accept_flagged=af)
            run_case(ctx, kind, 'target lower,%s' % t, 'drop', ftarget=3, rtarget=2, accept_flagged=af)
            if has_flagged:
                run_case(ctx, kind, 'all channels flagged,%s' % t, 'keep' if af else 'drop', flag=1, accept_flagged=af)
                run_case(ctx, kind, 'all channels flagged, no wavelength table,%s' % t, 'keep' if af else 'drop', flag=1, pwave=0, accept_flagged=af)
                for r in OUT:
                    for s_ in K['snr']:
                        run_case(ctx, kind, 'SNR %s %s, no wavelength table,%s' % (s_, r, t), 'keep' if af else 'drop', snr={s_: r}, pwave=0, accept_flagged=af)
                for r in OUT:
                    for b in K['bas']:
                        run_case(ctx, kind, 'wavelength table missing, UV radius ignored,%s' % t, 'keep', pwave=0, uvrad={b: r}, accept_flagged=af)
                if not af:
                    any_scan(ctx, kind)
                    any_count(ctx, kind)
        if kind == 't3':
            for r in OUT:
                run_case(ctx, kind, 'T3AMP not accepted: its SNR %s ignored' % r, 'keep', snr={'amp': r}, accept_flagged=0, accept_t3amp=0)
                run_case(ctx, kind, 'T3PHI not accepted: its SNR %s ignored' % r, 'keep', snr={'phi': r}, accept_flagged=0, accept_t3phi=0)
                run_case(ctx, kind, 'T3AMP not accepted: phase SNR %s' % r, 'drop', snr={'phi': r}, accept_flagged=0, accept_t3amp=0)
                run_case(ctx, kind, 'T3PHI not accepted: amp SNR %s' % r, 'drop', snr={'amp': r}, accept_flagged=0, accept_t3phi=0)
    kind = 'inspol'
    same_count(ctx)
    for m in ((0, 'nz') if True else ()):
        t = 'pattern' if m else 'no pattern'
        run_case(ctx, kind, 'any target,' + t, 'keep', pttn=m)
        run_case(ctx, kind, 'any target (-5),' + t, 'keep', pttn=m, ftarget=-5)
        run_case(ctx, kind, 'target matching,' + t, 'keep', ftarget=3, rtarget=3, pttn=m)
        run_case(ctx, kind, 'target 0 matching,' + t, 'keep', ftarget=0, rtarget=0, pttn=m)
        run_case(ctx, kind, 'target 0, other,' + t, 'drop', ftarget=0, rtarget=3, pttn=m)
        run_case(ctx, kind, 'target other,' + t, 'drop', ftarget=3, rtarget=4, pttn=m)
        for r1 in R:
            for r2 in R:
                # obs <= end
                order = list(R)
                if order.index(r1) > order.index(r2):
                    continue
                run_case(ctx, kind, 'MJD from %s to %s,%s' % (r1, r2, t), 'drop' if r2 == 'below' or r1 == 'above' else 'keep',
                         mjd_obs=r1, mjd_end=r2, pttn=m)
        run_case(ctx, kind, 'INSNAME not matching,' + t, 'drop' if m else 'keep', match=0, pttn=m)
        run_case(ctx, kind, 'INSNAME has no accepted channels,' + t, 'drop', useptr=0, pttn=m)


@guarded
def same_count(ctx):
    """a polarization record after the first kept one is kept when it has as many channels"""
    oid = 'filter_oi_inspol/channel count'
    o, fa, out = table_end(ctx, 'inspol', use=None)
    vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_inspol', 'numrec'))]
    if len(vs) != 1 or vs[0][0] != 'phi' or fa.F.defs[vs[0][1]].bb.name not in fa.F.loops:
        return ctx.maybe(oid, 'record counter not recognised')
    i = fa.F.defs[vs[0][1]]
    for rel, want in (('<', 1), ('=', 2), ('>', 1)):
        o = FO('inspol', use=None, kcount=rel)
        o.force = {vs[0][1]: 1}
        fb = ctx.fa('filter_oi_inspol', o)
        got = [fb.t(x) for p, x in zip(i.x['preds'], i.ops) if p in fb.F.loops[i.bb.name] and (p, i.bb.name) in fb.exec_edges]
        if got and all(v == C(want) for v in got):
            ctx.good(oid)
        elif got and all(v is not None and v[0] == 'c' for v in got):
            ctx.bad(oid, 'a record with %s channels than the first kept one is %s' % ({'<': 'fewer', '=': 'no more or fewer', '>': 'more'}[rel],
                    'dropped' if want == 2 else 'kept'), i)
        else:
            ctx.maybe(oid, 'value form %s' % [v and show(v) for v in got])


@guarded
def own_record(ctx, kind):
    """what happens to a record depends on no fixed record of the table"""
    o, fa, out = table_end(ctx, kind, rtarget=None, ftarget=None, accept_flagged=None, flag=None, use=None, mjd='none', mjd_obs='none', mjd_end='none')
    oid = 'filter_oi_%s/own record' % kind
    used = {}
    for b in fa.F.rpo:
        for i in b.insts + [b.term]:
            for x in i.ops:
                if x[0] == 'v':
                    used[x[1]] = i
    hit = None
    for h in base_loops(ctx, kind):
        for b in fa.F.rpo:
            if b.name not in fa.reach or b.name not in fa.F.loops[h]:
                continue
            for i in b.insts:
                a = None
                if i.op == 'load' and id(i) in fa.args:
                    a = fa.args[id(i)][0]
                elif i.op == 'call' and id(i) in fa.args and i.callee in ('g_hash_table_lookup', 'g_pattern_match_string', 'g_pattern_spec_match_string'):
                    a = fa.args[id(i)][1]
                if a is None or i.res not in used or region(a) is None or region(a)[0] != 'arg' or region(a)[1] != 0:
                    continue
                if last_field(a) and last_field(a)[0] == o.k['rec'] and (rec_idx(a) is None or rec_idx(a)[0] == 'c'):
                    hit = hit or (i, last_field(a)[1])
    for b, i0, h in any_loops(ctx, kind) if kind in ('vis', 'vis2', 't3') else ():
        for bn in fa.F.loops.get(h, ()):
            if bn in fa.reach:
                for i in fa.F.blocks[bn].insts:
                    if i.op == 'load' and id(i) in fa.args and i.res in used and i.ty != 'ptr':
                        t = ('ld', fa.args[id(i)][0])
                        f = elem_field(t)
                        if f and (f == ('oi_wavelength', 'eff_wave') or f[0] == o.k['rec']) and region(t[1]) is not None and region(t[1])[0] == 'arg' \
                                and elem_index(t)[0] == 'c':
                            ctx.bad('filter_oi_%s/own channel' % kind, 'every channel is judged by %s of one fixed channel' % f[1], i)
    ctx.expect(hit is None, oid, 'every record is judged by %s of one fixed record' % (hit and hit[1]), hit and hit[0])


@guarded
def any_scan(ctx, kind):
    """a record is kept if any of its channels is acceptable: after a bad channel the scan goes on"""
    for nm, A in (('flagged', dict(flag=1)), ('low SNR', dict(snr={next(iter(KIND[kind]['snr'])): 'below'})),
                  ('UV radius', dict(uvrad={next(iter(KIND[kind]['bas'])): 'above'})), ('channel not selected', dict(use=0))):
        o, fa, out = table_end(ctx, kind, accept_flagged=0, **A)
        oid = 'filter_oi_%s/any-channel/%s' % (kind, nm)
        st = None
        for b, i, h in any_loops(ctx, kind):
            if b in fa.reach and h in fa.reach and not latch_reached(fa, h) and b in fa.F.loops[h]:
                st = (i, h)
        if st:
            ctx.bad(oid, 'after one unacceptable channel (%s) the remaining channels of the record are not examined' % nm, st[0])
        else:
            ctx.good(oid)


@guarded
def any_count(ctx, kind):
    """the channels examined are all the channels of the record"""
    o, fa, out = table_end(ctx, kind, accept_flagged=0, flag=None, use=None)
    nw = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'nwave'))
    oid = 'filter_oi_%s/any-channel/all channels' % kind
    res = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_' + kind, 'nwave'))]
    for b, i, h in any_loops(ctx, kind):
        cs = count_of(fa, h)
        if nw in cs:
            ctx.good(oid)
        elif any(cs) and all(c is None or transparent(c) or c in res for c in cs):
            cs = [c for c in cs if c]
            ctx.bad(oid, 'the channels of a record are examined %s times, not once per input channel' % show(cs[0]), i)
        else:
            ctx.maybe(oid, 'count form')


def any_loops(ctx, kind):
    """[(block, load, header)]: loops over channels that read the input flags (found with nothing assumed about channels)"""
    c = ctx.__dict__.setdefault('_al', {})
    if kind in c:
        return c[kind]
    o, fa, out = table_end(ctx, kind, accept_flagged=0, flag=None, use=None)
    res = []
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for i in b.insts:
            if i.op == 'load' and id(i) in fa.args:
                a = fa.args[id(i)][0]
                bb = base_of(a)
                if ((bb[0] == 'ld' and last_field(bb[1]) == (o.k['rec'], 'flag')) or (bb[0] == 'arg' and bb[1] == o.k['use'])) \
                        and steps_of(a) and steps_of(a)[-1][0] == '[':
                    for h in iters_in(steps_of(a)[-1][1]):
                        if b.name in fa.F.loops.get(h, ()):
                            res.append((b.name, i, h))
    c[kind] = res
    return res


# ---------------------------------------------------------------- C02 content
def out_buffers(fa, kind, o):
    """{field: (buffer term, out record address)} from the state at the end of an accepted record"""
    res = {}
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for a, v in fa.out[b.name][0].items():
            f = last_field(a)
            if f and f[0] == o.k['rec'] and steps_of(a)[-1] == ('.', f[0], f[1]):
                r = base_of(a)
                if r[0] == 'call' or (r[0] == 'ld') or r[0] in ('phi', 'mphi'):
                    if region(a) is not None and region(a)[0] == 'arg' and region(a)[1] == 0:
                        continue
                    res.setdefault(f[1], set()).add((v, gep(base_of(a), steps_of(a)[:-1])))
    return res


def rec_idx(a):
    """record index in an input access path"""
    x = a
    while True:
        if x[0] == 'ld':
            x = x[1]
            continue
        if x[0] == 'gep':
            for k, st in enumerate(x[2]):
                if st[0] == '[' and k + 1 < len(x[2]) and x[2][k + 1][0] == '.':
                    return st[1]
            b = x[1]
            if b[0] == 'ld':
                x = b
                continue
        return None


def chan_values(fa, o, kind, field):
    """[(out index, value at end of the channel iteration, store inst, out record address)]"""
    bufs = out_buffers(fa, kind, o).get(field, set())
    out = []
    fresh = {}
    for v, ra in bufs:
        if v[0] == 'call' and v[1] in ALLOCS:
            fresh[v] = ra
    for i, (v, a) in fa.stores():
        b = base_of(a)
        part = steps_of(a)[1:] if steps_of(a) and steps_of(a)[0][0] == '[' else steps_of(a)
        if b in fresh and all(x[0] == '.' and x[1] == 'anon' for x in part):
            # value finally in this cell when the iteration ends
            idx = steps_of(a)[0][1] if steps_of(a) and steps_of(a)[0][0] == '[' else C(0)
            hs = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]
            if not hs:
                out.append((idx, v, i, fresh[b], None))
                continue
            h = min(hs, key=lambda x: len(fa.F.loops[x]))
            vs = []
            for l in latches(fa, h):
                w = fa.mem_load(fa.out[l], a, None)
                if w not in vs:
                    vs.append(w)
            v = vs[0] if len(vs) == 1 else v
            if part and v[0] == 'ld':
                if steps_of(v[1])[-len(part):] == part:
                    v = ('ld', gep(base_of(v[1]), steps_of(v[1])[:-len(part)]))
                else:
                    v = ('op', 'part', v)
            out.append((idx, v, i, fresh[b], h))
    return out, bool(fresh)


def i_in(fa, inst, h):
    return inst.bb.name in fa.F.loops[h]


def in_elem_is(o, v, field):
    return v[0] == 'ld' and o.inelem(v) == field


def content(ctx):
    for kind in KIND:
        content_kind(ctx, kind)
        content_cases(ctx, kind)
    wavelength(ctx)
    target_header(ctx)


def channel_data(ctx, kind, o, fa, tag, fields, stored=None):
    K = KIND[kind]
    ra = None
    for f in fields:
        if f == 'flag' and kind == 'inspol':
            continue
        oid = 'filter_oi_%s/data/%s/%s' % (kind, f, tag)
        vals, found = chan_values(fa, o, kind, f)
        if not found or not vals:
            if stored and f in stored and latch_reached_all(ctx, kind, fa):
                ctx.bad(oid, 'selected channels of the output %s are left unset (%s)' % (f, tag), stored[f])
            else:
                ctx.maybe(oid, 'no element stores into a fresh output buffer recognised')
            continue
        for idx, v, inst, raddr, h in vals:
            ra = ra or raddr
            if f == 'flag':
                continue
            v = strip_ep(v)
            if in_elem_is(o, v, f):
                if strip_ep(elem_index(v)) == strip_ep(idx) or f in K['sq']:
                    if f in K['sq']:
                        sq_index(ctx, oid, fa, o, kind, idx, elem_index(v), inst)
                    else:
                        ctx.good(oid)
                elif transparent(elem_index(v)) and transparent(idx):
                    ctx.bad(oid, 'output %s[%s] is taken from input channel %s (all channels selected)' % (f, show(idx), show(elem_index(v))), inst)
                else:
                    ctx.maybe(oid, 'index form')
            elif transparent(v) or v[0] in ('c', 'cf', 'nan') or v[:2] == ('op', 'part'):
                ctx.bad(oid, 'output %s holds %s instead of the input value' % (f, show(v)), inst)
            else:
                ctx.maybe(oid, 'value ' + show(v)[:100])
            # every channel is copied
            nw = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'nwave'))
            for h2 in chan_loops(fa, idx, elem_index(v) if v[0] == 'ld' else idx):
                cs = count_of(fa, h2)
                o2 = oid + '/every channel'
                if nw in cs:
                    ctx.good(o2)
                elif any(cs) and all(c is None or transparent(c) for c in cs):
                    ctx.bad(o2, 'the channel loop copying %s runs %s times, not once per input channel' % (f, show([c for c in cs if c][0])), inst)
                else:
                    ctx.maybe(o2, 'count form')
    return ra


def chan_loops(fa, idx, vin):
    return sorted((iters_in(idx) | iters_in(vin)) & set(fa.F.loops))


def latch_reached_all(ctx, kind, fa):
    return all(latch_reached(fa, h) for h in base_loops(ctx, kind) if h in fa.reach)


@guarded
def content_cases(ctx, kind):
    """values are carried over whatever the flags, the criteria the channel fails, and the optional columns present"""
    K = KIND[kind]
    o, fa, out = table_end(ctx, kind, usevisrefmap=1, usecomplex=1)
    stored = {}
    for f in K['chan'] + ['flag'] + K['sq']:
        for idx, v, inst, r, h in chan_values(fa, o, kind, f)[0]:
            if h is not None:
                stored[f] = inst
    cases = []
    if kind not in ('flux', 'inspol'):
        cases += [('flagged channel', dict(flag=1)), ('no wavelength table', dict(pwave=0))]
        cases += [('UV radius %s %s' % (b, r), dict(uvrad={b: r})) for b in K['bas'] for r in OUT]
    cases += [('SNR %s %s' % (n, r), dict(snr={n: r})) for n in K['snr'] for r in OUT]
    for nm, A in cases:
        o, fa, out = table_end(ctx, kind, usevisrefmap=1, usecomplex=1, **A)
        channel_data(ctx, kind, o, fa, nm, [f for f in K['chan'] + ['flag'] + K['sq'] if not (kind == 'flux' and f == 'fluxdata')], stored)
    if kind == 'vis':
        cx = ['rvis', 'rviserr', 'ivis', 'iviserr']
        for rm, cp, have, none in ((1, 0, K['sq'], cx), (0, 1, cx, K['sq'])):
            o, fa, out = table_end(ctx, kind, usevisrefmap=rm, usecomplex=cp)
            channel_data(ctx, kind, o, fa, 'VISREFMAP %s, complex %s' % (rm, cp), K['chan'][:4] + have, stored)
    # the record copied from is the record judged
    o, fa, out = table_end(ctx, kind, ftarget=3, rtarget=None, usevisrefmap=1, usecomplex=1)
    cnt = {strip_ep(v) for v in final_mem(fa, fld(out, 'oi_' + kind, 'numrec'))}
    cnt = {v for v in cnt if v[0] == 'phi'}
    hit = None
    for b in fa.F.rpo:
        if b.name in fa.reach:
            for i in b.insts:
                if i.op in ('load', 'call') and id(i) in fa.args:
                    for a in fa.args[id(i)][:1] if i.op == 'load' else fa.args[id(i)]:
                        if region(a) and region(a)[0] == 'arg' and region(a)[1] == 0 and rec_idx(a) is not None and any(x in cnt for x in subterms(rec_idx(a))):
                            hit = hit or (i, last_field(a))
    if cnt:
        ctx.expect(hit is None, 'filter_oi_%s/record copied' % kind, 'input records are read at the position of the output record', hit and hit[0])


@guarded
def content_kind(ctx, kind):
    K = KIND[kind]
    P = 'filter_oi_%s/' % kind
    for ft in (-1, 0, 3):
        o, fa, out = table_end(ctx, kind, ftarget=ft, rtarget=None, usevisrefmap=1, usecomplex=1) if ft < 0 else \
            table_end(ctx, kind, ftarget=ft, rtarget=ft, usevisrefmap=1, usecomplex=1)
        bufs = out_buffers(fa, kind, o)
        # channel data
        ra = channel_data(ctx, kind, o, fa, 'target%d' % ft, K['chan'] + ['flag'] + K['sq'])
        # scalars of the record
        accepted = all(v[0] in ('iter', 'ld') for v in final_mem(fa, fld(out, 'oi_' + kind, 'numrec')))
        if ra is not None and not accepted:
            ctx.maybe(P + 'scalar/target%d' % ft, 'acceptance undecided')
        elif ra is not None:
            rl = [h for h in rec_loops(fa, o)]
            for h in rl:
                for fn, lt, ct in ctx.prog().struct_fields(K['rec']):
                    if lt == 'ptr':
                        continue
                    oid = P + 'scalar/%s/target%d' % (fn, ft)
                    subs = [()]
                    if isinstance(lt, tuple) and lt[0] == 'arr':
                        subs = [(('[', C(q), 'a'),) for q in range(min(lt[1], 3))] if lt[2] != 'i8' else [()]
                    ok = True
                    for sub in subs:
                        a = gep(ra, [('.', K['rec'], fn)] + list(sub))
                        for l in latches(fa, h):
                            v = strip_ep(fa.mem_load(fa.out[l], a, None))
                            if fn == 'target_id' and ft >= 0:
                                if v == C(1):
                                    continue
                                if v[0] in ('c',) or transparent(v):
                                    ctx.bad(oid, 'TARGET_ID of a selected record becomes %s, not 1' % show(v), fa.F.blocks[l].term)
                                    ok = False
                                else:
                                    ctx.maybe(oid, show(v)[:80])
                                    ok = False
                                continue
                            ws = steps_of(gep(('x',), [('.', K['rec'], fn)] + list(sub)))
                            if v[0] == 'ld' and o.infield(v) == fn and steps_of(v[1])[-len(ws):] == ws:
                                continue
                            ok = False
                            if v[0] == 'ld' and v[1] == strip_ep(a):
                                ctx.bad(oid, 'member %s of the output record is never set' % fn, fa.F.blocks[l].term)
                            elif v[0] in ('c', 'cf', 'nan', 'null') or transparent(v):
                                ctx.bad(oid, 'member %s of the output record holds %s instead of the input value' % (fn, show(v)), fa.F.blocks[l].term)
                            else:
                                ctx.maybe(oid, show(v)[:80])
                    if ok:
                        ctx.good(oid)
        # table header
        for fn, lt, ct in ctx.prog().struct_fields('oi_' + kind):
            if lt == 'ptr' or fn in ('nwave', 'numrec'):
                continue
            oid = P + 'header/%s/target%d' % (fn, ft)
            a = fld(out, 'oi_' + kind, fn)
            vs = [strip_ep(v) for v in final_mem(fa, a)]
            want = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, fn))
            for v in vs:
                if v == want or (fn in ('usevisrefmap', 'usecomplex') and v == C(1)):
                    ctx.good(oid)
                elif v == ('ld', a):
                    ctx.bad(oid, '%s of the output table is never set' % fn, anchor(fa))
                elif v[0] in ('c', 'cf') or transparent(v):
                    ctx.bad(oid, '%s of the output table holds %s instead of the input value' % (fn, show(v)), anchor(fa))
                else:
                    ctx.maybe(oid, show(v)[:80])
    # absent optional data stay absent
    if kind == 'vis':
        o, fa, out = table_end(ctx, kind, usevisrefmap=0, usecomplex=0)
        bufs = out_buffers(fa, kind, o)
        for f in ('visrefmap', 'rvis', 'rviserr', 'ivis', 'iviserr'):
            oid = P + 'absent/' + f
            vs = {v for v, _ in bufs.get(f, ())}
            if vs == {('null',)}:
                ctx.good(oid)
            elif any(v[0] == 'ld' for v in vs) and all(v[0] in ('ld', 'null') for v in vs):
                ctx.bad(oid, 'unused %s of the output record is not cleared (aliases input or stale)' % f, anchor(fa))
            else:
                ctx.maybe(oid, str([show(v) for v in vs])[:80])
    # nothing stored for unselected channels; counters
    o, fa, out = table_end(ctx, kind, use=0, usevisrefmap=1, usecomplex=1)
    for f in K['chan'] + ['flag'] + K['sq']:
        if f == 'flag' and kind == 'inspol':
            continue
        oid = P + 'unselected/' + f
        vals, found = chan_values(fa, o, kind, f)
        hit = [(i, v) for idx, v, i, r, h in vals if (in_elem_is(o, strip_ep(v), f) or v == C(0)) and h is not None]
        if hit:
            ctx.bad(oid, 'a channel outside the wavelength selection is copied to the output %s' % f, hit[0][0])
        else:
            ctx.good(oid)
    if kind != 'inspol':
        vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_' + kind, 'nwave'))]
        judge(ctx, P + 'nwave/none', fa, vs, lambda v: v == C(0), 'number of output channels when none is selected', o, anchor(fa))
        o, fa, out = table_end(ctx, kind, use=1)
        vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_' + kind, 'nwave'))]
        want = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'nwave'))

        def all_chans(v):
            if v == want:
                return True
            return v[0] == 'iter' and want in count_of(fa, v[1])
        judge(ctx, P + 'nwave/all', fa, vs, all_chans, 'number of output channels when all are selected', o, anchor(fa))
    # output position is distinct from the input position
    o, fa, out = table_end(ctx, kind, use=None, usevisrefmap=1, usecomplex=1)
    pos = {}
    for f in K['chan'] + ['flag'] + K['sq']:
        if f == 'flag' and kind == 'inspol':
            continue
        vals, found = chan_values(fa, o, kind, f)
        oid = P + 'compact/' + f
        bad = None
        for idx, v, inst, r, h in vals:
            pos.setdefault(strip_ep(idx), []).append((f, inst))
            for h2 in iters_in(idx):
                # written at a counter of input channels
                if ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'nwave')) in count_of(fa, h2) and i_in(fa, inst, h2):
                    bad = inst
        if bad is not None:
            ctx.bad(oid, 'output %s is written at the input channel position although some channels may be left out' % f, bad)
        elif vals:
            ctx.good(oid)
    # input arrays are read at the input position
    outpos = {x for p in pos for x in subterms(p) if x[0] == 'phi'}
    hit = None
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for i in b.insts:
            if i.op == 'load' and id(i) in fa.args:
                a = fa.args[id(i)][0]
                bb = base_of(a)
                if bb[0] == 'ld' and region(a) and region(a)[0] == 'arg' and region(a)[1] in (0, 2) and last_field(bb[1]) \
                        and last_field(bb[1])[1] not in ('record',) and steps_of(a) and all(s[0] == '[' for s in steps_of(a)):
                    if any(x in outpos for x in subterms(steps_of(a)[-1][1])):
                        hit = (i, last_field(bb[1])[1])
    if outpos:
        ctx.expect(hit is None, P + 'compact/read-position',
                   'input %s is read at the output channel position' % (hit and hit[1]), hit and hit[0])
    # flags
    flags(ctx, kind)


def sq_index(ctx, oid, fa, o, kind, idx, vin, inst):
    """visrefmap: row/column of the output square from the same row/column of the input square (all selected)"""
    def split(t):
        c, ts = tolin(strip_ep(t))
        lins = [x for x in ts if x[0] == 'iter']
        muls = [x for x in ts if x[0] == 'mul']
        if c == 0 and len(lins) == 1 and len(muls) == 1 and all(k == 1 for k in ts.values()):
            m = muls[0]
            if len(ts) > 2:
                extra.extend(x for x in ts if x not in lins + muls)
            r = [x for x in m[1:] if x[0] == 'iter']
            # stride: input nwave, or the count of selected channels
            return lins[0], m
        return None
    extra = []
    a, b = split(idx), split(vin)
    if extra:
        if all(x[0] == 'phi' and fa.F.defs[x[1]].bb.name in fa.F.loops for x in extra):
            return ctx.bad(oid, 'the column of the output reference map does not start again at 0 in each row: element [%s]' % show(idx), inst)
        return ctx.maybe(oid, 'index form')
    if a is None or b is None:
        return ctx.maybe(oid, 'index form %s <- %s' % (show(idx), show(vin)))
    nw = ('ld', fld(arg_of(fa, 0), 'oi_' + kind, 'nwave'))

    def mulpart(m):
        xs = list(m[1:])
        for k, x in enumerate(xs):
            if x == nw:
                return 'nw', xs[1 - k]
        for k, x in enumerate(xs):
            if x[0] == 'iter' and nw in count_of(fa, x[1]) and xs[1 - k][0] == 'iter' \
                    and inst.bb.name not in fa.F.loops[x[1]]:
                return 'nw', xs[1 - k]
        return None
    ma, mb = mulpart(a[1]), mulpart(b[1])
    if ma is None or mb is None:
        return ctx.maybe(oid, 'stride form')
    if a[0] == b[0] and ma[1] == mb[1] and a[0] != ma[1]:
        ctx.good(oid)
    else:
        ctx.bad(oid, 'output reference map element [%s] is taken from input element [%s]' % (show(idx), show(vin)), inst)


@guarded
def flag_end(ctx, kind, oid, want, field='flag', **A):
    o, fa, out = table_end(ctx, kind, usevisrefmap=1, usecomplex=1, **A)
    vals, found = chan_values(fa, o, kind, field)
    if not vals:
        ctx.maybe(oid, 'no element stores recognised')
        return
    for idx, v, inst, r, h in vals:
        v = strip_ep(v)
        if want == 'nan':
            good = v == ('nan',)
            text = 'NaN'
        elif want == 'in':
            good = in_elem_is(o, v, field)
            text = 'the input value'
        else:
            good = v == C(want)
            text = str(want)
        if good:
            ctx.good(oid)
        elif v[0] in ('c', 'cf', 'nan', 'null', 'undef') or (v[0] == 'ld' and transparent(v)):
            ctx.bad(oid, '%s of the output channel is %s, should be %s' % (field, show(v), text), inst)
        elif o.foreign:
            a, b = next(iter(o.foreign))
            ctx.bad(oid, '%s of the output channel depends on comparing %s with %s' % (field, show(a), show(b)), inst)
        else:
            fc = [c for n, c in open_conds(fa) if simple_foreign(o, c) and c[0] == 'cmp']
            if fc:
                ctx.bad(oid, '%s of the output channel depends on %s' % (field, show(fc[0])), inst)
            else:
                ctx.maybe(oid, show(v)[:100])


@guarded
def flags(ctx, kind):
    K = KIND[kind]
    P = 'filter_oi_%s/' % kind
    if kind == 'inspol':
        return
    if kind == 'flux':
        for r in R:
            flag_end(ctx, kind, P + 'fluxdata/SNR ' + r, 'nan' if r in OUT else 'in', 'fluxdata', snr={'data': r}, flag=None)
            flag_end(ctx, kind, P + 'flag/SNR ' + r, 'in', 'flag', snr={'data': r}, flag=None)
        return
    flag_end(ctx, kind, P + 'flag/kept', 'in', flag=None)
    flag_end(ctx, kind, P + 'flag/already flagged', 1, flag=1)
    for pw in ('nz', 0):
        for b in K['bas']:
            for r in R:
                flag_end(ctx, kind, P + 'flag/UV radius %s %s pWave=%s' % (b, r, pw), 1 if r in OUT and pw else 0, uvrad={b: r}, pwave=pw)
    for s in K['snr']:
        for r in R:
            flag_end(ctx, kind, P + 'flag/SNR %s %s' % (s, r), 1 if r in OUT else 0, snr={s: r})
    if kind == 't3':
        for s, f in (('amp', 'accept_t3amp'), ('phi', 'accept_t3phi')):
            oth = 'phi' if s == 'amp' else 'amp'
            for r in R:
                flag_end(ctx, kind, P + 'flag/SNR %s %s, not accepted' % (s, r), 0, snr={s: r}, **{f: 0})
                flag_end(ctx, kind, P + 'flag/SNR %s %s, %s not accepted' % (oth, r, s), 1 if r in OUT else 0, snr={oth: r}, **{f: 0})
            flag_end(ctx, kind, P + 'nan/t3%s' % s, 'nan', 't3' + s, **{f: 0})
            flag_end(ctx, kind, P + 'kept/t3%s' % oth, 'in', 't3' + oth, **{f: 0})


# ---------------------------------------------------------------- wavelength table
class WO(Oracle):
    def __init__(self, r):
        self.r = r
        self.foreign = {}

    def rel(self, a, b):
        if a == C(0) and load_field(b) == ('oi_wavelength', 'nwave'):
            return '<'
        if b[0] == 'ld' and base_of(b[1])[0] == 'arg' and base_of(b[1])[1] == 1 and elem_field(b) is None:
            if elem_field(a) == ('oi_wavelength', 'eff_wave'):
                return R[self.r][const_index(b)] if self.r else None
            if a[0] == 'ld':
                self.foreign[(a, b)] = 1
        return None


@guarded
def wavelength(ctx):
    P = 'filter_oi_wavelength/'
    for r in R:
        o = WO(r)
        fa = ctx.fa('filter_oi_wavelength', o)
        out = arg_of(fa, 2)
        inp = arg_of(fa, 0)
        n_in = ('ld', fld(inp, 'oi_wavelength', 'nwave'))
        keep = r not in OUT
        vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_wavelength', 'nwave'))]

        def ok(v):
            if not keep:
                return v == C(0)
            return v == n_in or (v[0] == 'iter' and n_in in count_of(fa, v[1]))
        oid = P + 'channel %s' % r
        if all(ok(v) for v in vs):
            ctx.good(oid)
        elif o.foreign:
            a, b = next(iter(o.foreign))
            ctx.bad(oid, 'channel selection compares %s with %s' % (show(a), show(b)), anchor(fa))
        elif all(definite(fa, v) for v in vs):
            ctx.bad(oid, 'channel with wavelength %s the range: %s channels accepted' % (r, show(vs[0])), anchor(fa))
        else:
            ctx.maybe(oid, str([show(v) for v in vs]))
        # useWave
        hits = [(v, a, i) for i, (v, a) in fa.stores() if base_of(a) == arg_of(fa, 3)]
        oid = P + 'useWave %s' % r
        if not hits:
            ctx.maybe(oid, 'no stores')
        for v, a, i in hits:
            h = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]
            idx = steps_of(a)[-1][1] if steps_of(a) else C(0)
            if v == C(1 if keep else 0) or (keep and v[0] == 'c' and v[1]):
                if h and covers(idx, h[0], n_in):
                    ctx.good(oid)
                else:
                    ctx.maybe(oid, 'index ' + show(idx))
            elif v[0] == 'c':
                ctx.bad(oid, 'channel with wavelength %s the range marked %s' % (r, show(v)), i)
            else:
                ctx.maybe(oid, show(v))
        if keep:
            for f in ('eff_wave', 'eff_band'):
                oid = P + 'data/%s %s' % (f, r)
                hit = 0
                bufs = set()
                for b in fa.reach:
                    for a, v in fa.out.get(b, ({},))[0].items():
                        if last_field(a) == ('oi_wavelength', f) and base_of(a) == out and v[0] == 'call':
                            bufs.add(v)
                for i, (v, a) in fa.stores():
                    if base_of(a) in bufs:
                        hit = 1
                        idx = steps_of(a)[-1][1] if steps_of(a) else C(0)
                        if elem_field(v) == ('oi_wavelength', f) and region(v[1]) == inp and strip_ep(elem_index(v)) == strip_ep(idx):
                            ctx.good(oid)
                        elif transparent(v) and transparent(idx):
                            ctx.bad(oid, 'output %s[%s] holds %s' % (f, show(idx), show(v)), i)
                        else:
                            ctx.maybe(oid, show(v))
                if not hit:
                    ctx.maybe(oid, 'no stores')
            for f in ('revision', 'insname'):
                oid = P + 'header/' + f
                vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_wavelength', f))]
                for v in vs:
                    if v == ('ld', fld(inp, 'oi_wavelength', f)):
                        ctx.good(oid)
                    elif v == ('ld', fld(out, 'oi_wavelength', f)):
                        ctx.bad(oid, '%s of the output table is not set' % f, anchor(fa))
                    elif transparent(v):
                        ctx.bad(oid, '%s of the output table is %s' % (f, show(v)), anchor(fa))
                    else:
                        ctx.maybe(oid, show(v))
    o = WO(None)
    fa = ctx.fa('filter_oi_wavelength', o)
    inp = arg_of(fa, 0)
    n_in = ('ld', fld(inp, 'oi_wavelength', 'nwave'))
    bad = None
    n = 0
    for i, (v, a) in fa.stores():
        if elem_field(v) and elem_field(v)[0] == 'oi_wavelength' and region(v[1]) == inp and steps_of(a):
            n += 1
            if strip_ep(elem_index(v)) == strip_ep(steps_of(a)[-1][1]):
                bad = i
            h = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]
            if h and strip_ep(steps_of(a)[-1][1]) == ('iter', h[0]) and n_in in count_of(fa, h[0]):
                bad = i
    if n:
        ctx.expect(bad is None, P + 'compact', 'accepted channels are not copied from the input position to the next output position', bad)


class TO(Oracle):
    def __init__(self, ft, rt):
        self.ft, self.rt = ft, rt

    def val(self, t):
        f = load_field(t)
        if f == ('oi_filter_spec', 'target_id'):
            return self.ft
        if f == ('target', 'target_id') and region(t[1]) and region(t[1])[0] == 'arg' and region(t[1])[1] == 0:
            return self.rt
        return None

    def rel(self, a, b):
        if a == C(0) and load_field(b) == ('oi_target', 'ntarget'):
            return '<'


@guarded
def target_header(ctx):
    P = 'filter_oi_target/'
    for ft, rt, keep in ((-1, None, 'all'), (0, 0, 'one'), (3, 3, 'one'), (3, 4, 'none'), (3, 2, 'none'), (0, 3, 'none')):
        o = TO(ft, rt)
        fa = ctx.fa('filter_oi_target', o)
        inp, out = arg_of(fa, 0), arg_of(fa, 2)
        vs = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_target', 'ntarget'))]
        n_in = ('ld', fld(inp, 'oi_target', 'ntarget'))
        oid = P + 'target_id=%d record=%s' % (ft, rt)
        want = {'all': [n_in], 'one': [C(1)], 'none': [C(0)]}[keep]
        if keep == 'one':
            # at the end of an iteration that matched
            vs = []
            for h in fa.F.loops:
                for l in latches(fa, h):
                    v = strip_ep(fa.mem_load(fa.out[l], fld(out, 'oi_target', 'ntarget'), None))
                    vs.append(v)
        if vs and all(v in want for v in vs):
            ctx.good(oid)
        elif vs and all(v[0] == 'c' or transparent(v) for v in vs):
            ctx.bad(oid, 'filter_oi_target leaves %s targets in the output' % show(vs[0]), anchor(fa))
        else:
            ctx.maybe(oid, str([show(v) for v in vs]))
        for f in ('revision', 'usecategory'):
            oid2 = oid + '/' + f
            vv = [strip_ep(v) for v in final_mem(fa, fld(out, 'oi_target', f))]
            for v in vv:
                if v == ('ld', fld(inp, 'oi_target', f)):
                    ctx.good(oid2)
                elif v == ('ld', fld(out, 'oi_target', f)):
                    ctx.bad(oid2, '%s of the output OI_TARGET is not set' % f, anchor(fa))
                elif transparent(v):
                    ctx.bad(oid2, '%s of the output OI_TARGET is %s' % (f, show(v)), anchor(fa))
                else:
                    ctx.maybe(oid2, show(v))
        if keep == 'one':
            for fn, lt, ct in ctx.prog().struct_fields('target'):
                oid2 = oid + '/targ.' + fn
                for h in fa.F.loops:
                    for l in latches(fa, h):
                        st = fa.out[l]
                        tp = fa.mem_load(st, fld(out, 'oi_target', 'targ'), None)
                        v = strip_ep(fa.mem_load(st, gep(tp, [('.', 'target', fn)]), None))
                        if fn == 'target_id':
                            if v == C(1):
                                ctx.good(oid2)
                            elif v[0] == 'c' or transparent(v):
                                ctx.bad(oid2, 'the selected target gets TARGET_ID %s, not 1' % show(v), fa.F.blocks[l].term)
                            else:
                                ctx.maybe(oid2, show(v))
                        elif v[0] == 'ld' and load_field(v) == ('target', fn) and region(v[1]) == inp:
                            x = rec_idx(v[1])
                            if x is None or x[0] == 'c':
                                ctx.bad(oid2, 'member %s of the selected target is taken from a fixed entry' % fn, fa.F.blocks[l].term)
                            else:
                                ctx.good(oid2)
                        elif transparent(v):
                            ctx.bad(oid2, 'member %s of the selected target is %s' % (fn, show(v)), fa.F.blocks[l].term)
                        else:
                            ctx.maybe(oid2, show(v))
    fa = ctx.fa('filter_oi_header')
    for fn, lt, ct in ctx.prog().struct_fields('oi_header'):
        oid = 'filter_oi_header/' + fn
        for v in final_mem(fa, fld(arg_of(fa, 2), 'oi_header', fn)):
            v = strip_ep(v)
            if v == ('ld', fld(arg_of(fa, 0), 'oi_header', fn)):
                ctx.good(oid)
            elif v == ('ld', fld(arg_of(fa, 2), 'oi_header', fn)):
                ctx.bad(oid, 'header keyword member %s is not carried over' % fn, anchor(fa))
            elif transparent(v):
                ctx.bad(oid, 'header keyword member %s becomes %s' % (fn, show(v)), anchor(fa))
            else:
                ctx.maybe(oid, show(v))
