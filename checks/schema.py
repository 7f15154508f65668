"""C04: what is written is what is read back -- column/keyword schema of readers and writers.

The oracle is the OIFITS2 table definition below (name, struct field, format, unit, element count), against which the
arguments of every CFITSIO column/keyword access in the inlined readers and writers are compared."""
import itertools, re
from engine.lib import *
from engine.ts import is_ff
from .status import cstr
from .tables import state_at

TSTR, TINT, TFLOAT, TDBL, TLOG, TCPX = 16, 31, 42, 82, 14, 83
TNAME = {16: 'TSTRING', 31: 'TINT', 42: 'TFLOAT', 82: 'TDOUBLE', 14: 'TLOGICAL', 83: 'TCOMPLEX', 21: 'TSHORT', 41: 'TLONG', 11: 'TBYTE', 163: 'TDBLCOMPLEX'}
BYC = {'int': TINT, 'float': TFLOAT, 'double': TDBL, 'char': TLOG, 'long': 41, 'short': 21}


def col(name, form, unit='', field=None, n=None, cond=None):
    return dict(name=name, form=form, unit=unit, field=field or name.lower(), n=n, cond=cond)


def key(name, field=None, cond=None, val=None):
    return dict(name=name, field=field or name.lower().replace('-', '_'), cond=cond, val=val)


W, W2 = 'nwave', 'nwave2'
SCH = {
    'array': dict(tab='oi_array', rec='element', recf='elem', num='nelement', ext='OI_ARRAY', rev=2,
                  keys=[key('ARRNAME'), key('FRAME'), key('ARRAYX'), key('ARRAYY'), key('ARRAYZ')],
                  cols=[col('TEL_NAME', '16A'), col('STA_NAME', '16A'), col('STA_INDEX', 'I'), col('DIAMETER', 'E', 'm'),
                        col('STAXYZ', '3D', 'm', n=3), col('FOV', 'D', 'arcsec'), col('FOVTYPE', '6A')]),
    'target': dict(tab='oi_target', rec='target', recf='targ', num='ntarget', ext='OI_TARGET', rev=2, keys=[],
                   cols=[col('TARGET_ID', 'I'), col('TARGET', '32A'), col('RAEP0', 'D', 'deg'), col('DECEP0', 'D', 'deg'), col('EQUINOX', 'E', 'yr'),
                         col('RA_ERR', 'D', 'deg'), col('DEC_ERR', 'D', 'deg'), col('SYSVEL', 'D', 'm/s'), col('VELTYP', '8A'), col('VELDEF', '8A'),
                         col('PMRA', 'D', 'deg/yr'), col('PMDEC', 'D', 'deg/yr'), col('PMRA_ERR', 'D', 'deg/yr'), col('PMDEC_ERR', 'D', 'deg/yr'),
                         col('PARALLAX', 'E', 'deg'), col('PARA_ERR', 'E', 'deg'), col('SPECTYP', '32A'), col('CATEGORY', '3A', cond='cat')]),
    'wavelength': dict(tab='oi_wavelength', rec='oi_wavelength', num=W, ext='OI_WAVELENGTH', rev=2, keys=[key('INSNAME')],
                       cols=[col('EFF_WAVE', 'E', 'm', n='all'), col('EFF_BAND', 'E', 'm', n='all')]),
    'corr': dict(tab='oi_corr', rec='oi_corr', num='ncorr', ext='OI_CORR', rev=1, keys=[key('CORRNAME'), key('NDATA')],
                 cols=[col('IINDX', 'J', n='all'), col('JINDX', 'J', n='all'), col('CORR', 'D', n='all')]),
    'inspol': dict(tab='oi_inspol', rec='oi_inspol_record', recf='record', num='numrec', ext='OI_INSPOL', rev=1, wcol='JXX',
                   keys=[key('DATE-OBS'), key('NPOL'), key('ARRNAME'), key('ORIENT'), key('MODEL')],
                   cols=[col('TARGET_ID', 'I'), col('INSNAME', '70A'), col('MJD_OBS', 'D', 'day'), col('MJD_END', 'D', 'day'), col('JXX', '?C', n=W),
                         col('JYY', '?C', n=W), col('JXY', '?C', n=W), col('JYX', '?C', n=W), col('STA_INDEX', 'I')]),
    'vis': dict(tab='oi_vis', rec='oi_vis_record', recf='record', num='numrec', ext='OI_VIS', rev=2,
                keys=[key('DATE-OBS'), key('ARRNAME', cond='arrname'), key('INSNAME'), key('CORRNAME', cond='corrname'), key('AMPTYP', cond='amptyp'),
                      key('PHITYP', cond='phityp'), key('AMPORDER', cond='amporder'), key('PHIORDER', cond='phiorder')],
                cols=[col('TARGET_ID', 'I'), col('TIME', 'D', 's', n='zero'), col('MJD', 'D', 'day'), col('INT_TIME', 'D', 's'),
                      col('VISAMP', '?D', '@ampunit', n=W), col('VISAMPERR', '?D', '@ampunit', n=W), col('VISPHI', '?D', 'deg', n=W), col('VISPHIERR', '?D', 'deg', n=W),
                      col('UCOORD', 'D', 'm'), col('VCOORD', 'D', 'm'), col('STA_INDEX', '2I', n=2), col('FLAG', '?L', n=W),
                      col('CORRINDX_VISAMP', 'J', cond='corrname'), col('CORRINDX_VISPHI', 'J', cond='corrname'),
                      col('VISREFMAP', '?2L', n=W2, cond='usevisrefmap'),
                      col('RVIS', '?D', '@complexunit', n=W, cond='usecomplex'), col('RVISERR', '?D', '@complexunit', n=W, cond='usecomplex'),
                      col('IVIS', '?D', '@complexunit', n=W, cond='usecomplex'), col('IVISERR', '?D', '@complexunit', n=W, cond='usecomplex'),
                      col('CORRINDX_RVIS', 'J', cond='usecomplex corrname'), col('CORRINDX_IVIS', 'J', cond='usecomplex corrname')]),
    'vis2': dict(tab='oi_vis2', rec='oi_vis2_record', recf='record', num='numrec', ext='OI_VIS2', rev=2,
                 keys=[key('DATE-OBS'), key('ARRNAME', cond='arrname'), key('INSNAME'), key('CORRNAME', cond='corrname')],
                 cols=[col('TARGET_ID', 'I'), col('TIME', 'D', 's', n='zero'), col('MJD', 'D', 'day'), col('INT_TIME', 'D', 's'),
                       col('VIS2DATA', '?D', n=W), col('VIS2ERR', '?D', n=W), col('UCOORD', 'D', 'm'), col('VCOORD', 'D', 'm'),
                       col('STA_INDEX', '2I', n=2), col('FLAG', '?L', n=W), col('CORRINDX_VIS2DATA', 'J', cond='corrname')]),
    't3': dict(tab='oi_t3', rec='oi_t3_record', recf='record', num='numrec', ext='OI_T3', rev=2,
               keys=[key('DATE-OBS'), key('ARRNAME', cond='arrname'), key('INSNAME'), key('CORRNAME', cond='corrname')],
               cols=[col('TARGET_ID', 'I'), col('TIME', 'D', 's', n='zero'), col('MJD', 'D', 'day'), col('INT_TIME', 'D', 's'),
                     col('T3AMP', '?D', n=W), col('T3AMPERR', '?D', n=W), col('T3PHI', '?D', 'deg', n=W), col('T3PHIERR', '?D', 'deg', n=W),
                     col('U1COORD', 'D', 'm'), col('V1COORD', 'D', 'm'), col('U2COORD', 'D', 'm'), col('V2COORD', 'D', 'm'),
                     col('STA_INDEX', '3I', n=3), col('FLAG', '?L', n=W), col('CORRINDX_T3AMP', 'J', cond='corrname'), col('CORRINDX_T3PHI', 'J', cond='corrname')]),
    'flux': dict(tab='oi_flux', rec='oi_flux_record', recf='record', num='numrec', ext='OI_FLUX', rev=1,
                 keys=[key('DATE-OBS'), key('ARRNAME', cond='arrname'), key('INSNAME'), key('CORRNAME', cond='corrname'), key('FOV', cond='fovtype'),
                       key('FOVTYPE', cond='fovtype'), key('CALSTAT')],
                 cols=[col('TARGET_ID', 'I'), col('MJD', 'D', 'day'), col('INT_TIME', 'D', 's'), col('FLUXDATA', '?D', '@fluxunit', n=W),
                       col('FLUXERR', '?D', '@fluxunit', n=W), col('FLAG', '?L', n=W), col('CORRINDX_FLUXDATA', 'J', cond='corrname'),
                       col('STA_INDEX', 'I', cond='arrname')]),
    'header': dict(tab='oi_header', rec=None, ext=None, rev=None, cols=[],
                   keys=[key('ORIGIN'), key('DATE', val='date'), key('DATE-OBS'), key('CONTENT', val='OIFITS2'), key('TELESCOP'), key('INSTRUME'), key('OBSERVER'),
                         key('INSMODE'), key('OBJECT')] + [key(k, cond=k.lower()) for k in ('REFERENC', 'AUTHOR', 'PROG_ID', 'PROCSOFT', 'OBSTECH')]),
}
READ = {k: (['read_oi_' + k] if k in ('header', 'target') else ['read_next_oi_' + k]) for k in SCH}
for _k in ('array', 'wavelength', 'corr'):
    READ[_k] = READ[_k] + ['read_oi_' + _k]


def by_name(S, n):
    for c in S['cols']:
        if c['name'] == n:
            return c
    return None


def classify(addr):
    """('field', S, f, idx, off, indirect) of a data address, ('local', a) or None"""
    if addr[0] == 'ld':
        r = classify(addr[1])
        if r and r[0] == 'field' and not r[5] and r[4] == C(0):
            return r[:5] + (True,)
        return None
    if addr[0] == 'gep':
        if addr[1][0] == 'ld' and all(s[0] == '[' for s in addr[2]):
            r = classify(addr[1])
            if r and r[0] == 'field':
                return r[:4] + (addr[2][-1][1],) + r[5:]
            return None
        st = list(addr[2])
        off = C(0)
        if st and st[-1][0] == '[':
            off = st.pop()[1]
        if st and st[-1][0] == '.':
            idx = st[-2][1] if len(st) > 1 and st[-2][0] == '[' else C(0)
            return ('field', st[-1][1], st[-1][2], idx, off, False)
        if addr[1][0] == 'alloca':
            return ('local', addr[1])
        if addr[1][0] == 'call':
            return ('local', addr[1])
    if addr[0] in ('alloca', 'call'):
        return ('local', addr)
    return None


class StatO(Oracle):
    """every CFITSIO call succeeds except those for absent items; table revision as given"""
    def __init__(self, status, rev=None, absent=None, flags=None):
        self.status, self.rev, self.absent = status, rev, absent
        self.toks = {}
        self.calls = {}
        self.types = {}
        self.flags = flags or {}
        self.lims = set()

    def val(self, t):
        if t[0] == 'mphi' and t[2] == self.status:
            return 0
        if t == getattr(self, 'nonnull', None):
            return 'nz'
        if t[0] == 'ld':
            if t[1] == self.status:
                if len(t) > 2:
                    return self.toks.get(t[2], 0)
                return 0
            f = last_field(t[1])
            if f and f[1] == 'revision' and self.rev is not None:
                return self.rev
            if t[1] in self.types:
                return self.types[t[1]]
            if f and f[0] in TABS and f[1] in self.flags and f[1] not in ORDERS and steps_of(t[1])[-1][0] == '.':
                return self.flags[f[1]]
        if t[0] == 'call' and is_ff(t[1]):
            return self.calls.get(t[2], 0)
        if t[0] == 'app' and t[1] == 'strcmp' and 'corrflux' in self.flags:
            if any(x[0] == 'str' and cstr(x) == 'correlated flux' for x in t[2]) and any(last_field(x) and last_field(x)[1] == 'amptyp' for x in t[2]):
                return 0 if self.flags['corrflux'] else 1
        if t[0] == 'app' and t[1] == 'strlen':
            f = last_field(t[2][0])
            if f and f[0] in TABS and f[1] in self.flags:
                return self.flags[f[1]]
        return None

    def rel(self, a, b):
        if a[0] == 'ld' and b[0] == 'c':
            if a[1] in getattr(self, 'reps', ()):
                self.lims.add((a, b[1]))
                return {'<', '='}
            f = last_field(a[1])
            if b[1] <= 0 and (a[1] in getattr(self, 'rows', ()) or f in NUMS):
                return '>'          # the row loops are judged for tables that have rows and channels
            if f and f[0] in TABS and f[1] in ORDERS and f[1] in self.flags:
                return {'<' if v < b[1] else '>' if v > b[1] else '=' for v in ((0, 2) if self.flags[f[1]] else (-1,))}
        return None


NUMS = {(s['tab'], f) for s in SCH.values() for f in (s.get('num'), 'nwave') if f}
ORDERS = ('amporder', 'phiorder')
TABS = {s['tab'] for s in SCH.values()}


def uid(i):
    return i.res if i.res is not None else '%s.%d' % (i.bb.name, i.idx)


def mk_oracle(ctx, fn, S, absent=None):
    """StatO prepared from a plain run of the same function"""
    base = base_fa(ctx, fn)
    o = StatO(arg_of(base, len(base.F.params) - 1), S['rev'], absent)
    o.reps = set()
    o.rows = {a[1] for i, a in base.calls('ffgnrw')}
    if fn in ('read_oi_array', 'read_oi_wavelength', 'read_oi_corr'):
        o.nonnull = arg_of(base, 1)
    for i, a in base.calls('ffgtcl'):
        if a[2][0] == 'alloca':
            o.types[a[2]] = 16
        o.reps.add(a[3])
    for i, a in base.calls('ffgky', 'ffgcno'):
        if absent and (i.callee, cstr(a[2])) == absent:
            code = 202 if i.callee == 'ffgky' else 219
            o.toks['c:%s:%d' % (i.bb.name, i.idx)] = code
            o.calls[uid(i)] = code
    return o


def base_fa(ctx, fn):
    c = ctx.__dict__.setdefault('_base', {})
    if fn not in c:
        c[fn] = ctx.fa(fn, stop=STOPS)
    return c[fn]


STOPS = ['make_tform', 'free_tform']


def colname(fa, t):
    """column a column-number term stands for, by the fits_get_colnum call that set it"""
    if t[0] == 'ld' and len(t) > 2:
        for i, a in fa.calls('ffgcno'):
            if 'c:%s:%d' % (i.bb.name, i.idx) == t[2] and a[3] == t[1]:
                return cstr(a[2])
    return None


def tokcall(fa, t, *names):
    if t[0] == 'ld' and len(t) > 2:
        for i, a in fa.calls(*names):
            if 'c:%s:%d' % (i.bb.name, i.idx) == t[2]:
                return i, a
    return None


def ctype_code(ctx, S, f):
    ct = ctx.prog().ctype(S, f)
    if ct is None:
        return None
    if ct.startswith('char['):
        return TSTR
    b = ct.rstrip('*').split('[')[0]
    if 'complex' in b:
        return TCPX
    return BYC.get(b)


def other_size(a, b):
    """two different size attributes of the same object"""
    return a[0] == 'ld' and b[0] == 'ld' and a != b and base_of(a[1]) == base_of(b[1]) and last_field(a[1]) and last_field(b[1]) \
        and steps_of(a[1])[:-1] == steps_of(b[1])[:-1] and last_field(a[1])[1] != last_field(b[1])[1]


def evalt(t, leaf):
    """numeric value of a term whose leaves have the given values; None if unknown"""
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        r = t[1]
        for x, c in t[2]:
            y = evalt(x, leaf)
            if y is None:
                return None
            r += c * y
        return r
    if k == 'mul':
        a, b = evalt(t[1], leaf), evalt(t[2], leaf)
        return None if a is None or b is None else a * b
    if k == 'cmp' and len(t) == 4:
        a, b = evalt(t[2], leaf), evalt(t[3], leaf)
        if a is None or b is None:
            return None
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[t[1]])
    if k == 'sel' and len(t) == 4:
        a = evalt(t[1], leaf)
        return None if a is None else evalt(t[2] if a else t[3], leaf)
    if k == 'not':
        a = evalt(t[1], leaf)
        return None if a is None else int(not a)
    return None


SAMPLES = (1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 4097, 32768, 40000)


def differs(t, want, isleaf):
    """a value of the leaf for which the term is not want(value); None if there is none or it is not known"""
    for x in SAMPLES:
        v = evalt(strip_ep(t), lambda u: x if isleaf(u) else None)
        if v is None:
            return None
        if v != want(x):
            return x
    return None


def full_cover(fa, reads, n):
    """do reads [(inst, idx)] cover indices 0..n-1 exactly? True/False/None"""
    full = False
    consts = set()
    rest = []
    for i, idx in reads:
        its = iters_in(idx)
        if idx[0] == 'c':
            consts.add(idx[1])
            continue
        if len(its) != 1:
            rest.append(idx)
            continue
        h = next(iter(its))
        cs = count_of(fa, h)
        d = ladd(idx, ('iter', h), -1)
        if len(cs) == 1 and cs[0] is not None and d[0] == 'c':
            lo, cnt = d[1], cs[0]
            rem = ladd(strip_ep(n), ladd(cnt, C(lo)), -1)     # n - (lo+cnt)
            if rem == C(0) and lo == 0:
                full = True
            elif rem == C(0) and lo > 0:
                consts.add(('to', lo))
            elif rem[0] == 'c':
                return False
            elif cnt[0] == 'c' and strip_ep(n)[0] in ('ld', 'arg') or other_size(ladd(cnt, C(lo)), strip_ep(n)):
                pass                         # runs to another attribute of the same object: no cover
            else:
                rest.append(idx)
        elif covers(idx, h, n):
            full = True
        else:
            rest.append(idx)
    if full:
        return True
    for c in consts:
        if isinstance(c, tuple) and all(k in consts for k in range(c[1])):
            return True
    if rest:
        return None
    return False


def every_iter(fa, inst):
    """inst is executed in each iteration of its innermost loop (or on every path when in none)"""
    hs = [h for h in fa.F.loops if inst.bb.name in fa.F.loops[h] and h in fa.reach]
    hs = [h for h in hs if is_row_loop(fa, h)]
    if not hs:
        miss = fa.must_pass(fa.F.entry, {inst.bb.name}, {b.name for b in rets(fa)})
        return miss is None or inst.bb.name == fa.F.entry, miss
    h = min(hs, key=lambda x: len(fa.F.loops[x]))
    for s in fa.succs(h):
        if s in fa.F.loops[h] and s != inst.bb.name:
            miss = fa.must_pass(s, {inst.bb.name}, {h})
            if miss:
                return False, miss
    # loop itself reached on every path
    miss = fa.must_pass(fa.F.entry, {h}, {b.name for b in rets(fa)})
    return miss is None, miss


def is_row_loop(fa, h):
    return any(r is not None for r in [x for x in count_of(fa, h)])


def miss_conds(fa, miss, goal=None):
    """conditions at which the path `miss` turns away from the goal instruction"""
    miss = list(miss or ())
    back = None
    if goal is not None:
        preds = {}
        for a, b in fa.exec_edges:
            if b != (miss[-1] if miss else None):
                preds.setdefault(b, []).append(a)
        back = {goal.bb.name}
        st = [goal.bb.name]
        while st:
            for p in preds.get(st.pop(), ()):
                if p not in back:
                    back.add(p)
                    st.append(p)
    out = []
    for k, n in enumerate(miss):
        c = fa.brval.get(n)
        if c is None or len(fa.succs(n)) < 2:
            continue
        if back is not None and (n not in back or (k + 1 < len(miss) and miss[k + 1] in back)):
            continue
        out.append(c)
    return out


# ------------------------------------------------------------------ readers
WITH = {'RVIS': {'RVISERR', 'IVIS', 'IVISERR', 'CORRINDX_RVIS', 'CORRINDX_IVIS'}}


def col_reads(ctx, fa, S):
    """[(inst, column, class, args)] resolved column reads; second result: unresolved ones"""
    out, unk = [], []
    for i, a in fa.calls('ffgcv'):
        nm = colname(fa, a[2])
        p = a[7]
        if a[1] == C(TSTR):
            p = fa.mem_load(state_at(fa, i), p, None)
        cl = classify(p)
        if cl and cl[0] == 'local' and cl[1][0] == 'call':
            # temporary buffer copied element by element / by a string function
            cl = temp_copy(fa, cl[1]) or cl
        if nm is None or cl is None or cl[0] != 'field':
            unk.append((i, nm, cl, a))
        else:
            out.append((i, nm, cl, a))
    return out, unk


def widths_read(ctx, P, fn, fa, S, o):
    """a text column as wide as the standard's is read"""
    for a, lim in sorted(o.lims, key=repr):
        r = tokcall(fa, a, 'ffgtcl')
        nm = colname(fa, r[1][1]) if r else None
        k = by_name(S, nm) if nm else None
        m = k and re.match(r'^(\d+)A$', k['form'])
        if m and lim >= 2:
            ctx.expect(lim >= int(m.group(1)), P + 'width of ' + nm, '%s: only %d characters of column %s are accepted' % (fn, lim, nm), r[0])


def temp_copy(fa, buf):
    for j, (v, ad) in fa.stores():
        if v == buf:
            c = classify(ad)
            if c and c[0] == 'field' and not c[5] and c[4] == C(0):
                return c[:5] + (True,)
        if v[0] == 'ld' and base_of(v[1]) == buf:
            c = classify(ad)
            if c and c[0] == 'field':
                k = steps_of(v[1])[-1][1] if steps_of(v[1]) and steps_of(v[1])[-1][0] == '[' else C(0)
                return c[:4] + (ladd(c[4], k, -1),) + c[5:]
    for j, a in fa.calls('strcpy', 'strncpy', 'g_strlcpy', 'memcpy', 'llvm.memcpy.p0.p0.i64', 'snprintf', 'g_snprintf', 'memmove'):
        if any(base_of(x) == buf for x in a[1:]):
            c = classify(a[0])
            if c and c[0] == 'field':
                return c
    return None


@guarded
def reader(ctx, kind, fn, without=None):
    S = SCH[kind]
    P = fn + '/'
    if without:
        # optional items do not depend on each other, but for the columns that go with one
        P = '%s without %s/' % (fn, without[1])
        gone = {without[1]} | WITH.get(without[1], set())
        k = [x for x in S['keys'] + S['cols'] if x['name'] == without[1]][0]
        gone |= {x['name'] for x in S['cols'] if without[1] == 'CORRNAME' and 'corrname' in (x['cond'] or '')}
        S = dict(S, gone=gone, cols=[x for x in S['cols'] if x['name'] not in gone], keys=[x for x in S['keys'] if x['name'] not in gone])
    o = mk_oracle(ctx, fn, S, without)
    fa = ctx.fa(fn, o, stop=STOPS)
    named = fn.startswith('read_oi_') and kind in ('array', 'wavelength', 'corr')
    reads, unk = col_reads(ctx, fa, S)
    # sizes
    nrows = [a[1] for i, a in fa.calls('ffgnrw')]
    widths = {}
    for i, a in fa.calls('ffgtcl'):
        widths[('c:%s:%d' % (i.bb.name, i.idx), a[3])] = colname(fa, a[1])
    tabarg = [arg_of(fa, k) for k, (pn, ty, at) in enumerate(fa.F.params)]

    def tab_val(f):
        for k, t in enumerate(tabarg):
            vs = [v for v in final_mem(fa, fld(t, S['tab'], f))]
            vs = [v for v in vs if not (v[0] == 'ld' and v[1] == fld(t, S['tab'], f) and len(v) == 2)]
            if vs:
                return vs
        return []
    if S['cols']:
        oid = P + 'row count'
        vs = tab_val(S['num'])
        if len(vs) == 1 and vs[0][0] == 'ld' and vs[0][1] in nrows:
            ctx.good(oid)
            N = vs[0]
        else:
            N = None
            d = [ladd(v, ('ld', r), -1) for v in vs for r in nrows if v[0] in ('lin', 'ld')]
            if vs and vs[0][0] == 'lin' and any(x[0] == 'ld' and x[1] in nrows for x, _ in vs[0][2]):
                ctx.bad(oid, '%s: number of rows stored is %s, not the number of rows of the table' % (fn, show(strip_ep(vs[0]))), fa.F.blocks[fa.F.entry].term)
            else:
                ctx.maybe(oid, [show(v) for v in vs])
        NW = None
        if any(c['n'] in (W, W2) for c in S['cols']):
            oid = P + 'channel count'
            vs = tab_val(W)
            got = [widths.get((v[2], v[1])) for v in vs if v[0] == 'ld' and len(v) > 2]
            if len(vs) == 1 and got and got[0]:
                c = by_name(S, got[0])
                if c and c['n'] == W:
                    ctx.good(oid)
                    NW = vs[0]
                else:
                    ctx.bad(oid, '%s: the number of channels is taken from column %s' % (fn, got[0]), fa.F.blocks[fa.F.entry].term)
            else:
                ctx.maybe(oid, [show(v) for v in vs])
    seen = {}
    for i, nm, cl, a in reads:
        c = by_name(S, nm)
        oid = P + 'column ' + nm
        if c is None:
            if cl[1] == S['rec']:
                ctx.bad(oid, '%s fills %s from column %s, which OI_%s does not define' % (fn, cl[2], nm, kind.upper()), i)
            continue
        if cl[1] != S['rec'] or cl[2] != c['field']:
            ctx.bad(oid, '%s: column %s is read into %s instead of %s' % (fn, nm, cl[2], c['field']), i)
            continue
        if cl[4] != C(0):
            ctx.bad(oid, '%s: column %s is read into %s at offset %s' % (fn, nm, cl[2], show(cl[4])), i)
            continue
        want = ctype_code(ctx, cl[1], cl[2])
        if a[1][0] == 'c' and want and a[1][1] != want:
            ctx.bad(oid + ' type', '%s: column %s is read as %s into %s of type %s' % (fn, nm, TNAME.get(a[1][1], a[1][1]), cl[2], ctx.prog().ctype(cl[1], cl[2])), i)
            continue
        if a[4] != C(1):
            ctx.bad(oid, '%s: column %s is read from element %s' % (fn, nm, show(a[4])), i)
            continue
        # rows
        if c['n'] == 'all':
            ok = a[3] == C(1)
            if not ok:
                ctx.bad(oid + ' row', '%s: column %s is read from row %s' % (fn, nm, show(a[3])), i)
                continue
            if N is not None:
                d = ladd(strip_ep(a[5]), strip_ep(N), -1)
                if d == C(0) or fieldval(a[5], S['num']):
                    ctx.good(oid)
                elif d[0] == 'c' or load_field(strip_ep(a[5])) and load_field(strip_ep(a[5]))[0] == S['tab'] or differs(
                        a[5], lambda x: x, lambda u: u == strip_ep(N) or fieldval(u, S['num'])):
                    ctx.bad(oid + ' count', '%s: %s elements of column %s are read' % (fn, show(strip_ep(a[5])), nm), i)
                else:
                    ctx.maybe(oid + ' count', show(a[5]))
            seen.setdefault(nm, []).append((i, C(0)))
            continue
        d = ladd(a[3], cl[3], -1)
        if d[0] == 'c' and d != C(1):
            ctx.bad(oid + ' row', '%s: row %s of column %s is stored in record %s' % (fn, show(a[3]), nm, show(cl[3])), i)
            continue
        if d != C(1):
            ctx.maybe(oid + ' row', show(d))
        want = {None: C(1), 'zero': C(1), 2: C(2), 3: C(3)}.get(c['n'])
        n = strip_ep(a[5])
        if want is not None:
            if n[0] == 'c':
                if n != want:
                    ctx.bad(oid + ' count', '%s: %s elements of column %s are read (%s expected)' % (fn, show(n), nm, show(want)), i)
                    continue
            else:
                ctx.maybe(oid + ' count', show(n))
        elif NW is not None:
            w = strip_ep(NW)
            exp = w if c['n'] == W else lmul(w, w)
            if n != exp and not fieldval(a[5], W, c['n'] == W2):
                isw = lambda u: u == w or fieldval(u, W)
                if n[0] == 'c' or ladd(n, exp, -1)[0] == 'c' or n in (w, lmul(w, w)) or differs(n, (lambda x: x) if c['n'] == W else (lambda x: x * x), isw):
                    ctx.bad(oid + ' count', '%s: %s elements of column %s are read (%s expected)' % (fn, show(n), nm, show(exp)), i)
                    continue
                ctx.maybe(oid + ' count', show(n))
        seen.setdefault(nm, []).append((i, cl[3]))
        ctx.good(oid)
    widths_read(ctx, P, fn, fa, S, o)
    for c in S['cols']:
        nm = c['name']
        oid = P + 'all rows of ' + nm
        if nm not in seen:
            if unk or any(v['obligation'].startswith(P + 'column ' + nm) for v in ctx.violations):
                if not any(v['obligation'].startswith(P + 'column ' + nm) for v in ctx.violations):
                    ctx.maybe(oid, 'read not resolved')
            elif any(cl[2] == c['field'] for i, n2, cl, a in reads):
                pass        # already reported under the other name
            else:
                ctx.bad(oid, '%s never reads column %s' % (fn, nm), fa.F.blocks[fa.F.entry].term)
            continue
        if c['n'] != 'all':
            fc = full_cover(fa, seen[nm], N) if N is not None else None
            if fc is False:
                ctx.bad(oid, '%s does not read every row of column %s' % (fn, nm), seen[nm][0][0])
                continue
            if fc is None:
                ctx.maybe(oid, 'coverage')
                continue
        un = []
        for i, idx in seen[nm]:
            ok, miss = every_iter(fa, i)
            if not ok:
                un.append((i, miss))
        if un and len(un) == len(seen[nm]):
            i, miss = un[0]
            cs = miss_conds(fa, miss, i)
            if cs and not all(transparent_cond(c2, fa) for c2 in cs):
                ctx.maybe(oid, 'condition ' + show(cs[0]))
            else:
                ctx.bad(oid, '%s: column %s is not read in every case although it is present' % (fn, nm), i)
        else:
            ctx.good(oid)
    keys_read(ctx, kind, fn, fa, S, named)


def transparent_cond(c, fa=None, depth=0):
    """a condition over table contents/loop counters only (not an environment outcome such as HDU type)"""
    for x in subterms(c):
        if x[0] == 'phi' and fa is not None and depth < 4:
            i = fa.F.defs.get(x[1])
            if i is None or i.op != 'phi' or i.bb.name in fa.F.loops:
                return False
            for p, o in zip(i.x['preds'], i.ops):
                if (p, i.bb.name) in fa.exec_edges:
                    v = fa.t(o)
                    b = fa.brval.get(p)
                    if v is None or not transparent_cond(v, fa, depth + 1) or b is not None and not transparent_cond(b, fa, depth + 1):
                        return False
            continue
        if x[0] in ('mphi', 'phi', 'call', 'undef'):
            return False
        if x[0] == 'ld' and x[1][0] == 'alloca' and not (fa is not None and tokcall(fa, x, 'ffgnrw', 'ffgtcl')):
            return False
    return True


def fieldval(t, f, square=False):
    t = strip_ep(t)
    if square:
        return t[0] == 'mul' and fieldval(t[1], f) and fieldval(t[2], f)
    return t[0] == 'ld' and last_field(t[1]) is not None and last_field(t[1])[1] == f


def key_dest(fa, i, a):
    """field a keyword value ends up in"""
    cl = classify(a[3])
    if cl and cl[0] == 'field':
        return cl
    if cl and cl[0] == 'local':
        r = temp_copy(fa, cl[1])
        return r
    return None


def keys_read(ctx, kind, fn, fa, S, named):
    P = fn + '/'
    got = {}
    unk = 0
    for i, a in fa.calls('ffgky'):
        nm = cstr(a[2])
        d = key_dest(fa, i, a)
        if nm is None:
            # TUNITn of a column
            r = unit_key(fa, i, a)
            if r is None or d is None:
                unk += 1
                continue
            c = by_name(S, r)
            if '+' in r or '-' in r or c is None or not c['unit'].startswith('@') or d[2] != c['unit'][1:]:
                ctx.bad(P + 'unit of ' + r, '%s: the unit of column %s is stored in %s' % (fn, r, d[2]), i)
            else:
                ctx.good(P + 'unit of ' + r)
                got['TUNIT ' + d[2]] = i
            continue
        if nm in ('EXTNAME', 'EXTVER') or nm in S.get('gone', ()):
            continue
        want = [k for k in S['keys'] if k['name'] == nm]
        if nm == 'OI_REVN':
            want = [key('OI_REVN', 'revision')]
        oid = P + 'key ' + nm
        if nm == 'CALSTAT' and d is None:
            for v in final_mem(fa, fld(arg_of(fa, 1), S['tab'], 'calstat')):
                x = differs(v, lambda x: x, lambda u: u[0] == 'ld' and base_of(u[1]) == base_of(a[3]))
                if x is not None:
                    ctx.bad(oid + ' value', '%s: calstat is not the character given by CALSTAT' % fn, i)
        if d is None:
            if not named:
                unk += 1
            continue
        if not want:
            if d[1] == S['tab']:
                ctx.bad(oid, '%s fills %s from keyword %s, which OI_%s does not define' % (fn, d[2], nm, kind.upper()), i)
            continue
        if d[1] != S['tab'] or d[2] != want[0]['field']:
            ctx.bad(oid, '%s: keyword %s is stored in %s instead of %s' % (fn, nm, d[2], want[0]['field']), i)
            continue
        wt = ctype_code(ctx, d[1], d[2])
        if nm == 'CALSTAT':
            wt = TSTR
        if a[1][0] == 'c' and wt and a[1][1] != wt:
            ctx.bad(oid + ' type', '%s: keyword %s is read as %s into %s' % (fn, nm, TNAME.get(a[1][1], a[1][1]), d[2]), i)
            continue
        ok, miss = every_iter(fa, i)
        if not ok:
            cs = miss_conds(fa, miss, i)
            if cs and not all(transparent_cond(c, fa) for c in cs):
                ctx.maybe(oid, 'condition')
            else:
                ctx.bad(oid, '%s: keyword %s is not read in every case' % (fn, nm), i)
                continue
        if nm == 'CALSTAT':
            vs = final_mem(fa, fld(arg_of(fa, 1), d[1], d[2]))
            ctx.expect(not any(v[0] == 'c' for v in vs), oid + ' value', '%s: calstat is not always the character given by CALSTAT' % fn, i)
        ctx.good(oid)
        got[nm] = i
    for k in S['keys'] + ([key('OI_REVN', 'revision')] if S['rev'] else []):
        if k['name'] in got or any(v['obligation'].startswith(P + 'key ' + k['name']) for v in ctx.violations):
            continue
        if named and k['name'] in ('ARRNAME', 'INSNAME', 'CORRNAME'):
            continue
        if unk:
            ctx.maybe(P + 'key ' + k['name'], 'not resolved')
        else:
            ctx.bad(P + 'key ' + k['name'], '%s never reads keyword %s' % (fn, k['name']), fa.F.blocks[fa.F.entry].term)
    if named:
        # the name asked for is the name of the table
        k = S['keys'][0]
        cells = final_mem(fa, fld(arg_of(fa, 2), S['tab'], k['field']))
        other = [(i, a) for i, a in fa.calls('ffgky') if cstr(a[2]) is not None and cstr(a[2]) != k['name'] and classify(a[3]) and classify(a[3])[1:3] == (S['tab'], k['field'])]
        if other:
            ctx.bad(P + 'name', '%s fills %s from keyword %s' % (fn, k['field'], cstr(other[0][1][2])), other[0][0])
        elif any(v[0] == 'ld' and base_of(v[1]) == arg_of(fa, 1) for v in cells):
            ctx.good(P + 'name')
        else:
            ctx.maybe(P + 'name', [show(v) for v in cells])


def unit_key(fa, i, a):
    """column whose TUNITn keyword a[2] names"""
    buf = a[2]
    best = None
    for j, b in fa.calls('snprintf', 'sprintf', 'g_snprintf', 'ffkeyn'):
        if j.callee == 'ffkeyn':
            continue
        if b[0] == buf:
            fmt = b[2] if j.callee != 'sprintf' else b[1]
            if cstr(fmt) == 'TUNIT%d':
                if best is None or (j.bb.name == i.bb.name or fa.F.rpo.index(j.bb) >= fa.F.rpo.index(best[0].bb)):
                    best = (j, b)
    if best is None:
        return None
    t = best[1][-1]
    if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][1] == 1 and colname(fa, t[2][0][0]):
        return '%s%+d' % (colname(fa, t[2][0][0]), t[1])
    return colname(fa, t)


# ------------------------------------------------------------------ absent items
DEFAULT = {'vis': dict(keys={'ARRNAME': 0, 'CORRNAME': 0, 'AMPTYP': 0, 'PHITYP': 0, 'AMPORDER': -1, 'PHIORDER': -1},
                       cols={'VISREFMAP': ('usevisrefmap', ['visrefmap']), 'RVIS': ('usecomplex', ['rvis', 'rviserr', 'ivis', 'iviserr'])}),
           'vis2': dict(keys={'ARRNAME': 0, 'CORRNAME': 0}), 't3': dict(keys={'ARRNAME': 0, 'CORRNAME': 0}),
           'flux': dict(keys={'ARRNAME': 0, 'CORRNAME': 0, 'FOVTYPE': 0, 'FOV': 'nan'}, cols={'STA_INDEX': (None, [('sta_index', -1)])}),
           'target': dict(cols={'CATEGORY': ('usecategory', [])}),
           'header': dict(keys={k['name']: 0 for k in SCH['header']['keys']})}


UNITS = {'RVIS': ['complexunit']}
# attributes of a table of revision 1, which has none of the optional items of revision 2
REV1 = {'vis': dict(corrname=0, amptyp=0, phityp=0, amporder=-1, phiorder=-1, usevisrefmap=0, usecomplex=0), 'vis2': dict(corrname=0), 't3': dict(corrname=0),
        'target': dict(usecategory=0), 'array': {}}


@guarded
def revision1(ctx, kind, fn):
    S = SCH[kind]
    o = mk_oracle(ctx, fn, S)
    o.rev = 1
    for what, items in (('ffgky', ['CORRNAME', 'AMPTYP', 'PHITYP', 'AMPORDER', 'PHIORDER']), ('ffgcno', ['VISREFMAP', 'RVIS', 'CATEGORY', 'FOV', 'FOVTYPE'])):
        for i, a in base_fa(ctx, fn).calls(what):
            if cstr(a[2]) in items:
                code = 202 if what == 'ffgky' else 219
                o.toks['c:%s:%d' % (i.bb.name, i.idx)] = code
                o.calls[uid(i)] = code
    fa = ctx.fa(fn, o, stop=STOPS)
    anchor = fa.F.blocks[fa.F.entry].term
    for f, want in REV1[kind].items():
        a = fld(arg_of(fa, 1), S['tab'], f)
        vs = final_mem(fa, a)
        oid = '%s/revision 1 %s' % (fn, f)
        if vs and all(v == C(want) for v in vs):
            ctx.good(oid)
        elif any(v == ('ld', a) for v in vs):
            ctx.bad(oid, '%s: %s keeps an indeterminate value in a table of revision 1' % (fn, f), anchor)
        elif any(v[0] == 'c' and v != C(want) for v in vs):
            ctx.bad(oid, '%s: %s is %s in a table of revision 1' % (fn, f, [show(v) for v in vs if v[0] == 'c' and v != C(want)][0]), anchor)
        else:
            ctx.maybe(oid, [show(v) for v in vs])


    for f in ('fov', 'fovtype') if kind == 'array' else ():
        oid = '%s/revision 1 %s' % (fn, f)
        num = [v for v in final_mem(fa, fld(arg_of(fa, 1), S['tab'], S['num']))]
        ws = [(i, ad) for i, (v, ad) in fa.stores()] + [(i, a[0]) for i, a in fa.calls() if i.callee in ('strcpy', 'strncpy', 'g_strlcpy', 'memcpy', 'snprintf', 'g_snprintf') or
                                                      (i.callee or '').startswith(('llvm.memcpy', 'llvm.memset'))]
        ws = [(i, classify(ad)) for i, ad in ws]
        ws = [(i, c[3]) for i, c in ws if c and c[0] == 'field' and c[1] == S['rec'] and c[2] == f]
        if len(num) != 1 or any(i.callee and i.callee.startswith(('memset', 'llvm.memset')) for i, a in fa.calls()):
            ctx.maybe(oid, 'form')
        elif not ws:
            ctx.bad(oid, '%s: %s keeps an indeterminate value in a table of revision 1' % (fn, f), anchor)
        else:
            fc = full_cover(fa, ws, num[0])
            ctx.bad(oid, '%s: %s is not set in every record of a table of revision 1' % (fn, f), ws[0][0]) if fc is False else ctx.good(oid) if fc else ctx.maybe(oid, 'cover')


@guarded
def absent(ctx, kind, fn, what, item):
    S = SCH[kind]
    o = mk_oracle(ctx, fn, S, (what, item))
    fa = ctx.fa(fn, o, stop=STOPS)
    oid = '%s/%s absent' % (fn, item)
    arg = arg_of(fa, 1)
    D = DEFAULT[kind]
    if what == 'ffgky':
        f = [k for k in S['keys'] if k['name'] == item][0]['field']
        a = fld(arg, S['tab'], f)
        want = D['keys'][item]
        vs = final_mem(fa, a)
        if want == 'nan':
            ok = all(v[0] == 'nan' or v[0] == 'op' and v[1] == 'fdiv' for v in vs)
        else:
            ok = all(v == C(want) for v in vs)
        if ok:
            ctx.good(oid)
        elif any(v[0] in ('c', 'cf') for v in vs) or any(v[0] == 'ld' and len(v) > 2 and v[2] in o.toks for v in vs):
            ctx.bad(oid, '%s: %s is not marked as unspecified when keyword %s is absent (value %s)' % (fn, f, item, show(vs[0])), fa.F.blocks[fa.F.entry].term)
        else:
            ctx.maybe(oid, [show(v) for v in vs])
        return
    flag, fields = D['cols'][item]
    if flag:
        vs = final_mem(fa, fld(arg, S['tab'], flag))
        if all(v == C(0) for v in vs):
            ctx.good(oid + ' ' + flag)
        elif any(v == ('ld', fld(arg, S['tab'], flag)) for v in vs):
            ctx.bad(oid + ' ' + flag, '%s: %s keeps an indeterminate value when column %s is absent' % (fn, flag, item), fa.F.blocks[fa.F.entry].term)
        elif any(v[0] == 'c' for v in vs):
            ctx.bad(oid + ' ' + flag, '%s: %s is set although column %s is absent' % (fn, flag, item), fa.F.blocks[fa.F.entry].term)
        else:
            ctx.maybe(oid + ' ' + flag, [show(v) for v in vs])
        # and set when the column is present
        fp = ctx.fa(fn, mk_oracle(ctx, fn, S), stop=STOPS)
        vs = final_mem(fp, fld(arg, S['tab'], flag))
        if all(v == C(1) for v in vs):
            ctx.good('%s/%s present' % (fn, item))
        elif any(v == C(0) for v in vs):
            ctx.bad('%s/%s present' % (fn, item), '%s: %s is not set although column %s is present' % (fn, flag, item), fa.F.blocks[fa.F.entry].term)
        else:
            ctx.maybe('%s/%s present' % (fn, item), [show(v) for v in vs])
    for f in UNITS.get(item, ()):
        vs = final_mem(fa, fld(arg, S['tab'], f))
        if all(v == C(0) for v in vs):
            ctx.good(oid + ' ' + f)
        elif any(v == ('ld', fld(arg, S['tab'], f)) for v in vs) or any(v[0] == 'c' for v in vs):
            ctx.bad(oid + ' ' + f, '%s: %s is not empty when column %s is absent' % (fn, f, item), fa.F.blocks[fa.F.entry].term)
        else:
            ctx.maybe(oid + ' ' + f, [show(v) for v in vs])
    for f in fields:
        f, want = f if isinstance(f, tuple) else (f, 'null')
        ws = []
        for i, (v, ad) in fa.stores():
            cl = classify(ad)
            if cl and cl[0] == 'field' and cl[1] == S['rec'] and cl[2] == f and not cl[5] and (v == ('null',) or v[0] == 'c'):
                ws.append((i, v, cl[3]))
        good = [w for w in ws if w[1] == (('null',) if want == 'null' else C(want)) or (want == 'null' and w[1] == C(0))]
        if good and all(every_iter(fa, w[0])[0] for w in good[:1]):
            ctx.good(oid + ' ' + f)
        elif ws and not good:
            ctx.bad(oid + ' ' + f, '%s: %s is set to %s when column %s is absent' % (fn, f, show(ws[0][1]), item), ws[0][0])
        elif not ws and not any((i.callee in ('memset', 'calloc', 'g_malloc0', 'g_malloc0_n') or (i.callee or '').startswith('llvm.memset')) and not (a and base_of(a[0])[0] == 'alloca') for i, a in fa.calls()):
            ctx.bad(oid + ' ' + f, '%s: %s keeps an indeterminate value when column %s is absent' % (fn, f, item), fa.F.blocks[fa.F.entry].term)
        else:
            ctx.maybe(oid + ' ' + f, 'form')


# ------------------------------------------------------------------ writers
def strs(fa, inst, arr, n):
    """the n constant strings of the char* array at address arr (before inst)"""
    st = state_at(fa, inst)
    out = []
    for k in range(n):
        v = fa.mem_load(st, gep(arr, [('[', C(k), 'p')]), None)
        if v[0] == 'ld' and base_of(v[1])[0] == 'glob':
            v = fa.glob_load(v[1]) or v
        out.append(cstr(v) if v is not None and v[0] == 'str' else None)
    return out


def norm_form(f):
    m = re.match(r'^(\d*)([A-Z])$', f or '')
    if not m:
        return f
    return (m.group(1) or '1') + m.group(2)


def forms(fa, inst, arr, n, S):
    if arr[0] == 'call' and arr[1] == 'make_tform':
        for i, a in fa.calls('make_tform'):
            if uid(i) == arr[2]:
                v = strs(fa, i, a[0], n)
                w = strip_ep(a[2])
                nw = fieldval(w, W)
                return v, nw, a[2]
        return [None] * n, True, None
    return strs(fa, inst, arr, n), True, None


def formatted(fa, inst, buf):
    """(format, args) of the last snprintf into buf before inst"""
    st = state_at(fa, inst)
    best = None
    for j, b in fa.calls('snprintf', 'sprintf', 'g_snprintf'):
        if b[0] != buf:
            continue
        if (j.bb.name == inst.bb.name and j.idx < inst.idx) or (j.bb.name != inst.bb.name and fa.F.rpo.index(j.bb) < fa.F.rpo.index(inst.bb)):
            p = (fa.F.rpo.index(j.bb), j.idx)
            if best is None or p > best[0]:
                best = (p, j, b)
    if best is None:
        return None
    b = best[2]
    k = 1 if best[1].callee == 'sprintf' else 2
    return cstr(b[k]), b[k + 1:]


CONDS = {'header': ['referenc', 'author', 'prog_id', 'procsoft', 'obstech'], 'target': ['usecategory'], 'array': [], 'wavelength': [], 'corr': [], 'inspol': [],
         'vis': ['arrname', 'corrname', 'usevisrefmap', 'usecomplex', 'amptyp', 'phityp', 'amporder', 'phiorder'], 'vis2': ['arrname', 'corrname'],
         't3': ['arrname', 'corrname'], 'flux': ['arrname', 'corrname', 'fovtype']}


USE = {'usevisrefmap', 'usecomplex', 'usecategory', 'amporder', 'phiorder'}


def configs(kind):
    cs = CONDS[kind]
    if kind == 'vis':
        for c, m, x in itertools.product((0, 1), repeat=3):
            yield dict(arrname=1, corrname=c, usevisrefmap=m, usecomplex=x, amptyp=1, phityp=1, amporder=1, phiorder=1, corrflux=(c + m + x) % 2)
        for f in ('arrname', 'amptyp', 'phityp', 'amporder', 'phiorder'):
            d = {k: 1 for k in cs}
            d[f] = 0
            yield d
    elif kind == 'header':
        yield {k: 1 for k in cs}
        for f in cs:
            d = {k: 1 for k in cs}
            d[f] = 0
            yield d
    elif kind == 'flux':
        for vals in itertools.product((0, 1), repeat=len(cs)):
            yield dict(zip(cs, vals))
            for st in 'UC':
                yield dict(zip(cs, vals), calstat=ord(st))
    else:
        for vals in itertools.product((0, 1), repeat=len(cs)):
            yield dict(zip(cs, vals))
    for n in (1, 70):
        if set(cs) - USE:
            yield dict({k: 1 for k in cs}, len=n)


def holds(cond, cfg):
    if cond is None:
        return True
    return all(cfg.get({'cat': 'usecategory'}.get(c, c), 1) for c in cond.split())


def layouts(fa):
    """forward dataflow of the column list of the table being written: the list before each CFITSIO call and at block ends"""
    at, out = {}, {}
    inn = {fa.F.entry: None}
    BOT = object()
    work = [fa.F.entry]
    seen = {}
    while work:
        n = work.pop()
        st = inn[n]
        for i in fa.F.blocks[n].insts:
            if i.op != 'call' or id(i) not in fa.args:
                continue
            a = fa.args[id(i)]
            f = i.callee
            at[id(i)] = st
            if f == 'ffcrtb':
                st = 'top'
                if a[3][0] == 'c':
                    st = tuple(strs(fa, i, a[4], a[3][1]))
                    if None in st:
                        st = 'top'
            elif f == 'fficol' and st not in (None, 'top'):
                nm = cstr(a[2])
                st = st[:a[1][1] - 1] + (nm,) + st[a[1][1] - 1:] if a[1][0] == 'c' and nm is not None and 1 <= a[1][1] <= len(st) + 1 else 'top'
            elif f == 'fficls' and st not in (None, 'top'):
                if a[1][0] == 'c' and a[2][0] == 'c' and 1 <= a[1][1] <= len(st) + 1:
                    nms = tuple(strs(fa, i, a[3], a[2][1]))
                    st = st[:a[1][1] - 1] + nms + st[a[1][1] - 1:] if None not in nms else 'top'
                else:
                    st = 'top'
            elif f in ('ffdcol', 'ffmcol', 'ffcpcl'):
                st = 'top'
        out[n] = st
        for s in fa.succs(n):
            new = st if s not in inn else (st if inn[s] == st else 'top')
            if s not in inn or inn[s] != new:
                inn[s] = new
                work.append(s)
    return dict(at=at, out=out)


def created(fa, i, a):
    if i.callee == 'fficol':
        return [cstr(a[2])]
    n, arr = (a[3], a[4]) if i.callee == 'ffcrtb' else (a[2], a[3])
    return strs(fa, i, arr, n[1]) if n[0] == 'c' else []


@guarded
def writer(ctx, kind, cfg):
    S = SCH[kind]
    fn = 'write_oi_' + kind
    base = base_fa(ctx, fn)
    o = StatO(arg_of(base, len(base.F.params) - 1), None, None, {k: (cfg.get('len', 9) if v and k not in USE and k != 'calstat' else v) for k, v in cfg.items()})
    for k in ('usevisrefmap', 'usecomplex', 'usecategory'):
        if k in cfg:
            o.flags[k] = cfg[k]
    fa = ctx.fa(fn, o, stop=STOPS)
    tag = ','.join(sorted('%s=%d' % (k, v) if k in ('len', 'calstat') else k for k, v in cfg.items() if v)) if cfg else ''
    P = '%s[%s]/' % (fn, tag)
    lay = layouts(fa)
    tabarg = arg_of(fa, 1)
    written = {}
    units = {}
    keys = {}
    anchor = fa.F.blocks[fa.F.entry].term

    def expect_col(c, i, form, nw, unit, nwt=None):
        sp = by_name(S, c)
        if sp is None:
            ctx.bad(P + 'column ' + c, '%s creates column %s, which OI_%s does not define' % (fn, c, kind.upper()), i)
            return
        if form is not None:
            w = sp['form']
            if w.startswith('?') and w != '?2L':
                if form == w and nw:
                    ctx.good(P + 'format ' + c)
                elif form == w and nwt is not None and transparent(nwt):
                    ctx.bad(P + 'format ' + c, '%s: column %s is created with %s elements per row' % (fn, c, show(nwt)), i)
                elif form != w:
                    ctx.bad(P + 'format ' + c, '%s: column %s has format %s instead of %s' % (fn, c, form, w.replace('?', 'nwave ')), i)
            elif norm_form(form) != norm_form(w):
                ctx.bad(P + 'format ' + c, '%s: column %s has format %s instead of %s' % (fn, c, form, w), i)
            else:
                ctx.good(P + 'format ' + c)
        if unit is not None and not sp['unit'].startswith('@'):
            if unit != sp['unit']:
                ctx.bad(P + 'unit ' + c, '%s: column %s has unit "%s" instead of "%s"' % (fn, c, unit, sp['unit']), i)
            else:
                ctx.good(P + 'unit ' + c)

    final = [lay['out'].get(b.name) for b in rets(fa)]
    for i, a in fa.calls('ffcrtb', 'fficol', 'fficls', 'ffpcl', 'ffpky', 'ffuky', 'ffdcol'):
        f = i.callee
        cols = lay['at'].get(id(i))
        ok_layout = cols is not None and cols != 'top'
        if f == 'ffcrtb':
            n = a[3][1] if a[3][0] == 'c' else None
            if n is None:
                continue
            names = strs(fa, i, a[4], n)
            fo, nw, nwt = forms(fa, i, a[5], n, S)
            un = strs(fa, i, a[6], n) if a[6] != ('null',) else [None] * n
            ex = extname(fa, i, a[7])
            if ex is not None:
                ctx.expect(ex == S['ext'], P + 'EXTNAME', '%s writes EXTNAME %s instead of %s' % (fn, ex, S['ext']), i)
            for nm, fm, u in zip(names, fo, un):
                if nm is not None:
                    expect_col(nm, i, fm, nw, u, nwt)
        elif f == 'fficol':
            nm, fm = cstr(a[2]), cstr(a[3])
            if nm is None:
                continue
            if fm is not None:
                expect_col(nm, i, fm, True, None)
            elif nm == 'VISREFMAP':
                r = formatted(fa, i, a[3])
                if r and r[0] == '%dL':
                    ctx.expect(fieldval(strip_ep(r[1][0]), W, True), P + 'format VISREFMAP', '%s: VISREFMAP is created with %s elements per row' % (fn, show(strip_ep(r[1][0]))), i)
        elif f == 'fficls':
            n = a[2][1] if a[2][0] == 'c' else None
            if n is None:
                continue
            names = strs(fa, i, a[3], n)
            fo, nw, nwt = forms(fa, i, a[4], n, S)
            for nm, fm in zip(names, fo):
                if nm is not None:
                    expect_col(nm, i, fm, nw, None, nwt)
        elif f == 'ffpcl':
            if not ok_layout or cols is None or a[2][0] != 'c' or not (1 <= a[2][1] <= len(cols)):
                if ok_layout and cols is not None and a[2][0] == 'c':
                    ctx.bad(P + 'column number %d' % a[2][1], '%s writes column %d of a table of %d columns' % (fn, a[2][1], len(cols)), i)
                else:
                    ctx.maybe(P + 'write', 'layout')
                continue
            nm = cols[a[2][1] - 1]
            col_write(ctx, fn, P, kind, S, fa, i, a, nm, written)
        elif f in ('ffpky', 'ffuky'):
            nm = cstr(a[2])
            if nm is None:
                continue
            m = re.match(r'^(TUNIT|TDIM)(\d+)$', nm)
            if m and cols is not None and ok_layout:
                n = int(m.group(2))
                c = cols[n - 1] if 1 <= n <= len(cols) else None
                cl = classify(a[3])
                if m.group(1) == 'TUNIT':
                    sp = by_name(S, c) if c else None
                    if cl and cl[0] == 'field':
                        if sp is None or sp['unit'] != '@' + cl[2]:
                            ctx.bad(P + 'unit ' + (c or nm), '%s: %s (column %s) is set to %s' % (fn, nm, c, cl[2]), i)
                        else:
                            ok2, miss = every_iter(fa, i)
                            units[c] = (i, ok2)
                            ctx.good(P + 'unit ' + c)
                else:
                    if c != 'VISREFMAP':
                        ctx.bad(P + 'TDIM', '%s: %s gives the dimensions of column %s instead of VISREFMAP' % (fn, nm, c), i)
                    else:
                        ctx.good(P + 'TDIM')
                        r = formatted(fa, i, a[3])
                        if r and r[0] == '(%d,%d)':
                            ctx.expect(all(fieldval(strip_ep(x), W) for x in r[1]), P + 'TDIM value', 'dimensions of VISREFMAP are %s' % [show(strip_ep(x)) for x in r[1]], i)
                continue
            keys.setdefault(nm, []).append((i, a))
    cols = final[0] if final and all(x == final[0] for x in final) else None
    ok_layout = cols is not None and cols != 'top'
    # columns present and filled
    if S['cols']:
        for c in S['cols']:
            oid = P + 'rows of ' + c['name']
            need = holds(c['cond'], cfg)
            if not need:
                if cols is not None and ok_layout and c['name'] in cols:
                    ctx.bad(oid, '%s writes optional column %s although it is not in use' % (fn, c['name']), anchor)
                else:
                    ctx.good(oid)
                continue
            if cols is None or not ok_layout:
                mk = [i for i, a in fa.calls('ffcrtb', 'fficol', 'fficls') if c['name'] in created(fa, i, a)]
                ms = [every_iter(fa, i) for i in mk]
                cs = [miss_conds(fa, m[1], i) for i, m in zip(mk, ms) if not m[0]]
                if mk and all(not m[0] for m in ms) and all(x and all(transparent_cond(y, fa) for y in x) for x in cs):
                    ctx.bad(oid, '%s: column %s is created only when %s' % (fn, c['name'], show(cs[0][0])), mk[0])
                else:
                    ctx.maybe(oid, 'layout')
                continue
            if c['name'] not in cols:
                ctx.bad(oid, '%s does not create column %s' % (fn, c['name']), anchor)
                continue
            ws = written.get(c['name'])
            if not ws:
                if any(v['obligation'].startswith(P + 'column ') for v in ctx.violations):
                    continue
                if any(u['obligation'].startswith(P) for u in ctx.undecided):
                    ctx.maybe(oid, 'unresolved write')
                else:
                    ctx.bad(oid, '%s creates column %s but never writes it' % (fn, c['name']), anchor)
                continue
            if c['n'] != 'all':
                n = ('ld', fld(tabarg, S['tab'], S['num']))
                fc = full_cover(fa, ws, n)
                if fc is False:
                    ctx.bad(oid, '%s does not write every row of column %s' % (fn, c['name']), ws[0][0])
                    continue
                if fc is None:
                    ctx.maybe(oid, 'coverage')
                    continue
            bad = [every_iter(fa, i) for i, _ in ws]
            if all(not b[0] for b in bad):
                cs = miss_conds(fa, bad[0][1], ws[0][0])
                ctx.bad(oid, '%s: column %s is not written in every case' % (fn, c['name']), ws[0][0]) if all(transparent_cond(x, fa) for x in cs) else ctx.maybe(oid, 'condition')
            else:
                ctx.good(oid)
        if cols is not None and ok_layout:
            dup = [c for c in cols if cols.count(c) > 1]
            ctx.expect(not dup, P + 'columns distinct', '%s creates column %s twice' % (fn, dup[0] if dup else ''), anchor)
            for c in S['cols']:
                if c['unit'].startswith('@'):
                    if holds(c['cond'], cfg) and (c['unit'] != '@ampunit' or cfg.get('corrflux')):
                        ctx.expect(c['name'] in units and units[c['name']][1], P + 'unit ' + c['name'], '%s: the unit of column %s is not written' % (fn, c['name']), anchor)
    write_keys(ctx, kind, fn, P, S, fa, cfg, keys)


def extname(fa, i, t):
    if t[0] == 'str':
        return cstr(t)
    if t[0] == 'alloca':
        st = state_at(fa, i)
        r = st[2].get(t)
        if r and r[0][0] == 'str':
            return cstr(r[0])
        v = fa.mem_load(st, t, None)
        if v[0] == 'ld' and v[1][0] == 'str':
            return cstr(v[1])
    return None


def col_write(ctx, fn, P, kind, S, fa, i, a, nm, written):
    c = by_name(S, nm)
    if c is None:
        return
    oid = P + 'column ' + nm
    p = a[6]
    if a[1] == C(TSTR):
        p = fa.mem_load(state_at(fa, i), p, None)
    cl = classify(p)
    if c['n'] == 'zero':
        # TIME: zero, as documented, or the time attribute
        v = fa.mem_load(state_at(fa, i), a[6], None)
        if v == ('cf', 0.0):
            pass
        elif cl and cl[0] == 'field' and cl[2] != c['field']:
            ctx.bad(oid, '%s: column %s is written from %s' % (fn, nm, cl[2]), i)
            return
        elif v[0] == 'cf':
            ctx.bad(oid, '%s: column %s is written as %s' % (fn, nm, v[1]), i)
            return
        ctx.good(oid)
        if a[3][0] == 'lin' or a[3][0] == 'iter':
            written.setdefault(nm, []).append((i, ladd(a[3], C(-1))))
        return
    if cl is None or cl[0] != 'field':
        ctx.maybe(oid, 'source %s' % show(p))
        written.setdefault(nm, []).append((i, ladd(a[3], C(-1))))
        return
    if cl[1] != S['rec'] or cl[2] != c['field']:
        ctx.bad(oid, '%s: column %s is written from %s instead of %s' % (fn, nm, cl[2], c['field']), i)
        return
    if cl[4] != C(0):
        ctx.bad(oid, '%s: column %s is written from %s at offset %s' % (fn, nm, cl[2], show(cl[4])), i)
        return
    want = ctype_code(ctx, cl[1], cl[2])
    if a[1][0] == 'c' and want and a[1][1] != want:
        ctx.bad(oid + ' type', '%s: column %s is written as %s from %s of type %s' % (fn, nm, TNAME.get(a[1][1], a[1][1]), cl[2], ctx.prog().ctype(cl[1], cl[2])), i)
        return
    if a[4] != C(1):
        ctx.bad(oid, '%s: column %s is written from element %s' % (fn, nm, show(a[4])), i)
        return
    n = strip_ep(a[5])
    if c['n'] == 'all':
        if a[3] != C(1):
            ctx.bad(oid + ' row', '%s: column %s is written from row %s' % (fn, nm, show(a[3])), i)
            return
        if not fieldval(n, S['num']):
            d = ladd(n, ('ld', fld(arg_of(fa, 1), S['tab'], S['num'])), -1)
            if n[0] == 'c' or d[0] == 'c' or load_field(n) and load_field(n)[0] == S['tab']:
                ctx.bad(oid + ' count', '%s: %s rows of column %s are written' % (fn, show(n), nm), i)
                return
            ctx.maybe(oid + ' count', show(n))
        written.setdefault(nm, []).append((i, C(0)))
        ctx.good(oid)
        return
    d = ladd(a[3], cl[3], -1)
    if d[0] == 'c' and d != C(1):
        ctx.bad(oid + ' row', '%s: record %s is written to row %s of column %s' % (fn, show(cl[3]), show(a[3]), nm), i)
        return
    if d != C(1):
        ctx.maybe(oid + ' row', show(d))
    want = {None: C(1), 2: C(2), 3: C(3)}.get(c['n'])
    if want is not None:
        if n[0] == 'c' and n != want:
            ctx.bad(oid + ' count', '%s: %s elements of column %s are written (%s expected)' % (fn, show(n), nm, show(want)), i)
            return
        if n[0] != 'c':
            ctx.maybe(oid + ' count', show(n))
    else:
        if not fieldval(n, W, c['n'] == W2):
            w = ('ld', fld(arg_of(fa, 1), S['tab'], W))
            exp = w if c['n'] == W else lmul(w, w)
            if n[0] == 'c' or ladd(n, exp, -1)[0] == 'c' or n in (w, lmul(w, w)) or load_field(n) or differs(
                    n, (lambda x: x) if c['n'] == W else (lambda x: x * x), lambda u: fieldval(u, W)):
                ctx.bad(oid + ' count', '%s: %s elements of column %s are written' % (fn, show(n), nm), i)
                return
            ctx.maybe(oid + ' count', show(n))
    written.setdefault(nm, []).append((i, cl[3]))
    ctx.good(oid)


def write_keys(ctx, kind, fn, P, S, fa, cfg, keys):
    anchor = fa.F.blocks[fa.F.entry].term
    spec = list(S['keys'])
    if S['rev']:
        spec.append(key('OI_REVN', val=S['rev']))
    if S['ext'] and kind != 'target':
        spec.append(key('EXTVER', val='extver'))
    for k in spec:
        nm = k['name']
        oid = P + 'key ' + nm
        ws = keys.get(nm, [])
        if k['val'] == 'date':
            cs = list(fa.calls('ffpdat'))
            if cs and every_iter(fa, cs[0][0])[0]:
                ctx.good(oid)
            elif not cs and not ws:
                ctx.bad(oid, '%s does not write DATE' % fn, anchor)
            continue
        if not holds(k['cond'], cfg):
            ctx.expect(not ws, oid, '%s writes optional keyword %s although it is unspecified' % (fn, nm), ws[0][0] if ws else None)
            continue
        if not ws:
            other = [i for i, a in fa.calls('ffpkys', 'ffpkyj', 'ffukys', 'ffpkyd', 'ffpkyl', 'ffuky')]
            dyn = [i for i, a in fa.calls('ffpky') if cstr(a[2]) is None]
            if other or dyn:
                ctx.maybe(oid, 'not resolved')
            else:
                ctx.bad(oid, '%s does not write keyword %s' % (fn, nm), anchor)
            continue
        i, a = ws[-1]
        okk, miss = every_iter(fa, i)
        if not okk and len(ws) == 1:
            cs = miss_conds(fa, miss, i)
            if all(transparent_cond(x, fa) for x in cs):
                ctx.bad(oid, '%s: keyword %s is not written in every case' % (fn, nm), i)
            else:
                ctx.maybe(oid, 'condition')
            continue
        st = state_at(fa, i)
        v = fa.mem_load(st, a[3], None)
        if isinstance(k['val'], int):
            if v[0] == 'c':
                ctx.expect(v[1] == k['val'] and a[1] == C(TINT), oid, '%s writes %s = %s' % (fn, nm, show(v)), i)
            elif load_field(v):
                ctx.bad(oid, '%s writes %s from %s, but always writes revision %d tables' % (fn, nm, show(v), k['val']), i)
            else:
                ctx.maybe(oid, show(v))
            continue
        if k['val'] == 'extver':
            if v[0] == 'arg' and v[2] == fa.F.params[2][0]:
                ctx.good(oid)
            elif v[0] in ('c', 'ld', 'lin'):
                ctx.bad(oid, '%s writes EXTVER = %s' % (fn, show(v)), i)
            else:
                ctx.maybe(oid, show(v))
            continue
        if k['val'] is not None:
            s = cstr(a[3])
            if s is not None:
                ctx.expect(s == k['val'], oid, '%s writes %s = %s' % (fn, nm, s), i)
            else:
                cl = classify(a[3])
                if cl and cl[0] == 'field':
                    ctx.bad(oid, '%s writes %s from %s' % (fn, nm, cl[2]), i)
                else:
                    ctx.maybe(oid, 'value')
            continue
        cl = classify(a[3])
        if cl and cl[0] == 'local' and nm == 'CALSTAT':
            f = load_field(v)
            if v[0] == 'c':
                ctx.expect(v[1] == cfg.get('calstat'), oid, 'CALSTAT is written as a constant', i)
            elif f:
                es = [gep(a[3], [('[', C(1), x)]) for x in 'ap']
                zs = [fa.mem_load(st, e, None) for e in es]
                if C(0) in zs:
                    ctx.good(oid + ' end')
                elif all(z == ('ld', e) or z[0] == 'undef' for z, e in zip(zs, es)) and not any(
                        j.callee not in ('ffpky', 'ffuky') and b and any(base_of(x) == base_of(a[3]) for x in b) for j, b in fa.calls()):
                    ctx.bad(oid + ' end', 'CALSTAT is written with an indeterminate character after the status', i)
                ctx.expect(f == (S['tab'], 'calstat'), oid, 'CALSTAT is written from %s' % f[1], i)
            else:
                ctx.maybe(oid, show(v))
            continue
        if cl is None or cl[0] != 'field':
            ctx.maybe(oid, 'value %s' % show(a[3]))
            continue
        if (cl[1], cl[2]) != (S['tab'], k['field']):
            ctx.bad(oid, '%s writes keyword %s from %s' % (fn, nm, cl[2]), i)
            continue
        wt = ctype_code(ctx, cl[1], cl[2])
        if a[1][0] == 'c' and wt and a[1][1] != wt:
            ctx.bad(oid + ' type', '%s: keyword %s is written as %s from %s' % (fn, nm, TNAME.get(a[1][1], a[1][1]), cl[2]), i)
            continue
        ctx.good(oid)


@guarded
def tform(ctx):
    """formats with '?' get the number given"""
    if 'make_tform' not in {f for M in ctx.prog().modules for f in M.funcs}:
        return
    fa = ctx.fa('make_tform')
    if len(fa.F.params) != 3:
        return
    v = arg_of(fa, 2)
    for i, a in fa.calls('snprintf', 'g_snprintf', 'sprintf'):
        k = next((x for x, y in enumerate(a) if y[0] == 'str'), None)
        if k is None or cstr(a[k]) not in ('%d%s', '%i%s') or len(a) != k + 3:
            ctx.maybe('make_tform/format', 'form')
            continue
        n, t = a[k + 1], a[k + 2]
        x = differs(n, lambda x: x, lambda u: u == v)
        ctx.expect(x is None, 'make_tform/number', 'a column of %s elements per row is created with another number' % x, i)
        st = steps_of(t)
        off = st[-1][1] if st and st[-1][0] == '[' else None
        x = None if off is None else differs(off, lambda x: 1, lambda u: u == v)
        ctx.expect(x is None, 'make_tform/type', 'the type of a column of %s elements per row is lost' % x, i)


def schema(ctx):
    tform(ctx)
    for k in SCH:
        for fn in READ[k]:
            reader(ctx, k, fn)
        for c in configs(k):
            writer(ctx, k, c)
    for k in REV1:
        for fn in READ[k]:
            revision1(ctx, k, fn)
    for k, D in DEFAULT.items():
        for it in D.get('keys', {}):
            reader(ctx, k, READ[k][0], ('ffgky', it))
        for it in D.get('cols', {}):
            reader(ctx, k, READ[k][0], ('ffgcno', it))
        for it in D.get('keys', {}):
            absent(ctx, k, READ[k][0], 'ffgky', it)
        for it in D.get('cols', {}):
            absent(ctx, k, READ[k][0], 'ffgcno', it)
