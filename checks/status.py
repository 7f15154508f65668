"""Status discipline of the table and file readers/writers (C05), file handles (C06), checksums (C07),
and completeness of what read_oi_fits collects (part of C10): typestate exploration of the inlined functions."""
from engine.lib import *
from engine.ts import *

HUSH = 'oi_hush_errors'
SCAN = {'EXTNAME', 'EXTVER'}
KINDS = ('array', 'wavelength', 'corr', 'inspol', 'vis', 'vis2', 't3', 'flux')
CFKEY, COLNF, EOFST, ERR, BADNAME = 202, 219, 107, 999, 301
READERS = {
    'read_oi_header': dict(keys='*'),
    'read_oi_target': dict(cols={'CATEGORY'}),
    'read_oi_array': dict(scan={'ARRNAME'}), 'read_oi_wavelength': dict(scan={'INSNAME'}), 'read_oi_corr': dict(scan={'CORRNAME'}),
    'read_next_oi_array': {}, 'read_next_oi_wavelength': {}, 'read_next_oi_corr': {}, 'read_next_oi_inspol': {},
    'read_next_oi_vis': dict(keys={'ARRNAME', 'CORRNAME', 'AMPTYP', 'PHITYP', 'AMPORDER', 'PHIORDER'}, cols={'VISREFMAP', 'RVIS'}),
    'read_next_oi_vis2': dict(keys={'ARRNAME', 'CORRNAME'}),
    'read_next_oi_t3': dict(keys={'ARRNAME', 'CORRNAME'}),
    'read_next_oi_flux': dict(keys={'ARRNAME', 'CORRNAME', 'FOV', 'FOVTYPE'}, cols={'STA_INDEX'}),
}
WRITERS = ['write_oi_header', 'write_oi_target'] + ['write_oi_' + k for k in KINDS]
NEXT = {'read_next_oi_' + k: k for k in KINDS}
STRICT = {'array', 'wavelength'}
LISTS = {'array': ('arrayList', 'numArray'), 'wavelength': ('wavelengthList', 'numWavelength'), 'corr': ('corrList', 'numCorr'),
         'inspol': ('inspolList', 'numInspol'), 'vis': ('visList', 'numVis'), 'vis2': ('vis2List', 'numVis2'),
         't3': ('t3List', 'numT3'), 'flux': ('fluxList', 'numFlux')}


def cstr(t):
    """constant C string denoted by address term t, else None"""
    if t[0] == 'str':
        return t[2].split(b'\0')[0].decode('latin1')
    return None


def other_codes(F):
    """status codes other than the usual ones that the function distinguishes"""
    out = set()
    for b in F.blocks.values():
        for i in b.insts:
            if i.op == 'icmp':
                for o in i.ops:
                    if o[0] == 'i':
                        out |= {o[1]} if i.x.get('pred') in ('eq', 'ne') else {o[1] - 1, o[1], o[1] + 1}
        if b.term is not None and b.term.op == 'switch':
            out |= set(b.term.x.get('cases', ()))
    return sorted(k for k in out if isinstance(k, int) and 100 < k < 999 and k not in (CFKEY, COLNF, EOFST, 104))


class SM(Model):
    """one injected failure per path; records (fault, reported, final status, returned value)"""
    def __init__(self, hush=0, codes=None, stop=(), eof=False):
        self.hush = hush
        self.rets = {}
        self.codes = codes
        self.stop = set(stop)
        self.eof = eof
        self.tags0 = (None, False)
        self.report_sites = []

    def load(self, a):
        return self.hush if a[0] == 'glob' and a[1] == HUSH else None

    def status_call(self, f):
        return is_ff(f) or f in self.stop

    def faults(self, ts, i, f, a):
        if self.codes is not None:
            return self.codes(ts, i, f, a)
        if f == 'ffmrhd':
            return (ERR, EOFST)
        return (ERR, EOFST) if self.eof else (ERR,)

    def skip_fault(self, st):
        return st[2][0] is not None

    def item(self, f, a):
        if f in ('ffgky', 'ffgcno', 'ffpky', 'ffuky') and len(a) > 2:
            return cstr(a[2]) if cstr(a[2]) is not None else '?'
        return ''

    def on_call(self, ts, i, f, a, st, c, cur):
        t = st[2]
        if c and not cur and self.status_call(f):
            return ((f, self.item(f, a), c, i), t[1])
        if f in ('ffrprt', 'ffgmsg', 'ffprintf_error'):
            if t[0] is not None or True:
                self.report_sites.append((t[0], i))
            return (t[0], True)
        return t

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        rv = ts.cv(inst.ops[0], env) if inst.ops else 'void'
        self.rets.setdefault((tags, cells.get(ts.status), rv), (node, inst))


def run(ctx, name, model, entry=0, stop=()):
    key = ('ts', name, tuple(sorted(stop)))
    if not hasattr(ctx, '_fa'):
        ctx._fa = {}
    fa = ctx._fa.get(key)
    if fa is None:
        fa = ctx._fa[key] = ctx.fa(name, stop=stop)
    k = len(fa.F.params) - 1
    ts = TS(ctx.prog(), fa.F, fa, model, entry, arg_of(fa, k))
    ctx.count('typestate_states', ts.nstates)
    return ts


def where(ts, fault):
    return fault[3] if fault else ts.F.blocks[ts.F.entry].term


def group(m):
    """fault(without inst) -> list of (reported, cell, rv, inst, faultinst)"""
    out = {}
    for (tags, cell, rv), (node, inst) in m.rets.items():
        f = tags[0]
        out.setdefault(f[:3] if f else None, []).append((tags[1], cell, rv, f[3] if f else inst))
    return out


def fname(f):
    return {'ffgky': 'key ', 'ffgcno': 'column ', 'ffpky': 'key '}.get(f[0], f[0] + ' ') + (f[1] or '')


@guarded
def status_reader(ctx, name):
    spec = READERS[name]
    P = name + '/'
    m = SM()
    ts = run(ctx, name, m)
    g = group(m)
    # (e) success possible
    base = g.get(None, [])
    if not base:
        ctx.maybe(P + 'success', 'no fault-free return explored')
    elif any(c == 0 for _, c, _, _ in base):
        ctx.good(P + 'success')
    elif any(c is None for _, c, _, _ in base):
        ctx.maybe(P + 'success', 'status not tracked')
    else:
        ctx.bad(P + 'success', '%s never returns success' % name, where(ts, None))
    scan = spec.get('scan', set())
    for f, rs in sorted(g.items(), key=repr):
        if f is None:
            continue
        cells = {c for _, c, _, _ in rs}
        inst = rs[0][3]
        oid = P + fname(f).strip() + '/%d' % f[2]
        unk = None in cells
        item = f[1]
        opt_scan = f[0] == 'ffgky' and (item in SCAN or item in scan)
        if f[2] == ERR:
            if opt_scan and (item in scan or (scan and item in SCAN)):
                continue       # header of a table passed over while searching
            if 0 in cells:
                ctx.bad(oid, 'a failing %s (%s) is not reported: %s returns success' % (f[0], item, name), inst)
            elif unk:
                ctx.maybe(oid, 'status not tracked')
            else:
                ctx.good(oid)
        elif f[2] == EOFST and f[0] == 'ffmrhd':
            if cells == {EOFST}:
                ctx.good(oid)
            elif unk:
                ctx.maybe(oid, 'status')
            elif 0 in cells:
                ctx.bad(oid, '%s returns success when there is no further table' % name, inst)
            else:
                ctx.bad(oid, '%s reports end of file as status %s' % (name, sorted(cells)), inst)
            if any(r for r, c, _, _ in rs):
                ctx.bad(oid + '/quiet', 'the normal end of the file is reported as an error', inst)
            else:
                ctx.good(oid + '/quiet')
    for code in other_codes(ts.F):
        mo = SM(codes=lambda ts, i, f, a: (code,))
        to = run(ctx, name, mo)
        for f, rs in sorted(group(mo).items(), key=repr):
            if f is None or f[0] == 'ffgky' and (f[1] in scan or (scan and f[1] in SCAN)):
                continue
            cells = {c for _, c, _, _ in rs}
            if 0 in cells:
                ctx.bad(P + fname(f).strip() + '/%d' % code, 'a %s (%s) failing with status %d is not reported: %s returns success' % (f[0], f[1], code, name), rs[0][3])
            elif None not in cells:
                ctx.good(P + fname(f).strip() + '/%d' % code)
    # files in which one item is absent throughout
    items = set()
    for i, a in ts.fa.calls('ffgky', 'ffgcno'):
        it = cstr(a[2])
        if it is not None and id(i) in ts.calls_seen:
            items.add((i.callee, it))
    for f, item in sorted(items):
        if f == 'ffgky' and (item in SCAN or item in scan):
            continue
        code = CFKEY if f == 'ffgky' else COLNF
        if f == 'ffgky':
            k = spec.get('keys', set())
            optional = k == '*' or item in k
        else:
            optional = item in spec.get('cols', set())

        class AM(SM):
            def skip_fault(self, st):
                return False
        ma = AM(codes=lambda ts, i, f2, a: ((code,),) if f2 == f and cstr(a[2]) == item else ())
        ta = run(ctx, name, ma)
        rs = [(k[0], k[1], v) for k, v in ma.rets.items() if k[0][0] is not None]
        cells = {c for _, c, _ in rs}
        what = fname((f, item)).strip()
        oid = P + what + ' absent'
        if not rs:
            ctx.maybe(oid, 'not reached')
            continue
        inst = rs[0][0][0][3]
        if optional:
            if code in cells:
                ctx.bad(oid, 'a file without the optional %s is rejected by %s' % (what, name), inst)
            elif 0 in cells:
                ctx.good(oid)
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.bad(oid, '%s never succeeds without the optional %s' % (name, what), inst)
        else:
            quiet = [v[1] for (t, c, rv), v in ma.rets.items() if t[0] is not None and not t[1] and c not in (0, None, EOFST)]
            if quiet and any(True for _ in ts.fa.calls('ffrprt')):
                ctx.bad(oid + ' reported', '%s fails without printing the error stack when the mandatory %s is missing' % (name, what), quiet[0])
            if 0 in cells:
                ctx.bad(oid, 'a table without the mandatory %s is accepted by %s' % (what, name), inst)
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.good(oid)
    if name.startswith('read_next_oi_') and any(cstr(a[2]) == 'EXTNAME' for i, a in ts.fa.calls('ffgky')):
        m3 = SM(codes=lambda ts, i, f, a: (CFKEY,) if f == 'ffgky' and cstr(a[2]) == 'EXTNAME' else ())
        run(ctx, name, m3)
        for f, rs in sorted(group(m3).items(), key=repr):
            if f is None:
                continue
            cells = {c for _, c, _, _ in rs}
            oid = P + 'table without EXTNAME'
            if EOFST in cells:
                ctx.bad(oid, '%s takes a binary table without EXTNAME for the end of the file' % name, next(r[3] for r in rs if r[1] == EOFST))
            elif 0 in cells:
                ctx.good(oid)
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.bad(oid, '%s does not pass over a binary table without EXTNAME (status %s)' % (name, sorted(cells)), rs[0][3])
    if name.startswith('read_next_oi_'):
        m2 = SM(codes=lambda ts, i, f, a: (EOFST,) if f != 'ffmrhd' else ())
        t2 = run(ctx, name, m2)
        for f, rs in sorted(group(m2).items(), key=repr):
            if f is None or (f[0] == 'ffgky' and f[1] in SCAN):
                continue
            oid = P + fname(f).strip() + '/truncated'
            cells = {c for _, c, _, _ in rs}
            if EOFST in cells or 0 in cells:
                ctx.bad(oid, 'a truncated table (end of file in %s %s) is taken for the end of the file by %s' % (f[0], f[1], name), rs[0][3])
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.good(oid)
    common(ctx, name, m, ts)


@guarded
def status_writer(ctx, name):
    P = name + '/'
    m = SM()
    ts = run(ctx, name, m)
    g = group(m)
    base = g.get(None, [])
    if any(c == 0 for _, c, _, _ in base):
        ctx.good(P + 'success')
    elif base and not any(c is None for _, c, _, _ in base):
        ctx.bad(P + 'success', '%s never returns success' % name, where(ts, None))
    for f, rs in sorted(g.items(), key=repr):
        if f is None:
            continue
        cells = {c for _, c, _, _ in rs}
        oid = P + fname(f).strip() + '/%d' % f[2]
        if 0 in cells:
            ctx.bad(oid, 'a failing %s %s is not reported: %s returns success' % (f[0], f[1], name), rs[0][3])
        elif None in cells:
            ctx.maybe(oid, 'status')
        else:
            ctx.good(oid)
    for code in other_codes(ts.F):
        mo = SM(codes=lambda ts, i, f, a: (code,))
        run(ctx, name, mo)
        for f, rs in sorted(group(mo).items(), key=repr):
            if f is not None and 0 in {c for _, c, _, _ in rs}:
                ctx.bad(P + fname(f).strip() + '/%d' % code, 'a %s %s failing with status %d is not reported: %s returns success' % (f[0], f[1], code, name), rs[0][3])
    common(ctx, name, m, ts)


def common(ctx, name, m, ts, stop=()):
    P = name + '/'
    # (d) returned value is the status
    diff = [(k, v) for k, v in m.rets.items() if k[1] is not None and k[2] not in (None, 'void') and k[1] != k[2]]
    unk = [k for k in m.rets if k[1] is None or k[2] is None]
    if diff:
        (tags, c, rv), (node, inst) = diff[0]
        ctx.bad(P + 'return value', '%s returns %s while *pStatus is %s' % (name, rv, c), inst)
    elif unk:
        ctx.maybe(P + 'return value', 'not tracked')
    else:
        ctx.good(P + 'return value')
    # (h) hush
    rep = {}
    for (tags, c, rv), (node, inst) in m.rets.items():
        if c and c != EOFST and not (tags[0] and tags[0][2] == EOFST):
            rep.setdefault(tags[1], (c, tags[0], inst))
    if False in rep:
        c, f, inst = rep[False]
        if any(True for _ in ts.fa.calls('ffrprt')):
            ctx.bad(P + 'reported', '%s fails with status %d without printing the error stack (failure of %s %s)' % (name, c, f[0] if f else '', f[1] if f else ''), f[3] if f else inst)
        else:
            ctx.maybe(P + 'reported', 'no fits_report_error call')
    else:
        ctx.good(P + 'reported')
    mh = SM(hush=1, stop=stop)
    mh.codes = m.codes
    th = run(ctx, name, mh, stop=stop)
    if mh.report_sites:
        ctx.bad(P + 'hush', 'the CFITSIO error stack is printed although oi_hush_errors is set', mh.report_sites[0][1])
    else:
        ctx.good(P + 'hush')
    if {k[1] for k in mh.rets} != {k[1] for k in m.rets}:
        ctx.bad(P + 'hush status', 'oi_hush_errors changes the outcome of %s' % name, where(th, None))
    else:
        ctx.good(P + 'hush status')
    # (f) inherited status
    me = SM(stop=stop)
    te = run(ctx, name, me, entry=104, stop=stop)
    bad = [k for k in me.rets if k[1] is not None and k[1] != 104 or k[2] not in (None, 'void', 104)]
    if bad:
        ctx.bad(P + 'inherited', '%s called with status 104 already set ends with status %s, return value %s' % (name, bad[0][1], bad[0][2]), where(te, None))
    elif not me.rets or any(k[1] is None for k in me.rets):
        ctx.maybe(P + 'inherited', 'not tracked')
    else:
        ctx.good(P + 'inherited')
    if any(r for r in [k[0][1] for k in me.rets]):
        ctx.bad(P + 'inherited report', 'an inherited error is reported again by %s' % name, me.report_sites[0][1])
    # nothing is modified
    vis = {n[0] for n in te.parent}
    out = None
    for i, (v, a) in te.fa.stores():
        if i.bb.name in vis and region(a) is not None and region(a)[0] == 'arg' and a != te.status:
            out = i
    if out is not None:
        ctx.bad(P + 'inherited effect', '%s modifies its output although the status was already set on entry' % name, out)
    else:
        ctx.good(P + 'inherited effect')


# ---------------------------------------------------------------- whole files
class FM(SM):
    """read_oi_fits / write_oi_fits with the table functions summarised"""
    def item(self, f, a):
        return ''


WSTOP = WRITERS
RSTOP = ['read_oi_header', 'read_oi_target'] + list(NEXT)


@guarded
def status_files(ctx):
    # writing: any failure anywhere is returned
    m = FM(stop=WSTOP)
    ts = run(ctx, 'write_oi_fits', m, stop=WSTOP)
    seen = set()
    for f, rs in sorted(group(m).items(), key=repr):
        if f is None:
            if any(c == 0 for _, c, _, _ in rs):
                ctx.good('write_oi_fits/success')
            continue
        oid = 'write_oi_fits/%s' % f[0]
        cells = {c for _, c, _, _ in rs}
        seen.add(f[0])
        if 0 in cells:
            ctx.bad(oid, 'write_oi_fits returns success although %s failed: an incomplete file is taken for good' % f[0], rs[0][3])
        elif None in cells:
            ctx.maybe(oid, 'status')
        else:
            ctx.good(oid)
    for code in other_codes(ts.F):
        mo = FM(stop=WSTOP, codes=lambda ts, i, f, a: (code,))
        run(ctx, 'write_oi_fits', mo, stop=WSTOP)
        for f, rs in sorted(group(mo).items(), key=repr):
            if f is not None and 0 in {c for _, c, _, _ in rs}:
                ctx.bad('write_oi_fits/%s/%d' % (f[0], code), 'write_oi_fits returns success although %s failed with status %d' % (f[0], code), rs[0][3])
    common(ctx, 'write_oi_fits', m, ts, stop=WSTOP)
    # reading

    def codes(ts, i, f, a):
        if f in NEXT:
            return (ERR, EOFST)
        return (ERR,)

    class RM(FM):
        tags0 = (None, False)

        def on_call(self, ts, i, f, a, st, c, cur):
            if c == EOFST and f in NEXT:
                return st[2]        # end of file is not a failure
            return SM.on_call(self, ts, i, f, a, st, c, cur)

        def faults(self, ts, i, f, a):
            if f in NEXT:
                return (EOFST,) if self.cur_fault else (self.code, EOFST)
            return () if self.cur_fault else (self.code,)

        def skip_fault(self, st):
            self.cur_fault = st[2][0] is not None
            return False

        def __init__(self, code):
            FM.__init__(self, stop=RSTOP)
            self.code = code
    m = RM(ERR)
    ts = run(ctx, 'read_oi_fits', m, stop=RSTOP)
    judge_read(ctx, m, ts)
    for code in other_codes(ts.F):
        mo = RM(code)
        judge_read(ctx, mo, run(ctx, 'read_oi_fits', mo, stop=RSTOP))
    common_read(ctx, m, ts)


def judge_read(ctx, m, ts):
    for f, rs in sorted(group(m).items(), key=repr):
        cells = {c for _, c, _, _ in rs}
        if f is None:
            if 0 in cells:
                ctx.good('read_oi_fits/success')
            elif None not in cells:
                ctx.bad('read_oi_fits/success', 'read_oi_fits never succeeds', where(ts, None))
            if cells - {0, None}:
                ctx.bad('read_oi_fits/complete file', 'a sound file ends with status %s' % sorted(cells - {0, None}), where(ts, None))
            continue
        oid = 'read_oi_fits/%s' % f[0]
        strict = f[0] in ('ffopen', 'ffclos', 'read_oi_header', 'read_oi_target', 'ffopentest') or NEXT.get(f[0]) in STRICT
        if strict:
            if 0 in cells:
                ctx.bad(oid, 'read_oi_fits returns success although %s failed' % f[0], rs[0][3])
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.good(oid)
        elif f[0] in NEXT:
            if cells == {0}:
                ctx.good(oid)
            elif None in cells:
                ctx.maybe(oid, 'status')
            else:
                ctx.bad(oid, 'one unreadable OI_%s table makes read_oi_fits fail with %s instead of being skipped' % (NEXT[f[0]].upper(), sorted(cells - {0})), rs[0][3])

def common_read(ctx, m, ts):
    P = 'read_oi_fits/'
    diff = [(k, v) for k, v in m.rets.items() if k[1] is not None and k[2] is not None and k[1] != k[2]]
    if diff:
        ctx.bad(P + 'return value', 'read_oi_fits returns %s while *pStatus is %s' % (diff[0][0][2], diff[0][0][1]), diff[0][1][1])
    else:
        ctx.good(P + 'return value')
    rep = [(k, v) for k, v in m.rets.items() if k[1] and not k[0][1]]
    if rep and any(True for _ in ts.fa.calls('ffrprt')):
        ctx.bad(P + 'reported', 'read_oi_fits fails without printing the error stack', rep[0][1][1])
    else:
        ctx.good(P + 'reported')
    me = SM(stop=RSTOP)
    te = run(ctx, 'read_oi_fits', me, entry=104, stop=RSTOP)
    bad = [k for k in me.rets if k[1] is not None and k[1] != 104]
    if bad:
        ctx.bad(P + 'inherited', 'read_oi_fits called with status 104 ends with %s' % bad[0][1], where(te, None))
    else:
        ctx.good(P + 'inherited')


def status_all(ctx):
    for r in READERS:
        status_reader(ctx, r)
    for w in WRITERS:
        status_writer(ctx, w)
    status_files(ctx)


# ---------------------------------------------------------------- C06 file handles
OPEN = {'ffopen', 'ffinit', 'ffdkinit', 'ffdkopen', 'ffdopn', 'fftopn', 'ffopentest', 'ffreopen'}
CLOSE = {'ffclos', 'ffdelt'}


class HM(Model):
    def __init__(self, stop=()):
        self.stop = set(stop)
        self.tags0 = ('none',)
        self.bad = {}
        self.ends = set()

    def status_call(self, f):
        return is_ff(f) or f in self.stop

    def faults(self, ts, i, f, a):
        return (ERR, EOFST) if f in NEXT else (ERR,)

    def on_call(self, ts, i, f, a, st, c, cur):
        h = st[2][0]
        if f in OPEN:
            if h == 'open' and not cur:
                self.bad.setdefault('reopen', i)
            if c == 0 and not cur:
                return ('open',)
            return st[2]
        if f in CLOSE:
            if h == 'closed':
                self.bad.setdefault('double close', i)
            if h == 'none' and isinstance(cur, int) and self.handle(ts, i, st) == 'nz':
                self.bad.setdefault('close of a file that is not open', i)
            return ('closed',) if h == 'open' else st[2]
        if self.status_call(f) and h == 'closed' and f not in OPEN and cur == 0:
            self.bad.setdefault('use after close', i)
        return st[2]

    def handle(self, ts, i, st):
        return ts.cv(i.ops[0], st[0])

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        self.ends.add((tags[0], cells.get(ts.status)))
        if tags[0] == 'open':
            self.bad.setdefault('left open', inst)


@guarded
def handles_one(ctx, name, stop):
    m = HM(stop)
    ts = run(ctx, name, m, stop=stop)
    P = name + '/'
    txt = {'left open': 'returns with the file still open (status %s)' % sorted({str(c) for t, c in m.ends if t == 'open'}),
           'double close': 'closes the file twice', 'use after close': 'uses the file after closing it',
           'reopen': 'opens a second file without closing the first', 'close of a file that is not open': 'closes a file that was never opened'}
    for k in txt:
        if k in m.bad:
            ctx.bad(P + k, '%s %s' % (name, txt[k]), m.bad[k])
        else:
            ctx.good(P + k)
    if not any(t == 'closed' for t, c in m.ends):
        ctx.maybe(P + 'closed', 'no path opens the file')


def handles(ctx):
    p = ctx.prog()
    for name, F in sorted(p.public.items()):
        if not F.blocks:
            continue
        if any(i.op == 'call' and i.callee in OPEN | CLOSE for i in F.insts()) or name in ('read_oi_fits', 'write_oi_fits'):
            if F.params and name not in READERS and name not in WRITERS:
                handles_one(ctx, name, [x for x in RSTOP + WSTOP if x != name])
    for name in list(READERS) + WRITERS:
        own_handle(ctx, name)


@guarded
def own_handle(ctx, name):
    fa = ctx.fa(name)
    cs = [i for i, a in fa.calls() if i.callee in CLOSE and region(a[0]) == arg_of(fa, 0)]
    ops = [i for i, a in fa.calls() if i.callee in OPEN]
    ctx.expect(not cs, name + '/keeps the caller\'s file open', '%s closes the file it was given' % name, cs[0] if cs else None)
    if ops:
        handles_one(ctx, name, [])


# ---------------------------------------------------------------- C07 checksums
DIRTY = {'ffpky', 'ffuky', 'ffpcl', 'ffcrtb', 'ffcrim', 'fficol', 'fficls', 'ffpunt', 'ffpdat', 'ffpkys', 'ffpkyj', 'ffpkyd', 'ffukys', 'ffpcls',
         'ffpcld', 'ffpcle', 'ffpclj', 'ffpclk', 'ffibin', 'ffpcom', 'ffphis', 'ffmkys', 'ffmky', 'ffpcn', 'ffpclu', 'ffirow', 'ffdcol', 'ffpcnd'}
MOVE = {'ffmahd', 'ffmrhd', 'ffmnhd', 'ffcrtb', 'ffcrim', 'ffibin', 'ffcrhd'}
SUM = {'ffpcks', 'ffupck'}
KEYW = {'ffpky', 'ffuky', 'ffpdat', 'ffpkys', 'ffpkyj', 'ffpkyd', 'ffukys', 'ffpcom', 'ffphis', 'ffmkys', 'ffmky'}


class CM(Model):
    def __init__(self):
        self.tags0 = ('untouched',)
        self.bad = {}
        self.ok = False

    def faults(self, ts, i, f, a):
        return ()

    def on_call(self, ts, i, f, a, st, c, cur):
        h = st[2][0]
        if not is_ff(f) or cur:
            return st[2]
        if f in MOVE:
            if h == 'dirty':
                self.bad.setdefault('moved', i)
            h = 'dirty' if f in DIRTY else 'untouched'
        elif f in DIRTY:
            h = 'stale' if f in KEYW and h in ('clean', 'stale') else 'dirty'
        elif f == 'ffpcks' and c == 0 or f == 'ffupck' and c == 0 and h in ('clean', 'stale'):
            h = 'clean'         # ffupck leaves the checksum of the data as it was
        return (h,)

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        if cells.get(ts.status) == 0:
            if tags[0] != 'clean':
                self.bad.setdefault('end', (inst, tags[0]))
            else:
                self.ok = True


@guarded
def sums_writer(ctx, name):
    m = CM()
    ts = run(ctx, name, m)
    P = name + '/'
    if 'moved' in m.bad:
        ctx.bad(P + 'before moving on', 'the HDU is left before its checksum is brought up to date', m.bad['moved'])
    else:
        ctx.good(P + 'before moving on')
    if 'end' in m.bad:
        ctx.bad(P + 'checksum last', '%s can succeed with the HDU %s' % (
            name, 'modified after the checksum was written' if m.bad['end'][1] in ('dirty', 'stale') else 'without a checksum'), m.bad['end'][0])
    elif m.ok:
        ctx.good(P + 'checksum last')
    else:
        ctx.maybe(P + 'checksum last', 'no success path')


class VM(Model):
    def __init__(self):
        self.tags0 = ('unmoved',)
        self.bad = {}
        self.ok = False

    def on_call(self, ts, i, f, a, st, c, cur):
        h = st[2][0]
        if not is_ff(f) or cur:
            return st[2]
        if f in MOVE:
            h = 'unverified'
        elif f == 'ffvcks':
            h = 'verified'
        elif f.startswith('ffgcv') or f == 'ffgcx':
            if h != 'verified':
                self.bad.setdefault('data', i)
        return (h,)

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        if cells.get(ts.status) == 0:
            if tags[0] != 'verified':
                self.bad.setdefault('end', inst)
            else:
                self.ok = True


class SumO(Oracle):
    """checksum verdicts as given; every CFITSIO status zero"""
    def __init__(self, data, hdu):
        self.v = (data, hdu)
        self.cells = {}
        self.status = None

    def val(self, t):
        if t[0] == 'ld':
            k = self.cells.get(t[1])
            if k is not None:
                return self.v[k]
            if self.status is not None and t[1] == self.status:
                return 0
        if t[0] == 'call' and is_ff(t[1]):
            return 0
        return None


PRINTS = {'printf', 'fprintf', 'puts', 'fputs', 'g_print', 'g_printerr', 'g_log', 'fwrite', 'putchar', 'fputc', 'g_warning', 'vprintf', 'vfprintf'}


def varprint(ctx, i):
    G = ctx.prog().resolve(i.callee, i.origin[0])
    return G is not None and G.varargs


@guarded
def sums_reader(ctx, name):
    m = VM()
    ts = run(ctx, name, m)
    P = name + '/'
    if 'data' in m.bad:
        ctx.bad(P + 'verified before data', '%s reads table data from an HDU whose checksum has not been verified' % name, m.bad['data'])
    else:
        ctx.good(P + 'verified before data')
    if 'end' in m.bad:
        ctx.bad(P + 'verified', '%s can succeed without verifying the checksum of the HDU it read' % name, m.bad['end'])
    elif m.ok:
        ctx.good(P + 'verified')
    else:
        ctx.maybe(P + 'verified', 'no success path')
    base = ts.fa
    vs = list(base.calls('ffvcks'))
    if not vs:
        ctx.maybe(P + 'warning', 'no verification call')
        return
    fas = {}
    for d, h in ((1, 1), (0, 0), (-1, 1), (1, -1), (-1, -1), (-1, 0), (0, -1)):
        o = SumO(d, h)
        o.status = arg_of(base, len(base.F.params) - 1)
        for i, a in vs:
            o.cells[a[1]] = 0
            o.cells[a[2]] = 1
        fa = ctx.fa(name, o)
        st = list(fa.calls('ffvcks'))
        if not st:
            ctx.maybe(P + 'warning', 'verification unreachable')
            return
        fas[(d, h)] = (fa, {i.bb.name for i, a in fa.calls() if i.callee in PRINTS or varprint(ctx, i)}, st)
    normal = fas[(1, 1)][1]
    extra = fas[(0, 0)][1] - normal
    if extra:
        fa = fas[(0, 0)][0]
        ctx.bad(P + 'no checksum, no warning', 'a file without checksum keywords is reported as corrupt', fa.F.blocks[sorted(extra)[0]].term)
    else:
        ctx.good(P + 'no checksum, no warning')
    for k, what in (((-1, 1), 'data'), ((1, -1), 'HDU')):
        fa, pr, st = fas[k]
        goals = pr - normal
        oid = P + 'warning ' + what
        miss = None
        for i, a in st:
            if i.bb.name in goals:
                continue
            miss = miss or fa.must_pass(i.bb.name, goals, {b.name for b in rets(fa)})
        if not goals and not (pr - normal):
            ctx.bad(oid, 'a wrong %s checksum is not reported by %s' % (what, name), st[0][0])
        elif miss:
            ctx.bad(oid, 'a wrong %s checksum is not always reported by %s' % (what, name), st[0][0])
        else:
            ctx.good(oid)
        new = [c for b, c in open_conds(fa) if b in fas[(1, 1)][0].out and fas[(1, 1)][0].brval.get(b) != c or c is None]
        if new:              # a status merged from several paths: what follows may not belong to the checksum
            ctx.maybe(oid + ' read anyway', [show(c)[:90] for c in new if c is not None])
            continue
        for i, a in fa.calls():
            if i.bb.name in goals and i.callee == 'fprintf' and any(x[0] == 'glob' and x[1] == 'stderr' for x in subterms(a[0])):
                ctx.bad(oid + ' stream', 'a wrong %s checksum is reported on stderr by %s' % (what, name), i)
        st_ = arg_of(base, len(base.F.params) - 1)
        early = [(i, v) for i, (v, ad) in fa.stores() if ad == st_ and v[0] == 'c' and v[1] != 0 and i.bb.name not in fas[(1, 1)][0].out]
        if early:
            ctx.bad(oid + ' read anyway', '%s fails with status %d when the %s checksum is wrong' % (name, early[0][1][1], what), early[0][0])
        else:
            ctx.good(oid + ' read anyway')
    gd, gh = fas[(-1, 1)][1] - normal, fas[(1, -1)][1] - normal
    fa, pr, st = fas[(-1, -1)]
    if gd and gh and not (gd & gh) and not pr - normal - gd - gh:
        for g, what in ((gd, 'data'), (gh, 'HDU')):
            ctx.expect(g & pr, P + 'warning ' + what + ' of both', 'a wrong %s checksum is not reported by %s when both are wrong' % (what, name), st[0][0])
    for k, own, what in (((-1, 0), gd, 'HDU'), ((0, -1), gh, 'data')):
        fa, pr, st = fas[k]
        x = pr & (gh if what == 'HDU' else gd)
        if gd and gh and not (gd & gh):
            ctx.expect(not x, P + 'no %s checksum, no warning' % what, 'an absent %s checksum is reported as wrong by %s' % (what, name), st[0][0])


def sums(ctx):
    for w in WRITERS:
        sums_writer(ctx, w)
    for r in READERS:
        sums_reader(ctx, r)
