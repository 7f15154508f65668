"""Data-point iterators (C14): oi_vis_iter, oi_vis2_iter, oi_t3_iter."""
from engine.lib import *
from .filter import FO, KIND, R, P2, peq
from .tables import state_at
from .files import leaves
from .merge import anchor

IT = '_oi_iter'
LISTS = {'vis': 'visList', 'vis2': 'vis2List', 't3': 't3List'}
NAMES = ('arrname', 'insname', 'corrname')
STATE = ('link', 'pWave', 'extver', 'irec', 'iwave')
LOOK = 'oi_fits_lookup_wavelength'


def istate(t):
    """name of the iterator member when t is its value at some point"""
    a = t[1] if t[0] == 'ld' else t[2] if t[0] == 'mphi' else None
    if a is None or a[0] != 'gep' or a[1][0] != 'arg' or a[1][1] != 0 or len(a[2]) != 1 or a[2][0][:2] != ('.', IT):
        return None
    return a[2][0][2]


def islink(t):
    if istate(t) == 'link':
        return True
    f = load_field(t)
    return bool(f) and f in (('_GList', 'next'), ('_GList', 'prev')) and islink(base_of(t[1]))


def istable(t):
    f = load_field(t)
    return bool(f) and f == ('_GList', 'data') and islink(base_of(t[1]))


class IO(FO):
    pw0 = None

    """nav: dict with the numbers of the current position; None for an unknown position"""
    def __init__(self, kind, nav=None, args=None, arrname=1, insname=1, corrname=1, wave='inside', accept=1, pwave='nz', **A):
        self.nav = nav
        self.pw = pwave
        self.argv = args
        self.names = dict(arrname=arrname, insname=insname, corrname=corrname)
        self.wv = wave
        self.acc = accept
        self.seen = {}
        FO.__init__(self, kind, **A)

    def begin(self):
        self.seen = {}
        self.foreign = {}

    def rec(self, t):
        """field of a record of the current table"""
        a = t[1]
        b = base_of(a)
        st = steps_of(a)
        if b[0] == 'ld' and last_field(b[1]) == ('oi_' + self.kind, 'record') and istable(base_of(b[1])) \
                and last_field(a) and last_field(a)[0] == self.k['rec']:
            i = st[0][1] if st and st[0][0] == '[' else C(0)
            self.seen[('rec', base_of(b[1]), i)] = 1
            return last_field(a)[1]
        return None

    def infield(self, t):
        if t[0] == 'ld':
            f = load_field(t)
            if f and f[0] == self.k['rec']:
                return self.rec(t)
        return None

    def inelem(self, t):
        f = elem_field(t)
        if f and f[0] == self.k['rec']:
            b = base_of(t[1])
            if self.rec(b):
                self.seen[('chan', f[1], elem_index(t))] = 1
                return f[1]
        return None

    def effwave(self, t):
        if elem_field(t) == ('oi_wavelength', 'eff_wave'):
            b = base_of(t[1])
            self.seen[('wave', base_of(b[1]), elem_index(t))] = 1
            return True
        return False

    def quantity(self, t):
        if self.effwave(t):
            return ('wave', None)
        return FO.quantity(self, t)

    def num(self, t):
        n = self.nav
        if n is None:
            return None
        if t[0] == 'c':
            return t[1]
        if t[0] == 'lin':
            r = t[1]
            for x, k in t[2]:
                v = self.num(x)
                if v is None:
                    return None
                r += k * v
            return r
        s = istate(t)
        if s in n:
            return n[s]
        f = load_field(t)
        if f and f[0] == 'oi_' + self.kind and istable(base_of(t[1])) and f[1] in ('nwave', 'numrec'):
            return n[f[1]] if istate(base_of(base_of(t[1])[1])) == 'link' else None
        if f == ('oi_wavelength', 'nwave') and (istate(base_of(t[1])) == 'pWave' or base_of(t[1])[:2] == ('call', LOOK)):
            return n['nwave']
        return None

    def val(self, t):
        if t[0] == 'arg' and t[1] > 0 and self.argv is not None:
            return self.argv.get(t[1], 0) if isinstance(self.argv, dict) else self.argv
        f = load_field(t)
        if f and f[0] == 'oi_filter_spec':
            if f[1].endswith('_pttn'):
                return 0
            if f[1] == 'accept_' + self.kind:
                return self.acc
        if f and f == (IT, 'pData'):
            return 'nz'
        if t[0] == 'app' and t[1] in ('g_pattern_match_string', 'g_pattern_match_simple', 'g_pattern_spec_match_string'):
            g = last_field(t[2][1])
            if g and g[1] in self.names:
                return self.names[g[1]]
            return None
        if self.nav is not None:
            if islink(t):
                if istate(t) == 'link':
                    return self.nav.get('linkp', 'nz')
                if istate(base_of(t[1])) == 'link':
                    return self.nav.get('next') if load_field(t)[1] == 'next' else 'nz'
                return None
        if istate(t) == 'pWave' or t[0] == 'call' and t[1] == LOOK:
            return self.pw if self.pw0 is None or t[0] == 'call' else self.pw0
        return FO.val(self, t)

    def rel(self, a, b):
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return '<' if x < y else '>' if x > y else '='
        r = self.rangeof(b)
        if r and r[0] == 'wave_range':
            q = self.quantity(a)
            if q == ('wave', None):
                return R[self.wv][r[1]]
        if a == C(0) and load_field(b) and load_field(b)[1] in ('nwave', 'numrec'):
            return None if self.nav is not None else '<'
        return FO.rel(self, a, b)


NAV = {'next channel': [dict(iwave=0, nwave=4, irec=2, numrec=5, extver=3), dict(iwave=2, nwave=4, irec=4, numrec=5, extver=1),
                        dict(iwave=0, nwave=2, irec=0, numrec=1, extver=1)],
       'next record': [dict(iwave=3, nwave=4, irec=2, numrec=5, extver=3), dict(iwave=0, nwave=1, irec=0, numrec=2, extver=1),
                       dict(iwave=3, nwave=4, irec=3, numrec=5, extver=1)],
       'next table': [dict(iwave=3, nwave=4, irec=4, numrec=5, extver=3), dict(iwave=3, nwave=4, irec=4, numrec=5, extver=3, nowave=1), dict(iwave=0, nwave=1, irec=0, numrec=1, extver=1)],
       'end': [dict(iwave=3, nwave=4, irec=4, numrec=5, extver=3), dict(iwave=0, nwave=1, irec=0, numrec=1, extver=1)]}


def retvals(fa):
    out = []
    for b in rets(fa):
        v = fa.args.get(id(b.term), (None,))[0]
        for x in leaves(fa, v) if v is not None else [('undef',)]:
            if x[0] == 'cmp' and x[1] in ('eq', 'ne') and C(0) in x[2:4]:
                ys = leaves(fa, x[2] if x[3] == C(0) else x[3])
                if all(y[0] == 'c' for y in ys):
                    out += [C(int((y[1] != 0) == (x[1] == 'ne'))) for y in ys]
                    continue
            out.append(x)
    return out


def opaque_conds(fa, o):
    """undecided conditions other than about the position of the iterator or the caller's pointers"""
    r = []
    for n, c in open_conds(fa):
        if c is None:
            r.append(('undef',))
            continue
        if any(x[0] == 'phi' for x in subterms(c)) and all(x[0] == 'c' for y in c[2:4] for x in leaves(fa, y)):
            continue            # outcome of a test whose own conditions are listed
        if c[0] == 'cmp':
            pos = all(x[0] in ('null', 'c') or islink(x) or istate(x) or posn(x) or x[0] == 'arg' for x in c[2:4])
            if pos:
                continue
        r.append(c)
    return r


def posn(x):
    if x[0] == 'lin':
        return all(posn(y) for y, k in x[2])
    f = load_field(x)
    return bool(istate(x)) or bool(f) and f[1] in ('nwave', 'numrec')


def readable(c):
    return all(x[0] not in ('phi', 'undef', 'sel', 'call') for x in subterms(c))


@guarded
def judge_next(ctx, oid, kind, want, nav, **A):
    fn = 'oi_%s_iter_next' % kind
    o = IO(kind, nav=nav, args='nz', **A)
    fa = ctx.fa(fn, o, stop=[LOOK])
    vs = retvals(fa)
    ok = (lambda v: v == C(1)) if want else (lambda v: v == C(0))
    oc = opaque_conds(fa, o)
    if vs and all(ok(v) for v in vs):
        ctx.good(oid)
        return o, fa
    if not want and not vs:
        ctx.good(oid)        # goes on for ever in this position: judged by the other positions
        return o, fa
    what = 'a data point that meets every criterion is skipped by %s' if want else 'a data point that must be rejected is returned by %s'
    if o.foreign:
        a, b = next(iter(o.foreign))
        ctx.bad(oid, (what % fn) + ': acceptance depends on comparing %s with %s' % (show(a), show(b)), anchor(fa))
    elif not oc and (not vs or not all(ok(v) for v in vs) and all(v[0] == 'c' for v in vs)):
        ctx.bad(oid, what % fn, anchor(fa))
    elif oc and all(readable(c) for c in oc) and all(v[0] == 'c' for v in vs) and any(simple(o, c) for c in oc):
        ctx.bad(oid, (what % fn) + ': depends on %s' % show([c for c in oc if simple(o, c)][0]), anchor(fa))
    else:
        ctx.maybe(oid, [show(v) for v in vs][:3] + [show(c)[:90] for c in oc][:3])
    return None


def simple(o, c):
    """a comparison of one datum or criterion with a constant or another criterion"""
    if c[0] != 'cmp':
        return False
    xs = [x for x in c[2:4]]
    return all(x[0] in ('c', 'cf') or named(o, x) or load_field(x) and load_field(x)[0] == 'oi_filter_spec' or o.infield(x) or o.inelem(x) for x in xs)


CH = dict(iwave=0, nwave=4, irec=2, numrec=5, extver=3)


def named(o, t):
    """a character of one of the names the current table refers to"""
    if t[0] != 'ld':
        return False
    f = last_field(t[1])
    return bool(f) and f[0] == 'oi_' + o.kind and f[1] in o.names


@guarded
def criteria(ctx, kind):
    fn = 'oi_%s_iter_next' % kind

    def case(name, want, **A):
        judge_next(ctx, '%s/%s' % (fn, name), kind, want, CH if want else None, **A)
    crit = [('mjd', None)] + [('bas', n) for n in KIND[kind]['bas']] + [('uvrad', n) for n in KIND[kind]['bas']] + \
        [('snr', n) for n in KIND[kind]['snr']] + [('wave', None)]
    case('all criteria met', True)
    for k, s in crit:
        for r in R:
            A = {k: r} if s is None else {k: {s: r}}
            case('%s%s %s' % (k, ' ' + s if s else '', r), r not in ('below', 'above'), **A)
    case('target given, same', True, ftarget=7, rtarget=7)
    case('target given, other', False, ftarget=7, rtarget=8)
    case('target 0 given, other', False, ftarget=0, rtarget=8)
    case('target 0 given, same', True, ftarget=0, rtarget=0)
    case('flagged accepted', True, flag=1, accept_flagged=1)
    case('flagged rejected', False, flag=1, accept_flagged=0)
    case('unflagged', True, flag=0, accept_flagged=0)
    for n in NAMES:
        case('other ' + n, False, **{n: 0})
    case('no such OI_WAVELENGTH', False, pwave=0)
    if kind == 't3':
        for r in ('below', 'above'):
            case('amp not wanted, its snr ' + r, True, accept_t3amp=0, snr={'amp': r})
            case('phi not wanted, its snr ' + r, True, accept_t3phi=0, snr={'phi': r})
            case('amp not wanted, phi snr ' + r, False, accept_t3amp=0, snr={'phi': r})
            case('phi not wanted, amp snr ' + r, False, accept_t3phi=0, snr={'amp': r})
        case('neither wanted', False, accept_t3amp=0, accept_t3phi=0)
    else:
        case('kind not wanted', False, accept=0)


def same_loc(a, b):
    return strip_ep(a) == strip_ep(b)


@guarded
def position(ctx, kind):
    """where next goes, and what it hands out"""
    fn = 'oi_%s_iter_next' % kind
    S = 'oi_' + kind
    P = fn + '/'
    first = start(ctx, kind)
    navs = {k: list(v) for k, v in NAV.items()}
    if first:
        for nw in (1, 4):
            navs['first datum'] = navs.get('first datum', []) + [dict(first, nwave=nw, numrec=m) for m in (1, 3)]
    for name, cases in navs.items():
        for q, nav in enumerate(cases):
            oid = '%s%s %d' % (P, name, q)
            nav = dict(nav, next='nz' if name in ('next table',) or name in ('next channel', 'next record', 'first datum') and q == 1 else 0)
            o = IO(kind, nav=nav, args='nz')
            if nav.get('nowave'):
                o.pw0 = 0
            fa = ctx.fa(fn, o, stop=[LOOK])
            vs = retvals(fa)
            oc = opaque_conds(fa, o)
            it = arg_of(fa, 0)
            want = name != 'end'
            if not (vs and all(v == C(int(want)) for v in vs)):
                if all(v[0] == 'c' for v in vs) and not oc and not o.foreign and (vs or list(open_conds(fa)) == []):
                    ctx.bad(oid, '%s %s' % (fn, 'reports the end of the data before the last datum' if want else 'does not report the end of the data'), anchor(fa))
                else:
                    ctx.maybe(oid, [show(v) for v in vs][:3] + [show(c)[:80] for c in oc][:3])
                continue
            st = {}
            for s in STATE:
                v = final_mem(fa, fld(it, IT, s))
                st[s] = v[0] if len(v) == 1 and not any(x[0] == 'mphi' for x in subterms(v[0])) else None
            exp = {'next channel': dict(iwave=nav['iwave'] + 1, irec=nav['irec'], extver=nav['extver']),
                   'next record': dict(iwave=0, irec=nav['irec'] + 1, extver=nav['extver']),
                   'next table': dict(iwave=0, irec=0, extver=nav['extver'] + 1),
                   'first datum': dict(iwave=0, irec=0, extver=1),
                   'end': {k: nav[k] for k in ('iwave', 'irec', 'extver')}}[name]
            good = True
            for s, w in exp.items():
                n = o.num(st[s]) if st[s] is not None else None
                if n is None:
                    good = False
                    ctx.maybe(oid + ' ' + s, show(st[s]) if st[s] else '?')
                elif n != w:
                    good = False
                    ctx.bad(oid + ' ' + s, '%s: from channel %d of %d, record %d of %d of table %d it goes to %s %d instead of %d' %
                            (fn, nav['iwave'], nav['nwave'], nav['irec'], nav['numrec'], nav['extver'], s, n, w), anchor(fa))
                else:
                    ctx.good(oid + ' ' + s)
            l0 = ('ld', fld(it, IT, 'link'))
            w0 = ('ld', fld(it, IT, 'pWave'))
            link = strip_ep(st['link']) if st['link'] is not None else None
            want_link = ('ld', fld(l0, '_GList', 'next')) if name == 'next table' else l0
            if link == want_link:
                ctx.good(oid + ' link')
            elif link is not None and islink(link) and not any(x[0] == 'mphi' for x in subterms(link)):
                ctx.bad(oid + ' link', '%s goes to table %s' % (fn, show(link)), anchor(fa))
                continue
            else:
                ctx.maybe(oid + ' link', show(link) if link else '?')
                continue
            T = ('ld', fld(link, '_GList', 'data'))
            pw = st['pWave']
            if name == 'next table':
                if pw is not None and pw[0] == 'call' and pw[1] == LOOK:
                    a = [strip_ep(x) for x in fa.args[id(fa.F.defs[pw[2]])]]
                    wa = [('ld', fld(it, IT, 'pData')), fld(T, S, 'insname')]
                    if a == wa:
                        ctx.good(oid + ' wavelength')
                    elif all(transparent(x) for x in a):
                        ctx.bad(oid + ' wavelength', '%s takes the wavelengths of %s' % (fn, show(a[1])), fa.F.defs[pw[2]])
                    else:
                        ctx.maybe(oid + ' wavelength', [show(x) for x in a])
                elif pw is not None and strip_ep(pw) == w0:
                    ctx.bad(oid + ' wavelength', '%s keeps the wavelengths of the previous table' % fn, anchor(fa))
                else:
                    ctx.maybe(oid + ' wavelength', show(pw) if pw else '?')
            elif pw is not None and strip_ep(pw) == w0:
                ctx.good(oid + ' wavelength')
            else:
                ctx.maybe(oid + ' wavelength', show(pw) if pw else '?')
            if not want or not good:
                continue
            # what was judged is the datum gone to
            for k, x, i in o.seen:
                n = o.num(i)
                if k == 'rec':
                    ctx.expect(strip_ep(x) == T and (n is None or n == exp['irec']), oid + ' judged', '%s judges record %s of %s instead of the one it goes to' % (fn, show(i), show(x)), anchor(fa))
                elif k == 'chan':
                    ctx.expect(n is None or n == exp['iwave'], oid + ' judged', '%s judges channel %s of %s instead of the one it goes to' % (fn, show(i), x.upper()), anchor(fa))
                elif k == 'wave':
                    ctx.expect((n is None or n == exp['iwave']) and (pw is None or strip_ep(x) == strip_ep(pw)), oid + ' judged',
                               '%s judges the wavelength of channel %s of %s' % (fn, show(i), show(x)), anchor(fa))
            # what is handed out
            outs = {1: st['extver'], 2: T, 3: st['irec'], 4: gep(('ld', fld(T, S, 'record')), [('[', st['irec'], 'p')]), 5: st['iwave']}
            nm = {1: 'EXTVER', 2: 'table', 3: 'record number', 4: 'record', 5: 'channel'}
            for k, w in outs.items():
                vals = [strip_ep(v) for v in final_mem(fa, arg_of(fa, k))]
                o2 = '%s gives %s' % (oid, nm[k])
                w = strip_ep(w)
                if vals == [w] or len(vals) == 1 and k in (1, 3, 5) and o.num(vals[0]) is not None and o.num(vals[0]) == o.num(w):
                    ctx.good(o2)
                elif vals == [('ld', arg_of(fa, k))]:
                    ctx.bad(o2, '%s does not give the %s' % (fn, nm[k]), anchor(fa))
                elif vals and all(transparent(v) for v in vals):
                    ctx.bad(o2, '%s gives %s as the %s instead of %s' % (fn, show(vals[0]), nm[k], show(w)), anchor(fa))
                else:
                    ctx.maybe(o2, [show(v) for v in vals])
    # no table
    oid = P + 'no table'
    o = IO(kind, nav=dict(CH, linkp=0, next=0), args='nz')
    fa = ctx.fa(fn, o, stop=[LOOK])
    vs = retvals(fa)
    if vs and all(v == C(0) for v in vs):
        ctx.good(oid)
    elif any(v == C(1) for v in vs) and not opaque_conds(fa, o):
        ctx.bad(oid, '%s returns a datum although there is none' % fn, anchor(fa))
    else:
        ctx.maybe(oid, [show(v) for v in vs])
    # each location is filled in whatever the others
    for k in range(1, 6):
        o = IO(kind, nav=CH, args={k: 'nz'})
        fa = ctx.fa(fn, o, stop=[LOOK])
        if retvals(fa) != [C(1)]:
            continue
        vals = final_mem(fa, arg_of(fa, k))
        oid = P + 'argument %d alone' % (k + 1)
        if any(strip_ep(v) == ('ld', arg_of(fa, k)) for v in vals):
            ctx.bad(oid, '%s leaves a return location unset (argument %d)' % (fn, k + 1), anchor(fa))
        else:
            ctx.good(oid)
    # absent return locations are left alone
    fa = ctx.fa(fn, IO(kind, nav=CH, args=0), stop=[LOOK])
    hot = [i for i, (v, a) in fa.stores() if base_of(a)[0] == 'arg' and base_of(a)[1] > 0 or base_of(a)[0] == 'null']
    ctx.expect(not hot, P + 'absent return locations', '%s stores through a null pointer' % fn, hot[0] if hot else None)


@guarded
def going_on(ctx, kind):
    """after a rejected datum the next one is tried, without skipping any"""
    fn = 'oi_%s_iter_next' % kind
    P = fn + '/'
    b0 = KIND[kind]['bas'][0] if isinstance(KIND[kind]['bas'], list) else next(iter(KIND[kind]['bas']))
    for name, lev, A in (('flagged', 0, dict(flag=1, accept_flagged=0)), ('wave above', 0, dict(wave='above')), ('wave below', 0, dict(wave='below')),
                         ('snr', 0, dict(snr={k: 'below' for k in KIND[kind]['snr']})),
                         ('mjd below', 1, dict(mjd='below')), ('mjd above', 1, dict(mjd='above')),
                         ('other target', 1, dict(ftarget=7, rtarget=8)), ('bas above', 1, dict(bas={b0: 'above'})), ('bas below', 1, dict(bas={b0: 'below'})),
                         ('other insname', 2, dict(insname=0))):
        oid = P + 'goes on after ' + name
        o = IO(kind, nav=dict(CH), args='nz', **A)
        fa = ctx.fa(fn, o, stop=[LOOK])
        vs = retvals(fa)
        oc = opaque_conds(fa, o)
        if not vs:
            ctx.good(oid)
        elif not oc and not o.foreign and all(v == C(0) for v in vs):
            ctx.bad(oid, '%s reports the end of the data after a datum that is rejected (%s)' % (fn, name), anchor(fa))
        else:
            ctx.maybe(oid, [show(c)[:80] for c in oc])
            continue
        if vs:
            continue
        it = arg_of(fa, 0)
        oid += ' by one'
        back = [(a, b) for a, b in fa.exec_edges if b in fa.F.loops and a in fa.F.loops[b]]
        outer = [(a, b) for a, b in back if not any(b in fa.F.loops[h] and h != b for h in fa.F.loops if h in fa.reach)]
        for a, h in outer:
            w = ladd(strip_ep(fa.mem_load(fa.out[a], fld(it, IT, 'iwave'), None)), ('mphi', h, fld(it, IT, 'iwave')), -1)
            r = ladd(strip_ep(fa.mem_load(fa.out[a], fld(it, IT, 'irec'), None)), ('mphi', h, fld(it, IT, 'irec')), -1)
            if r[0] == 'c' and r[1] != 0 and w[0] == 'c':
                ctx.bad(oid, '%s skips channels of a record after a rejected datum (%s)' % (fn, name), fa.F.blocks[a].term)
        for a, h in outer:
            v = {x: strip_ep(fa.mem_load(fa.out[a], fld(it, IT, x), None)) for x in ('iwave', 'irec', 'extver')}
            n = {x: o.num(t) if all(y[1] == h for y in subterms(t) if y[0] == 'mphi') else None for x, t in v.items()}
            x = ('iwave', 'irec', 'extver')[lev]
            if n[x] is None:
                ctx.maybe(oid, show(v[x]))
            elif lev == 0 and n[x] != CH['iwave'] + 1 or lev and not CH[x] <= n[x] <= CH[x] + 1:
                ctx.bad(oid, '%s goes from %s %d to %d after a rejected datum (%s)' % (fn, x, CH[x], n[x], name), fa.F.blocks[a].term)
            else:
                ctx.good(oid)
    for name, A in (('flagged', dict(flag=1, accept_flagged=0)), ('no OI_WAVELENGTH', dict(pwave=0)), ('other insname', dict(insname=0))):
        oid = P + 'goes on to the next table, which is rejected: ' + name
        nav = dict(iwave=3, nwave=4, irec=4, numrec=5, extver=3, next='nz')
        o = IO(kind, nav=nav, args='nz', **A)
        fa = ctx.fa(fn, o, stop=[LOOK])
        if retvals(fa):
            ctx.maybe(oid, [show(c)[:80] for c in opaque_conds(fa, o)])
            continue
        it = arg_of(fa, 0)
        back = [(a, b) for a, b in fa.exec_edges if b in fa.F.loops and a in fa.F.loops[b]]
        for a, h in back:
            if any(h in fa.F.loops[x] and x != h for x in fa.F.loops if x in fa.reach):
                continue
            v = {x: strip_ep(fa.mem_load(fa.out[a], fld(it, IT, x), None)) for x in ('link', 'extver')}
            ek = fld(it, IT, 'extver')
            l0 = ('mphi', h, fld(it, IT, 'link'))
            moved = v['link'] != l0 and any(y == l0 for y in subterms(v['link']))
            if moved and v['extver'] in (('ld', ek), ('mphi', h, ek)):
                ctx.bad(oid, '%s goes to the next table without counting it in EXTVER (%s)' % (fn, name), fa.F.blocks[a].term)
            elif moved and any(v['extver'] == ladd(C(1), y) for y in (('mphi', h, ek), ladd(('ld', ek), ('iter', h)))):
                ctx.good(oid)
            else:
                ctx.maybe(oid, [show(x) for x in v.values()])


def start(ctx, kind):
    """the position oi_*_iter_init leaves: numbers, or None"""
    fn = 'oi_%s_iter_init' % kind
    fa = ctx.fa(fn, stop=[LOOK, 'init_oi_filter'])
    r = {}
    for s in ('iwave', 'irec', 'extver'):
        v = final_mem(fa, fld(arg_of(fa, 0), IT, s))
        if len(v) != 1 or v[0][0] != 'c':
            return None
        r[s] = v[0][1]
    return r


class SO(Oracle):
    def __init__(self, link, filt):
        self.link, self.filt = link, filt

    def val(self, t):
        if t[0] == 'arg':
            return self.filt if t[1] == 2 else 'nz'
        f = load_field(t)
        if f and f[0] == 'oi_fits' and f[1] in LISTS.values():
            return self.link
        if istate(t) == 'link':
            return self.link
        return None


@guarded
def init(ctx, kind):
    fn = 'oi_%s_iter_init' % kind
    S = 'oi_' + kind
    P = fn + '/'
    for link in ('nz', 0):
        for filt in ('nz', 0):
            tag = '%s%s, %s/' % (P, 'with tables' if link else 'without tables', 'filter given' if filt else 'no filter')
            fa = ctx.fa(fn, SO(link, filt), stop=[LOOK, 'init_oi_filter'])
            it, data, fl = (arg_of(fa, k) for k in range(3))

            def fin(s):
                v = [strip_ep(x) for x in final_mem(fa, fld(it, IT, s))]
                return v[0] if len(v) == 1 else None

            def eq(s, w, what):
                v = fin(s)
                if v == w or w is not None and link == 0 and s == 'link' and v in (C(0), ('null',)):
                    ctx.good(tag + s)
                elif link and s == 'link' and v is not None and v[0] in ('call', 'app') and v[1].startswith('g_list_') and v[1] != 'g_list_first':
                    ctx.bad(tag + s, '%s %s (%s)' % (fn, what, show(v)), anchor(fa))
                elif v is not None and (transparent(v) or v[0] in ('c', 'null')):
                    ctx.bad(tag + s, '%s %s (%s)' % (fn, what, show(v)), anchor(fa))
                else:
                    ctx.maybe(tag + s, show(v) if v else '?')
            eq('pData', data, 'does not remember the dataset')
            head = ('ld', fld(data, 'oi_fits', LISTS[kind]))
            eq('link', head, 'does not start with the first table')
            for s in ('iwave', 'irec', 'extver'):
                v = fin(s)
                if v is not None and v[0] == 'c':
                    ctx.good(tag + s)
                elif v == ('ld', fld(it, IT, s)):
                    ctx.bad(tag + s, '%s leaves %s unset' % (fn, s), anchor(fa))
                else:
                    ctx.maybe(tag + s, show(v) if v else '?')
            if link:
                v = final_mem(fa, fld(it, IT, 'pWave'))
                v = v[0] if len(v) == 1 else None
                if v is not None and v[0] == 'call' and v[1] == LOOK:
                    a = [strip_ep(x) for x in fa.args[id(fa.F.defs[v[2]])]]
                    if a == [data, fld(('ld', fld(head, '_GList', 'data')), S, 'insname')]:
                        ctx.good(tag + 'pWave')
                    elif all(transparent(x) for x in a):
                        ctx.bad(tag + 'pWave', '%s takes the wavelengths of %s' % (fn, show(a[1])), fa.F.defs[v[2]])
                    else:
                        ctx.maybe(tag + 'pWave', [show(x) for x in a])
                elif v is not None and (v in (C(0), ('null',)) or strip_ep(v) == ('ld', fld(it, IT, 'pWave'))):
                    ctx.bad(tag + 'pWave', '%s does not look up the wavelengths of the first table' % fn, anchor(fa))
                else:
                    ctx.maybe(tag + 'pWave', show(v) if v else '?')
            F = fld(it, IT, 'filter')
            cps = [(i, a) for i, a in fa.calls('memcpy', 'llvm.memcpy.p0.p0.i64', 'memmove') if strip_ep(a[0]) == F]
            ini = [(i, a) for i, a in fa.calls('init_oi_filter') if strip_ep(a[0]) == F]
            if filt:
                good = [(i, a) for i, a in cps if strip_ep(a[1]) == fl]
                ctx.expect(bool(good) or not (ini or cps) and bool([1 for i, (v, a) in fa.stores() if last_field(a) and last_field(a)[0] == 'oi_filter_spec']),
                           tag + 'filter', '%s does not use the filter it is given' % fn, anchor(fa))
                last = [i for i, a in ini if any(True for j, b in good)]
                for i, a in ini:
                    for j, b in good:
                        if fa.F.blocks and i.bb.name in fa.reach and after(fa, j, i):
                            ctx.bad(tag + 'filter', '%s overwrites the filter it is given' % fn, i)
            else:
                ctx.expect(bool(ini) or bool([1 for i, (v, a) in fa.stores() if last_field(a) and last_field(a)[0] == 'oi_filter_spec']),
                           tag + 'filter', '%s leaves the filter undefined when none is given' % fn, anchor(fa))
    st = start(ctx, kind)
    if st is None:
        ctx.maybe(P + 'start', 'not constant')


def after(fa, i, j):
    from .memory import reaches
    return reaches(fa, i, j)


@guarded
def patterns(ctx, kind):
    """each name is matched against the pattern of its own criterion"""
    fn = 'oi_%s_iter_next' % kind
    fa = ctx.fa(fn, IO(kind, nav=None, args='nz'), stop=[LOOK])
    got = set()
    for i, a in fa.calls('g_pattern_match_string', 'g_pattern_match_simple', 'g_pattern_spec_match_string'):
        g = last_field(a[1])
        if not g or g[1] not in NAMES or not istable(base_of(a[1])):
            ctx.maybe('%s/pattern' % fn, show(a[1]))
            continue
        oid = '%s/pattern of %s' % (fn, g[1])
        got.add(g[1])
        for x in leaves(fa, a[0]):
            f = last_field(x)
            if x[0] == 'call' and x[1] == 'g_pattern_spec_new':
                y = fa.args[id(fa.F.defs[x[2]])][0]
                f = last_field(y)
                f = f and f[1]
            elif x[0] in ('ld', 'mphi'):
                f = last_field(x[1] if x[0] == 'ld' else x[2])
                f = f and f[1].replace('_pttn', '')
            elif f:
                f = f[1]
            if f in NAMES and f != g[1]:
                ctx.bad(oid, '%s matches %s against the pattern for %s' % (fn, g[1].upper(), f.upper()), i)
            elif f == g[1] or x[0] == 'null':
                ctx.good(oid)
            else:
                ctx.maybe(oid, show(x))
    # a pattern given up is not kept for the next call
    it = arg_of(fa, 0)
    for n in NAMES:
        k = gep(it, [('.', IT, 'filter'), ('.', 'oi_filter_spec', n + '_pttn')])
        freed = [strip_ep(a[0]) for i, a in fa.calls('g_pattern_spec_free')]
        for v in final_mem(fa, k):
            if v[0] in ('ld', 'call') and strip_ep(v) in freed and not (v[0] == 'ld' and len(v) > 2 and str(v[2]).startswith('m:')):
                ctx.bad('%s/%s given up' % (fn, n), '%s leaves the freed pattern for %s in the iterator' % (fn, n.upper()), anchor(fa))
            elif v[0] == 'null':
                ctx.good('%s/%s given up' % (fn, n))


@guarded
def get_uv(ctx, kind):
    fn = 'oi_%s_iter_get_uv' % kind
    S = 'oi_' + kind

    class A(Oracle):
        def __init__(self, n):
            self.n = n

        def val(self, t):
            return ('nz' if not t[1] or self.n in ('nz', t[1]) else 0) if t[0] == 'arg' else None
    fa = ctx.fa(fn, A('nz'))
    it = arg_of(fa, 0)
    T = ('ld', fld(('ld', fld(it, IT, 'link')), '_GList', 'data'))
    rec = gep(('ld', fld(T, S, 'record')), [('[', ('ld', fld(it, IT, 'irec')), 'p')])
    ew = ('ld', gep(('ld', fld(('ld', fld(it, IT, 'pWave')), 'oi_wavelength', 'eff_wave')), [('[', ('ld', fld(it, IT, 'iwave')), 'p')]))
    names = [None, 'ucoord', 'vcoord'] if kind != 't3' else [None, 'u1coord', 'v1coord', 'u2coord', 'v2coord']
    for k, n in enumerate(names):
        oid = '%s/%s' % (fn, n or 'wavelength')
        w = ew if n is None else ('op', 'fdiv', ('ld', fld(rec, S + '_record', n)), ew)
        vals = [strip_ep(v) for v in final_mem(fa, arg_of(fa, 1 + k))]
        if vals == [w]:
            ctx.good(oid)
        elif len(vals) == 1 and (vals[0] == ('ld', arg_of(fa, 1 + k)) or plain_value(vals[0]) or vals[0][:2] == ('op', 'toint')):
            ctx.bad(oid, '%s gives %s instead of %s' % (fn, show(vals[0]) if vals[0] != ('ld', arg_of(fa, 1 + k)) else 'nothing', show(w)), anchor(fa))
        else:
            ctx.maybe(oid, [show(v) for v in vals])
    for k, n in enumerate(names):
        fa = ctx.fa(fn, A(1 + k))
        if any(strip_ep(v) == ('ld', arg_of(fa, 1 + k)) for v in final_mem(fa, arg_of(fa, 1 + k))):
            ctx.bad('%s/%s alone' % (fn, n or 'wavelength'), '%s leaves a return location unset (argument %d)' % (fn, k + 2), anchor(fa))
        else:
            ctx.good('%s/%s alone' % (fn, n or 'wavelength'))
    fa = ctx.fa(fn, A(0))
    hot = [i for i, (v, a) in fa.stores() if base_of(a)[0] == 'arg' and base_of(a)[1] > 0 or base_of(a)[0] == 'null']
    ctx.expect(not hot, fn + '/absent return locations', '%s stores through a null pointer' % fn, hot[0] if hot else None)


def plain_value(v):
    """a datum, or the quotient of two data"""
    if v[0] == 'ld':
        return transparent(v)
    return v[0] == 'op' and v[1] in ('fdiv', 'fmul') and all(x[0] == 'ld' and transparent(x) for x in v[2:4]) or v[0] in ('c', 'cf')


def iterators(ctx):
    for k in ('vis', 'vis2', 't3'):
        init(ctx, k)
        criteria(ctx, k)
        position(ctx, k)
        going_on(ctx, k)
        patterns(ctx, k)
        get_uv(ctx, k)
