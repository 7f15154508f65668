"""Text summaries of datasets and filters (C21)."""
import re
from engine.lib import *
from .checker import scan_one, CONV, listpos, nest, inevitable
from .merge import must, whole, plain
from .query import web, anchor
from .schema import evalt, miss_conds

PRINTS = ('g_string_printf', 'g_string_append_printf', 'g_string_append', 'g_string_append_c', 'g_string_assign', 'g_string_append_len', 'g_string_append_vprintf',
          'g_string_insert', 'g_string_prepend', 'g_string_append_unichar', 'g_string_vprintf')
HEAD = {'ORIGIN': 'origin', 'DATE': 'date', 'DATE-OBS': 'date_obs', 'TELESCOP': 'telescop', 'INSTRUME': 'instrume', 'OBSERVER': 'observer', 'OBJECT': 'object',
        'INSMODE': 'insmode', 'OBSTECH': 'obstech'}
TABS = {'ARRAY': ('array', 'oi_array'), 'WAVELENGTH': ('wavelength', 'oi_wavelength'), 'CORR': ('corr', 'oi_corr'), 'INSPOL': ('inspol', 'oi_inspol'),
        'VIS': ('vis', 'oi_vis'), 'VIS2': ('vis2', 'oi_vis2'), 'T3': ('t3', 'oi_t3'), 'FLUX': ('flux', 'oi_flux')}
LINE = {k: {'date_obs', 'insname', 'arrname', 'corrname', 'numrec', 'nwave'} for k in ('VIS', 'VIS2', 'T3', 'FLUX')}
LINE.update(ARRAY={'arrname', 'nelement'}, WAVELENGTH={'insname', 'nwave'}, CORR={'corrname', 'ncorr', 'ndata'}, INSPOL={'arrname'})
LAB = re.compile(r"([A-Z][A-Z0-9_-]*)\s*=\s*['\"]?$")


def cname(k):
    return 'num' + k.capitalize()


def wholestr(s, n):
    if n[0] == 'c' and n[1] < 0:
        return True
    if s[0] == 'str' and n[0] == 'c':
        return n[1] == len(s[2].split(b'\0')[0])
    return n[0] == 'app' and n[1] == 'strlen' and strip_ep(n[2][0]) == strip_ep(s)


def prints(fa):
    """pieces [(inst, text before, conversion, argument, text after)], lines [(inst, text)] of what is printed, and whether all of it is known;
    the text of successive calls in a block is joined"""
    out, lines, known = [], [], True
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        carry, items = '', []
        line, where = '', None

        def add(i, x):
            nonlocal carry, line, where
            carry += x
            for k, part in enumerate(x.split('\n')):
                if k:
                    lines.append((where, line))
                    line, where = '', None
                if part and where is None:
                    where = i
                line += part

        def end():
            if items and len(items[-1]) == 4:
                items[-1] += (carry,)

        def flush():
            nonlocal carry, line, where
            end()
            carry = ''
            if line:
                lines.append((where, line))
            line, where = '', None
        for i in b.insts:
            if i.op != 'call' or i.callee not in PRINTS or id(i) not in fa.args:
                continue
            a = fa.args[id(i)]
            fmt, rest = None, []
            if i.callee in ('g_string_printf', 'g_string_append_printf'):
                if a[1][0] == 'str':
                    fmt, rest = a[1][2].split(b'\0')[0].decode('latin1'), list(a[2:])
            elif i.callee in ('g_string_append', 'g_string_assign') and len(a) == 2 or i.callee == 'g_string_append_len' and wholestr(a[1], a[2]):
                fmt, rest = '%s', [a[1]]
            elif i.callee == 'g_string_append_c' and a[1][0] == 'c':
                fmt, rest = '%s', [('str', None, bytes([a[1][1] & 255]))]
            if fmt is None or i.callee in ('g_string_printf', 'g_string_assign'):
                flush()
            if fmt is None:
                known = False
                continue
            pos = 0
            for m in CONV.finditer(fmt):
                add(i, fmt[pos:m.start()])
                pos = m.end()
                if m.group(1) == '%':
                    add(i, '%')
                    continue
                if not rest:
                    known = False
                    break
                x = rest.pop(0)
                if m.group(1) == 's' and x[0] == 'str':
                    add(i, x[2].split(b'\0')[0].decode('latin1'))
                    continue
                end()
                items.append((i, carry, m.group(1), x))
                carry = ''
                line += '\x01'
                where = where or i
            add(i, fmt[pos:])
            if rest:
                known = False
        flush()
        out += [x for x in items if len(x) == 5]
    if any(c == 's' and last_field(t) is None for _, _, c, t, _ in out):
        known = False
    return out, lines, known


def fresh(ctx, P, fn, fa):
    """the text starts anew, and is what is returned"""
    cs = list(fa.calls(*PRINTS, 'g_string_new', 'g_string_truncate', 'g_string_set_size', 'g_string_erase', 'g_string_free', 'g_string_sized_new'))
    anew = [i for i, a in cs if i.callee in ('g_string_printf', 'g_string_assign', 'g_string_vprintf') or i.callee in ('g_string_truncate', 'g_string_set_size') and a[1] == C(0)
            or i.callee in ('g_string_erase', 'g_string_new') or i.callee == 'g_string_sized_new' and not any(j.callee == 'g_string_free' for j, b in cs) and False]
    ends = {b.name for b in rets(fa)}
    apps = [i for i, a in cs if i.callee.startswith('g_string_append')]
    glob = [i for i, a in cs if i.callee.startswith('g_string_append') and any(x[0] == 'glob' for x in subterms(a[0]))]
    if not anew and apps and glob:
        ctx.bad(P + 'anew', '%s appends to the text of an earlier call' % fn, glob[0])
        return
    # nothing that starts anew after something was appended
    good = bool(anew)
    for i in anew:
        if i.callee not in ('g_string_printf', 'g_string_assign', 'g_string_vprintf'):
            continue
        for j in apps:
            if follows(fa, j, i):
                good = False
                ctx.bad(P + 'anew', '%s discards what it has written before' % fn, i)
    if anew:
        m = fa.must_pass(fa.F.entry, {i.bb.name for i in anew}, ends)
        if m and all(plain(c, fa) for c in miss_conds(fa, m)) and glob and not any(i.callee in ('g_string_new', 'g_string_sized_new') for i, a in cs):
            ctx.bad(P + 'anew', '%s may append to the text of an earlier call' % fn, glob[0])
        elif m and any(i.callee == 'g_string_sized_new' and i.bb.name in m for i, a in cs):
            good = False
        elif m:
            good = False
    if good:
        ctx.good(P + 'anew')
    else:
        ctx.maybe(P + 'anew', 'form')
    for b in rets(fa):
        a = fa.args.get(id(b.term))
        if not a or a[0] is None:
            continue
        t = a[0]
        if t[0] == 'ld' and last_field(t[1]) == ('_GString', 'str'):
            ctx.good(P + 'returned')
        elif t in (('null',), C(0)) or t[0] == 'str':
            ctx.bad(P + 'returned', '%s returns %s' % (fn, show(t)), b.term)
        else:
            ctx.maybe(P + 'returned', show(t))


def follows(fa, i, j):
    """j can be executed after i"""
    if i.bb is j.bb:
        return i.bb.insts.index(i) < i.bb.insts.index(j)
    seen, st = set(), list(fa.succs(i.bb.name))
    while st:
        x = st.pop()
        if x == j.bb.name:
            return True
        if x not in seen:
            seen.add(x)
            st += fa.succs(x)
    return False


def before(fa, goal, others):
    """instructions of `others` from which goal is reached without meeting another of them"""
    out = []
    for o in others:
        if o.bb is goal.bb:
            k, g = o.bb.insts.index(o), o.bb.insts.index(goal)
            if k < g:
                if not any(k < x.bb.insts.index(x) < g for x in others if x.bb is goal.bb):
                    out.append(o)
                continue
        if any(x.bb is o.bb and x.bb.insts.index(x) > o.bb.insts.index(o) for x in others):
            continue
        if any(x.bb is goal.bb and x.bb.insts.index(x) < goal.bb.insts.index(goal) for x in others):
            continue
        blocks = {x.bb.name for x in others}
        seen, st = set(), list(fa.succs(o.bb.name))
        hit = False
        while st:
            x = st.pop()
            if x == goal.bb.name:
                hit = True
                break
            if x in seen or x in blocks:
                continue
            seen.add(x)
            st += fa.succs(x)
        if hit:
            out.append(o)
    return out


def owner(fa, t):
    """(table kind, liter term) whose member an address or value belongs to"""
    for x in subterms(t):
        if x[0] == 'liter':
            lf = last_field(strip_ep(x[1])[1]) if x[1][0] == 'ld' else None
            if lf and lf[0] == 'oi_fits':
                for k, (lo, s) in TABS.items():
                    if lf[1] == lo + 'List':
                        return k, x
    return None, None


def same_place(ctx, sn, want, field):
    """a member read as of another structure lies where the wanted member is"""
    pr = ctx.prog()

    def off(s, f):
        for fn, fo, _ in pr.structs.get(s, ((),))[0]:
            if fn == f:
                return fo
    return off(*sn) is not None and off(*sn) == off(want, field)


class SO(Oracle):
    def __init__(self, two=None, beat=None, purpose=None, ints=None, filt=None):
        self.two, self.beat, self.purpose, self.filt = two, beat, purpose, filt or {}

    def val(self, t):
        if t[0] in ('call', 'app') and t[1] == 'is_oi_fits_two':
            return self.two
        if t[0] in ('ld', 'mphi'):
            f = last_field(t[1] if t[0] == 'ld' else t[2])
            if f and f[0] == 'oi_filter_spec' and f[1] in self.filt:
                return self.filt[f[1]]
        return None

    def rel(self, a, b):
        if self.beat is not None and wave(a) and not wave(b) and b[0] in ('phi', 'mphi', 'cf', 'ld'):
            if b[0] == 'cf' and not (b[1] >= 1 if self.purpose == 'min' else b[1] <= 1e-9):
                return None
            return self.beat
        return None


def wave(t):
    while t[0] == 'op' and t[1] in ('fpext', 'fptrunc'):
        t = t[2]
    return t[0] == 'ld' and last_field(t[1]) == ('oi_wavelength', 'eff_wave') or t[0] == 'ld' and any(
        last_field(x[1]) == ('oi_wavelength', 'eff_wave') for x in subterms(t[1]) if x[0] == 'ld')


@guarded
def dataset(ctx):
    fn = 'format_oi_fits_summary'
    P = fn + '/'
    stop = {'is_oi_fits_two'}
    fa = ctx.fa(fn, SO(), stop=stop)
    ps, texts, known = prints(fa)
    end = anchor(fa)
    # version
    for two in (0, 1):
        fb = ctx.fa(fn, SO(two=two), stop=stop)
        fresh(ctx, P, fn, fb)
        qs, tx, kn = prints(fb)
        said = [(i, m.group(1)) for i, t in tx for m in re.finditer(r'OIFITS (?:version|v)\s*(\d)', t)]
        for i, v in said:
            ctx.expect(int(v) == 1 + two, P + 'version', '%s says OIFITS version %s of a dataset of version %d' % (fn, v, 1 + two), i)
        vs = [(i, x) for i, b, c, x, a in qs if c in 'diu' and re.search(r'OIFITS (?:version|v)\s*$', b)]
        for i, x in vs:
            if x[0] == 'c':
                ctx.expect(x[1] == 1 + two, P + 'version', '%s says OIFITS version %d of a dataset of version %d' % (fn, x[1], 1 + two), i)
        if not said and not vs:
            if kn and not any(c not in 's' and 'ersion' in b for i, b, c, x, a in qs):
                ctx.bad(P + 'version', '%s does not give the version' % fn, end)
            else:
                ctx.maybe(P + 'version', 'form')
    # header keywords
    sites = {}
    counts = {}
    for i, b, c, t, a in ps:
        m = LAB.search(b)
        lf = last_field(t)
        if c == 's' and m and m.group(1) in HEAD and lf and lf[0] == 'oi_header':
            k = m.group(1)
            sites.setdefault(k, []).append(i)
            ctx.expect(lf[1] == HEAD[k], P + k, '%s gives %s as %s' % (fn, lf[1].upper().replace('_', '-'), k), i)
            continue
        m = re.match(r'\s*OI_([A-Z0-9]+) table', a)
        m = m or re.search(r'OI_([A-Z0-9]+) tables?\s*[:=]\s*$', b)
        if c in 'diu' and m and m.group(1) in TABS:
            k = m.group(1)
            counts.setdefault(k, []).append(i)
            x = strip_ep(t)
            f = last_field(x[1]) if x[0] == 'ld' else None
            if f and f[0] == 'oi_fits' and f[1].startswith('num'):
                ctx.expect(f[1] == cname(TABS[k][0]), P + 'number ' + k, '%s gives %s as the number of OI_%s tables' % (fn, f[1], k), i)
                continue
            ls = [y for y in subterms(t) if y[0] == 'ld' and last_field(y[1]) and last_field(y[1])[0] == 'oi_fits']
            if x[0] == 'app' and x[1] == 'g_list_length' and len(ls) == 1:
                ctx.expect(last_field(ls[0][1])[1] == TABS[k][0] + 'List', P + 'number ' + k, '%s gives the length of %s as the number of OI_%s tables' % (fn, last_field(ls[0][1])[1], k), i)
            else:
                ctx.maybe(P + 'number ' + k, show(t))
    alltext = ' '.join(t for i, t in texts)
    for k in HEAD:
        if k in sites:
            must(ctx, P + k + ' given', fa, sites[k], '%s leaves out %s' % (fn, k))
        elif known and not re.search(r'(?<![A-Z-])%s(?![A-Z-])' % k, alltext):
            ctx.bad(P + k + ' given', '%s leaves out %s' % (fn, k), end)
        else:
            ctx.maybe(P + k + ' given', 'not recognised')
    for k in TABS:
        if k in counts:
            must(ctx, P + 'number %s given' % k, fa, counts[k], '%s leaves out the number of OI_%s tables' % (fn, k))
        elif known and not re.search(r'OI_%s\b' % k, alltext):
            ctx.bad(P + 'number %s given' % k, '%s leaves out the number of OI_%s tables' % (fn, k), end)
        else:
            ctx.maybe(P + 'number %s given' % k, 'not recognised')
    tables(ctx, P, fn, fa, ps, counts, known)


def tables(ctx, P, fn, fa, ps, counts, known):
    end = anchor(fa)
    lines = {}
    for i, b, c, t, a in ps:
        k, li = owner(fa, t)
        if k is None:
            continue
        x = strip_ep(t)
        f = last_field(x[1]) if x[0] == 'ld' and c != 's' else last_field(x) if c == 's' else None
        if f is None or not f[0].startswith('oi_'):
            continue
        lines.setdefault(k, {}).setdefault('at', []).append((i, li))
        m = LAB.search(b)
        want = None
        if c == 's' and m and m.group(1) in ('ARRNAME', 'INSNAME', 'CORRNAME', 'DATE-OBS'):
            want = m.group(1).lower().replace('-', '_')
        elif c in 'diu':
            w = re.match(r'\s*(elements|channels|wavebands|records|non-zero)\b', a)
            if w:
                want = {'elements': 'nelement', 'channels': 'nwave', 'wavebands': 'nwave', 'records': 'numrec', 'non-zero': 'ndata'}[w.group(1)]
            elif a == '/' and k == 'CORR':
                want = 'ncorr'
        if want is None:
            ctx.maybe(P + '%s %s' % (k, f[1]), 'label %r' % b)
            continue
        if want in ('ndata', 'ncorr'):
            # number of correlations and of data: both given
            lines[k].setdefault('has', {}).setdefault(f[1], []).append(i)
            continue
        lines[k].setdefault('has', {}).setdefault(want, []).append(i)
        st = TABS[k][1]
        if f[0] == st:
            ctx.expect(f[1] == want, P + '%s %s' % (k, want), '%s gives %s as %s of an OI_%s table' % (fn, f[1].upper(), want.upper(), k), i)
        elif same_place(ctx, f, st, want):
            ctx.good(P + '%s %s' % (k, want))
        else:
            ctx.bad(P + '%s %s' % (k, want), '%s reads %s of an OI_%s table as if it were an %s' % (fn, want.upper(), k, f[0]), i)
    allc = [i for v in counts.values() for i in v]
    for k in TABS:
        o = P + 'each ' + k
        if k not in lines:
            used = any(b.name in fa.reach and i.op == 'load' and id(i) in fa.args and last_field(fa.args[id(i)][0]) == ('oi_fits', TABS[k][0] + 'List')
                       for b in fa.F.rpo for i in b.insts)
            if known and not used:
                ctx.bad(o, '%s does not list the OI_%s tables' % (fn, k), end)
            else:
                ctx.maybe(o, 'not recognised')
            continue
        L = lines[k]
        missing = LINE[k] - set(L.get('has', {}))
        for w in sorted(missing):
            if known:
                ctx.bad(P + '%s %s' % (k, w), '%s does not give %s of the OI_%s tables' % (fn, w.upper(), k), L['at'][0][0])
            else:
                ctx.maybe(P + '%s %s' % (k, w), 'not recognised')
        hs = {li[2] for i, li in L['at']}
        for h in hs:
            mine = [i for i, li in L['at'] if li[2] == h]
            must(ctx, o, fa, mine[:1], '%s leaves out an OI_%s table' % (fn, k))
            whole(ctx, o, fa, h, '%s: listing OI_%s tables' % (fn, k))
            if not latch_reached(fa, h):
                ctx.bad(o, '%s lists the first OI_%s table only' % (fn, k), mine[0])
            first = {li[1] for i, li in L['at']}
            for l in first:
                if l[0] == 'ld' and last_field(l[1]) == ('_GList', 'next'):
                    ctx.bad(o, '%s leaves out the first OI_%s table' % (fn, k), mine[0])
            # under its own heading
            if k in counts:
                pre = before(fa, mine[0], allc)
                wrong = [j for j in pre for kk, v in counts.items() if j in v and kk != k]
                if wrong:
                    kk = next(q for q, v in counts.items() if wrong[0] in v)
                    ctx.bad(P + 'heading ' + k, '%s lists the OI_%s tables under OI_%s' % (fn, k, kk), mine[0])
                else:
                    ctx.good(P + 'heading ' + k)
            # numbered from 1
            for i, b, c, t, a in ps:
                if c not in 'diu' or i.bb.name not in fa.F.loops.get(h, ()) or not re.search(r'#\s*$', b):
                    continue
                oid = P + 'numbering ' + k
                lp = listpos(fa, t)
                if lp:
                    n = lp[2]
                else:
                    n, ts = tolin(strip_ep(t))
                    if not ts:
                        ctx.bad(oid, '%s numbers every OI_%s table %d' % (fn, k, n), i)
                        continue
                    mine_ = ts.pop(('iter', h), 0)
                    if mine_ == 1 and ts and all(x[0] in ('iter', 'listlen') and (len(x) < 2 or x[1] != h) and v > 0 for x, v in ts.items()):
                        ctx.bad(oid, '%s goes on counting from other tables for OI_%s' % (fn, k), i)
                        continue
                    if mine_ == 1 and ts and all(x[0] == 'ld' and base_of(x[1])[0] == 'glob' for x in ts):
                        ctx.bad(oid, '%s goes on counting from an earlier call for OI_%s' % (fn, k), i)
                        continue
                    if ts or not mine_:
                        ctx.maybe(oid, show(t))
                        continue
                    if mine_ != 1:
                        ctx.bad(oid, '%s numbers OI_%s tables in steps of %d' % (fn, k, mine_), i)
                        continue
                ctx.expect(n == 1, oid, '%s numbers OI_%s tables from %d' % (fn, k, n), i)


@guarded
def wavelengths(ctx):
    fn = 'format_oi_fits_summary'
    P = fn + '/'
    res = {}
    for n, purpose in ((0, 'min'), (1, 'max')):
        for beat, nm in (('<' if purpose == 'min' else '>', 'beats'), ('>' if purpose == 'min' else '<', 'not')):
            fa = ctx.fa(fn, SO(two=1, beat=beat, purpose=purpose), stop={'is_oi_fits_two'})
            ps, texts, known = prints(fa)
            at = [(x, y) for x, y in zip(ps, ps[1:]) if x[2] in 'fge' and y[2] in 'fge' and re.match(r'\s*nm', y[4]) and x[0] is y[0]
                  and not any(last_field(z[1]) and last_field(z[1])[0] == 'oi_filter_spec' for z in subterms(x[3]) if z[0] == 'ld')]
            if len(at) != 1:
                ctx.maybe(P + 'range', 'not recognised')
                return
            i, _, _, t, _ = at[0][n]
            res[purpose, nm] = (fa, i, t)
    for purpose in ('min', 'max'):
        oid = P + ('shortest' if purpose == 'min' else 'longest')
        fa, i, t = res[purpose, 'beats']
        # scale
        lv = [x for x in subterms(t) if x[0] in ('phi', 'mphi', 'sel') or wave(x)]
        if not lv and all(x[0] in ('op', 'cf', 'c') for x in subterms(t) if isinstance(x, tuple) and isinstance(x[0], str)):
            ctx.bad(oid, '%s does not take the %s wavelength' % (fn, oid.split('/')[1]), i)
            continue
        if not lv:
            ctx.maybe(oid, show(t))
            continue
        top = lv[0]
        s = scale(t, top)
        if s is None:
            ctx.maybe(oid + ' unit', show(t))
        else:
            ctx.expect(abs(s / 1e9 - 1) < 1e-6, oid + ' unit', '%s multiplies a wavelength by %g for nm' % (fn, s), i)
        nodes, leaves = web(fa, top)
        got = [x for x in leaves if x is not None and wave(x)]
        for x in leaves:
            if x is not None and x[0] in ('c', 'cf') and not (x[1] >= 1 if purpose == 'min' else x[1] <= 1e-9):
                ctx.bad(oid + ' start', '%s: the search for the %s wavelength starts from %s' % (fn, oid.split('/')[1], show(x)), i)
        if not got:
            if all(x is not None and x[0] in ('c', 'cf') for x in leaves):
                ctx.bad(oid, '%s does not look at the wavelengths' % fn, i)
            else:
                ctx.maybe(oid, [show(x) for x in leaves if x])
            continue
        rs = []
        for x in got:
            while x[0] == 'op':
                x = x[2]
            rs.append(scan_one(fa, x[1]))
        if any(r is True for r in rs):
            ctx.good(oid)
        elif all(isinstance(r, str) and r.startswith('!') for r in rs):
            ctx.bad(oid, '%s: the %s wavelength: %s' % (fn, oid.split('/')[1], rs[0][1:]), i)
        else:
            ctx.maybe(oid, rs)
        # a value that does not beat the extreme is not taken
        fb, j, u = res[purpose, 'not']
        lw = [x for x in subterms(u) if x[0] in ('phi', 'mphi', 'sel') or wave(x)]
        if lw:
            nodes, leaves = web(fb, lw[0])
            hit = [x for x in leaves if x is not None and wave(x) and any(z[0] == 'iter' for z in subterms(x))]
            started = [x for x in leaves if x is not None and x[0] in ('c', 'cf')]
            if hit and started and all(plain(c, fb) for n, c in open_conds(fb) if c is not None):
                ctx.bad(oid + ' kept', '%s: the %s wavelength is replaced by a %s one' % (fn, oid.split('/')[1], 'longer' if purpose == 'min' else 'shorter'), j)
            else:
                ctx.good(oid + ' kept')
        else:
            ctx.good(oid + ' kept')


def scale(t, top):
    """factor applied to top"""
    if t == top:
        return 1.0
    if t[0] == 'op' and t[1] in ('fpext', 'fptrunc'):
        return scale(t[2], top)
    if t[0] == 'op' and t[1] in ('fmul', 'fdiv') and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] == 'fmul' and a[0] in ('cf', 'c'):
            a, b = b, a
        if b[0] in ('cf', 'c'):
            s = scale(a, top)
            return None if s is None or not b[1] else s * b[1] if t[1] == 'fmul' else s / b[1]
    return None


RANGES = {'MJD': ('mjd_range', 1), 'Wavelength': ('wave_range', 1e9), 'Baseline': ('bas_range', 1), 'UV Radius': ('uvrad_range', 1), 'SNR': ('snr_range', 1)}
ACCEPT = {'accept_vis': r'OI_VIS\b', 'accept_vis2': r'OI_VIS2\b', 'accept_t3amp': r'T3AMP\b', 'accept_t3phi': r'T3PHI\b', 'accept_flux': r'OI_FLUX\b', 'accept_flagged': r'[fF]lagged\b'}


@guarded
def filters(ctx):
    fn = 'format_oi_filter'
    P = fn + '/'
    fa = ctx.fa(fn, SO())
    fresh(ctx, P, fn, fa)
    ps, texts, known = prints(fa)
    end = anchor(fa)
    alltext = ' '.join(t for i, t in texts)
    # name patterns
    for k in ('ARRNAME', 'INSNAME', 'CORRNAME'):
        at = []
        for i, b, c, t, a in ps:
            m = LAB.search(b)
            lf = last_field(t)
            if c == 's' and m and m.group(1) == k and lf and lf[0] == 'oi_filter_spec':
                at.append(i)
                ctx.expect(lf[1] == k.lower(), P + k, '%s gives the pattern for %s as %s' % (fn, lf[1].upper(), k), i)
        if at:
            must(ctx, P + k + ' given', fa, at, '%s leaves out %s' % (fn, k))
        elif known and not re.search(r'\b%s\b' % k, alltext):
            ctx.bad(P + k + ' given', '%s leaves out %s' % (fn, k), end)
        else:
            ctx.maybe(P + k + ' given', 'not recognised')
    # ranges
    for k, (f, s) in RANGES.items():
        at = []
        for x, y in zip(ps, ps[1:]):
            if not re.search(r'\b%s\s*[:=]\s*$' % k, x[1]):
                continue
            at.append(x[0])
            for n, (i, b, c, t, a) in enumerate((x, y)):
                oid = P + '%s %s' % (k, ('minimum', 'maximum')[n])
                ls = {z for z in subterms(t) if z[0] == 'ld' and any(q[0] == '.' and q[1] == 'oi_filter_spec' for q in steps_of(z[1]))}
                if len(ls) != 1:
                    ctx.maybe(oid, show(t))
                    continue
                l = ls.pop()
                st = list(steps_of(l[1]))
                e = st[-1][1] if st[-1][0] == '[' else C(0)
                fl = next(q[2] for q in reversed(st) if q[0] == '.')
                if fl != f or e != C(n) and e[0] == 'c':
                    ctx.bad(oid, '%s gives %s[%s] as the %s %s' % (fn, fl, show(e), ('lower', 'upper')[n], k), i)
                    continue
                z = scale(t, l)
                if z is None or e != C(n):
                    ctx.maybe(oid, show(t))
                else:
                    ctx.expect(abs(z / s - 1) < 1e-6, oid, '%s multiplies the %s by %g' % (fn, k, z), i)
        if at:
            must(ctx, P + k + ' given', fa, at, '%s leaves out %s' % (fn, k))
        elif known and k not in alltext:
            ctx.bad(P + k + ' given', '%s leaves out the %s range' % (fn, k), end)
        else:
            ctx.maybe(P + k + ' given', 'not recognised')
    # target
    for n in (-1, 0, 1, 40000):
        fb = ctx.fa(fn, SO(filt={'target_id': n}))
        qs, tx, kn = prints(fb)
        anyt = [i for i, t in tx if re.search(r'[Aa]ny TARGET', t)]
        num = [(i, t) for i, b, c, t, a in qs if c in 'diu' and re.search(r'TARGET_ID\s*=\s*$', b)]
        oid = P + 'TARGET_ID %s' % ('none' if n < 0 else n)
        if anyt and num:
            ctx.maybe(oid, 'form')
        elif n < 0 and num or n >= 0 and anyt:
            ctx.bad(oid, '%s shows %s for TARGET_ID %d' % (fn, 'any target' if anyt else 'a particular target', n), (anyt or [num[0][0]])[0])
        elif n >= 0 and num:
            i, t = num[0]
            f = last_field(t[1]) if t[0] == 'ld' else None
            if f and f[0] == 'oi_filter_spec':
                ctx.expect(f[1] == 'target_id', oid, '%s gives %s as TARGET_ID' % (fn, f[1]), i)
            elif t[0] == 'c':
                ctx.expect(t[1] == n, oid, '%s gives TARGET_ID %d as %d' % (fn, n, t[1]), i)
            else:
                ctx.maybe(oid, show(t))
        elif n < 0 and anyt:
            ctx.good(oid)
        elif kn:
            ctx.bad(oid, '%s says nothing of TARGET_ID' % fn, end)
        else:
            ctx.maybe(oid, 'form')
    # kinds of data accepted
    for f, pat in ACCEPT.items():
        for n in (0, 1):
            o = SO(filt=dict({g: 1 - n for g in ACCEPT}, **{f: n}))
            fb = ctx.fa(fn, o)
            qs, tx, kn = prints(fb)
            oid = P + '%s %d' % (f, n)
            mine = [(i, ln) for i, ln in tx if re.search(pat, ln)]
            no = [i for i, ln in mine if re.search(r'\bnot\b', ln)]
            yes = [i for i, ln in mine if not re.search(r'\bnot\b', ln)]
            if no and yes or not kn:
                ctx.maybe(oid, 'form')
            elif n and no:
                ctx.bad(oid, '%s says that a filter with %s does not accept it' % (fn, f), no[0])
            elif not n and yes:
                ctx.bad(oid, '%s says that a filter without %s accepts it' % (fn, f), yes[0])
            elif no or yes:
                must(ctx, oid, fb, (no or yes)[:1], '%s leaves out %s' % (fn, f))
            else:
                ctx.bad(oid, '%s says nothing of %s' % (fn, f), end)


@guarded
def printed(ctx, fn, fmt):
    """the print function prints the text of the format function for its argument, whole, on standard output"""
    P = fn + '/'
    fa = ctx.fa(fn, Oracle(), stop={fmt})
    made = [(i, a) for i, a in fa.calls(fmt)]
    end = anchor(fa)
    if not made:
        ctx.maybe(P + 'text', 'not recognised')
        return
    for i, a in made:
        ctx.expect(a[0][0] == 'arg' and a[0][1] == 0, P + 'object', '%s formats %s' % (fn, show(a[0])), i)
    out = []
    for i, a in fa.calls('printf', 'puts', 'fputs', 'fprintf', '__printf_chk', '__fprintf_chk', 'g_print', 'fwrite', 'putchar', 'g_printerr', 'write'):
        for k, x in enumerate(a):
            if x[0] in ('app', 'call') and x[1] == fmt:
                f = next((y for y in a[:k] if y[0] == 'str'), None)
                out.append((i, a, k, f))
    if not out:
        ctx.bad(P + 'text', '%s does not print the text' % fn, end) if not list(fa.calls('printf', 'puts', 'fputs', 'fprintf', 'g_print', 'fwrite')) else ctx.maybe(P + 'text', 'form')
        return
    for i, a, k, f in out:
        if f is None and i.callee in ('printf', 'g_print', 'fprintf'):
            ctx.bad(P + 'text', '%s uses the text as a format' % fn, i)
        elif i.callee == 'g_printerr' or any('stderr' in show(x) for x in a):
            ctx.bad(P + 'stream', '%s prints to standard error' % fn, i)
        elif f is not None and re.search(r'%[-0-9]*\.[0-9]+s', f[2].decode('latin1')):
            ctx.bad(P + 'text', '%s cuts the text off' % fn, i)
        else:
            ctx.good(P + 'text')
    must(ctx, P + 'always', fa, [o[0] for o in out], '%s prints nothing' % fn)
    if len(out) > 1 and follows(fa, out[0][0], out[1][0]):
        ctx.bad(P + 'once', '%s prints the text twice' % fn, out[1][0])


def text(ctx):
    dataset(ctx)
    wavelengths(ctx)
    filters(ctx)
    printed(ctx, 'print_oi_fits_summary', 'format_oi_fits_summary')
    printed(ctx, 'print_oi_filter', 'format_oi_filter')
