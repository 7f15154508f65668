"""Dataset queries and derived values (C16): is_oi_fits_one/two, is_atomic, count_oi_fits_data, set_oi_header, upgrade_oi_*."""
from engine.lib import *
from .schema import full_cover, transparent_cond
from .checker import scan_one, cell, inevitable
from .merge import plain, anchor, swrites, must, K as KINDS
from .bounds import merged
from .tables import dominates

MJDK = ('vis', 'vis2', 't3', 'flux')
COUNTK = ('vis', 'vis2', 't3')
REV1 = ('array', 'wavelength', 'vis', 'vis2', 't3')
LATE, EARLY = 88069, 15385          # 2100-01-01 and 1901-01-01: the range the date functions accept


class QO(Oracle):
    """content: value of the header keyword; ints: {(struct, field): n}; beat: relation of every record's MJD to the extreme so far;
    fin: relation of the compared span to its limit; flag: value of every flag; ptr: {argument number: 0 or 'nz'}"""
    def __init__(self, content=None, ints=(), beat=None, purpose='min', fin=None, flag=None, ptr=(), phis=()):
        self.content, self.ints, self.beat, self.purpose, self.fin, self.flag = content, dict(ints), beat, purpose, fin, flag
        self.ptr, self.phis = dict(ptr), dict(phis)
        self.hits, self.final, self.mjds = {}, [], set()

    def begin(self):
        self.hits, self.final, self.mjds = {}, [], set()

    def val(self, t):
        if t in self.phis:
            return self.phis[t]
        if t[0] == 'arg' and t[1] in self.ptr:
            return self.ptr[t[1]]
        if t[0] == 'app' and t[1] in ('strcmp', 'g_strcmp0', 'g_str_equal', 'strncmp', 'memcmp', 'strcasecmp', 'g_ascii_strcasecmp', 'strncasecmp',
                                      'g_ascii_strncasecmp') and self.content is not None:
            x, y = t[2][:2]
            if x[0] != 'str':
                x, y = y, x
            if x[0] == 'str' and last_field(y) == ('oi_header', 'content'):
                a, b = x[2].split(b'\0')[0].decode('latin1') + '\0', self.content + '\0'
                if 'case' in t[1]:
                    a, b = a.lower(), b.lower()
                if t[1] in ('strncmp', 'memcmp') or 'ncase' in t[1]:
                    n = t[2][2]
                    if n[0] != 'c':
                        return None
                    a, b = a[:n[1]], b[:n[1]]
                if t[1] == 'g_str_equal':
                    return int(a == b)
                return 0 if a == b else 'nz'
        if t[0] in ('ld', 'mphi'):
            a = t[1] if t[0] == 'ld' else t[2]
            f = cell(a)
            if f in self.ints:
                self.hits.setdefault(f, set()).add(strip_ep(a))
                return self.ints[f]
            if f and f[1] == 'flag' and f[0].endswith('_record') and self.flag is not None and last_field(a) is None:
                self.hits.setdefault(f, set()).add(strip_ep(a))
                return self.flag
        return None

    def rel(self, a, b):
        if self.fin is not None and b[0] == 'arg' and a[0] not in ('c', 'cf', 'arg'):
            if a not in self.final:
                self.final.append(a)
            return self.fin
        if self.beat is not None and mjd(a) and not mjd(b):
            if b[0] == 'cf' and not (b[1] >= LATE if self.purpose == 'min' else b[1] <= EARLY):
                return None
            if b[0] in ('phi', 'mphi', 'cf', 'ld'):
                self.mjds.add(strip_ep(a[1]))
                return self.beat
        return None


def mjd(t):
    return t[0] == 'ld' and last_field(t[1]) is not None and last_field(t[1])[1] == 'mjd' and last_field(t[1])[0].endswith('_record')


def onward(fa, n):
    """successors of block n that the final value of its condition allows"""
    b = fa.F.blocks[n]
    ss = fa.succs(n)
    if b.term.op == 'condbr' and len(set(ss)) > 1:
        c = fa.brval.get(n)
        if c is not None:
            d = bool(c[1]) if c[0] == 'c' else fa.decide_bool(c)
            if d is not None:
                return [b.term.x['targets'][0 if d else 1]]
    return ss


def retleaves(fa, frm=None):
    """values returned (on paths from block frm)"""
    out = []
    frm = frm or fa.F.entry
    ok = {frm}
    edges = set()
    st = [frm]
    while st:
        x = st.pop()
        for s in onward(fa, x):
            edges.add((x, s))
            if s not in ok:
                ok.add(s)
                st.append(s)

    def go(t, seen):
        if t is None or t in seen:
            return
        if t[0] == 'phi':
            i = fa.F.defs.get(t[1])
            if i is not None and i.bb.name not in fa.F.loops:
                for p, o in zip(i.x['preds'], i.ops):
                    if (p, i.bb.name) in edges:
                        go(fa.t(o), seen | {t})
                return
        if t[0] == 'sel':
            for y in t[2:]:
                go(y, seen | {t})
            return
        if t not in out:
            out.append(t)
    for b in rets(fa):
        if b.name in ok:
            go(fa.args[id(b.term)][0], frozenset())
    return out


def truth(fa, t):
    t = fa.resolve_val(t)
    if t[0] == 'c':
        return bool(t[1])
    if t[0] == 'op' and t[1] in ('zext', 'sext', 'trunc'):
        return truth(fa, t[2])
    return fa.decide_bool(t)


def allplain(fa, blocks=None):
    return all(c is None or c[0] == 'c' or plain(c, fa) for n, c in open_conds(fa, blocks))


def expect_ret(ctx, oid, fa, want, msg, frm=None):
    ls = retleaves(fa, frm)
    tv = [truth(fa, t) for t in ls]
    if not tv or None in tv:
        wrong = [x for x in tv if x is not None and x != want]
        if not wrong or not allplain(fa):
            ctx.maybe(oid, [show(t) for t in ls])
            return None
    if all(x == want for x in tv):
        ctx.good(oid)
        return True
    if all(x is not None and x != want for x in tv) or allplain(fa):
        ctx.bad(oid, msg, anchor(fa))
        return False
    ctx.maybe(oid, 'conditions')
    return None


# ------------------------------------------------------------------ versions
@guarded
def two(ctx):
    fn = 'is_oi_fits_two'
    for c, w in (('OIFITS2', True), ('', False), ('OIFITS', False), ('OIFITS1', False), ('OIFITS20', False), ('oifits2', False)):
        expect_ret(ctx, '%s/CONTENT "%s"' % (fn, c), ctx.fa(fn, QO(content=c)), w,
                   '%s returns %s when CONTENT is "%s"' % (fn, 'false' if w else 'true', c))


@guarded
def one(ctx):
    fn = 'is_oi_fits_one'
    G = {('oi_target', 'revision'): 1}
    G.update({('oi_' + k, 'revision'): 1 for k in REV1})
    o = QO(content='', ints=G)
    good = ctx.fa(fn, o)
    expect_ret(ctx, fn + '/all revisions 1', good, True, '%s returns false for a version 1 dataset' % fn)
    for k in ('corr', 'inspol', 'flux'):
        H = dict(G)
        H[('oi_' + k, 'revision')] = 5
        expect_ret(ctx, '%s/OI_%s ignored' % (fn, k.upper()), ctx.fa(fn, QO(content='', ints=H)), True,
                   '%s returns false because of an OI_%s table' % (fn, k.upper()))
    for c in ('OIFITS2',):
        expect_ret(ctx, fn + '/CONTENT OIFITS2', ctx.fa(fn, QO(content=c, ints=G)), False, '%s returns true when CONTENT is OIFITS2' % fn)
    for r in (0, 2):
        H = dict(G)
        H[('oi_target', 'revision')] = r
        expect_ret(ctx, '%s/OI_TARGET revision %d' % (fn, r), ctx.fa(fn, QO(content='', ints=H)), False,
                   '%s returns true although OI_REVN of OI_TARGET is %d' % (fn, r))
    for k in REV1:
        f = ('oi_' + k, 'revision')
        oid = '%s/OI_%s' % (fn, k.upper())
        for r in (0, 2, 3):
            one_kind(ctx, oid + ' revision %d' % r, fn, k, f, r, G, good)
        hs = o.hits.get(f, set())
        rs = [scan_one(good, a) for a in hs]
        if any(x is True for x in rs):
            ctx.good(oid + ' scanned')
        elif rs and all(isinstance(x, str) and x.startswith('!') for x in rs):
            ctx.bad(oid + ' scanned', '%s: OI_%s: %s' % (fn, k.upper(), rs[0][1:]), anchor(good))
        else:
            ctx.maybe(oid + ' scanned', rs)


def one_kind(ctx, oid, fn, k, f, r, G, good):
    H = dict(G)
    H[f] = r
    fa = ctx.fa(fn, QO(content='', ints=H))
    lst = KINDS[k][1]
    heads = [h for h in fa.F.loops if h in fa.reach and any(
        x[0] == 'liter' and x[2] == h and x[1][0] == 'ld' and last_field(x[1][1]) == ('oi_fits', lst)
        for b in good.F.loops[h] if b in good.reach for x in subterms(good.brval.get(b) or C(0)))]
    msg = '%s returns true although OI_REVN of an OI_%s table is %d' % (fn, k.upper(), r)
    if not heads:
        ext = [i for i, a in fa.calls() if i.callee and not i.callee.startswith(('llvm.', 'g_assert', 'str', '__assert'))]
        mention = any(x[0] == 'ld' and last_field(x[1]) == ('oi_fits', lst) for b in fa.F.rpo if b.name in fa.reach for i in b.insts
                      for y in fa.args.get(id(i), ()) if y for x in subterms(y))
        if ext or mention:
            ctx.maybe(oid, 'no walk over the list recognised')
        else:
            ctx.bad(oid, msg, anchor(fa))
        return
    for h in heads:
        body = fa.F.loops[h]
        st = [s for s in fa.succs(h) if s in body]
        if not st:
            continue
        # early return
        ls = retleaves(fa, st[0])
        tv = [truth(fa, t) for t in ls]
        if ls and all(x is False for x in tv):
            ctx.good(oid)
            return
    for h in heads:
        # verdict kept in a variable
        body = fa.F.loops[h]
        forced = {}
        for i in fa.F.blocks[h].insts:
            if i.op == 'phi':
                vs = [fa.t(o) for p, o in zip(i.x['preds'], i.ops) if p in body and (p, h) in fa.exec_edges]
                if vs and all(v is not None and v[0] == 'c' for v in vs) and len(set(vs)) == 1:
                    forced[('phi', i.res)] = vs[0][1]
        if not forced and not any(x == ('iter', h) for b in fa.F.rpo if b.name in fa.reach and b.name not in body for x in subterms(fa.brval.get(b.name) or C(0))):
            continue
        forced[('iter', h)] = 1              # after one table
        fb = ctx.fa(fn, QO(content='', ints=H, phis=forced))
        st = [s for s in fb.succs(h) if s in body] + [h]
        tv = [truth(fb, t) for t in retleaves(fb, st[0])]
        if tv and all(x is False for x in tv):
            fu = ctx.fa(fn, QO(content='', ints={x: y for x, y in G.items() if x != f}))
            early = [c for n, c, ex in loop_exits(fu, h) if not ex]
            for i in fu.F.blocks[h].insts:
                ph = ('phi', i.res)
                if i.op == 'phi' and ph in forced and not early:
                    lv = [z for p, o in zip(i.x['preds'], i.ops) if p in body and (p, h) in fu.exec_edges for z in merged(fu, fu.t(o), ph, h)]
                    if lv and all(z is not None and ph not in set(subterms(z)) and transparent_cond(z) for z in lv) and not any(z == C(forced[ph]) for z in lv):
                        ctx.bad(oid, msg + ' but that of the last one is 1', anchor(fa))
                        return
            ctx.good(oid)
            return
    carried = any(i.op == 'phi' and (fa.val.get(i.res) or ('?',))[0] == 'phi' for h in heads for i in fa.F.blocks[h].insts)
    if allplain(fa) and not carried:
        ctx.bad(oid, msg, anchor(fa))
    else:
        ctx.maybe(oid, 'conditions')


# ------------------------------------------------------------------ extremes of MJD
def inputs(fa, t):
    if t[0] == 'phi':
        i = fa.F.defs.get(t[1])
        if i is None:
            return None, []
        return i.bb.name, [(p, fa.t(o)) for p, o in zip(i.x['preds'], i.ops) if (p, i.bb.name) in fa.exec_edges]
    if t[0] == 'mphi':
        return t[1], [(p.name, fa.mem_load(fa.out[p.name], t[2], None)) for p in fa.F.blocks[t[1]].preds if (p.name, t[1]) in fa.exec_edges and p.name in fa.out]
    return None, []


MINF = {'min': ('fmin', 'fminf', 'llvm.minnum.f64', 'llvm.minimum.f64'), 'max': ('fmax', 'fmaxf', 'llvm.maxnum.f64', 'llvm.maximum.f64')}


def web(fa, t, purpose=None):
    """(nodes, leaves): merge points a value comes from, and the values entering them"""
    nodes, leaves = {}, []
    st = [t]
    while st:
        x = st.pop()
        if x is None:
            leaves.append(None)
            continue
        if x in nodes:
            continue
        if x[0] in ('phi', 'mphi'):
            bn, ins = inputs(fa, x)
            if ins:
                nodes[x] = (bn, ins)
                st += [v for p, v in ins]
                continue
        if x[0] == 'sel':
            nodes[x] = (None, [(None, y) for y in x[2:]])
            st += list(x[2:])
            continue
        if x[0] == 'app' and purpose and x[1] in MINF[purpose]:
            nodes[x] = (None, [(None, y) for y in x[2]])
            st += list(x[2])
            continue
        if x not in leaves:
            leaves.append(x)
    return nodes, leaves


def extreme(ctx, oid, fn, runs, purpose, what):
    """runs: {'beats': (fa, term), 'not': (fa, term)}"""
    fa, t = runs['beats']
    nodes, leaves = web(fa, t, purpose)
    got = {}
    odd = []
    for x in leaves:
        if x is not None and mjd(x):
            f = last_field(x[1])
            k = f[0][3:-7]
            got.setdefault(k, []).append(x)
        elif x is not None and x[0] in ('cf', 'c'):
            if (x[1] < LATE if purpose == 'min' else x[1] > EARLY):
                ctx.bad(oid + ' start', '%s: the search for the %s MJD starts from %s' % (fn, what, show(x)), anchor(fa))
        elif x is not None and x[0] == 'op' and x[1] in ('float', 'toint', 'narrow8', 'narrow16', 'narrow32') and mjd(x[2]):
            ctx.bad(oid + ' exact', '%s: the %s MJD is %s' % (fn, what, 'cut to single precision' if x[1] == 'float' else 'truncated'), anchor(fa))
            return
        else:
            odd.append(x)
    ctx.good(oid + ' exact')
    for c in ('beats', 'not'):
        for k in MJDK:
            seen = [a for a in runs.get('seen ' + c, ()) if last_field(a)[0] == 'oi_%s_record' % k]
            for a in seen:
                other = runs['not' if c == 'beats' else 'beats'][0]
                r = scan_one(runs[c][0], a)
                cut = [h for h in iters_in(a) if h in other.reach and not latch_reached(other, h)]
                o2 = '%s %s looked at' % (oid, k)
                if cut:
                    ctx.bad(o2, '%s: the search for the %s MJD ends before the last OI_%s record' % (fn, what, k.upper()), other.F.blocks[cut[0]].term)
                elif r is True:
                    ctx.good(o2)
    for k in MJDK:
        o2 = '%s %s' % (oid, k)
        if k not in got:
            if odd or not nodes:
                ctx.maybe(o2, [show(x) for x in odd if x])
            else:
                ctx.bad(o2, '%s: the %s MJD does not take account of OI_%s' % (fn, what, k.upper()), anchor(fa))
            continue
        rs = [scan_one(fa, x[1]) for x in got[k]]
        if any(r is True for r in rs):
            ctx.good(o2)
        elif all(isinstance(r, str) and r.startswith('!') for r in rs):
            ctx.bad(o2, '%s: the %s MJD of OI_%s: %s' % (fn, what, k.upper(), rs[0][1:]), anchor(fa))
        else:
            ctx.maybe(o2, rs)
        # not skipped
        o3 = o2 + ' always'
        for x in got[k]:
            hs = iters_in(x[1])
            for n, (bn, ins) in nodes.items():
                if bn in hs:
                    keep = [v for p, v in ins if p in fa.F.loops[bn] for z in merged(fa, v, n, bn) if z == n for v in (v,)]
                    if keep:
                        if allplain(fa, fa.F.loops[bn] - {bn}):
                            ctx.bad(o3, '%s: the MJD of some OI_%s records is not considered for the %s' % (fn, k.upper(), what), anchor(fa))
                        else:
                            ctx.maybe(o3, 'condition')
        ctx.good(o3)
    fa, t = runs['not']
    nodes, leaves = web(fa, t, purpose)
    for x in leaves:
        if x is not None and mjd(x):
            k = last_field(x[1])[0][3:-7]
            o2 = '%s %s kept' % (oid, k)
            if any(n[0] == 'app' for n in nodes):
                continue
            direct = any(v == x and bn in fa.F.loops and p in fa.F.loops[bn] for bn, ins in nodes.values() for p, v in ins)
            if direct or allplain(fa):
                ctx.bad(o2, '%s: an MJD of OI_%s replaces a%s one' % (fn, k.upper(), 'n earlier' if purpose == 'min' else ' later'), anchor(fa))
            else:
                ctx.maybe(o2, 'condition')
    ctx.good(oid + ' kept')


def is_const(n):
    return n[0] in ('c', 'cf')


@guarded
def atomic(ctx):
    fn = 'is_atomic'
    A, W, T = ('oi_fits', 'numArray'), ('oi_fits', 'numWavelength'), ('oi_target', 'ntarget')
    for na in (0, 1, 2, 3):
        for nw in (0, 1, 2):
            for nt in (0, 1, 2):
                I = {A: na, W: nw, T: nt}
                what = '%d OI_ARRAY, %d OI_WAVELENGTH, %d targets' % (na, nw, nt)
                fit = na <= 1 and nw == 1 and nt == 1
                for fin, name in (('<', 'less than'), ('=', 'equal to'), ('>', 'more than')):
                    if not fit and fin != '<':
                        continue
                    w = fit and fin != '>'
                    expect_ret(ctx, '%s/%s, span %s the limit' % (fn, what, name), ctx.fa(fn, QO(ints=I, fin=fin)), w,
                               '%s returns %s for %s, a time span %s the limit' % (fn, 'false' if w else 'true', what, name))
    I = {A: 1, W: 1, T: 1}
    o = QO(ints=I, fin='<')
    fa = ctx.fa(fn, o)
    for t in o.final:
        if t[0] == 'op' and t[1] in ('toint', 'float'):
            ctx.bad(fn + '/span exact', '%s compares the span after %s' % (fn, 'truncation' if t[1] == 'toint' else 'cutting it to single precision'), anchor(fa))
            return
    ctx.good(fn + '/span exact')
    for purpose, what in (('min', 'earliest'), ('max', 'latest')):
        runs = {}
        for c, b in (('beats', '<' if purpose == 'min' else '>'), ('not', '>' if purpose == 'min' else '<')):
            o = QO(ints=I, beat=b, purpose=purpose, fin='<')
            fa = ctx.fa(fn, o)
            t = span(o.final, purpose, fa)
            if t is None:
                ctx.maybe('%s/%s' % (fn, what), [show(x) for x in o.final])
                return
            runs[c] = (fa, t)
            runs['seen ' + c] = o.mjds
        extreme(ctx, '%s/%s' % (fn, what), fn, runs, purpose, what)


def span(final, purpose, fa):
    if len(final) != 1:
        return None
    t = final[0]
    ab = False
    if t[0] == 'app' and t[1] in ('fabs', 'llvm.fabs.f64'):
        t, ab = t[2][0], True
    if t[0] != 'op' or t[1] != 'fsub':
        return None
    a, b = t[2], t[3]
    if ab:
        # whichever starts from the higher constant is the minimum
        def start(x):
            cs = [y[1] for y in web(fa, x)[1] if y is not None and y[0] in ('c', 'cf')]
            return max(cs) if cs else None
        sa, sb = start(a), start(b)
        if sa is not None and sb is not None and sa > sb:
            a, b = b, a
    return b if purpose == 'min' else a


# ------------------------------------------------------------------ counting
@guarded
def count(ctx):
    fn = 'count_oi_fits_data'
    allp = {1: 'nz', 2: 'nz', 3: 'nz'}
    o0, o1 = QO(flag=0, ptr=allp), QO(flag=1, ptr=allp)
    fu, ff = ctx.fa(fn, o0), ctx.fa(fn, o1)
    home = {}
    for k in COUNTK:
        for a in o0.hits.get(('oi_%s_record' % k, 'flag'), ()):
            its = [h for h in iters_in(a)]
            if its:
                # channel loop: innermost
                h = min(its, key=lambda x: len(fu.F.loops[x]))
                home.setdefault(h, set()).add(k)
    for n, k in enumerate(COUNTK, 1):
        oid = '%s/%s' % (fn, k)
        loc = arg_of(fu, n)
        # flagged data do not count
        for v in final_mem(ff, loc):
            if v == C(0):
                ctx.good(oid + ' flagged')
                continue
            nodes, leaves = web(ff, v)
            if v[0] == 'c' or nodes and all(x is not None and steps(x, nodes) is not None for x in leaves) and allplain(ff):
                ctx.bad(oid + ' flagged', '%s: flagged data are counted in the number of OI_%s data' % (fn, k.upper()), anchor(ff))
            else:
                ctx.maybe(oid + ' flagged', show(v))
        # unflagged data do
        nar = [i for i, (v, a) in fu.stores() if a == loc and i.ops[0][0] == 'v' and i.ops[0][1] in fu.F.defs
               and fu.F.defs[i.ops[0][1]].op == 'cast' and fu.F.defs[i.ops[0][1]].x.get('fty') in ('i8', 'i16')]
        if nar:
            ctx.bad(oid + ' counted', '%s: the number of OI_%s data is kept in %s bits' % (fn, k.upper(), fu.F.defs[nar[0].ops[0][1]].x['fty'][1:]), nar[0])
            continue
        for v in final_mem(fu, loc):
            countval(ctx, oid, fn, fu, v, k, home, loc)
        hs = o0.hits.get(('oi_%s_record' % k, 'flag'), set())
        for fa, o, name in ((fu, o0, 'unflagged'), (ff, o1, 'flagged')):
            rs = [scan_one(fa, a) for a in o.hits.get(('oi_%s_record' % k, 'flag'), ())]
            o2 = oid + ' scanned ' + name
            if any(r is True for r in rs):
                ctx.good(o2)
            elif rs and all(isinstance(r, str) and r.startswith('!') for r in rs):
                ctx.bad(o2, '%s: OI_%s: %s' % (fn, k.upper(), rs[0][1:]), anchor(fa))
            else:
                ctx.maybe(o2, rs)
        # NULL locations
        p = dict(allp)
        p[n] = 0
        fa = ctx.fa(fn, QO(flag=0, ptr=p))
        hot = [i for i, (v, a) in fa.stores() if base_of(a) == loc]
        ctx.expect(not hot, oid + ' location NULL', '%s: a count is stored through %s although it is NULL' % (fn, loc[2]), hot[0] if hot else None)
        for j, q in enumerate(COUNTK, 1):
            if j == n:
                continue
            p = {x: 0 for x in (1, 2, 3)}
            p[n] = 'nz'
        fa = ctx.fa(fn, QO(flag=0, ptr=p))
        st = [i for i, (v, a) in fa.stores() if a == loc]
        o2 = oid + ' alone'
        if not st:
            ctx.bad(o2, '%s: no count of OI_%s data is given when it is the only one wanted' % (fn, k.upper()), anchor(fa))
        else:
            must(ctx, o2, fa, st, '%s: the number of OI_%s data is not always given' % (fn, k.upper()))


def steps(x, nodes):
    """x as (merge point, increment), or (None, constant)"""
    k, ts = tolin(x)
    ns = [t for t in ts if t in nodes]
    if not ns:
        return (None, x)
    if len(ns) == 1 and ts[ns[0]] == 1:
        return ns[0], ladd(x, ns[0], -1)
    return None


def countval(ctx, oid, fn, fa, v, k, home, loc):
    o2 = oid + ' counted'
    msg = '%s: the number of OI_%s data ' % (fn, k.upper())
    if v == C(0):
        if home:
            ctx.bad(o2, msg + 'is always 0', anchor(fa))
        else:
            ctx.maybe(o2, 'constant')
        return
    # merge points, looking through increments
    nodes, todo, leaves, incs = {}, [v], [], []
    while todo:
        x = todo.pop()
        if x is None:
            leaves.append(None)
            continue
        if x in nodes:
            continue
        if x[0] in ('phi', 'mphi'):
            bn, ins = inputs(fa, x)
            if ins:
                nodes[x] = (bn, ins)
                todo += [y for p, y in ins]
                continue
        if x[0] == 'lin':
            c, ts = tolin(x)
            ps = [t for t in ts if t[0] in ('phi', 'mphi') and ts[t] == 1]
            if len(ps) == 1:
                incs.append((ps[0], ladd(x, ps[0], -1)))
                todo.append(ps[0])
                continue
        leaves.append(x)
    if v[0] == 'lin' and any(x[0] == 'ld' and x[1] == loc for x in tolin(v)[1]):
        ctx.bad(o2, msg + 'is added to what the location held before', anchor(fa))
        return
    if any(x is None or x[0] != 'c' for x in leaves):
        nar = [x for x in leaves if x is not None and x[0] == 'op' and x[1] in ('narrow8', 'narrow16')]
        if nar:
            ctx.bad(o2, msg + 'is kept in %s bits' % nar[0][1][6:], anchor(fa))
            return
        ctx.maybe(o2, [show(x) for x in leaves if x])
        return
    if any(x != C(0) for x in leaves):
        ctx.bad(o2, msg + 'starts from %s' % show([x for x in leaves if x != C(0)][0]), anchor(fa))
        return
    for x, (bn, ins) in nodes.items():
        for p, y in ins:
            if y is not None and y[0] == 'c' and bn in fa.F.loops and p not in fa.F.loops[bn]:
                for h in fa.F.loops:
                    if p in fa.F.loops[h] and any(b in fa.F.loops[h] and k in home[b] for b in home):
                        ctx.bad(o2, msg + 'is reset on the way', anchor(fa))
                        return
    kinds = []
    for ph, d in set(incs):
        if d[0] == 'c':
            h = ph
            bn = nodes[ph][0] if ph in nodes else None
            if d != C(1) and bn in home:
                ctx.bad(o2, msg + 'grows by %s per datum' % show(d), anchor(fa))
                return
            if bn not in home:
                ctx.maybe(o2, 'increment')
                return
            # on every path of the channel loop
            lv = [z for p, y in nodes[ph][1] if p in fa.F.loops[bn] for z in merged(fa, y, ph, bn)]
            if ph in lv:
                if allplain(fa, fa.F.loops[bn] - {bn}):
                    ctx.bad(o2, msg + 'leaves out some unflagged data', anchor(fa))
                else:
                    ctx.maybe(o2, 'condition')
                return
            kinds.append((bn, home[bn]))
        elif d[0] == 'iter' and d[1] in home:
            kinds.append((d[1], home[d[1]]))
        else:
            ctx.maybe(o2, show(d))
            return
    ks = [y for b, x in kinds for y in x]
    if set(ks) == {k} and len(set(b for b, x in kinds)) == len(kinds) == 1:
        ctx.good(o2)
    elif set(ks) != {k}:
        ctx.bad(o2, msg + 'counts %s' % ('nothing' if not ks else 'the data of OI_' + sorted(set(ks) - {k})[0].upper() if set(ks) - {k} else ks), anchor(fa))
    else:
        ctx.maybe(o2, ks)


# ------------------------------------------------------------------ header
def text(fa, s):
    """characters of a constant string, or of a local array holding one"""
    if s[0] == 'str':
        return s[2].split(b'\0')[0].decode('latin1')
    if base_of(s)[0] == 'alloca' and not [x for x in steps_of(s) if x[0] != '[' or x[1] != C(0)]:
        src = [a for i, a in fa.calls() if i.callee and i.callee.startswith('llvm.memcpy') and base_of(a[0]) == base_of(s)]
        oth = [1 for i, (v, a) in fa.stores() if base_of(a) == base_of(s)] + \
              [1 for i, d, q, n in swrites(fa) if base_of(d) == base_of(s) and not i.callee.startswith('llvm.memcpy')]
        if len(src) == 1 and src[0][1][0] == 'str' and not oth:
            return src[0][1][2].split(b'\0')[0].decode('latin1')
    return None


def last_writes(fa, ws):
    """those of the writes after which no other one comes"""
    out = []
    ends = {b.name for b in rets(fa)}
    for i, s, n in ws:
        others = {j.bb.name for j, _, _ in ws if j is not i and j.bb.name != i.bb.name}
        if any(j.bb.name == i.bb.name and j.idx > i.idx for j, _, _ in ws if j is not i):
            continue
        if i.bb.name in ends or not others:
            out.append((i, s, n))
            continue
        m = fa.must_pass(i.bb.name, others, ends)
        if m is not None:
            out.append((i, s, n))
    return out


@guarded
def header(ctx):
    fn = 'set_oi_header'
    A, W, T = ('oi_fits', 'numArray'), ('oi_fits', 'numWavelength'), ('oi_target', 'ntarget')
    stop = ['mjd2date']
    cases = []
    for na in (0, 1, 2, 5):
        cases.append((dict({A: na, W: 1, T: 1}), 'telescop', 'UNKNOWN' if na == 0 else ('array', 'arrname') if na == 1 else 'MULTIPLE', '%d OI_ARRAY tables' % na))
    for nw in (0, 1, 2, 5):
        cases.append((dict({A: 1, W: nw, T: 1}), 'instrume', ('wavelength', 'insname') if nw == 1 else 'MULTIPLE', '%d OI_WAVELENGTH tables' % nw))
    for nt in (0, 1, 2, 5):
        cases.append((dict({A: 1, W: 1, T: nt}), 'object', ('target', 'target') if nt == 1 else 'MULTIPLE', '%d targets' % nt))
    for k in ('origin', 'observer', 'insmode'):
        cases.append(({A: 1, W: 1, T: 1}, k, 'UNKNOWN', 'any'))
    fas = {}
    for I, key, want, what in cases:
        kk = tuple(sorted(I.items()))
        if kk not in fas:
            fas[kk] = ctx.fa(fn, QO(ints=I), stop=stop)
        fa = fas[kk]
        oid = '%s/%s %s' % (fn, key, what)
        me = arg_of(fa, 0)
        ws = [(i, s, n) for i, d, s, n in swrites(fa) if last_field(d) == ('oi_header', key) and base_of(d) == me]
        st = [i for i, (v, a) in fa.stores() if last_field(a) == ('oi_header', key) or cell(a) == ('oi_header', key)]
        if not ws:
            if st:
                ctx.maybe(oid, 'form')
            else:
                ctx.bad(oid, '%s does not set %s for %s' % (fn, key.upper(), what), anchor(fa))
            continue
        r = must(ctx, oid + ' set', fa, [w[0] for w in ws], '%s does not always set %s (%s)' % (fn, key.upper(), what))
        for i, s, n in last_writes(fa, ws):
            if s is None:
                ctx.maybe(oid, 'form')
                continue
            x = text(fa, s)
            full = n is None or n[0] != 'c' or n[1] >= (71 if not isinstance(want, str) else len(want) + 1)
            if isinstance(want, str):
                if x == want and full:
                    ctx.good(oid)
                elif x is not None:
                    ctx.bad(oid, '%s sets %s to "%s" for %s' % (fn, key.upper(), x[:n[1] - 1] if n and n[0] == 'c' else x, what), i)
                elif last_field(s) and last_field(s)[0] in ('oi_array', 'oi_wavelength', 'target', 'oi_header'):
                    ctx.bad(oid, '%s sets %s to the %s of one of them for %s' % (fn, key.upper(), last_field(s)[1].upper(), what), i)
                else:
                    ctx.maybe(oid, show(s))
            else:
                if x is not None:
                    ctx.bad(oid, '%s sets %s to "%s" for %s' % (fn, key.upper(), x, what), i)
                elif not full:
                    ctx.bad(oid, '%s copies at most %s characters into %s' % (fn, show(n), key.upper()), i)
                elif source(strip_ep(s), me, want):
                    ctx.good(oid)
                elif last_field(s) and last_field(s)[0].startswith(('oi_', 'target')) and transparent(strip_ep(s)):
                    ctx.bad(oid, '%s sets %s from %s' % (fn, key.upper(), show(strip_ep(s))), i)
                else:
                    ctx.maybe(oid, show(s))
    # nothing else
    fa = fas[next(iter(fas))]
    me = arg_of(fa, 0)
    keys = {'telescop', 'instrume', 'object', 'date_obs', 'origin', 'observer', 'insmode'}
    base = ctx.fa(fn, QO(), stop=stop)
    hot = [(i, d) for i, d, s, n in swrites(base)] + [(i, a) for i, (v, a) in base.stores()]
    hot = [(i, d) for i, d in hot if base_of(strip_ep(d))[0] != 'alloca' and not (last_field(d) and last_field(d)[0] == 'oi_header' and last_field(d)[1] in keys)
           and not (cell(d) and cell(d)[0] == 'oi_header' and cell(d)[1] in keys) and (base_of(d) == me or base_of(d)[0] == 'ld')]
    ctx.expect(not hot, fn + '/nothing else', '%s also writes to %s' % (fn, show(strip_ep(hot[0][1])) if hot else ''), hot[0][0] if hot else None)
    dateobs(ctx, fn, stop, {A: 1, W: 1, T: 1})


def source(s, me, want):
    if want[0] == 'target':
        t = ('ld', gep(me, [('.', 'oi_fits', 'targets'), ('.', 'oi_target', 'targ')]))
        return s in (gep(t, [('.', 'target', 'target')]), gep(t, [('[', C(0), 'target'), ('.', 'target', 'target')]))
    if last_field(s) != ('oi_' + want[0], want[1]):
        return False
    b = base_of(s)
    if b[0] != 'ld' or last_field(b[1]) != ('_GList', 'data'):
        return False
    l = base_of(b[1])
    if l[0] == 'liter':
        l = l[1]
    return l[0] == 'ld' and l[1] == gep(me, [('.', 'oi_fits', KINDS[want[0]][1])])


def dateobs(ctx, fn, stop, I):
    oid = fn + '/DATE-OBS'
    runs = {}
    for c, b in (('beats', '<'), ('not', '>')):
        o = QO(ints=I, beat=b, purpose='min')
        fa = ctx.fa(fn, o, stop=stop)
        cs = [(i, a) for i, a in fa.calls('mjd2date')]
        if len(cs) != 1:
            ctx.maybe(oid, 'conversion') if cs or [1 for i, a in fa.calls() if i.callee not in ('g_strlcpy', 'g_snprintf', 'floor')] else \
                ctx.bad(oid, '%s does not derive DATE-OBS from the MJD values' % fn, anchor(fa))
            return
        i, a = cs[0]
        t = a[0]
        while t[0] == 'op' and t[1] == 'toint' or t[0] == 'app' and t[1] in ('floor', 'llvm.floor.f64', 'trunc'):
            t = t[2] if t[0] == 'op' else t[2][0]
        runs[c] = (fa, t)
        runs['seen ' + c] = o.mjds
    k, ts = tolin(t)
    if any(is_call(x, 'ceil', 'round', 'lround', 'rint', 'lrint', 'nearbyint', 'llrint', 'llvm.rint.f64', 'llvm.ceil.f64', 'llvm.round.f64', 'llvm.nearbyint.f64') for x in subterms(a[0])):
        ctx.bad(oid + ' day', '%s rounds the MJD up' % fn, i)
        return
    if t[0] == 'lin' or t[0] == 'op' and t[1] in ('fadd', 'fsub'):
        if any(x[0] in ('phi', 'mphi') for x in subterms(t)) and all(x[0] in ('phi', 'c', 'cf', 'lin', 'op') for x in subterms(t)):
            ctx.bad(oid + ' day', '%s converts %s' % (fn, show(t)), i)
            return
    extreme(ctx, oid, fn, runs, 'min', 'earliest')
    fa = runs['beats'][0]
    me = arg_of(fa, 0)
    i, a = next(iter(fa.calls('mjd2date')))
    outs = [strip_ep(x) for x in a[1:4]]
    ws = [(j, b) for j, b in fa.calls('g_snprintf', 'snprintf') if last_field(b[0]) == ('oi_header', 'date_obs') and base_of(b[0]) == me]
    o2 = oid + ' text'
    if len(ws) != 1:
        oth = [j for j, b in fa.calls() if b and last_field(b[0]) == ('oi_header', 'date_obs')]
        if oth:
            ctx.maybe(o2, 'form')
        else:
            ctx.bad(o2, '%s does not set DATE-OBS' % fn, anchor(fa))
        return
    j, b = ws[0]
    must(ctx, oid + ' set', fa, [j], '%s does not always set DATE-OBS' % fn)
    import re
    if b[2][0] != 'str':
        ctx.maybe(o2, 'format')
        return
    f = b[2][2].split(b'\0')[0].decode('latin1')
    g = re.fullmatch(r'%(0?4|\.4)l?d-%(02|\.2)l?d-%(02|\.2)l?d', f)
    if not g:
        if re.fullmatch(r'[^%]*(%[-+ 0-9.]*[a-z]+[^%]*)*', f):
            ctx.bad(o2, '%s formats DATE-OBS as "%s"' % (fn, f), j)
        else:
            ctx.maybe(o2, f)
        return
    vs = [strip_ep(x) for x in b[3:6]]
    got = [outs.index(v[1]) if v[0] == 'ld' and v[1] in outs else None for v in vs]
    if got == [0, 1, 2] and (b[1][0] != 'c' or b[1][1] >= 11):
        ctx.good(o2)
    elif None in got:
        ctx.maybe(o2, [show(v) for v in vs])
    elif got != [0, 1, 2]:
        ctx.bad(o2, '%s: DATE-OBS is not year-month-day' % fn, j)
    else:
        ctx.bad(o2, '%s: DATE-OBS is cut to %s characters' % (fn, show(ladd(b[1], C(-1)))), j)


def is_call(x, *names):
    return x[0] == 'app' and x[1] in names


# ------------------------------------------------------------------ upgrade
@guarded
def upgrade(ctx, k):
    fn = 'upgrade_oi_' + k
    s = 'oi_' + k
    timed = k in ('vis', 'vis2', 't3')
    for r in (0, 2, 3):
        fa = ctx.fa(fn, QO(ints={(s, 'revision'): r}))
        st = [(i, v, a) for i, (v, a) in fa.stores() if base_of(strip_ep(a))[0] != 'alloca']
        st = [x for x in st if not (last_field(x[2]) == (s, 'revision') and x[1] == C(r))]
        ctx.expect(not st, '%s/revision %d' % (fn, r), '%s changes %s of a table of revision %d' % (fn, show(strip_ep(st[0][2])) if st else '', r), st[0][0] if st else None)
    o = QO(ints={(s, 'revision'): 1})
    fa = ctx.fa(fn, o)
    me = arg_of(fa, 0)
    rev = [(i, v) for i, (v, a) in fa.stores() if a == fld(me, s, 'revision')]
    oid = fn + '/revision 1'
    if not rev:
        ctx.bad(oid, '%s leaves OI_REVN 1' % fn, anchor(fa))
    elif any(v[0] == 'c' and v != C(2) for i, v in rev):
        ctx.bad(oid, '%s sets OI_REVN to %s' % (fn, show([v for i, v in rev if v != C(2)][0])), rev[0][0])
    elif all(v == C(2) for i, v in rev):
        must(ctx, oid, fa, [i for i, v in rev], '%s does not always set OI_REVN' % fn)
    else:
        ctx.maybe(oid, [show(v) for i, v in rev])
    tm = [(i, v, strip_ep(a)) for i, (v, a) in fa.stores() if last_field(a) == (s + '_record', 'time')]
    oth = [(i, a) for i, (v, a) in fa.stores() if last_field(a) != (s + '_record', 'time') and a != fld(me, s, 'revision') and base_of(strip_ep(a))[0] != 'alloca']
    ctx.expect(not oth, fn + '/nothing else', '%s also changes %s' % (fn, show(strip_ep(oth[0][1])) if oth else ''), oth[0][0] if oth else None)
    if not timed:
        return
    oid = fn + '/TIME'
    if not tm:
        ctx.bad(oid, '%s does not zero TIME' % fn, anchor(fa))
        return
    if any(v[0] == 'cf' and v[1] != 0 for i, v, a in tm):
        ctx.bad(oid, '%s sets TIME to %s' % (fn, show([v for i, v, a in tm if v != ('cf', 0.0)][0])), tm[0][0])
        return
    if not all(v[0] == 'cf' for i, v, a in tm):
        ctx.maybe(oid, [show(v) for i, v, a in tm])
        return
    must(ctx, oid, fa, [i for i, v, a in tm], '%s does not zero every TIME' % fn)
    n = ('ld', fld(me, s, 'numrec'))
    rd = []
    for i, v, a in tm:
        x = steps_of(a)
        rd.append((i, x[0][1] if x and x[0][0] == '[' else C(0)))
    r = full_cover(fa, rd, n)
    if r is True:
        ctx.good(oid + ' all')
    elif r is False:
        ctx.bad(oid + ' all', '%s does not zero TIME of every record' % fn, tm[0][0])
    else:
        ctx.maybe(oid + ' all', [show(x) for i, x in rd])


def query(ctx):
    two(ctx)
    one(ctx)
    atomic(ctx)
    count(ctx)
    header(ctx)
    for k in ('target', 'array', 'wavelength', 'vis', 'vis2', 't3'):
        upgrade(ctx, k)
