"""Filter defaults and command-line options (C20)."""
import itertools
import os
from engine.lib import *
from .merge import anchor, swrites
from .query import retleaves
from .cli import TO, ABORTS, start, always, allplain, region

SPEC = 'oi_filter_spec'
STR, INT, DBL = 1, 2, 7
FLEN = 71
# option -> (argument type, field, index, factor)
OPTIONS = {'arrname': (STR, 'arrname', None, 1), 'insname': (STR, 'insname', None, 1), 'corrname': (STR, 'corrname', None, 1),
           'target-id': (INT, 'target_id', None, 1)}
for _o, _f, _k in (('mjd', 'mjd_range', 1), ('wave', 'wave_range', 1e-9), ('bas', 'bas_range', 1), ('uvrad', 'uvrad_range', 1), ('snr', 'snr_range', 1)):
    OPTIONS[_o + '-min'] = (DBL, _f, 0, _k)
    OPTIONS[_o + '-max'] = (DBL, _f, 1, _k)
for _o in ('vis', 'vis2', 't3amp', 't3phi', 'flux', 'flagged'):
    OPTIONS['accept-' + _o] = (INT, 'accept_' + _o, None, 1)
RANGES = {'mjd_range': (0., 1e7), 'wave_range': (0., 1e-4), 'bas_range': (0., 1e4), 'uvrad_range': (0., 1e11), 'snr_range': (-5., 1e10)}


def member(base, f, k=None):
    a = gep(base, [('.', SPEC, f)])
    return gep(a, [('[', C(k), 'a')]) if k is not None else a


def num(t):
    """the number a term stands for, or None"""
    if t is None:
        return None
    if t[0] in ('c', 'cf'):
        return float(t[1])
    if t[0] == 'op' and t[1] == 'float':
        return num(t[2])
    if t[0] == 'op' and t[1] in ('fmul', 'fadd', 'fsub', 'fdiv') and len(t) == 4:
        a, b = num(t[2]), num(t[3])
        if a is None or b is None or t[1] == 'fdiv' and b == 0:
            return None
        return {'fmul': a * b, 'fadd': a + b, 'fsub': a - b, 'fdiv': a / b if b else None}[t[1]]
    if t[0] == 'op' and t[1] == 'fneg':
        a = num(t[2])
        return None if a is None else -a
    return None


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) if b else abs(a) < 1e-12


def factor(t, leaf):
    """k when t = k * leaf"""
    if t == leaf:
        return 1.0
    if t[0] == 'op' and t[1] == 'float':
        return factor(t[2], leaf)
    if t[0] == 'op' and t[1] == 'fmul':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            n, k = num(x), factor(y, leaf)
            if n is not None and k is not None:
                return n * k
    if t[0] == 'op' and t[1] == 'fdiv':
        n, k = num(t[3]), factor(t[2], leaf)
        return k / n if n and k is not None else None
    return None


def alts(fa, t, seen=frozenset()):
    """the terms t may stand for, merged values outside loops taken apart"""
    if t[0] == 'phi' and t not in seen:
        i = fa.F.defs.get(t[1])
        if i is not None and i.bb.name not in fa.F.loops:
            out = []
            for p, o in zip(i.x['preds'], i.ops):
                if (p, i.bb.name) in fa.exec_edges:
                    y = fa.t(o)
                    out += alts(fa, y, seen | {t}) if y is not None else [t]
            return out or [t]
    if t[0] == 'sel':
        d = fa.decide_bool(t[1])
        return [z for k in ((2, 3) if d is None else (2,) if d else (3,)) for z in alts(fa, t[k], seen)]
    if t[0] == 'op' and len(t) in (3, 4) and all(isinstance(x, tuple) for x in t[2:]):
        parts = [alts(fa, x, seen) for x in t[2:]]
        if max(map(len, parts)) > 1 and all(len(p) <= 4 for p in parts):
            return [t[:2] + c for c in itertools.product(*parts)]
    return [t]


def simple(t):
    """made of attributes, variables and numbers"""
    return all(x[0] in ('ld', 'gep', 'glob', 'c', 'cf', 'op', 'lin', 'arg', 'str', 'null') and not (x[0] == 'ld' and len(x) > 2 and x[2]) for x in subterms(t))


def values(fa, addr):
    """values that may be at addr on return, merges taken apart"""
    out = []

    def go(v, seen):
        if v[0] == 'mphi' and v not in seen and v[1] in fa.F.blocks and v[1] not in fa.F.loops:
            for p in fa.F.blocks[v[1]].preds:
                if (p.name, v[1]) in fa.exec_edges and p.name in fa.out:
                    go(fa.mem_load(fa.out[p.name], v[2], None), seen | {v})
            return
        for x in mem_leaves(fa, v):
            if x != v and x[0] == 'mphi':
                go(x, seen | {v})
            elif x not in out:
                out.append(x)
    for v in final_mem(fa, addr):
        go(v, frozenset())
    return out


def settled(fa):
    return all(c is None or c[0] == 'c' or simple(strip_ep(c)) or all(x[0] != 'phi' for x in subterms(c)) for n, c in open_conds(fa))


def number(ctx, oid, fa, addr, want, msg, same=None):
    """the value at addr on return is the number wanted"""
    vs = values(fa, addr)
    ns = [num(v) for v in vs]
    bad = [v for v, n in zip(vs, ns) if (n is not None and not (close(n, want) if not same else same(n)))]
    left = [v for v in vs if v == ('ld', addr)]
    if vs and all(n is not None for n in ns) and not bad:
        ctx.good(oid)
    elif bad and (len(bad) == len(vs) or settled(fa)):
        ctx.bad(oid, '%s is %s instead of %g' % (msg, show(bad[0]), want), anchor(fa))
    elif left and settled(fa):
        ctx.bad(oid, '%s is not set' % msg, anchor(fa))
    elif vs and all(simple(v) for v in vs) and settled(fa):
        ctx.bad(oid, '%s is %s' % (msg, show(vs[0])), anchor(fa))
    else:
        ctx.maybe(oid, [show(v) for v in vs])


def text(ctx, oid, fa, addr, want, msg):
    """the string at addr on return is the literal wanted"""
    ws = [(i, s, n) for i, d, s, n in swrites(fa) if strip_ep(d) == addr]
    if not ws:
        v0, v1 = values(fa, gep(addr, [])), values(fa, gep(addr, [('[', C(1), 'a')]))
        if v0 == [C(want[0])] and v1 == [C(0)]:
            ctx.good(oid)
        elif any(strip_ep(v) == ('ld', addr) for v in v0) and not [1 for i, a in fa.calls() if i.callee not in ('strcpy',) and any(base_of(strip_ep(x)) == base_of(addr) for x in a if x is not None)]:
            ctx.bad(oid, '%s is not set' % msg, anchor(fa))
        else:
            ctx.maybe(oid, 'form')
        return
    m = fa.must_pass(fa.F.entry, {i.bb.name for i, s, n in ws}, {b.name for b in rets(fa)}) if not any(i.bb.name == fa.F.entry for i, s, n in ws) else None
    wrong = [(i, s) for i, s, n in ws if s is not None and s[0] == 'str' and s[2].split(b'\0')[0] != want]
    if wrong and len(ws) == 1:
        ctx.bad(oid, '%s is %s' % (msg, show(wrong[0][1])), wrong[0][0])
    elif m is not None and settled(fa):
        ctx.bad(oid, '%s is not always set' % msg, anchor(fa))
    elif m is None and all(s is not None and s[0] == 'str' and s[2].split(b'\0')[0] == want and (n is None or n[0] == 'c' and n[1] > len(want)) for i, s, n in ws):
        ctx.good(oid)
    else:
        ctx.maybe(oid, 'form')


def defaults(ctx, fa, base, pre):
    for f in ('arrname', 'insname', 'corrname'):
        text(ctx, pre + f, fa, member(base, f), b'*', '%s pattern' % f.upper())
    number(ctx, pre + 'target_id', fa, member(base, 'target_id'), -1, 'target_id', lambda n: n < 0)
    for f, r in RANGES.items():
        for k in (0, 1):
            number(ctx, '%s%s[%d]' % (pre, f, k), fa, member(base, f, k), r[k], '%s[%d]' % (f, k))
    for o in OPTIONS:
        if o.startswith('accept'):
            f = OPTIONS[o][1]
            number(ctx, pre + f, fa, member(base, f), 1, f, lambda n: n != 0)


@guarded
def initial(ctx):
    fn = 'init_oi_filter'
    fa = ctx.fa(fn)
    base = arg_of(fa, 0)
    defaults(ctx, fa, base, fn + '/')
    for f in ('arrname_pttn', 'insname_pttn', 'corrname_pttn'):
        vs = values(fa, member(base, f))
        oid = '%s/%s' % (fn, f)
        if vs and all(v == ('null',) or v == C(0) for v in vs):
            ctx.good(oid)
        elif vs and all(simple(v) for v in vs) and settled(fa):
            ctx.bad(oid, '%s is %s' % (f, show(vs[0])), anchor(fa))
        else:
            ctx.maybe(oid, [show(v) for v in vs])


def place(prog, M, c):
    """address a constant initialiser stands for, as (global, steps)"""
    if c[0] == 'g':
        return c[1], ()
    if c[0] != 'cgep' or c[2][0][1][0] != 'g' or c[1] != 'i8' or len(c[2]) != 2 or c[2][1][1][0] != 'i':
        return None
    g, off = c[2][0][1][1], c[2][1][1][1]
    x = M.globals.get(g)
    if x is None:
        return None
    ty, out = x['ty'], []
    while True:
        if isinstance(ty, tuple) and ty[0] == 'named':
            hit = None
            for k, (o, e) in enumerate(zip(prog.offsets(ty), prog.types[ty[1]][1])):
                if o <= off < o + prog.sizeof(e):
                    hit = (k, o, e)
            if hit is None:
                return None
            out.append(('.', prog.sname(ty), prog.fieldname(ty, hit[0])))
            off, ty = off - hit[1], hit[2]
        elif isinstance(ty, tuple) and ty[0] == 'arr':
            z = prog.sizeof(ty[2])
            if off // z:
                out.append(('[', C(off // z), 'a'))
            off, ty = off % z, ty[2]
        else:
            return (g, tuple(out)) if off == 0 else None


def where(a):
    b = base_of(a)
    return (b[1], tuple(steps_of(a))) if b[0] == 'glob' else None


def entries(ctx, fa, g):
    """{option: (argument type, place)} of a constant option table up to its end"""
    prog = ctx.prog('lib')
    for M in prog.modules:
        x = M.globals.get(g)
        if x is None or x['init'] is None or x['init'][0] != 'agg':
            continue
        out = {}
        for ty, e in x['init'][1]:
            if e[0] != 'agg' or e[1][0][1][0] != 'g':
                return out                   # the terminating entry
            f = [c for t, c in e[1]]
            s = M.globals[f[0][1]]['init'][1].split(b'\0')[0].decode()
            out[s] = (f[3][1] if f[3][0] == 'i' else None, place(prog, M, f[4]))
        return out
    return None


@guarded
def options(ctx):
    fn = 'get_oi_filter_option_group'
    fa = ctx.fa(fn)
    ad = list(fa.calls('g_option_group_add_entries'))
    hk = list(fa.calls('g_option_group_set_parse_hooks'))
    ls = retleaves(fa)
    for what, cs, msg in (('entries', ad, 'the filter options are not added to the group'), ('hooks', hk, 'the parse hooks of the group are not set')):
        oid = '%s/%s' % (fn, what)
        if not cs:
            ctx.bad(oid, msg, anchor(fa))
            continue
        always(ctx, oid, fa, start(fa), [i for i, a in cs], msg)
        for i, a in cs:
            if ls == [a[0]]:
                ctx.good(oid + ' group')
            elif len(ls) == 1 and ls[0][0] in ('call', 'null') and a[0][0] == 'call':
                ctx.bad(oid + ' group', '%s: the group returned is another one' % fn, i)
            else:
                ctx.maybe(oid + ' group', [show(x) for x in ls])
    # get_user_oi_filter: the filter the options end up in
    us = ctx.fa('get_user_oi_filter')
    pf = {where(x) for x in retleaves(us)}
    if len(pf) != 1 or None in pf or len(hk) != 1 or not ad:
        if hk and ad:
            ctx.maybe(fn + '/filter', [show(x) for x in retleaves(us)])
        return
    P = base_of(retleaves(us)[0])
    if where(P) not in pf:
        ctx.maybe(fn + '/filter', 'form')
        return
    hooks = {}
    for k, w in ((1, 'before'), (2, 'after')):
        h = hk[0][1][k]
        if h[0] == 'fn':
            hooks[w] = h[1]
        elif h[0] == 'null' or h == C(0):
            ctx.bad('%s/%s' % (fn, w), 'no function is called %s the options are parsed' % w, hk[0][0])
        else:
            ctx.maybe('%s/%s' % (fn, w), show(h))
    if len(hooks) != 2:
        return
    tabs = {}
    for i, a in ad:
        e = entries(ctx, fa, base_of(a[1])[1]) if base_of(a[1])[0] == 'glob' and not steps_of(a[1]) else None
        if e is None:
            ctx.maybe(fn + '/options', 'table of options not recognised')
            return
        tabs.update(e)
    pre = ctx.fa(hooks['before'])
    strs = {tabs[o][1][0] for o in ('arrname', 'insname', 'corrname') if o in tabs and tabs[o][1] is not None}
    given = ctx.fa(hooks['after'], TO(globs={g: 'nz' for g in strs}))
    absent = ctx.fa(hooks['after'], TO(globs={g: 0 for g in strs}))

    def one(g, this, others):
        return ctx.fa(hooks['after'], TO(globs={x: this if x == g else others for x in strs}))
    # defaults, before anything is parsed
    defaults(ctx, pre, P, fn + '/default ')
    for w, f in (('before', pre), ('after', given)):
        oid = '%s/%s succeeds' % (fn, w)
        rs = retleaves(f)
        if rs and all(r[0] == 'c' and r[1] for r in rs):
            ctx.good(oid)
        elif any(r == C(0) for r in rs) and settled(f):
            ctx.bad(oid, '%s fails' % hooks[w], anchor(f))
        else:
            ctx.maybe(oid, [show(r) for r in rs])
    for o, (ty, field, k, fac) in OPTIONS.items():
        oid = '%s/--%s' % (fn, o)
        if o not in tabs:
            ctx.bad(oid, 'there is no option --%s' % o, ad[0][0])
            continue
        t, pl = tabs[o]
        if t != ty:
            ctx.bad(oid + ' type', '--%s takes an argument of GOptionArg type %s instead of %d' % (o, t, ty), ad[0][0])
            continue
        ctx.good(oid + ' type')
        if pl is None:
            ctx.maybe(oid, 'destination')
            continue
        F = member(P, field, k)
        D = None
        for x in (given, pre):
            for b in x.F.rpo:
                for i in b.insts:
                    for a in x.args.get(id(i)) or ():
                        for y in subterms(a) if a is not None else ():
                            if y[0] in ('glob', 'gep') and where(y) == pl:
                                D = y
        if pl == where(F):
            D = F
        if D is None:
            ctx.bad(oid, '--%s sets %s, which nothing uses' % (o, pl[0]), ad[0][0])
            continue
        if ty == STR:
            ws = [(i, s, n) for i, d, s, n in swrites(given) if strip_ep(d) == F]
            src = [(i, s, n) for i, s, n in ws if s is not None and strip_ep(s) == ('ld', D)]
            if not src:
                if ws and all(s is not None and strip_ep(s)[0] in ('ld', 'str') for i, s, n in ws):
                    ctx.bad(oid, '%s of the filter is taken from %s instead of --%s' % (field, show(ws[0][1]), o), ws[0][0])
                elif not ws and settled(given):
                    ctx.bad(oid, '--%s has no effect on %s' % (o, field), anchor(given))
                else:
                    ctx.maybe(oid, 'form')
                continue
            if len(ws) > len(src):
                ctx.maybe(oid, 'several writes')
                continue
            g1, a1 = one(pl[0], 'nz', 0), one(pl[0], 0, 'nz')
            always(ctx, oid + ' alone', g1, start(g1), [i for i, d, s, n in swrites(g1) if strip_ep(d) == F], '%s of the filter is not taken from --%s when that is given alone' % (field, o))
            always(ctx, oid, given, start(given), [i for i, s, n in src], '%s of the filter is not always taken from --%s' % (field, o))
            for i, s, n in src:
                if n is not None and n[0] == 'c':
                    ctx.expect(n[1] >= FLEN, oid + ' length', 'only %d characters of --%s are kept' % (n[1] - 1, o), i)
                elif n is not None:
                    ctx.maybe(oid + ' length', show(n))
            left = [i for f in (absent, a1) for i, d, s, n in swrites(f) if strip_ep(d) == F and i.bb.name in f.reach]
            if not left:
                ctx.good(oid + ' absent')
            elif settled(absent) and settled(a1):
                ctx.bad(oid + ' absent', '%s of the filter is written although --%s was not given' % (field, o), left[0])
            else:
                ctx.maybe(oid + ' absent', 'conditions')
            vs = values(pre, D)
            if vs and all(v == ('null',) or v == C(0) for v in vs):
                ctx.good(oid + ' default')
            elif vs and all(simple(v) for v in vs) and settled(pre):
                ctx.bad(oid + ' default', 'the variable for --%s is %s when it is not given' % (o, show(vs[0])), anchor(pre))
            else:
                ctx.maybe(oid + ' default', [show(v) for v in vs])
            continue
        vs = [y for v in values(given, F) for y in alts(given, v)]
        fs = [factor(strip_ep(v), ('ld', D)) for v in vs]
        straight = not [h for h in given.F.loops if h in given.reach]        # an epoch left by a store to the other end of a range says nothing
        wrong = [v for v, x in zip(vs, fs) if x is None and (simple(v) or straight and strip_ep(v) == ('ld', F)) or x is not None and not close(x, fac)]
        if vs and not wrong and all(x is not None for x in fs):
            ctx.good(oid)
        elif wrong and (len(wrong) == len(vs) or settled(given)):
            ctx.bad(oid, 'after --%s, %s%s of the filter is %s' % (o, field, '' if k is None else '[%d]' % k, show(wrong[0])), anchor(given))
        else:
            ctx.maybe(oid, [show(v) for v in vs])
        if D != F:
            number(ctx, oid + ' default', pre, D, RANGES[field][k] / fac if field in RANGES else 1, 'without --%s, its variable' % o)
    # afterwards the filter can be had, and is used
    ab = []
    for f in (given, absent):
        flags = {}
        for b in f.F.rpo:
            for i in b.insts:
                if i.op == 'store' and id(i) in f.args and f.args[id(i)][1][0] == 'glob':
                    a = f.args[id(i)][1]
                    vs = values(f, a)
                    if len(vs) == 1 and vs[0][0] == 'c':
                        flags[a[1]] = vs[0][1]
        ua = ctx.fa('get_user_oi_filter', TO(globs=flags))
        ab = ab or [i for b in ua.F.rpo if b.name in ua.reach for i in b.insts if i.op == 'call' and i.callee in ABORTS]
    oid = 'get_user_oi_filter/available'
    if not ab:
        ctx.good(oid)
    elif allplain(ua):
        ctx.bad(oid, 'get_user_oi_filter aborts although the options have been parsed', ab[0])
    else:
        ctx.maybe(oid, 'conditions')
    fn = 'apply_user_oi_filter'
    ap = ctx.fa(fn, TO(globs=flags), stop=['apply_oi_filter'])
    cs = list(ap.calls('apply_oi_filter'))
    oid = fn + '/applies'
    if not cs:
        ctx.maybe(oid, 'apply_oi_filter not called')
        return
    always(ctx, oid, ap, start(ap), [i for i, a in cs], '%s does not apply the filter' % fn)
    for i, a in cs:
        x = strip_ep(a[1])
        if x[0] == 'alloca':
            copied(ctx, ap, i, x, P, fn)
        for k, w, what in ((0, arg_of(ap, 0), 'dataset'), (1, P, 'filter'), (2, arg_of(ap, 1), 'output')):
            x = strip_ep(a[k])
            if x == w:
                ctx.good('%s/%s' % (fn, what))
            elif k == 1 and x[0] == 'alloca':
                pass
            elif base_of(x)[0] in ('arg', 'glob', 'null') or base_of(x)[0] == 'alloca' and k != 1:
                ctx.bad('%s/%s' % (fn, what), '%s applies the filter with %s as its %s' % (fn, show(x), what), i)
            else:
                ctx.maybe('%s/%s' % (fn, what), show(x))


def copied(ctx, fa, i, x, P, fn):
    """the local filter passed at call i holds what the user's filter holds"""
    mem = fa.mem_before(i)
    parts = [(o[1], o[2], 1) for o in OPTIONS.values() if o[0] != STR] + [(f, k, b'') for f in ('arrname', 'insname', 'corrname') for k in (None, 1)]
    for f, k, w in sorted(set(parts), key=str):
        oid = '%s/filter %s%s' % (fn, f, '' if k is None else '[%d]' % k)
        v = strip_ep(fa.mem_load(mem, member(x, f, k), None))
        if v == ('ld', member(P, f, k)):
            ctx.good(oid)
        elif simple(v) and allplain(fa):
            ctx.bad(oid, '%s applies a filter whose %s is %s' % (fn, f, show(v)), i)
        else:
            ctx.maybe(oid, show(v))


def filter_options(ctx):
    initial(ctx)
    options(ctx)
