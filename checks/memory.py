"""Deep copy (C08), release (C09) and buffer sizes (C15) of the table structures."""
import re
from engine.lib import *
from .schema import SCH, full_cover, every_iter, miss_conds, transparent_cond, TABS
from .tables import state_at

KINDS = [k for k in SCH if k != 'header']
FREES = ('free', 'g_free')
CSIZE = {'double': 8, 'float': 4, 'int': 4, 'char': 1, 'complex float': 8, 'float complex': 8, '_Complex float': 8, 'long': 8}
FLAGOF = {'visrefmap': 'usevisrefmap', 'rvis': 'usecomplex', 'rviserr': 'usecomplex', 'ivis': 'usecomplex', 'iviserr': 'usecomplex'}


def uid(i):
    return i.res if i.res is not None else '%s.%d' % (i.bb.name, i.idx)


def tabs_of(kind):
    S = SCH[kind]
    return S['tab'], (S['rec'] if S['rec'] != S['tab'] else None), S.get('recf'), S['num']


def ptr_fields(ctx, s):
    return [f for f, ty, ct in ctx.prog().struct_fields(s) if ty == 'ptr']


def scalar_fields(ctx, s):
    return [f for f, ty, ct in ctx.prog().struct_fields(s) if ty != 'ptr']


def elem_size(ctx, s, f):
    ct = ctx.prog().ctype(s, f) or ''
    b = ct[:-1] if ct.endswith('*') else ct
    if b in CSIZE:
        return CSIZE[b]
    if 'complex' in b.lower():
        return 8 if 'float' in b else 16
    if ctx.prog().types.get('struct.' + b):
        return ctx.prog().sizeof(('named', 'struct.' + b))
    return None


class MO(Oracle):
    """table option flags as given; pointers of the table are non-null, it has rows and channels"""
    def __init__(self, flags=None):
        self.flags = flags or {}

    def val(self, t):
        if t[0] == 'ld':
            f = last_field(t[1])
            if f and f[0] in TABS and f[1] in self.flags and steps_of(t[1])[-1][0] == '.':
                return self.flags[f[1]]
            if f and f in PTRS:
                return 'nz'
        if t[0] == 'call' and t[1] in ALLOCS:
            return 'nz'
        if t[0] == 'arg' and t[2] in getattr(self, 'nn', ()):
            return 'nz'
        return None

    def rel(self, a, b):
        if a[0] == 'ld' and b[0] == 'c' and b[1] <= 0:
            f = last_field(a[1])
            if f and f[0] in TABS and f[1] in ('numrec', 'nwave', 'nelement', 'ntarget', 'ncorr'):
                return '>'
        return None


PTRS = set()


def load_ptrs(ctx):
    if not PTRS:
        for k in KINDS:
            t, r, rf, n = tabs_of(k)
            for s in (t, r):
                if s:
                    PTRS.update((s, f) for f in ptr_fields(ctx, s))


MEMCPY = ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
MEMDUPS = ('g_memdup', 'g_memdup2')
PAIRS = {'oi_vis': 2}


def copies(fa):
    """[(inst, dst, src, size)] bulk copies"""
    out = []
    for i, a in fa.calls():
        if i.callee in MEMCPY:
            out.append((i, a[0], a[1], a[2]))
        elif i.callee in MEMDUPS:
            out.append((i, fa.t(('v', i.res)), a[0], a[1]))
    return out


def alloc_size(fa, t):
    for i, a in fa.calls():
        if i.res is not None and ('call', i.callee, i.res) == t or i.callee and t == ('call', i.callee, uid(i)):
            if i.callee in ('calloc', 'g_malloc_n', 'g_malloc0_n'):
                return lmul(a[0], a[1]), i
            if i.callee in MEMDUPS:
                return a[1], i
            if i.callee in ('realloc', '_chkrealloc', 'g_realloc'):
                return a[1], i
            return a[0], i
    return None, None


def same(t, u):
    return strip_ep(t) == strip_ep(u)


def base_src(t):
    """strip epochs but keep the address"""
    return strip_ep(t)


@guarded
def dup(ctx, kind):
    load_ptrs(ctx)
    fn = 'dup_oi_' + kind
    tab, rec, recf, num = tabs_of(kind)
    confs = [dict(usevisrefmap=a, usecomplex=b) for a in (0, 1) for b in (0, 1)] if kind == 'vis' else [{}]
    for cf in confs:
        P = '%s[%s]/' % (fn, ','.join(k for k, v in cf.items() if v)) if cf else fn + '/'
        fa = ctx.fa(fn, MO(cf))
        inp = arg_of(fa, 0)
        anchor = fa.F.blocks[fa.F.entry].term
        outs = {fa.args[id(b.term)][0] for b in rets(fa) if id(b.term) in fa.args}
        if len(outs) != 1:
            ctx.maybe(P + 'result', [show(x) for x in outs])
            continue
        out = outs.pop()
        if out == inp or out[0] == 'ld' or out[0] == 'null':
            ctx.bad(P + 'result', '%s returns %s instead of a new copy' % (fn, show(out)), anchor)
            continue
        if not (out[0] == 'call' and out[1] in ALLOCS):
            ctx.maybe(P + 'result', show(out))
            continue
        ctx.good(P + 'result')
        size(ctx, P + 'struct size', fa, out, ctx.prog().sizeof(('named', 'struct.' + tab)), C(1), '%s allocates' % fn)
        # scalars of the table
        for f in scalar_fields(ctx, tab):
            vs = final_mem(fa, fld(out, tab, f))
            judge(ctx, P + f, fa, vs, ('ld', fld(inp, tab, f)), '%s: %s of the copy is %%s' % (fn, f), anchor, fld(out, tab, f))
        for i, d, s, n in copies(fa):
            if d == out and s == inp:
                full = ctx.prog().sizeof(('named', 'struct.' + tab))
                if n[0] == 'c':
                    ctx.expect(n[1] == full, P + 'struct copy', '%s copies %d of %d bytes of the table structure' % (fn, n[1], full), i)
        # arrays of the table
        for f in ptr_fields(ctx, tab):
            if f == recf:
                cnt = ('ld', fld(inp, tab, num))
            else:
                cnt = ('ld', fld(inp, tab, num))
            vs = final_mem(fa, fld(out, tab, f))
            array_copy(ctx, P + f, fn, fa, vs, ('ld', fld(inp, tab, f)), cnt, elem_size(ctx, tab, f), anchor, None, fld(out, tab, f))
        if not rec:
            continue
        # per-record arrays
        rb = final_mem(fa, fld(out, tab, recf))
        if len(rb) != 1:
            continue
        rb = rb[0]
        inrec = ('ld', fld(inp, tab, recf))
        for f in ptr_fields(ctx, rec):
            oid = P + 'record.' + f
            if f in FLAGOF and not cf.get(FLAGOF[f], 1):
                continue
            sts = []
            for i, (v, ad) in fa.stores():
                if last_field(ad) == (rec, f) and steps_of(ad)[-1][0] == '.' and base_of(ad) == rb:
                    st = steps_of(ad)
                    idx = st[-2][1] if len(st) > 1 and st[-2][0] == '[' else C(0)
                    sts.append((i, idx, v, ad))
            if not sts:
                if any(last_field(ad) == (rec, f) for i, (v, ad) in fa.stores()):
                    ctx.maybe(oid, 'store not resolved')
                else:
                    ctx.bad(oid, '%s: %s of the copied records still points to the input data' % (fn, f), anchor)
                continue
            fc = full_cover(fa, [(i, idx) for i, idx, v, ad in sts], ('ld', fld(inp, tab, num)))
            ok = [x for x in sts if every_iter(fa, x[0])[0]]
            if fc is False:
                ctx.bad(oid, '%s: %s is not copied for every record' % (fn, f), sts[0][0])
                continue
            if not ok:
                cs = miss_conds(fa, every_iter(fa, sts[0][0])[1], sts[0][0])
                if cs and all(transparent_cond(c, fa) for c in cs):
                    ctx.bad(oid, '%s: %s is copied only when %s' % (fn, f, show(cs[0])), sts[0][0])
                else:
                    ctx.maybe(oid, 'condition')
                continue
            if fc is None:
                ctx.maybe(oid, 'coverage')
                continue
            i, idx, v, ad = ok[-1]
            nw = ('ld', fld(inp, tab, 'nwave'))
            cnt = lmul(nw, nw) if f == 'visrefmap' else nw
            src = ('ld', gep(inrec, [('[', idx, 'p'), ('.', rec, f)]))
            array_copy(ctx, oid, fn, fa, [v], src, cnt, elem_size(ctx, rec, f), i, i, ad)
            # not overwritten later by a bulk copy
            for j, d, s, n in copies(fa):
                if base_of(d) == rb and (len(steps_of(d)) < len(steps_of(ad))) and reaches(fa, i, j, same_iter=True):
                    ctx.bad(oid, '%s: the copied pointer %s is overwritten afterwards' % (fn, f), j)


def reaches(fa, i, j, same_iter=False):
    """is there an executable path from instruction i to instruction j (without passing a loop header again if same_iter)"""
    if i.bb is j.bb and i.idx < j.idx:
        return True
    stop = set()
    if same_iter:
        stop = {h for h, b in fa.F.loops.items() if i.bb.name in b}
    seen = set()
    st = [s for s in fa.succs(i.bb.name) if s not in stop]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n == j.bb.name:
            return True
        st += [s for s in fa.succs(n) if s not in stop]
    return False


def judge(ctx, oid, fa, vs, want, msg, anchor, addr):
    vs2 = [strip_ep(v) for v in vs]
    if all(v == want for v in vs2):
        ctx.good(oid)
    elif any(v[0] in ('c', 'cf', 'str', 'null') or (v[0] == 'ld' and transparent(v)) for v in vs2 if v != want):
        v = [v for v in vs2 if v != want][0]
        if v == ('ld', addr):
            ctx.bad(oid, msg % 'not set', anchor)
        elif v[0] == 'lin' or v[0] in ('c', 'cf', 'null', 'ld'):
            ctx.bad(oid, msg % show(v), anchor)
        else:
            ctx.maybe(oid, [show(v) for v in vs])
    else:
        ctx.maybe(oid, [show(v) for v in vs])


def size(ctx, oid, fa, buf, esz, cnt, who, inst=None):
    """allocation size of buf must be >= esz*cnt (and is reported when provably smaller or unrelated)"""
    s, i = alloc_size(fa, buf)
    if s is None:
        ctx.maybe(oid, 'size of %s' % show(buf))
        return None
    want = strip_ep(lmul(C(esz), cnt))
    d = ladd(strip_ep(s), want, -1)
    if d[0] == 'c':
        ctx.expect(d[1] >= 0, oid, '%s %d bytes too few (%s instead of %s)' % (who, -d[1], show(strip_ep(s)), show(want)), i)
        return d[1] >= 0
    if transparent(strip_ep(s)):
        ctx.bad(oid, '%s %s bytes where %s are needed' % (who, show(strip_ep(s)), show(want)), i)
        return False
    ctx.maybe(oid, '%s vs %s' % (show(s), show(want)))
    return None


def array_copy(ctx, oid, fn, fa, vs, src, cnt, esz, anchor, inst, addr):
    vs = list(vs)
    for v in vs:
        for x in mem_leaves(fa, v):
            if x != v and same(x, src):
                ctx.bad(oid, '%s: the copy can share %s with its input' % (fn, show(strip_ep(x))), anchor)
                return
    if len(vs) != 1:
        ctx.maybe(oid, [show(v) for v in vs])
        return
    v = vs[0]
    if same(v, src) or v[0] == 'ld' and transparent(strip_ep(v)) and region(v[1]) is not None and region(v[1])[0] == 'arg':
        ctx.bad(oid, '%s: the copy shares %s with its input' % (fn, show(strip_ep(v))), anchor)
        return
    if v[0] == 'null' or v == ('c', 0):
        ctx.bad(oid, '%s: array is dropped from the copy' % fn, anchor)
        return
    if not (v[0] == 'call' and v[1] in ALLOCS):
        ctx.maybe(oid, show(v))
        return
    if size(ctx, oid + ' size', fa, v, esz, cnt, '%s allocates' % fn) is False:
        return
    want = strip_ep(lmul(C(esz), cnt))
    got = False
    for i, d, s, n in copies(fa):
        if d == v:
            if not same(s, src):
                if transparent(strip_ep(s)):
                    ctx.bad(oid, '%s: copy of %s is filled from %s' % (fn, show(src), show(strip_ep(s))), i)
                else:
                    ctx.maybe(oid, show(s))
                return
            dd = ladd(strip_ep(n), want, -1)
            if dd[0] == 'c' and dd[1] == 0:
                got = True
                if inst is None and not every_iter(fa, i)[0] or inst is not None and not both(fa, inst, i):
                    cs = miss_conds(fa, every_iter(fa, i)[1], i)
                    if cs and all(transparent_cond(c, fa) for c in cs):
                        ctx.bad(oid, '%s: data are copied only when %s' % (fn, show(cs[0])), i)
                    else:
                        ctx.maybe(oid, 'condition')
                    return
            elif dd[0] == 'c' or transparent(strip_ep(n)):
                ctx.bad(oid, '%s: %s bytes of %s are copied (%s expected)' % (fn, show(strip_ep(n)), show(src), show(want)), i)
                return
            else:
                ctx.maybe(oid, show(n))
                return
        elif base_of(d) == v and steps_of(d) and steps_of(d)[-1][0] == '[' and len(steps_of(d)) == 1:
            idx = steps_of(d)[-1][1]
            if same(s, gep(src, [('[', idx, 'p')])) and n == C(esz) and full_cover(fa, [(i, idx)], cnt) and every_iter(fa, i)[0]:
                got = True
    if not got:
        for i, (w, ad) in fa.stores():
            if base_of(ad) == v and len(steps_of(ad)) <= 1:
                idx = steps_of(ad)[-1][1] if steps_of(ad) else C(0)
                if w[0] == 'ld' and same(w, ('ld', gep(src, [('[', idx, 'p')]))):
                    if full_cover(fa, [(i, idx)], cnt) and every_iter(fa, i)[0]:
                        got = True
                        break
                    ctx.maybe(oid, 'element loop')
                    return
                ctx.maybe(oid, 'elements')
                return
    if got:
        ctx.good(oid)
    elif any(base_of(d) == v for i, d, s, n in copies(fa)):
        ctx.maybe(oid, 'partial copies')
    else:
        ctx.bad(oid, '%s: the copy of %s is never filled' % (fn, show(src)), anchor)


def both(fa, a, b):
    """a and b execute in the same iterations (same innermost row loop, each in every iteration)"""
    ha = [h for h in fa.F.loops if a.bb.name in fa.F.loops[h]]
    hb = [h for h in fa.F.loops if b.bb.name in fa.F.loops[h]]
    return set(ha) == set(hb) and every_iter(fa, b)[0]


def dups(ctx):
    for k in KINDS:
        dup(ctx, k)


# ------------------------------------------------------------------ release
@guarded
def release(ctx, kind):
    load_ptrs(ctx)
    fn = 'free_oi_' + kind
    tab, rec, recf, num = tabs_of(kind)
    confs = [dict(usevisrefmap=a, usecomplex=b) for a in (0, 1) for b in (0, 1)] if kind == 'vis' else [{}]
    for cf in confs:
        P = '%s[%s]/' % (fn, ','.join(k for k, v in cf.items() if v)) if cf else fn + '/'
        fa = ctx.fa(fn, MO(cf))
        inp = arg_of(fa, 0)
        anchor = fa.F.blocks[fa.F.entry].term
        fr = [(i, a[0]) for i, a in fa.calls(*FREES)]
        known = []
        for f in ptr_fields(ctx, tab):
            oid = P + f
            mine = [i for i, p in fr if same(p, ('ld', fld(inp, tab, f)))]
            known += mine
            if not mine:
                if any(not transparent(strip_ep(p)) for i, p in fr):
                    ctx.maybe(oid, 'free of unresolved pointer')
                else:
                    ctx.bad(oid, '%s does not free %s' % (fn, f), anchor)
                continue
            if not free_once(ctx, oid, fn, f, fa, mine):
                continue
            if f == recf:
                late = [j for j, p in fr if rec and last_field_of(p) == rec and any(reaches(fa, i, j) for i in mine)]
                ctx.expect(not late, oid + ' last', '%s uses the records after freeing them' % fn, late[0] if late else None)
        if not rec:
            continue
        for f in ptr_fields(ctx, rec):
            oid = P + 'record.' + f
            if f in FLAGOF and not cf.get(FLAGOF[f], 1):
                continue
            mine = []
            for i, p in fr:
                if p[0] == 'ld' and last_field(p[1]) == (rec, f) and region(p[1]) == inp:
                    st = steps_of(p[1])
                    idx = st[-2][1] if len(st) > 1 and st[-2][0] == '[' else C(0)
                    mine.append((i, idx))
            known += [i for i, _ in mine]
            if not mine:
                if any(not transparent(strip_ep(p)) for i, p in fr):
                    ctx.maybe(oid, 'free of unresolved pointer')
                else:
                    ctx.bad(oid, '%s does not free %s of the records' % (fn, f), anchor)
                continue
            fc = full_cover(fa, mine, ('ld', fld(inp, tab, num)))
            if fc is False:
                ctx.bad(oid, '%s does not free %s of every record' % (fn, f), mine[0][0])
                continue
            if fc is None:
                ctx.maybe(oid, 'coverage')
                continue
            free_once(ctx, oid, fn, f, fa, [i for i, _ in mine])
        for i, p in fr:
            if i not in known and transparent(strip_ep(p)) and region(p) is not None and p[0] == 'ld' and last_field(p[1]) is not None and last_field(p[1])[1] not in FLAGOF:
                ctx.bad(P + 'other', '%s also frees %s' % (fn, show(strip_ep(p))), i)
            elif i not in known and p == inp:
                ctx.bad(P + 'other', '%s frees the structure of its caller' % fn, i)


def last_field_of(p):
    return last_field(p[1])[0] if p[0] == 'ld' and last_field(p[1]) else None


def free_once(ctx, oid, fn, f, fa, mine):
    if len(mine) > 1:
        for a in mine:
            for b in mine:
                if a is not b and reaches(fa, a, b, same_iter=True):
                    ctx.bad(oid, '%s frees %s twice' % (fn, f), b)
                    return False
    ok, miss = every_iter(fa, mine[0])
    if not ok and len(mine) == 1:
        cs = miss_conds(fa, miss, mine[0])
        if cs and all(transparent_cond(c, fa) for c in cs):
            ctx.bad(oid, '%s frees %s only when %s' % (fn, f, show(cs[0])), mine[0])
        else:
            ctx.maybe(oid, 'condition')
        return False
    inner = [h for h in fa.F.loops if mine[0].bb.name in fa.F.loops[h]]
    if len(inner) > 1:
        ctx.maybe(oid, 'nested loop')
        return False
    ctx.good(oid)
    return True


FILELISTS = {'arrayList': 'array', 'wavelengthList': 'wavelength', 'corrList': 'corr', 'inspolList': 'inspol', 'visList': 'vis', 'vis2List': 'vis2', 't3List': 't3', 'fluxList': 'flux'}


@guarded
def release_file(ctx):
    fn = 'free_oi_fits'
    stop = ['free_oi_' + k for k in KINDS]
    fa = ctx.fa(fn, MO(), stop=stop)
    inp = arg_of(fa, 0)
    anchor = fa.F.blocks[fa.F.entry].term
    P = fn + '/'

    def callee(i):
        if i.callee:
            return i.callee
        t = fa.t(i.x['fptr'])
        return t[1] if t is not None and t[0] == 'fn' else None
    calls = [(i, callee(i), fa.args[id(i)]) for b in fa.F.rpo if b.name in fa.reach for i in b.insts if i.op == 'call' and id(i) in fa.args]
    full = [a for i, c, a in calls if c == 'g_list_free_full']
    if full:
        ctx.maybe(P + 'lists', 'g_list_free_full')
    for l, k in FILELISTS.items():
        addr = fld(inp, 'oi_fits', l)
        oid = P + l

        def item(t):
            # data of each<list>
            return t[0] == 'ld' and t[1][0] in ('gep', 'liter') and base_of(t[1])[0] == 'liter' and same(base_of(t[1])[1], ('ld', addr)) and (t[1][0] == 'liter' or last_field(t[1])[1] == 'data')
        inner = [i for i, c, a in calls if c == 'free_oi_' + k and a and item(a[0])]
        wrong = [(i, c) for i, c, a in calls if c in stop and c != 'free_oi_' + k and a and item(a[0])]
        outer = [i for i, c, a in calls if c in FREES and a and item(a[0])]
        lf = [i for i, c, a in calls if c == 'g_list_free' and a and same(a[0], ('ld', addr))]
        if wrong:
            ctx.bad(oid, '%s releases the members of %s with %s' % (fn, l, wrong[0][1]), wrong[0][0])
            continue
        unres = any(c is None or c.startswith('g_list_') and c not in ('g_list_free', 'g_list_free_full', 'g_list_free_1')
                    or c == 'g_list_free_1' and any(i.bb.name in L for L in fa.F.loops.values()) for i, c, a in calls)
        for nm, xs in (('contents', inner), ('members', outer), ('list', lf)):
            o2 = '%s %s' % (oid, nm)
            if not xs:
                if unres or full:
                    ctx.maybe(o2, 'unresolved')
                else:
                    ctx.bad(o2, '%s does not release the %s of %s' % (fn, nm, l), anchor)
                continue
            if len(xs) > 1 and any(reaches(fa, a, b, same_iter=(nm != 'list')) for a in xs for b in xs if a is not b):
                ctx.bad(o2, '%s releases the %s of %s twice' % (fn, nm, l), xs[1])
                continue
            ok, miss = list_iter(fa, xs[0])
            if ok:
                ctx.good(o2)
            else:
                cs = miss_conds(fa, miss, xs[0])
                if cs and all(transparent_cond(c, fa) for c in cs):
                    ctx.bad(o2, '%s releases the %s of %s only when %s' % (fn, nm, l, show(cs[0])), xs[0])
                else:
                    ctx.maybe(o2, 'condition')
        if inner and outer and reaches(fa, outer[0], inner[0], same_iter=True):
            ctx.bad(oid + ' order', '%s uses a member of %s after freeing it' % (fn, l), inner[0])
        if lf and (inner and reaches(fa, lf[0], inner[0]) or outer and reaches(fa, lf[0], outer[0])):
            ctx.bad(oid + ' order', '%s uses %s after freeing it' % (fn, l), lf[0])
    for h in ('arrayHash', 'wavelengthHash', 'corrHash'):
        xs = [i for i, c, a in calls if c in ('g_hash_table_destroy', 'g_hash_table_unref') and a and same(a[0], ('ld', fld(inp, 'oi_fits', h)))]
        once(ctx, P + h, fn, h, fa, xs, anchor)
    xs = [i for i, c, a in calls if c == 'free_oi_target' and a and a[0] == fld(inp, 'oi_fits', 'targets')]
    xs += [i for i, c, a in calls if c in FREES and a and a[0][0] == 'ld' and last_field(a[0][1]) == ('oi_target', 'targ')]
    once(ctx, P + 'targets', fn, 'the targets', fa, xs, anchor)


def list_iter(fa, inst):
    """executed for every list member (or on every path when outside list loops)"""
    hs = [h for h in fa.F.loops if inst.bb.name in fa.F.loops[h] and h in fa.reach]
    if not hs:
        miss = fa.must_pass(fa.F.entry, {inst.bb.name}, {b.name for b in rets(fa)})
        return miss is None, miss
    h = min(hs, key=lambda x: len(fa.F.loops[x]))
    done = {s for n in fa.F.loops[h] if n in fa.reach for s in fa.succs(n) if s not in fa.F.loops[h]
            and all(x[2] for x in exit_conds(fa, n, s, h))}         # the end of the list
    for s in fa.succs(h):
        if s in fa.F.loops[h] and s != inst.bb.name:
            miss = fa.must_pass(s, {inst.bb.name} | done, {h})
            if miss:
                return False, miss
    miss = fa.must_pass(fa.F.entry, {h}, {b.name for b in rets(fa)})
    return miss is None, miss


def once(ctx, oid, fn, what, fa, xs, anchor):
    if not xs:
        ctx.bad(oid, '%s does not release %s' % (fn, what), anchor)
        return
    if len(xs) > 1 and any(reaches(fa, a, b) for a in xs for b in xs if a is not b):
        ctx.bad(oid, '%s releases %s twice' % (fn, what), xs[1])
        return
    miss = fa.must_pass(fa.F.entry, {x.bb.name for x in xs}, {b.name for b in rets(fa)})
    if miss is None or xs[0].bb.name == fa.F.entry:
        ctx.good(oid)
    else:
        cs = miss_conds(fa, miss, xs[0])
        ctx.bad(oid, '%s does not always release %s' % (fn, what), xs[0]) if cs and all(transparent_cond(c, fa) for c in cs) else ctx.maybe(oid, 'condition')


def releases(ctx):
    for k in KINDS:
        release(ctx, k)
    release_file(ctx)
