"""Array sizes, indices and string buffers (C15)."""
from engine.lib import *
from .schema import SCH, every_iter, miss_conds, transparent_cond, other_size
from .memory import tabs_of, ptr_fields, elem_size, alloc_size, KINDS, FLAGOF
from .effects import EO

TK = ('array', 'wavelength', 'corr', 'inspol', 'vis', 'vis2', 't3', 'flux')
FIRST = ['alloc_oi_' + k for k in ('target',) + TK] + ['free_oi_' + k for k in ('target',) + TK] + \
    ['dup_oi_' + k for k in ('target',) + TK] + \
    ['upgrade_oi_' + k for k in ('target', 'wavelength', 'array', 'vis', 'vis2', 't3')] + \
    ['write_oi_' + k for k in ('header', 'target') + TK] + \
    ['read_oi_' + k for k in ('header', 'target', 'array', 'wavelength', 'corr')] + ['read_next_oi_' + k for k in TK] + \
    ['check_' + k for k in ('tables', 'header', 'keywords', 'visrefmap', 'unique_targets', 'targets_present', 'arrname', 'elements_present', 'corr_present',
                            'flagging', 't3amp', 'waveorder', 'time', 'flux')] + ['init_check_result', 'free_check_result', 'format_check_result', 'print_check_result'] + \
    ['init_oi_fits', 'is_oi_fits_one', 'is_oi_fits_two', 'is_atomic', 'count_oi_fits_data', 'set_oi_header', 'free_oi_fits', 'oi_fits_lookup_array',
     'oi_fits_lookup_element', 'oi_fits_lookup_wavelength', 'oi_fits_lookup_corr', 'oi_fits_lookup_target', 'oi_fits_lookup_target_by_name',
     'format_oi_fits_summary', 'print_oi_fits_summary', 'init_oi_filter', 'format_oi_filter', 'print_oi_filter', 'filter_oi_header', 'filter_oi_target',
     'filter_all_oi_array', 'filter_all_oi_wavelength', 'filter_oi_wavelength', 'filter_all_oi_corr', 'filter_all_oi_inspol', 'filter_oi_inspol',
     'filter_all_oi_vis', 'filter_oi_vis', 'filter_all_oi_vis2', 'filter_oi_vis2', 'filter_all_oi_t3', 'filter_oi_t3', 'filter_all_oi_flux', 'filter_oi_flux'] + \
    ['oi_%s_iter_%s' % (k, w) for k in ('vis', 'vis2', 't3') for w in ('init', 'next', 'get_uv')] + \
    ['merge_oi_header', 'merge_oi_target', 'merge_all_oi_array', 'merge_all_oi_wavelength', 'merge_all_oi_corr', 'merge_all_oi_inspol', 'merge_all_oi_vis',
     'merge_all_oi_vis2', 'merge_all_oi_t3', 'merge_all_oi_flux']
OUTER = ['apply_oi_filter', 'apply_user_oi_filter', 'merge_oi_fits_list', 'merge_oi_fits', 'read_oi_fits', 'write_oi_fits']


def counts(ctx):
    """{(struct, array field): (struct, count field, 'self'|'table', power)}"""
    out = {}
    for k in KINDS:
        t, r, rf, n = tabs_of(k)
        for f in ptr_fields(ctx, t):
            out[(t, f)] = (t, n, 'self', 1)
        if r and rf:
            for f in ptr_fields(ctx, r):
                out[(r, f)] = (t, 'nwave', rf, 2 if f == 'visrefmap' else 1)
    return out


def length(ctx, fa, A, K):
    """number of elements the array pointer A designates, as a term (epochs stripped), or None"""
    A0 = strip_ep(A)
    if A0[0] == 'ld':
        f = last_field(A0[1])
        st = steps_of(A0[1])
        if f in K and st[-1][0] == '.':
            s, n, how, pw = K[f]
            rec = gep(base_of(A0[1]), st[:-1]) if len(st) > 1 else base_of(A0[1])
            if how == 'self':
                own = rec
            else:
                st2 = steps_of(rec)
                r = rec
                if st2 and st2[-1][0] == '[':
                    r = gep(base_of(rec), st2[:-1]) if len(st2) > 1 else base_of(rec)
                if r[0] == 'ld' and last_field(r[1]) == (s, how) and steps_of(r[1])[-1][0] == '.':
                    s2 = steps_of(r[1])
                    own = gep(base_of(r[1]), s2[:-1]) if len(s2) > 1 else base_of(r[1])
                else:
                    return None
            L = ('ld', fld(own, s, n))
            return lmul(L, L) if pw == 2 else L
        return None
    if A0[0] == 'call' and A0[1] in ALLOCS:
        return None
    return None


def arr_of(ctx, fa, a):
    """(array pointer, index, rest) if address a is an element (or part of one) of an array"""
    st = steps_of(a)
    b = base_of(a)
    if b[0] == 'ld':
        if st and st[0][0] == '[':
            return b, st[0][1]
        return b, C(0)
    return None


def facts(fa, bn):
    """conditions (term, polarity) that hold whenever block bn runs, evaluated in the same loop iterations"""
    out = []
    for d in fa.F.rpo:
        n = d.name
        if n == bn or n not in fa.reach or d.term.op != 'condbr' or not fa.F.dominates(n, bn):
            continue
        c = fa.brval.get(n)
        ts = d.term.x['targets']
        if c is None or ts[0] == ts[1]:
            continue
        pol = []
        for s in ts:
            if (n, s) in fa.exec_edges and reach_without(fa, s, bn, n):
                pol.append(s)
        if len(pol) == 1:
            out += boolfacts(fa, c, pol[0] == ts[0], n)
    return out


def boolfacts(fa, c, pol, n, depth=0):
    """facts behind a short-circuit condition"""
    if c[0] == 'not':
        return boolfacts(fa, c[1], not pol, n, depth)
    if c[0] == 'cmp' and c[1] in ('ne', 'eq') and c[3] == C(0) and c[2][0] == 'phi':
        return boolfacts(fa, c[2], pol == (c[1] == 'ne'), n, depth)
    if c[0] == 'phi' and depth < 6:
        i = fa.F.defs.get(c[1])
        if i is not None and i.bb.name not in fa.F.loops:
            rest = []
            for p, o in zip(i.x['preds'], i.ops):
                if (p, i.bb.name) in fa.exec_edges:
                    v = fa.t(o)
                    if v is not None and v[0] == 'c' and bool(v[1]) != pol:
                        continue
                    rest.append((p, v))
            if len(rest) == 1 and rest[0][1] is not None:
                p, v = rest[0]
                return facts(fa, p) + edge_fact(fa, p, i.bb.name) + (boolfacts(fa, v, pol, n, depth + 1) if v[0] != 'c' else [])
    return [(c, pol, n)]


def edge_fact(fa, p, s):
    t = fa.F.blocks[p].term
    c = fa.brval.get(p)
    if t.op == 'condbr' and c is not None and t.x['targets'][0] != t.x['targets'][1]:
        return boolfacts(fa, c, t.x['targets'][0] == s, p, 1)
    return []


def reach_without(fa, s, goal, bar):
    if s == goal:
        return True
    if s == bar:
        return False
    seen = {s}
    st = [s]
    while st:
        x = st.pop()
        for y in fa.succs(x):
            if y == goal:
                return True
            if y != bar and y not in seen:
                seen.add(y)
                st.append(y)
    return False


def atoms(c, pol):
    if c[0] == 'not':
        return atoms(c[1], not pol)
    if c[0] == 'band' and pol or c[0] == 'bor' and not pol:
        return [x for y in c[1:] for x in atoms(y, pol)]
    if c[0] == 'cmp':
        p = c[1] if pol else NEG.get(c[1])
        if p is not None:
            return [(p, c[2], c[3])]
    return []


def upper(fs):
    """[f] linear terms f with f <= 0"""
    out = []
    for c, pol, n in fs:
        for p, a, b in atoms(c, pol):
            if a[0] == 'gep' or b[0] == 'gep':
                if base_of(a) != base_of(b):
                    continue
                a = steps_of(a)[-1][1] if steps_of(a) and steps_of(a)[-1][0] == '[' else C(0)
                b = steps_of(b)[-1][1] if steps_of(b) and steps_of(b)[-1][0] == '[' else C(0)
            if a[0] in ('null', 'cf', 'str') or b[0] in ('null', 'cf', 'str'):
                continue
            d = strip_ep(ladd(a, b, -1))
            m = lmul(C(-1), d)
            if p in ('lt', 'slt', 'ult'):
                out.append(ladd(d, C(1)))
            elif p in ('le', 'sle', 'ule'):
                out.append(d)
            elif p in ('gt', 'sgt', 'ugt'):
                out.append(ladd(m, C(1)))
            elif p in ('ge', 'sge', 'uge'):
                out.append(m)
            elif p == 'eq':
                out += [d, m]
            elif p == 'ne':
                out.append(('ne', d))
    return out



def loop_bounds(fa, hs):
    """iter <= K at any point, for loops whose every latch is behind a test iter < K"""
    out = []
    for h in hs:
        if h not in fa.reach:
            continue
        out.append(lmul(C(-1), ('iter', h)))
        ls = latches(fa, h)
        it = ('iter', h)
        common = None
        for l in ls:
            us = {u for u in upper(facts(fa, l) + edge_fact(fa, l, h)) if u[0] != 'ne' and tolin(u)[1].get(it) == 1}
            common = us if common is None else common & us
        out += [ladd(u, C(-1)) for u in common or ()]
        for n, K, stay in fa.loop_count(h):
            if K is not None and K[0] not in ('listlen',) and all(fa.F.dominates(n, l) for l in ls):
                out.append(strip_ep(ladd(('iter', h), K, -1)))
    return out


def slow(fa, t):
    """[(f)] with f <= 0 for counters that start at 0 and go up by at most one per iteration of their loop"""
    out = []
    for x in set(subterms(t)):
        if x[0] == 'mphi' and x[1] in fa.F.loops:
            h, cell = x[1], x[2]
            body = fa.F.loops[h]
            ini, lat = [], []
            for p in fa.F.blocks[h].preds:
                if (p.name, h) in fa.exec_edges and p.name in fa.out:
                    (lat if p.name in body else ini).append(fa.mem_load(fa.out[p.name], cell, None))
        elif x[0] == 'phi':
            i = fa.F.defs.get(x[1])
            if i is None or i.bb.name not in fa.F.loops:
                continue
            h = i.bb.name
            body = fa.F.loops[h]
            ini, lat = [], []
            for p, o in zip(i.x['preds'], i.ops):
                if (p, h) in fa.exec_edges:
                    (lat if p in body else ini).append(fa.t(o))
        else:
            continue
        lv = set()
        ok = True
        for v in lat:
            for y in merged(fa, v, x, h):
                d = ladd(y, x, -1) if y is not None else None
                if d is None or d not in (C(0), C(1)):
                    ok = False
        if ok and lat and ini and all(v == C(0) for v in ini):
            out += [ladd(x, ('iter', h), -1), lmul(C(-1), x)]
            out += loop_bounds(fa, [h])
    return [strip_ep(f) for f in out]


def merged(fa, v, stop, h, seen=frozenset()):
    """leaves of a value merged inside the body of loop h, not looking through `stop`"""
    if v is None or v == stop or v in seen:
        return [v] if v not in seen else []
    k, ts = tolin(v)
    if v[0] == 'lin' and len(ts) == 1 and list(ts.values()) == [1]:
        return [None if y is None else ladd(y, C(k)) for y in merged(fa, list(ts)[0], stop, h, seen)]
    if v[0] == 'phi':
        i = fa.F.defs.get(v[1])
        if i is not None and i.bb.name != h and i.bb.name not in fa.F.loops:
            return [z for p, o in zip(i.x['preds'], i.ops) if (p, i.bb.name) in fa.exec_edges for z in merged(fa, fa.t(o), stop, h, seen | {v})]
    if v[0] == 'mphi' and v[1] not in fa.F.loops:
        out = []
        for p in fa.F.blocks[v[1]].preds:
            if (p.name, v[1]) in fa.exec_edges and p.name in fa.out:
                out += merged(fa, fa.mem_load(fa.out[p.name], v[2], None), stop, h, seen | {v})
        return out
    if v[0] == 'sel':
        return [z for y in v[2:] for z in merged(fa, y, stop, h, seen | {v})]
    return [v]


class Verdict:
    def __init__(self, r, why=''):
        self.r, self.why = r, why


def mentions(f, its):
    return bool(set(x for x in subterms(f) if x[0] == 'iter') & its) and any(t[0] == 'iter' for t in tolin(f)[1])


def most(D, us):
    """least constant K with D <= K by one or two of the facts f <= 0, or None"""
    best = None
    ks = []
    for f in us:
        k = ladd(D, f, -1)
        if k[0] == 'c':
            best = k[1] if best is None else min(best, k[1])
        else:
            ks.append((f, k))
    for f, k in ks:
        for g in us:
            e = ladd(k, g, -1)
            if e[0] == 'c':
                best = e[1] if best is None else min(best, e[1])
    return best


NONNEG = {'numrec', 'nwave', 'nelement', 'ntarget', 'ncorr', 'numBreach', 'numArray', 'numWavelength', 'numCorr', 'numInspol', 'numVis', 'numVis2', 'numT3', 'numFlux'}


def counts_nonneg(t):
    out = []
    for x in set(subterms(t)):
        a = x[1] if x[0] == 'ld' else x[2] if x[0] == 'mphi' else None
        f = last_field(a) if a is not None else None
        if f and f[1] in NONNEG and steps_of(a)[-1][0] == '.':
            out.append(lmul(C(-1), x))
    return out


def minima(fa, us):
    """phi <= K for a value merged from alternatives that are all <= K where they are chosen (n < 10 ? n : 10)"""
    out = []
    for x in {t for u in us for t in tolin(u)[1] if t[0] == 'phi'}:
        i = fa.F.defs.get(x[1])
        if i is None or i.bb.name in fa.F.loops:
            continue
        alts = [(p, strip_ep(fa.t(o))) for p, o in zip(i.x['preds'], i.ops) if (p, i.bb.name) in fa.exec_edges]
        for p, K in alts:
            if all(v == K or most(ladd(v, K, -1), [u for u in upper(facts(fa, q) + edge_fact(fa, q, i.bb.name)) if u[0] != 'ne'] + [C(0)]) in range(-99, 1)
                   for q, v in alts):
                out.append(ladd(x, K, -1))
    return out


def products(us, *ts):
    """bounds of i*n for i < n"""
    out = []
    for t in ts:
        for x in set(subterms(t)):
            if x[0] == 'mul':
                for i, n in ((x[1], x[2]), (x[2], x[1])):
                    for f in us:
                        k = ladd(f, ladd(i, n, -1), -1)      # f = i - n + k
                        if k[0] == 'c' and k[1] >= 0 and i != n:
                            out.append(ladd(ladd(x, lmul(n, n), -1), lmul(k, n)))
                            out.append(lmul(C(-1), x))
    return out


def within(fa, inst, idx, L, unit=1):
    """verdict on 0 <= idx and idx*unit + unit <= L"""
    idx, L = strip_ep(idx), strip_ep(L)
    raw = upper(facts(fa, inst.bb.name))
    its = {x for x in subterms(idx) if x[0] == 'iter'} | {x for x in subterms(L) if x[0] == 'iter'}
    sl = slow(fa, idx)
    for f in sl:
        its |= {x for x in subterms(f) if x[0] == 'iter'}
    us = [u for u in raw if u[0] != 'ne'] + sl
    hs = [x[1] for x in its]
    nes = [u[1] for u in raw if u[0] == 'ne']
    for d in nes:
        # a counter compared for equality with its end is below it
        for x in its:
            c = tolin(d)[1].get(x)
            if c == 1:
                us.append(ladd(d, C(1)))
            elif c == -1:
                us.append(ladd(lmul(C(-1), d), C(1)))
    us += loop_bounds(fa, hs)
    us += products(us, idx)
    us += minima(fa, us)
    if unit != 1:
        us = us + [lmul(C(unit), f) for f in us]
    D = ladd(ladd(lmul(C(unit), idx), L, -1), C(unit))
    lowD = lmul(C(-1), idx)
    hi = most(D, us) if D[0] != 'c' else D[1]
    lo = most(lowD, us + counts_nonneg(lowD) + [ladd(x, C(1)) for x in nozero(nes, idx)]) if lowD[0] != 'c' else lowD[1]
    triv = {lmul(C(-k), x) for x in its for k in (1, unit)}
    odd = [f for f in us if mentions(f, its) and ladd(D, f, -1)[0] != 'c' and ladd(D, lmul(C(unit), f), -1)[0] != 'c' and f not in triv]
    if lo is not None and lo > 0 and (idx[0] == 'c' or idx[0] == 'lin' and len(its) == 1 and not oddlow(us, its, triv)):
        return Verdict('bad', 'index %s can be negative' % show(idx))
    if hi is not None and hi <= 0:
        return Verdict('ok' if lo is not None and lo <= 0 else 'und', 'lower end of %s' % show(idx))
    if hi is not None and (D[0] == 'c' or not odd):
        return Verdict('bad', 'index %s can reach %s, the array has %s' % (
            show(idx), show(ladd(L, C(hi - unit))) if unit == 1 else 'past the end', '%s elements' % show(L) if unit == 1 else '%s bytes' % show(L)))
    if hi is None:
        top = [f for f in us if mentions(f, its) and f not in triv]
        if len(idx) and idx in its and L[0] == 'c' and unit == 1:
            ks = [ladd(idx, f, -1) for f in top]
            ks = {k for k in ks if idx not in tolin(k)[1]}
            if ks and len({tuple(sorted(tolin(k)[1].items(), key=repr)) for k in ks}) == 1:
                k, ts = tolin(min(ks, key=lambda k: tolin(k)[0]))
                x = list(ts)[0] if len(ts) == 1 else ('c', 0)
                if x[0] == 'ld' and ts[x] == 1 and last_field(x[1]) and last_field(x[1])[1] in NONNEG and not bounded(fa, inst, x, top):
                    return Verdict('bad', 'index %s runs up to the count %s however large, the array has %s elements' % (show(idx), show(x), show(L)))
        pairs = [(f, None) for f in us] + [(f, g) for f in sl if ladd(lmul(C(1), idx), f, -1)[0] != 'c' for g in top]
        for f, g in pairs:
            s = ladd(idx, f, -1)
            if g is not None:
                s = ladd(s, g, -1)
                k, ts = tolin(s)
                LL = strip_ep(lone(L))
                if idx[0] in ('phi', 'mphi') and len(ts) == 1 and list(ts.values()) == [1] and abs(k) <= 1 and LL is not None and other_size(list(ts)[0], LL):
                    return Verdict('bad', 'counter %s runs up to %s, the array has %s elements' % (show(idx), show(s), show(LL)))
                continue
            k, ts = tolin(s)
            if len(ts) == 1 and list(ts.values()) == [1] and abs(k) <= 1 and other_size(list(ts)[0], L) and f in [strip_ep(x) for x in us] and mentions(f, its):
                return Verdict('bad', 'index %s runs up to %s, not to the number of elements %s' % (show(idx), show(s), show(L)))
    return Verdict('und', '%s of %s' % (show(idx), show(L)))


def lone(L):
    k, ts = tolin(L)
    return list(ts)[0] if len(ts) == 1 and k == 0 else L


def bounded(fa, inst, x, top):
    """is the count x compared with anything but the loop counter anywhere?"""
    n = 0
    for b in fa.F.rpo:
        c = fa.brval.get(b.name)
        if b.name in fa.reach and c is not None:
            for p, l, r in atoms(strip_ep(c), True) + atoms(strip_ep(c), False):
                if x in set(subterms(l)) | set(subterms(r)) and not any(y[0] == 'iter' for y in set(subterms(l)) | set(subterms(r))):
                    return True
    return False


def nozero(nes, idx):
    """x != 0 for a count x >= 0 gives x >= 1"""
    out = []
    for d in nes:
        if d[0] == 'ld' or d[0] == 'iter':
            out.append(lmul(C(-1), d))
    return out


def oddlow(us, its, triv):
    for f in us:
        if f in triv:
            continue
        c = [v for t, v in tolin(f)[1].items() if t in its]
        if c and c[0] < 0:
            return True
    return False


def ty_size(ctx, ty):
    return ctx.prog().sizeof(ty)


def size_terms(ctx, fa, A, K):
    """[(length term, unit)] of the array A points to: unit None = elements"""
    L = length(ctx, fa, A, K)
    if L is not None:
        return L, None
    if A[0] == 'call' and A[1] in ALLOCS:
        s, i = alloc_size(fa, A)
        if s is not None:
            return s, 'bytes'
    if A[0] == 'ld' and base_of(A[1])[0] == 'call' and last_field(A[1]):
        # per-element buffer of an array allocated here
        ss = set()
        for i, (v, a) in fa.stores():
            if base_of(a) == base_of(A[1]) and last_field(a) == last_field(A[1]):
                q = alloc_size(fa, v)[0] if v[0] == 'call' and v[1] in ALLOCS else None
                ss.add(None if q is None else strip_ep(q))
        if len(ss) == 1 and None not in ss:
            q = ss.pop()
            if not iters_in(q):
                return q, 'bytes'
    return None, None


def fixed(ctx, fa, a):
    """[(index, number of elements, what)] for the fixed-size arrays an address steps through"""
    out = []
    st = steps_of(a)
    b = base_of(a)
    ty = None
    if b[0] == 'alloca':
        i = fa.F.defs.get(b[1])
        ty = i.x.get('aty') if i is not None else None
    elif b[0] == 'glob':
        ty = None
    for q, s in enumerate(st):
        if s[0] == '.':
            ty = ctx.prog().field_type(s[1], s[2])
            nm = s[2]
        elif s[0] == '[':
            if isinstance(ty, tuple) and ty[0] == 'arr' and not (isinstance(ty[2], tuple) and ty[2][0] == 'arr' and s[2] == 'p'):
                out.append((s[1], ty[1], st[q - 1][2] if q and st[q - 1][0] == '.' else show(b)))
                ty = ty[2]
            elif s[2] == 'p' and q == 0 and b[0] != 'alloca':
                ty = None
            else:
                ty = None
    return out


def aliased_count(fa, L):
    """is the count L stored to in this function?"""
    xs = [strip_ep(x[1]) for x in subterms(L) if x[0] == 'ld']
    for i, (v, a) in fa.stores():
        a = strip_ep(a)
        for x in xs:
            if last_field(a) == last_field(x) and not (base_of(a) != base_of(x) and own_object(base_of(a)) and own_object(base_of(x))):
                return True
    return False


def own_object(b):
    return b[0] in ('arg', 'alloca', 'glob') or b[0] == 'call' and b[1] in ALLOCS


def accesses(fa):
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for i in b.insts:
            if i.op == 'load':
                a = fa.t(i.ops[0])
                ty = i.ty
            elif i.op == 'store' and id(i) in fa.args:
                a = fa.args[id(i)][1]
                ty = i.ty
            else:
                continue
            if a is not None:
                yield i, a, ty


@guarded
def indices(ctx, fn, fa):
    K = counts(ctx)
    n = 0
    seen = {}
    for i, a, ty in accesses(fa):
        todo = []
        p = arr_of(ctx, fa, a)
        if p is not None:
            L, unit = size_terms(ctx, fa, p[0], K)
            if L is not None:
                f = last_field(strip_ep(p[0])[1]) if strip_ep(p[0])[0] == 'ld' else None
                z = 1 if unit is None else elem_size(ctx, *f) if f else None
                if z and f:
                    todo.append((p[1], L, z, f[1]))
        b, st = base_of(a), steps_of(a)
        if b[0] == 'call' and b[1] in ALLOCS:
            L, unit = size_terms(ctx, fa, b, K)
            if L is not None:
                if st and st[0][0] == '[' and len(st) > 1 and st[1][0] == '.':
                    z = ctx.prog().sizeof(('named', 'struct.' + st[1][1])) if ctx.prog().types.get('struct.' + st[1][1]) else None
                    if z:
                        todo.append((st[0][1], L, z, st[1][1] + ' array'))
                elif st and st[0][0] == '.':
                    z = ctx.prog().sizeof(('named', 'struct.' + st[0][1])) if ctx.prog().types.get('struct.' + st[0][1]) else None
                    if z:
                        todo.append((C(0), L, z, st[0][1]))
                elif len(st) <= 1 and ty is not None:
                    z = ty_size(ctx, ty)
                    todo.append((st[0][1] if st else C(0), L, z, 'allocated array'))
        for idx, N, nm in fixed(ctx, fa, a):
            todo.append((idx, C(N), 1, nm))
        for idx, L, z, nm in todo:
            key = (strip_ep(idx), strip_ep(L), z, i.bb.name)
            if key in seen:
                continue
            seen[key] = 1
            n += 1
            oid = '%s/%s %d' % (fn, nm, n)
            v = within(fa, i, idx, L, z)
            if v.r == 'ok':
                ctx.good(oid)
            elif v.r == 'bad' and not aliased_count(fa, L):
                ctx.bad(oid, '%s: %s of %s' % (fn, v.why, nm), i)
            else:
                ctx.maybe(oid, v.why)
    ctx.count('array_accesses', n)



# ------------------------------------------------------------ allocation sizes
def field_addr(a):
    """(owner address, (struct, field)) when a is the address of a pointer member"""
    st = steps_of(a)
    if st and st[-1][0] == '.':
        return gep(base_of(a), st[:-1]) if len(st) > 1 else base_of(a), (st[-1][1], st[-1][2])
    return None, None


def table_of(rec, s, recf, fa):
    """address of the table structure whose record array holds the record at address rec"""
    st = steps_of(rec)
    r = gep(base_of(rec), st[:-1]) if st and st[-1][0] == '[' and len(st) > 1 else base_of(rec) if st and st[-1][0] == '[' else rec
    if r[0] == 'ld' and last_field(r[1]) == (s, recf):
        st2 = steps_of(r[1])
        return gep(base_of(r[1]), st2[:-1]) if len(st2) > 1 else base_of(r[1])
    if r[0] == 'call':
        for i, (v, a) in fa.stores():
            if v == r and last_field(a) == (s, recf) and steps_of(a)[-1][0] == '.':
                st2 = steps_of(a)
                return gep(base_of(a), st2[:-1]) if len(st2) > 1 else base_of(a)
    return None


@guarded
def alloc_sizes(ctx, fn, fa):
    """every allocation stored into an array member holds as many elements as the count it goes with"""
    K = counts(ctx)
    for i, (v, a) in fa.stores():
        own, sf = field_addr(a)
        if sf not in K:
            continue
        for x in mem_leaves(fa, v):
            if not (x[0] == 'call' and x[1] in ALLOCS):
                continue
            s, n, how, pw = K[sf]
            oid = '%s/size of %s.%s %s' % (fn, sf[0], sf[1], uid_of(i))
            tab = own if how == 'self' else table_of(own, s, how, fa)
            if tab is None:
                ctx.maybe(oid, 'owner of %s' % show(own))
                continue
            cell = fld(tab, s, n)
            cands = []
            put = {strip_ep(w) for j, (w, ad) in fa.stores() if ad == cell} - {C(0)}
            if len(put) == 1 and not any(y[0] in ('mphi', 'phi') or y == ('ld', cell) for y in subterms(list(put)[0])):
                cands = list(put)
            for st in () if cands else [fa.out[i.bb.name]] + [fa.out[b.name] for b in rets(fa)]:
                c = fa.mem_load(st, cell, None)
                if c not in cands:
                    cands.append(c)
            esz = elem_size(ctx, *sf)
            sz, ai = alloc_size(fa, x)
            if sz is None or esz is None:
                ctx.maybe(oid, 'size')
                continue
            ds = []
            for c in cands:
                want = lmul(C(esz), lmul(c, c) if pw == 2 else c)
                ds.append((ladd(strip_ep(sz), strip_ep(want), -1), want))
            if any(d[0] == 'c' and d[1] >= 0 for d, w in ds):
                ctx.good(oid)
                continue
            d, w = ds[-1]
            if all(d[0] == 'c' for d, w in ds):
                ctx.bad(oid, '%s allocates %s bytes for %s, which holds %s of %d bytes each' % (fn, show(strip_ep(sz)), sf[1], show(strip_ep(cands[-1])), esz), ai or i)
            elif len(tolin(strip_ep(sz))[1]) <= 1 and all(tolin(strip_ep(w))[1].keys() == tolin(strip_ep(sz))[1].keys() and
                                                            all(tolin(strip_ep(sz))[1][t] < q for t, q in tolin(strip_ep(w))[1].items()) for d, w in ds):
                ctx.bad(oid, '%s allocates %s bytes for %s where %s are needed' % (fn, show(strip_ep(sz)), sf[1], show(strip_ep(w))), ai or i)
            elif pw == 2 and all(strip_ep(sz) == strip_ep(lmul(C(esz), c)) for c in cands):
                ctx.bad(oid, '%s allocates %s bytes for %s where %s are needed' % (fn, show(strip_ep(sz)), sf[1], show(strip_ep(w))), ai or i)
            elif uneven(strip_ep(sz), esz) or len(cands) == 1 and sibling(fa, i, sz, tab, s, cands[0], esz):
                ctx.bad(oid, '%s allocates %s bytes for %s where %s are needed' % (fn, show(strip_ep(sz)), sf[1], show(strip_ep(w))), ai or i)
            elif all(transparent(strip_ep(q)) for q in [sz] + cands) and len(cands) == 1 and other_count(sz, esz, cands[0]):
                ctx.bad(oid, '%s allocates %s bytes for %s where %s are needed' % (fn, show(strip_ep(sz)), sf[1], show(strip_ep(w))), ai or i)
            else:
                ctx.maybe(oid, '%s for %s' % (show(strip_ep(sz)), [show(strip_ep(c)) for c in cands]))


def uneven(sz, esz):
    """a number of items of another size"""
    k, ts = tolin(sz)
    return k == 0 and len(ts) == 1 and list(ts.values())[0] > 1 and list(ts.values())[0] % esz != 0 and esz % list(ts.values())[0] == 0


def sibling(fa, i, sz, tab, s, own, esz):
    """sized by the current value of another count of the same table"""
    k, ts = tolin(strip_ep(sz))
    t = list(ts)[0] if len(ts) == 1 else None
    if t is None or strip_ep(own) == t or t in subterms(strip_ep(own)) or k != 0:
        return False
    others = {strip_ep(fa.mem_load(fa.out[i.bb.name], fld(tab, s, n), None)) for n in ('nwave', 'numrec')}
    return strip_ep(own) in others and t in others and len(others) == 2 and all(x[0] == 'ld' and x[1][0] == 'alloca' for x in others)


def other_count(sz, esz, cnt):
    """allocated by one attribute / argument where another is the count"""
    k, ts = tolin(strip_ep(sz))
    c = strip_ep(cnt)
    if len(ts) != 1:
        return not ts and True
    t = list(ts)[0]
    if t[0] == 'mul' and len(t) == 3 and c in t[1:]:
        return any(other_size(y, c) for y in t[1:])
    return t != c and (t[0] == 'arg' and c[0] == 'arg' or other_size(t, c))


def uid_of(i):
    return '%s.%d' % (i.bb.name, i.idx)


# ------------------------------------------------------------ transfers and strings
TYPESZ = {11: 1, 12: 1, 14: 1, 20: 2, 21: 2, 30: 4, 31: 4, 40: 8, 41: 8, 42: 4, 81: 8, 82: 8, 83: 8, 163: 16}
FLEN = 71


def capacity(ctx, fa, a):
    """bytes from address a to the end of the fixed array or allocation it lies in (term), or None"""
    st = steps_of(a)
    b = base_of(a)
    off = C(0)
    q = len(st)
    if q and st[-1][0] == '[':
        off = st[-1][1]
        q -= 1
    if q and st[q - 1][0] == '.':
        ty = ctx.prog().field_type(st[q - 1][1], st[q - 1][2])
        if isinstance(ty, tuple) and ty[0] == 'arr' and not (isinstance(ty[2], tuple) and ty[2][0] == 'arr'):
            z = ctx.prog().sizeof(ty[2])
            return ladd(C(ty[1] * z), lmul(C(z), off), -1)
        if off == C(0) and not (isinstance(ty, tuple) and ty[0] == 'arr'):
            return C(ctx.prog().sizeof(ty)) if ty is not None else None
        return None
    if q == 0 and b[0] == 'glob':
        ty = ctx.prog().global_type(b[1])
        while isinstance(ty, tuple) and ty[0] in ('named', 'struct'):
            ty = ctx.prog().types.get(ty[1]) if ty[0] == 'named' else ty[1][0]
        if isinstance(ty, tuple) and ty[0] == 'arr' and not isinstance(ty[2], tuple) and off == C(0):
            return C(ty[1] * ctx.prog().sizeof(ty[2]))
        return None
    if q == 0 and b[0] == 'alloca':
        i = fa.F.defs.get(b[1])
        ty = i.x.get('aty') if i is not None else None
        if isinstance(ty, tuple) and ty[0] == 'arr':
            z = ctx.prog().sizeof(ty[2]) if not (isinstance(ty[2], tuple) and ty[2][0] == 'arr') else None
            if z is None:
                return None
            return ladd(C(ty[1] * z), lmul(C(z), off), -1)
        if ty is not None and off == C(0):
            return C(ctx.prog().sizeof(ty))
    if q == 0 and b[0] == 'call' and b[1] in ALLOCS:
        s, i = alloc_size(fa, b)
        if s is not None and off == C(0):
            return s
    return None


def max_len(ctx, fa, s):
    """longest string at s: number, 'inf', or None"""
    if s[0] == 'str':
        return len(s[2].split(b'\0')[0])
    c = capacity(ctx, fa, s)
    if c is not None and c[0] == 'c':
        return c[1] - 1
    if s[0] == 'arg' or s[0] == 'ld':
        return 'inf'
    if s[0] in ('sel', 'phi'):
        from .files import leaves
        ms = [max_len(ctx, fa, x) for x in leaves(fa, s) if x != s]
        if None in ms or not ms:
            return None
        return 'inf' if 'inf' in ms else max(ms)
    return None


def fmt_len(ctx, fa, fmt, args):
    """longest output of a printf format"""
    import re
    out = 0
    k = 0
    f = fmt[2].split(b'\0')[0].decode('latin1')
    pos = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])', f):
        out += m.start() - pos
        pos = m.end()
        fl, w, pr, md, cv = m.groups()
        if cv == '%':
            out += 1
            continue
        if w == '*' or pr == '*' or k >= len(args):
            return None
        a = args[k]
        k += 1
        if cv == 's':
            n = max_len(ctx, fa, a)
            if n is None:
                return None
            if pr is not None:
                n = int(pr) if n == 'inf' else min(n, int(pr))
            if n == 'inf':
                return 'inf'
        elif cv == 'c':
            n = 1
        elif cv in 'di':
            n = 20 if md in ('l', 'll', 'z', 'j', 't') else 11
            if a[0] == 'c':
                n = len(str(a[1]))
        elif cv in 'uxXo':
            n = 22 if md else 11
        else:
            return None
        out += max(n, int(w or 0))
    return out + len(f) - pos


def strlen_checked(fa, i, s):
    for c, pol, n in facts(fa, i.bb.name):
        for x in subterms(c):
            if x[0] == 'app' and x[1] in ('strlen', 'strnlen') and strip_ep(x[2][0]) == strip_ep(s):
                return True
            if x[0] == 'call' and x[1] in ('strlen', 'strnlen', 'snprintf', 'g_snprintf'):
                return True
    return False


@guarded
def strings(ctx, fn, fa):
    n = 0
    for i, a in fa.calls():
        f = i.callee
        oid = '%s/%s %s' % (fn, f, uid_of(i))
        d = a[0] if a else None
        if f in ('strcpy', 'stpcpy', 'g_stpcpy'):
            cap, m = capacity(ctx, fa, d), max_len(ctx, fa, a[1])
            fit(ctx, oid, fn, fa, i, f, d, cap, m, a[1])
        elif f in ('strcat',):
            cap, m = capacity(ctx, fa, d), max_len(ctx, fa, a[1])
            if m == 'inf' or cap is None or cap[0] != 'c' or m is None:
                fit(ctx, oid, fn, fa, i, f, d, cap, m, a[1])
            elif m + 1 > cap[1]:
                fit(ctx, oid, fn, fa, i, f, d, cap, m, a[1])
            else:
                ctx.maybe(oid, 'length so far')
        elif f in ('sprintf',):
            cap = capacity(ctx, fa, d)
            m = fmt_len(ctx, fa, a[1], a[2:]) if a[1][0] == 'str' else None
            fit(ctx, oid, fn, fa, i, f, d, cap, m, a[1])
        elif f in ('strncpy', 'g_strlcpy', 'snprintf', 'g_snprintf', 'strlcpy', 'memcpy', 'memmove', 'memset', 'strncat') or f and f.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            sz = a[1] if f in ('snprintf', 'g_snprintf') else a[2]
            cap = capacity(ctx, fa, d)
            if cap is None:
                if f.startswith(('llvm.mem', 'mem')):
                    block(ctx, oid, fn, fa, i, d, a[1], sz)
                continue
            n += 1
            D = ladd(strip_ep(sz), strip_ep(cap), -1)
            if D[0] == 'c' and D[1] <= 0:
                m = max_len(ctx, fa, a[1]) if f == 'strncpy' else None
                if f == 'strncpy' and isinstance(m, int) and sz[0] == 'c' and m >= sz[1] and D[1] == 0:
                    ctx.bad(oid, '%s: strncpy can leave %s without a terminating NUL' % (fn, what_of(d)), i)
                elif f == 'strncat':
                    ctx.maybe(oid, 'length so far')
                else:
                    ctx.good(oid)
            elif D[0] == 'c':
                st = steps_of(d)
                if f.startswith(('llvm.mem', 'mem')) and not (st and is_arr(ctx, fa, d)):
                    block(ctx, oid, fn, fa, i, d, a[1], sz)
                else:
                    ctx.bad(oid, '%s: %s may write %s bytes to %s, which has %s' % (fn, f, show(sz), what_of(d), show(cap)), i)
            elif f.startswith(('llvm.mem', 'mem')):
                block(ctx, oid, fn, fa, i, d, a[1], sz)
            else:
                ctx.maybe(oid, '%s into %s' % (show(sz), show(cap)))
        elif f == 'ffgky' and a[1] == C(16) or f == 'ffgkys':
            v = a[3] if f == 'ffgky' else a[2]
            cap = capacity(ctx, fa, v)
            if cap is not None and cap[0] == 'c':
                ctx.expect(cap[1] >= 69, oid, '%s: keyword value read into %s, which has only %s bytes' % (fn, what_of(v), show(cap)), i)
        elif f == 'ffgerr':
            cap = capacity(ctx, fa, a[1])
            if cap is not None and cap[0] == 'c':
                ctx.expect(cap[1] >= 31, oid, '%s: error text read into %s bytes' % (fn, show(cap)), i)
        elif f in ('ffgky', 'ffgcv'):
            transfer(ctx, oid, fn, fa, i, a, f)
        elif f == 'ffpcl' and a[1] != C(16):
            transfer(ctx, oid, fn, fa, i, (a[0], a[1], a[2], a[3], a[4], a[5], None, a[6]), f)
    ctx.count('buffer_writes', n)


def is_arr(ctx, fa, d):
    st = steps_of(d)
    q = len(st) - (1 if st[-1][0] == '[' else 0)
    if q and st[q - 1][0] == '.':
        ty = ctx.prog().field_type(st[q - 1][1], st[q - 1][2])
        return isinstance(ty, tuple) and ty[0] == 'arr'
    return False


def what_of(d):
    f = last_field(d)
    return '%s.%s' % f if f else show(strip_ep(d))


def fit(ctx, oid, fn, fa, i, f, d, cap, m, s):
    if cap is None or m is None:
        ctx.maybe(oid, 'size')
        return
    if m == 'inf':
        x = s
        e = ladd(ladd(('app', 'strlen', (strip_ep(s),)), C(1)), strip_ep(cap), -1)
        if e[0] == 'c' and e[1] <= 0:
            ctx.good(oid)
        elif e[0] == 'c':
            ctx.bad(oid, '%s: %s copies a string with its terminator into %s bytes' % (fn, f, show(cap)), i)
        elif cap[0] == 'c' and not strlen_checked(fa, i, x):
            ctx.bad(oid, '%s: %s copies a string of any length into %s (%s bytes)' % (fn, f, what_of(d), show(cap)), i)
        else:
            ctx.maybe(oid, 'length')
        return
    D = ladd(C(m + 1), strip_ep(cap), -1)
    if D[0] == 'c':
        if D[1] <= 0:
            ctx.good(oid)
        elif strlen_checked(fa, i, s):
            ctx.maybe(oid, 'length checked')
        else:
            ctx.bad(oid, '%s: %s may write %d bytes to %s, which has %s' % (fn, f, m + 1, what_of(d), show(cap)), i)
    else:
        ctx.maybe(oid, '%d into %s' % (m + 1, show(cap)))


def block(ctx, oid, fn, fa, i, d, s, n):
    """bulk copy into or out of a counted array"""
    K = counts(ctx)
    for p, w in ((d, 'written'), (s, 'read')):
        if p[0] == 'c':
            continue
        x = arr_of(ctx, fa, p)
        b = base_of(p)
        if x is not None and len(steps_of(p)) <= 1:
            L, unit = size_terms(ctx, fa, x[0], K)
            f = last_field(strip_ep(x[0])[1])
            if L is None or elem_size(ctx, *f) is None:
                continue
            total, off = L if unit else lmul(C(elem_size(ctx, *f)), L), lmul(C(elem_size(ctx, *f)), x[1])
            nm = f[1]
        elif b[0] == 'call' and b[1] in ALLOCS and not steps_of(p):
            total, unit = size_terms(ctx, fa, b, K)
            if total is None:
                continue
            off = C(0)
            nm = 'the allocated array'
        else:
            continue
        D = ladd(ladd(strip_ep(n), strip_ep(off)), strip_ep(total), -1)
        its = iters_in(D)
        us = [u for u in upper(facts(fa, i.bb.name)) if u[0] != 'ne'] + loop_bounds(fa, its) + slow(fa, D)
        zs = {abs(c) for c in tolin(D)[1].values()} - {1}
        us += [lmul(C(z), u) for z in zs for u in us]
        k = D[1] if D[0] == 'c' else most(D, us)
        if k is not None and k <= 0:
            ctx.good(oid + w)
        elif D[0] == 'c' and not aliased_count(fa, strip_ep(total)):
            ctx.bad(oid + w, '%s: %s bytes are %s at %s, which has %s' % (fn, show(strip_ep(n)), w, nm, show(strip_ep(total))), i)
        else:
            ctx.maybe(oid + w, '%s bytes of %s' % (show(strip_ep(n)), show(strip_ep(total))))


def element(ctx, oid, fn, fa, i, x, K, st):
    """the element of a counted array whose member is read or written by a call exists"""
    L, unit = size_terms(ctx, fa, x[0], K)
    if L is None or st[1][0] != '.':
        return
    z = 1
    if unit is not None:
        z = ctx.prog().sizeof(('named', 'struct.' + st[1][1])) if ctx.prog().types.get('struct.' + st[1][1]) else None
        if not z:
            return
    v = within(fa, i, x[1], L, z)
    if v.r == 'ok':
        ctx.good(oid)
    elif v.r == 'bad' and not aliased_count(fa, L):
        ctx.bad(oid, '%s: %s of %s' % (fn, v.why, st[1][1] + ' array'), i)
    else:
        ctx.maybe(oid, v.why)


def transfer(ctx, oid, fn, fa, i, a, f):
    """elements moved between a file and memory stay inside the memory"""
    if f == 'ffgky':
        cap = capacity(ctx, fa, a[3])
        z = TYPESZ.get(a[1][1]) if a[1][0] == 'c' else None
        if cap is not None and cap[0] == 'c' and z:
            ctx.expect(cap[1] >= z, oid, '%s: %d-byte value read into %s (%s bytes)' % (fn, z, what_of(a[3]), show(cap)), i)
        return
    p, nel = a[7], a[5]
    if a[1] == C(16):
        if f != 'ffgcv':
            return
        v = fa.mem_load(fa.out[i.bb.name], p, None)
        for j, (w, ad) in fa.stores():
            if ad == p and (j.bb is i.bb and j.idx < i.idx or fa.F.inst_dominates(j, i)):
                v = w
        cap = capacity(ctx, fa, v)
        rep = None
        for j, b in fa.calls('ffgtcl'):
            if strip_ep(b[1]) == strip_ep(a[2]) and fa.F.inst_dominates(j, i) and b[3][0] == 'alloca':
                rep = ('ld', b[3])
        if cap is None or rep is None:
            ctx.maybe(oid, 'string column')
            return
        D = ladd(ladd(rep, C(1)), strip_ep(cap), -1)
        us = [u for u in upper(facts(fa, i.bb.name)) if u[0] != 'ne']
        k = D[1] if D[0] == 'c' else most(D, us)
        if k is not None and k <= 0:
            ctx.good(oid)
        elif k is not None or cap[0] == 'c' and not any(rep in set(subterms(u)) for u in us):
            ctx.bad(oid, '%s: a string column can be wider than the %s bytes of %s' % (fn, show(strip_ep(cap)), what_of(v)), i)
        else:
            ctx.maybe(oid, 'width %s' % show(D))
        return
    z = TYPESZ.get(a[1][1]) if a[1][0] == 'c' else None
    if z is None:
        return
    K = counts(ctx)
    x = arr_of(ctx, fa, p)
    b = base_of(p)
    st = steps_of(p)
    if len(st) > 1 and st[0][0] == '[':
        element(ctx, oid + ' record', fn, fa, i, x if x is not None else (b, st[0][1]), K, st)
    if b[0] == 'call' and b[1] in ALLOCS and len(st) <= 1 and (not st or st[0][0] == '['):
        total, off = size_terms(ctx, fa, b, K)[0], st[0][1] if st else C(0)
        nm = 'the allocated array'
    elif x is not None and len(st) <= 1 and size_terms(ctx, fa, x[0], K)[0] is not None:
        nm = last_field(strip_ep(x[0])[1])
        es = elem_size(ctx, *nm)
        if es is None:
            return
        total, unit = size_terms(ctx, fa, x[0], K)
        off = x[1]
        if unit is None:
            total = lmul(C(es), total)
        nm = nm[1]
    else:
        total, off = capacity(ctx, fa, p), C(0)
        nm = what_of(p)
    if total is None:
        ctx.maybe(oid, 'buffer %s' % show(p))
        return
    D = ladd(lmul(C(z), ladd(strip_ep(nel), strip_ep(off))), strip_ep(total), -1)
    its = iters_in(D)
    us = [u for u in upper(facts(fa, i.bb.name)) if u[0] != 'ne'] + loop_bounds(fa, its)
    us = us + [lmul(C(z), u) for u in us]
    k = D[1] if D[0] == 'c' else most(D, us)
    if k is not None and k <= 0:
        ctx.good(oid)
    elif D[0] == 'c':
        ctx.bad(oid, '%s: %s elements of %d bytes do not fit %s (%s bytes)' % (fn, show(strip_ep(nel)), z, nm, show(strip_ep(total))), i)
    elif len(tolin(D)[1]) == 1 and list(tolin(D)[1].values())[0] > 0 and list(tolin(D)[1])[0][0] in ('ld', 'mul', 'call', 'arg') and not any(list(tolin(D)[1])[0] in set(subterms(u)) for u in us):
        ctx.bad(oid, '%s: %s elements of %d bytes do not fit %s (%s bytes)' % (fn, show(strip_ep(nel)), z, nm, show(strip_ep(total))), i)
    else:
        ctx.maybe(oid, '%s elements of %d in %s' % (show(strip_ep(nel)), z, show(strip_ep(total))))


@guarded
def complete(ctx, kind):
    """alloc_oi_*: every array, for every record, optional arrays absent and not in use, counts set"""
    fn = 'alloc_oi_' + kind
    fa = ctx.fa(fn, EO())
    tab, rec, recf, num = tabs_of(kind)
    T = arg_of(fa, 0)
    end = fa.F.blocks[fa.F.entry].term
    from .schema import full_cover
    cnts = {num: 1}
    if rec and len(fa.F.params) > 2:
        cnts['nwave'] = 2
    for f, k in cnts.items():
        vs = [strip_ep(v) for v in final_mem(fa, fld(T, tab, f))]
        A = arg_of(fa, k)
        if vs == [A]:
            ctx.good('%s/%s' % (fn, f))
        elif any(v[0] in ('c', 'arg', 'ld') for v in vs if v != A):
            ctx.bad('%s/%s' % (fn, f), '%s leaves %s %s' % (fn, f, 'unset' if vs[0] == ('ld', fld(T, tab, f)) else 'equal to ' + show(vs[0])), end)
        else:
            ctx.maybe('%s/%s' % (fn, f), [show(v) for v in vs])
    for f in ptr_fields(ctx, tab):
        vs = final_mem(fa, fld(T, tab, f))
        oid = '%s/%s' % (fn, f)
        if all(v[0] == 'call' and v[1] in ALLOCS for v in vs):
            ctx.good(oid)
        elif any(strip_ep(v) in (('ld', fld(T, tab, f)), ('null',)) for v in vs):
            ctx.bad(oid, '%s does not allocate %s' % (fn, f), end)
        else:
            ctx.maybe(oid, [show(v) for v in vs])
    if not rec:
        return
    for f in ptr_fields(ctx, rec):
        oid = '%s/record.%s' % (fn, f)
        sts = []
        for i, (v, ad) in fa.stores():
            if last_field(ad) == (rec, f) and steps_of(ad)[-1][0] == '.':
                st = steps_of(ad)
                sts.append((i, st[-2][1] if len(st) > 1 and st[-2][0] == '[' else C(0), v))
        opt = f in FLAGOF
        if not sts:
            ctx.bad(oid, '%s does not %s %s of the records' % (fn, 'clear' if opt else 'allocate', f), end)
            continue
        fc = full_cover(fa, [(i, idx) for i, idx, v in sts], arg_of(fa, 1))
        if fc is False:
            ctx.bad(oid, '%s does not set %s of every record' % (fn, f), sts[0][0])
            continue
        ok = [x for x in sts if every_iter(fa, x[0])[0]]
        if not ok:
            cs = miss_conds(fa, every_iter(fa, sts[0][0])[1], sts[0][0])
            if cs and all(transparent_cond(c, fa) for c in cs):
                ctx.bad(oid, '%s sets %s only when %s' % (fn, f, show(cs[0])), sts[0][0])
            else:
                ctx.maybe(oid, 'condition')
            continue
        v = ok[-1][2]
        if fc is None:
            ctx.maybe(oid, 'coverage')
        elif opt and v[0] == 'null' or not opt and v[0] == 'call' and v[1] in ALLOCS:
            ctx.good(oid)
        elif opt and v[0] == 'call' or not opt and v[0] == 'null':
            ctx.bad(oid, '%s sets %s to %s' % (fn, f, show(v)), ok[-1][0])
        else:
            ctx.maybe(oid, show(v))
    for f in ('usevisrefmap', 'usecomplex') if kind == 'vis' else ():
        vs = [strip_ep(v) for v in final_mem(fa, fld(T, tab, f))]
        if vs == [C(0)]:
            ctx.good('%s/%s' % (fn, f))
        elif any(v[0] == 'c' or v == ('ld', fld(T, tab, f)) for v in vs if v != C(0)):
            ctx.bad('%s/%s' % (fn, f), '%s does not clear %s' % (fn, f), end)
        else:
            ctx.maybe('%s/%s' % (fn, f), [show(v) for v in vs])


TOOLS = ('oifits-check', 'oifits-filter', 'oifits-merge', 'oifits-upgrade')


def bounds(ctx):
    for k in KINDS:
        complete(ctx, k)
    for fn in FIRST + OUTER:
        stop = set(FIRST) - {'alloc_oi_' + k for k in ('target',) + TK} if fn in OUTER or '_all_' in fn else ()
        fa = ctx.fa(fn, EO(), stop=stop if fn != 'filter_all_oi_wavelength' else ())
        indices(ctx, fn, fa)
        alloc_sizes(ctx, fn, fa)
        strings(ctx, fn, fa)
    P = ctx.prog()
    for fn in sorted(P.address_taken):
        F = P.func(fn)
        if F is None or not F.blocks or fn in FIRST + OUTER:
            continue
        fa = ctx.fa(fn, EO(), stop=set(FIRST))
        indices(ctx, fn, fa)
        strings(ctx, fn, fa)
    for t in TOOLS:
        tool(ctx, t)


@guarded
def tool(ctx, t):
    """the command-line programs: what comes from the command line goes into buffers that hold it"""
    fa = ctx.fa('main', EO(), kind='tool:' + t)
    indices(ctx, t, fa)
    strings(ctx, t, fa)
