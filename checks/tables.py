"""Which tables the filter keeps, and pruning of unreferenced ones."""
from engine.lib import *
from .filter import anchor, masked, target_header

T = {
    'array': dict(names=['arrname'], list='arrayList', num='numArray', hash='arrayHash', key='arrname', copy='dup_oi_array', out=2),
    'corr': dict(names=['corrname'], list='corrList', num='numCorr', hash='corrHash', key='corrname', copy='dup_oi_corr', out=2),
    'wavelength': dict(names=['insname'], list='wavelengthList', num='numWavelength', hash='wavelengthHash', key='insname',
                       call='filter_oi_wavelength', out=2, need=['nwave']),
    'inspol': dict(names=['arrname'], list='inspolList', num='numInspol', call='filter_oi_inspol', out=3, need=['nwave', 'numrec']),
    'vis': dict(names=['insname', 'arrname', 'corrname'], list='visList', num='numVis', call='filter_oi_vis', out=3,
                need=['nwave', 'numrec'], accept=['accept_vis'], use=True),
    'vis2': dict(names=['insname', 'arrname', 'corrname'], list='vis2List', num='numVis2', call='filter_oi_vis2', out=3,
                 need=['nwave', 'numrec'], accept=['accept_vis2'], use=True),
    't3': dict(names=['insname', 'arrname', 'corrname'], list='t3List', num='numT3', call='filter_oi_t3', out=3,
               need=['nwave', 'numrec'], accept=['accept_t3amp', 'accept_t3phi'], use=True),
    'flux': dict(names=['insname', 'arrname', 'corrname'], list='fluxList', num='numFlux', call='filter_oi_flux', out=3,
                 need=['nwave', 'numrec'], accept=['accept_flux'], use=True),
}
STOP = ['filter_oi_' + k for k in ('wavelength', 'inspol', 'vis', 'vis2', 't3', 'flux')] + \
       ['oi_fits_lookup_wavelength', 'dup_oi_array', 'dup_oi_corr']


class TabO(Oracle):
    def __init__(self, kind, **A):
        self.kind = kind
        self.A = dict(pttn='nz', match={}, use='nz', need={}, accept={})
        self.A.update(A)
        self.foreign = {}
        self.forced = {}

    def begin(self):
        self.foreign.clear()

    def val(self, t):
        A = self.A
        if self.forced:
            k = masked(strip_ep(t))
            if k in self.forced:
                return self.forced[k]
        f = load_field(t)
        if f and f[0] == 'oi_filter_spec':
            if f[1].endswith('_pttn'):
                return A['pttn']
            if f[1].startswith('accept_') and f[1] != 'accept_flagged':
                return A['accept'].get(f[1], 1)
        if t[0] == 'app' and t[1] == 'g_pattern_match_string':
            p, s = t[2][0], last_field(t[2][1])
            pf = load_field(p)
            if pf and s and pf[1] == s[1] + '_pttn':
                return A['match'].get(s[1], 1)
            if pf and s:
                self.foreign['%s is matched against the pattern for %s' % (s[1], pf[1])] = 1
        if t[0] == 'app' and t[1] == 'g_hash_table_lookup':
            s = last_field(t[2][1])
            if s and s[1] == 'insname' and s[0] == 'oi_' + self.kind:
                return A['use']
            if s:
                self.foreign['the channel selection is looked up by %s' % s[1]] = 1
        return None

    def rel(self, a, b):
        f = load_field(b)
        if a == C(0) and f and f[0] == 'oi_' + self.kind and f[1] in ('nwave', 'numrec'):
            r = region(b[1])
            if r is not None and r[0] == 'call':
                return '<' if self.A['need'].get(f[1]) == 1 else self.A['need'].get(f[1], '<')
            if f[1] == 'nwave':
                return '<'
        if a[0] == 'c' and a[1] > 0 and f and f[0] == 'oi_' + self.kind and self.A['need'].get(f[1]) == 1:
            r = region(b[1])
            if r is not None and r[0] == 'call':
                return '=' if a[1] == 1 else '>'
        return None


def attr_cond(c):
    """a test of attributes of the input tables (not of the filter)"""
    if c is None or not any(load_field(x) for x in subterms(c)):
        return False
    if c[0] == 'cmp' and any(x[0] in ('iter', 'liter') for x in c[2:4]):
        return False
    for x in subterms(c):
        f = load_field(x)
        if x[0] in OPAQUE or (x[0] == 'app' and x[1] not in ('strlen', 'strcmp', 'strncmp', 'g_strcmp0')):
            return False
        if f and (f[0] == 'oi_filter_spec' or not (f[0].startswith('oi_') or f[0] == '_GList') or (f[0] == 'oi_fits' and not f[1].endswith('List'))):
            return False
    return True


@guarded
def case(ctx, kind, name, keep, **A):
    K = T[kind]
    o = TabO(kind, **A)
    fa = ctx.fa('filter_all_oi_' + kind, o, stop=STOP)
    oid = 'filter_all_oi_%s/%s' % (kind, name)
    out = arg_of(fa, K['out'])
    cell = fld(out, 'oi_fits', K['num'])
    old = ('ld', cell)
    vals = [strip_ep(v) for v in final_mem(fa, cell)]
    inp = arg_of(fa, 0)

    def ok(v):
        if not keep:
            return v == old
        c, ts = tolin(v)
        its = [x for x in ts if x[0] == 'iter']
        return c == 0 and ts.get(old) == 1 and len(ts) == 2 and len(its) == 1 and ts[its[0]] == 1
    what = 'a table that must be %s (%s) is not' % ('kept' if keep else 'left out', name)
    if not vals:
        ctx.bad(oid, what + ': the call cannot return', fa.F.blocks[fa.F.entry].term)
        return
    if all(ok(v) for v in vals):
        ctx.good(oid)
    elif o.foreign:
        ctx.bad(oid, what + ': ' + next(iter(o.foreign)), anchor(fa))
        return
    elif all(transparent(v) for v in vals):
        ctx.bad(oid, '%s: the table count ends as %s' % (what, show(vals[0])), anchor(fa))
        return
    else:
        for n, c in open_conds(fa):
            c = c and strip_ep(c)
            if not attr_cond(c):
                continue
            got = []
            for k in (1, 0):
                o2 = TabO(kind, **A)
                o2.forced = {masked(c): k}
                f2 = ctx.fa('filter_all_oi_' + kind, o2, stop=STOP)
                v2 = [strip_ep(v) for v in final_mem(f2, cell)]
                got.append(True if v2 and all(ok(v) for v in v2) else False if v2 and all(transparent(v) for v in v2) else None)
            if None not in got and got[0] != got[1]:
                ctx.bad(oid, '%s: it depends on %s' % (what, show(c)), fa.F.blocks[n].term)
                return
        for h in list_loops(ctx, kind):
            for l in latches(fa, h) if h in fa.reach else ():
                v = strip_ep(fa.mem_load(fa.out[l], cell, None))
                if transparent(v):
                    ctx.bad(oid, 'after a table the table count is %s' % show(v), fa.F.blocks[l].term)
                    return
        ctx.maybe(oid, str([show(v) for v in vals]))
        return
    # appended to the right list, of the right table; and the loop covers the whole list
    app = [(i, a) for i, a in fa.calls('g_list_append', 'g_list_prepend', 'g_list_insert')
           if load_fieldish(fa, a[0], out, K['list'])]
    oid2 = oid + '/list'
    if keep:
        wrong = [(i, a) for i, a in fa.calls('g_list_append', 'g_list_prepend', 'g_list_insert')
                 if not load_fieldish(fa, a[0], out, K['list'])]
        if app:
            ctx.good(oid2)
        elif wrong and all(cell_name(a[0]) for i, a in wrong):
            ctx.bad(oid2, 'the kept table is appended to %s' % cell_name(wrong[0][1][0]), wrong[0][0])
        else:
            ctx.maybe(oid2, 'append not recognised')
    else:
        if app:
            ctx.bad(oid2, 'a table that must be left out (%s) is appended to the output list' % name, app[0][0])
        else:
            ctx.good(oid2)
    for h in list_loops(ctx, kind):
        if h in fa.reach and fa.F.blocks[h].name in fa.reach:
            oid3 = oid + '/scan'
            if 'accept' in A and not keep:
                continue
            early = [(n, c) for n, c, cnt in loop_exits(fa, h) if not cnt]
            if not latch_reached(fa, h) or (early and all(c is None or c[0] == 'c' or transparent(c) for _, c in early)):
                ctx.bad(oid3, 'the remaining tables are not examined (%s)' % name, fa.F.blocks[h].term)
            elif early:
                ctx.maybe(oid3, 'early exit')
            else:
                ctx.good(oid3)


def list_loops(ctx, kind):
    c = ctx.__dict__.setdefault('_ll', {})
    if kind not in c:
        fa = ctx.fa('filter_all_oi_' + kind, TabO(kind), stop=STOP)
        hs = set()
        for i, a in fa.calls():
            for x in a:
                for t in subterms(x):
                    if t[0] == 'liter' and load_field(t[1]) == ('oi_fits', T[kind]['list']):
                        hs.add(t[2])
        c[kind] = hs
    return c[kind]


def cell_name(t):
    """member name if t is a (possibly loop-carried) load of a dataset member"""
    if t[0] == 'ld':
        f = last_field(t[1])
        return f and f[1]
    if t[0] == 'mphi':
        f = last_field(t[2])
        return f and f[1]
    return None


def load_fieldish(fa, t, base, field):
    a = t[1] if t[0] == 'ld' else t[2] if t[0] == 'mphi' else None
    return a is not None and a == fld(base, 'oi_fits', field)


def tables(ctx):
    for kind, K in T.items():
        case(ctx, kind, 'all criteria met', True)
        case(ctx, kind, 'no patterns', True, pttn=0)
        for n in K['names']:
            case(ctx, kind, '%s not matching' % n, False, match={n: 0})
            if n != 'insname' or kind == 'wavelength':
                case(ctx, kind, 'no patterns, %s arbitrary' % n, True, pttn=0, match={n: 0})
        for n in {'arrname', 'insname', 'corrname'} - set(K['names']):
            case(ctx, kind, '%s irrelevant' % n, True, match={n: 0})
        for f in K.get('need', ()):
            case(ctx, kind, 'no %s left' % f, False, need={f: '='})
            case(ctx, kind, 'one %s left' % f[1:].replace('umrec', 'record').replace('wave', 'channel'), True, need={f: 1})
        if K.get('use'):
            case(ctx, kind, 'no channels of this INSNAME accepted', False, use=0)
        acc = K.get('accept', [])
        if len(acc) == 1:
            case(ctx, kind, acc[0] + '=0', False, accept={acc[0]: 0})
        elif acc:
            case(ctx, kind, 'neither accepted', False, accept={x: 0 for x in acc})
            for x in acc:
                case(ctx, kind, x + '=0', True, accept={x: 0})
        for x in {'accept_vis', 'accept_vis2', 'accept_t3amp', 'accept_t3phi', 'accept_flux'} - set(acc):
            case(ctx, kind, 'other kind: %s=0' % x, True, accept={x: 0})
        handover(ctx, kind)


def odd_start(t, lst):
    """how a list walk over tables starts when it is not at the head of the list"""
    b = base_of(t[1]) if t[0] == 'ld' else base_of(t) if t[0] == 'gep' else None
    while b is not None and b[0] == 'ld':
        b = base_of(b[1])
    if b is None or b[0] != 'liter':
        return None
    st = b[1]
    if st[0] == 'ld' and last_field(st[1]) == ('_GList', 'next') and load_field(base_of(st[1])) == ('oi_fits', lst):
        return 'the second table'
    if st[0] in ('app', 'call') and st[1] in ('g_list_nth', 'g_list_last', 'g_list_find', 'g_list_find_custom'):
        return 'the result of ' + st[1]
    return None


@guarded
def handover(ctx, kind):
    """the per-table function is given this table, this table's channel selection and its wavelengths"""
    K = T[kind]
    fa = ctx.fa('filter_all_oi_' + kind, TabO(kind), stop=STOP)
    inp, out = arg_of(fa, 0), arg_of(fa, K['out'])
    P = 'filter_all_oi_%s/' % kind
    tab = None
    for h in list_loops(ctx, kind):
        tab = ('ld', gep(('liter', ('ld', fld(inp, 'oi_fits', K['list'])), h), [('.', '_GList', 'data')]))
    if tab is None:
        for i, a in fa.calls(K.get('copy') or K['call']):
            w = odd_start(strip_ep(a[0]), K['list'])
            if w:
                ctx.bad(P + 'table', 'the tables are walked from %s, not from the first' % w, i)
                return
        ctx.maybe(P + 'table', 'list walk not recognised')
        return
    name = K.get('copy') or K['call']
    cs = list(fa.calls(name))
    if not cs:
        ctx.maybe(P + 'call', 'no call of ' + name)
    for i, a in cs:
        a = [strip_ep(x) for x in a]

        def tabok(x):
            return x[0] == 'ld' and base_of(x[1])[0] == 'liter' and load_field(base_of(x[1])[1]) == ('oi_fits', K['list'])
        want = [('input table', 0, tabok)]
        if kind in ('vis', 'vis2', 't3'):
            want += [('filter', 1, lambda x: x == arg_of(fa, 1)),
                     ('wavelength table', 2, lambda x: x[0] in ('call', 'phi') or x[0] == 'app' and last_field(x[2][-1]) == ('oi_' + kind, 'insname')),
                     ('channel selection', 3, lambda x: x[0] == 'app' and last_field(x[2][1]) == ('oi_' + kind, 'insname'))]
        if kind == 'flux':
            want += [('filter', 1, lambda x: x == arg_of(fa, 1)),
                     ('channel selection', 2, lambda x: x[0] == 'app' and last_field(x[2][1]) == ('oi_' + kind, 'insname'))]
        if kind == 'wavelength':
            want += [('range', 1, lambda x: x == fld(arg_of(fa, 1), 'oi_filter_spec', 'wave_range'))]
        if kind == 'inspol':
            want += [('filter', 1, lambda x: x == arg_of(fa, 1)), ('channel selections', 2, lambda x: x == arg_of(fa, 2))]
        for nm, k, f in want:
            oid = P + 'handover/' + nm
            if f(a[k]):
                ctx.good(oid)
            elif transparent(a[k]) or a[k][0] == 'null' or (a[k][0] == 'app'):
                ctx.bad(oid, '%s is called with %s as %s' % (name, show(a[k]), nm), i)
            else:
                ctx.maybe(oid, show(a[k])[:80])
    for i, a in fa.calls('oi_fits_lookup_wavelength'):
        oid = P + 'handover/wavelength lookup'
        if last_field(a[1]) == ('oi_' + kind, 'insname') and a[0] == inp:
            ctx.good(oid)
        elif last_field(a[1]):
            ctx.bad(oid, 'the wavelength table is looked up by %s in %s' % (last_field(a[1])[1], show(a[0])), i)
    if kind == 'wavelength':
        ins = [(i, a) for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace')
               if not (a[0][0] == 'ld' and load_field(a[0]) == ('oi_fits', 'wavelengthHash'))]
        uw = {strip_ep(a[3]) for i, a in cs if len(a) > 3}
        oid = P + 'selection remembered'
        hit = [a for i, a in ins if a[2] in uw]
        part = [i for i, a in ins if a[2] not in uw and any(x in uw for x in merged(fa, a[2])) and any(x in (('null',), C(0)) for x in merged(fa, a[2]))]
        if part:
            ctx.bad(oid, 'the accepted channels of a kept OI_WAVELENGTH table are not always remembered', part[0])
        elif hit:
            ctx.good(oid)
        elif ins and all(a[2][0] in ('null', 'c') for i, a in ins):
            ctx.bad(oid, 'the accepted channels of a kept OI_WAVELENGTH table are not remembered', ins[0][0])
        else:
            ctx.maybe(oid, 'insert not recognised')
        # when nothing is left no selection is offered
        fa2 = ctx.fa('filter_all_oi_' + kind, TabO(kind, need={'nwave': '='}), stop=STOP)
        oid = P + 'selection withheld'
        bad = [i for i, a in fa2.calls('g_hash_table_insert', 'g_hash_table_replace') if a[2] in uw]
        ctx.expect(not bad, oid, 'a channel selection is remembered for an OI_WAVELENGTH table that was dropped', bad[0] if bad else None)
    if K.get('hash'):
        ins = [(i, a) for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace') if cell_name(a[0]) in ('arrayHash', 'wavelengthHash', 'corrHash')]
        oid = P + 'indexed'
        good = [1 for i, a in ins if cell_name(a[0]) == K['hash'] and last_field(a[1]) == ('oi_' + kind, K['key']) and base_of(a[1]) == a[2]]
        if good:
            ctx.good(oid)
        elif ins:
            i, a = ins[0]
            if last_field(a[1]) and (cell_name(a[0]) != K['hash'] or last_field(a[1])[1] != K['key'] or a[2][0] == 'ld'):
                ctx.bad(oid, 'the kept table is indexed in %s under %s' % (cell_name(a[0]), show(a[1])), i)
            else:
                ctx.maybe(oid, 'insert form')
        elif any(cell_name(a[0]) is None for i, a in fa.calls('g_hash_table_insert')):
            ctx.maybe(oid, 'insert form')
        else:
            ctx.bad(oid, 'the kept table is not entered in %s' % K['hash'], anchor(fa))


def merged(fa, t, depth=0):
    """values a merged (non-loop) value may be"""
    t = strip_ep(t)
    if t[0] == 'sel':
        return merged(fa, t[2], depth + 1) + merged(fa, t[3], depth + 1)
    if t[0] == 'phi' and depth < 6:
        i = fa.F.defs.get(t[1])
        if i is not None and i.op == 'phi' and i.bb.name not in fa.F.loops:
            return [x for p, o in zip(i.x['preds'], i.ops) if (p, i.bb.name) in fa.exec_edges for x in merged(fa, fa.t(o) or ('undef',), depth + 1)]
    return [t]


# ------------------------------------------------------------ apply_oi_filter
ALLF = ['filter_oi_header', 'filter_oi_target', 'filter_all_oi_array', 'filter_all_oi_corr', 'filter_all_oi_wavelength',
        'filter_all_oi_inspol', 'filter_all_oi_vis', 'filter_all_oi_vis2', 'filter_all_oi_t3', 'filter_all_oi_flux']
PRUNE = {'array': 'arrname', 'inspol': 'arrname', 'wavelength': 'insname', 'corr': 'corrname'}


class PruneO(Oracle):
    """found: are the names of array/inspol/wavelength/corr tables found among the referenced names"""

    def __init__(self, found=None, first='nz'):
        self.found = found
        self.first = first

    def val(self, t):
        if t[0] == 'app' and t[1] == 'g_list_find_custom':
            f = last_field(t[2][1])
            if f and f[0][3:] in PRUNE:
                return self.found
            return 0
        f = load_field(t)
        if f and f[1] in ('arrname', 'corrname', 'insname') and t[0] == 'ld':
            return self.first
        if f and f[0] == 'oi_filter_spec' and f[1].endswith('_pttn'):
            return None
        return None


def list_sources(fa, op, seen=None):
    """all element terms put into the GList held in SSA operand op (backward through phis and list calls)"""
    out = []
    seen = set() if seen is None else seen
    if op[0] != 'v' or op[1] in seen:
        return out, True
    seen.add(op[1])
    i = fa.F.defs.get(op[1])
    if i is None:
        return out, False
    if i.op == 'phi':
        ok = True
        for p, o in zip(i.x['preds'], i.ops):
            if (p, i.bb.name) in fa.exec_edges:
                r, k = list_sources(fa, o, seen)
                out += r
                ok = ok and k
        return out, ok
    if i.op == 'cast':
        return list_sources(fa, i.ops[0], seen)
    if i.op == 'call' and i.callee in ('g_list_prepend', 'g_list_append', 'g_list_insert_sorted'):
        r, k = list_sources(fa, i.ops[0], seen)
        return r + [(i, fa.args.get(id(i), (None, ('undef',)))[1])], k
    if i.op == 'call' and i.callee in ('g_list_reverse', 'g_list_sort', 'g_list_first', 'g_list_copy'):
        return list_sources(fa, i.ops[0], seen)
    return out, False


def dominates(fa, a, b):
    """every executable path from entry to block b passes block a"""
    if a == b:
        return True
    seen = {fa.F.entry}
    st = [fa.F.entry]
    if fa.F.entry == a:
        return True
    while st:
        x = st.pop()
        for s in fa.succs(x):
            if s == a or s in seen:
                continue
            if s == b:
                return False
            seen.add(s)
            st.append(s)
    return True


@guarded
def prune(ctx):
    F = ctx.fa('apply_oi_filter', PruneO(), stop=ALLF)
    P = 'apply_oi_filter/'
    inp, flt, out = arg_of(F, 0), arg_of(F, 1), arg_of(F, 2)
    # every part of the dataset is filtered, from input to output
    where = {}
    for f in ALLF:
        oid = P + 'applies ' + f
        cs = list(F.calls(f))
        if not cs:
            # may have been merged into another function; only decided when the name is gone from the call graph
            ctx.maybe(oid, 'not called directly')
            continue
        i, a = cs[0]
        where[f] = i.bb.name
        miss = F.must_pass(F.F.entry, {c[0].bb.name for c in cs}, {b.name for b in rets(F)})
        if miss is not None and i.bb.name not in (b.name for b in rets(F)):
            ctx.bad(oid, '%s is not called on every path' % f, i)
        elif region(a[0]) != inp or region(a[-1]) != out or a[1] != flt:
            ctx.bad(oid, '%s is called with %s' % (f, ', '.join(show(x) for x in a)), i)
        else:
            ctx.good(oid)
    if not where:
        raise Broken('apply_oi_filter: no filter call recognised')
    # patterns
    for n in ('arrname', 'insname', 'corrname'):
        oid = P + 'pattern ' + n
        cell = fld(flt, 'oi_filter_spec', n + '_pttn')
        first = [f for f in ALLF if f in where]
        for f in first:
            i, a = next(iter(F.calls(f)))
            v = F.mem_load(state_at(F, i), cell, None)
            if v[0] == 'call' and v[1] == 'g_pattern_spec_new':
                ci = [a2 for i2, a2 in F.calls('g_pattern_spec_new') if i2.res == v[2]]
                if ci and ci[0][0] == fld(flt, 'oi_filter_spec', n):
                    ctx.good(oid)
                else:
                    ctx.bad(oid, 'the pattern for %s is compiled from %s' % (n, show(ci[0][0]) if ci else '?'), i)
            elif v[0] in ('ld', 'null'):
                ctx.bad(oid, 'the %s pattern is not compiled when %s runs' % (n, f), i)
            else:
                ctx.maybe(oid, show(v))
        for v in final_mem(F, cell):
            if v == ('null',) or v == C(0):
                ctx.good(oid + '/reset')
            elif v[0] == 'call':
                ctx.bad(oid + '/reset', 'the compiled pattern for %s is left in the filter specification: applying the filter again fails' % n, anchor(F))
            else:
                ctx.maybe(oid + '/reset', show(v))
    # names collected
    for kind, nm in PRUNE.items():
        finds = [(i, a) for i, a in F.calls('g_list_find_custom') if last_field(a[1]) and last_field(a[1])[0] == 'oi_' + kind]
        oid = P + 'prune %s' % kind
        if not finds:
            # nothing compares this kind's name with the referenced names
            if any(True for _ in F.calls('g_list_find_custom')):
                rem = [1 for i, a in F.calls('g_list_remove', 'g_list_delete_link', 'g_list_remove_link')
                       if T[kind]['list'] in show(a[0])]
                if not rem:
                    ctx.bad(oid, 'unreferenced OI_%s tables are never removed' % kind.upper(), anchor(F))
                    continue
            ctx.maybe(oid, 'no lookup among referenced names recognised')
            continue
        for i, a in finds:
            if last_field(a[1])[1] != nm:
                ctx.bad(oid + '/key', 'OI_%s is looked up by %s' % (kind.upper(), last_field(a[1])[1]), i)
                continue
            srcs, known = list_sources(F, i.ops[0])
            got = set()
            for j, t in srcs:
                f = last_field(t)
                if f is None:
                    known = False
                    continue
                if f[1] != nm:
                    ctx.bad(oid + '/names', 'the names OI_%s tables are checked against include %s of %s' % (kind.upper(), f[1], f[0]), j)
                got.add(f[0])
                w = odd_start(strip_ep(t), T[f[0][3:]]['list']) if f[0][3:] in T else None
                if w:
                    ctx.bad(oid + '/referenced by ' + f[0][3:], 'the %s values of OI_%s tables are collected from %s on' % (nm.upper(), f[0][3:].upper(), w), j)
            for k in ('vis', 'vis2', 't3', 'flux'):
                o2 = oid + '/referenced by ' + k
                if 'oi_' + k in got:
                    ctx.good(o2)
                elif known:
                    ctx.bad(o2, '%s values used by OI_%s tables are not counted as references: the OI_%s table they need is removed' % (nm.upper(), k.upper(), kind.upper()), i)
                else:
                    ctx.maybe(o2, 'list source not recognised')
                # collected after the data tables are in place
                if 'filter_all_oi_' + k in where:
                    for j, t in srcs:
                        f = last_field(t)
                        if f and f[0] == 'oi_' + k and not dominates(F, where['filter_all_oi_' + k], j.bb.name):
                            ctx.bad(o2 + '/order', 'references are collected before OI_%s tables are filtered' % k.upper(), j)
            # list walk for collection covers whole list and skips only empty / already present names
    for found in (0, 'nz'):
        fa = ctx.fa('apply_oi_filter', PruneO(found), stop=ALLF)
        for kind, nm in PRUNE.items():
            K = T[kind]
            if not any(last_field(a[1]) and last_field(a[1])[0] == 'oi_' + kind for i, a in F.calls('g_list_find_custom')):
                continue
            rem = [(i, a) for i, a in fa.calls('g_list_remove', 'g_list_delete_link', 'g_list_remove_link') if cell_name(a[0]) == K['list']]
            dec = [(i, v, a) for i, (v, a) in fa.stores() if a == fld(out, 'oi_fits', K['num'])
                   and region(a) == out and v != C(0)]
            hrm = [(i, a) for i, a in fa.calls('g_hash_table_remove', 'g_hash_table_steal') if last_field(a[1]) and last_field(a[1])[0] == 'oi_' + kind]
            oid = P + '%s %s' % ('referenced' if found else 'unreferenced', kind)
            if found:
                if rem:
                    ctx.bad(oid, 'an OI_%s table that is still referenced is removed' % kind.upper(), rem[0][0])
                else:
                    ctx.good(oid)
                continue
            if rem:
                ctx.good(oid)
            else:
                oth = [1 for i, a in fa.calls('g_list_remove', 'g_list_delete_link', 'g_list_remove_link') if cell_name(a[0]) is None]
                if oth:
                    ctx.maybe(oid, 'removal form')
                else:
                    ctx.bad(oid, 'an unreferenced OI_%s table is kept' % kind.upper(), anchor(fa))
                continue
            if K.get('hash'):
                hs = [(i, a) for i, a in hrm if last_field(a[1])[1] == K['key']]
                if hs:
                    ctx.good(oid + '/index')
                elif all(last_field(a[1]) and last_field(a[1])[0] != 'oi_' + kind for i, a in fa.calls('g_hash_table_remove', 'g_hash_table_steal')) or hrm:
                    ctx.bad(oid + '/index', 'a removed OI_%s table stays in the name index' % kind.upper(), rem[0][0])
                else:
                    ctx.maybe(oid + '/index', 'form')
            # the count follows
            if not dec:
                ctx.bad(oid + '/count', 'the number of OI_%s tables is not reduced when one is removed' % kind.upper(), rem[0][0])
            for i, v, a in dec:
                c, ts = tolin(strip_ep(v))
                if c == -1 and list(ts.values()) == [1]:
                    ctx.good(oid + '/count')
                elif v[0] == 'c' or (c != -1 and list(ts.values()) == [1]):
                    ctx.bad(oid + '/count', 'removing an OI_%s table sets the number of tables to %s' % (kind.upper(), show(v)), i)
                else:
                    ctx.maybe(oid + '/count', show(v))
            wipe = [i for i, a in fa.calls('g_hash_table_remove_all', 'g_hash_table_steal_all', 'g_hash_table_foreach_remove')
                    if cell_name(a[0]) == K.get('hash')]
            if wipe:
                ctx.bad(oid + '/index', 'the whole name index of OI_%s tables is emptied' % kind.upper(), wipe[0])
    # no name of a kept data table is overlooked
    fa = ctx.fa('apply_oi_filter', PruneO('nz'), stop=ALLF)
    for i, a in fa.calls('g_list_prepend', 'g_list_append'):
        f = last_field(a[1])
        if f and f[0] in ('oi_vis', 'oi_vis2', 'oi_t3', 'oi_flux') and f[1] in ('arrname', 'insname', 'corrname'):
            oid = P + 'collect %s %s' % f
            hs = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]
            h = min(hs, key=lambda x: len(fa.F.loops[x])) if hs else None
            if h is None:
                continue
            if not latch_reached(fa, h) or any(not c for _, _, c in loop_exits(fa, h)):
                ctx.bad(oid, 'collection of %s from %s tables stops before the last table' % (f[1], f[0]), i)
                continue
            # within one iteration, every path passes the insertion (non-empty name not yet present)
            inb = [s for s in fa.succs(h) if s in fa.F.loops[h]]
            miss = None
            for s in inb:
                if s == i.bb.name:
                    continue
                miss = miss or fa.must_pass(s, {i.bb.name}, {h})
            if miss:
                conds = [fa.brval.get(n) for n in miss if fa.brval.get(n) is not None and len(fa.succs(n)) > 1]
                if conds and all(transparent(c) for c in conds):
                    ctx.bad(oid, 'a new %s of an %s table is not always collected' % (f[1], f[0]), i)
                else:
                    ctx.maybe(oid, 'condition form')
            else:
                ctx.good(oid)


def state_at(fa, inst):
    """memory state just before inst (recomputed)"""
    st = fa.st_copy(fa.in_[inst.bb.name])
    for i in inst.bb.insts:
        if i is inst:
            return st
        fa._curmod = i.origin[0] if i.origin else fa._curmod
        fa.eval(i, st)
    return st


def targets(ctx):
    target_header(ctx)
