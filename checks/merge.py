"""Merging (C13): what merge_oi_fits and its public components put into the output dataset."""
from engine.lib import *
from .schema import full_cover, transparent_cond, miss_conds
from .memory import copies, reaches
from .tables import state_at, cell_name, list_sources, dominates
from .files import leaves
from .checker import inevitable, cell

K = {'array': ('oi_array', 'arrayList', 'numArray', 'arrayHash', 'arrname'),
     'wavelength': ('oi_wavelength', 'wavelengthList', 'numWavelength', 'wavelengthHash', 'insname'),
     'corr': ('oi_corr', 'corrList', 'numCorr', 'corrHash', 'corrname'),
     'inspol': ('oi_inspol', 'inspolList', 'numInspol', None, None),
     'vis': ('oi_vis', 'visList', 'numVis', None, None),
     'vis2': ('oi_vis2', 'vis2List', 'numVis2', None, None),
     't3': ('oi_t3', 't3List', 'numT3', None, None),
     'flux': ('oi_flux', 'fluxList', 'numFlux', None, None)}
COUNTS = {'numrec', 'nwave', 'ntarget', 'nelement', 'ncorr'}
NAMEF = {'arrname', 'insname', 'corrname'}
ARRAYS = {'record', 'elem', 'targ', 'eff_wave', 'eff_band'}
FLEN = 71
LOOKUP = ('g_hash_table_lookup',)
STRW = {'g_strlcpy': 2, 'strncpy': 2, 'strlcpy': 2, 'snprintf': 1, 'g_snprintf': 1, 'strcpy': None, 'g_stpcpy': None, 'stpcpy': None}


def member(t):
    """(list, loop header) when t is ->data of the current member of a list walk"""
    t = strip_ep(t)
    if t[0] == 'ld' and last_field(t[1]) and last_field(t[1])[1] == 'data' and base_of(t[1])[0] == 'liter':
        b = base_of(t[1])
        return b[1], b[2]
    return None


def dataset(t):
    """loop header when t is the current input dataset"""
    m = member(t)
    if m and m[0][0] == 'arg' and m[0][1] == 0:
        return m[1]
    return None


def in_table(t):
    """(dataset loop, list name, table loop) when t is the current table of the current input dataset"""
    m = member(t)
    if m is None or m[0][0] != 'ld':
        return None
    f = last_field(m[0][1])
    if f is None or f[0] != 'oi_fits':
        return None
    h = dataset(base_of(m[0][1]))
    return None if h is None else (h, f[1], m[1])


def out_member(t):
    """list name when t is the current member of a walk over one of the output's lists"""
    if t[0] == 'ld' and last_field(t[1]) and last_field(t[1])[1] == 'data':
        l = base_of(t[1])
        l = l[1] if l[0] == 'liter' else l
        n = cell_name(l)
        a = l[1] if l[0] == 'ld' else l[2] if l[0] == 'mphi' else None
        if n and a is not None and base_of(a)[0] == 'arg' and base_of(a)[1] != 0:
            return n
    return None


class MG(Oracle):
    """every table has rows; table attributes, lookups and the comparison of tables as assumed"""
    def __init__(self, fa_side=None, rev=None, strs=(), d=None, clash=None, fresh=None, found=None, matched=None, long=False, ints=()):
        self.rev = rev
        self.strs = dict(strs)
        self.d = d
        self.clash, self.fresh, self.found, self.matched = clash, fresh, found, matched
        self.long = long
        self.ints = dict(ints)
        self.begin()

    def begin(self):
        self.hits = {}
        self.mixed = []

    def strval(self, a):
        f = last_field(a)
        if f is None or f[1] not in self.strs:
            return None
        return self.strs[f[1]]

    def side(self, a):
        """'in' / 'out': which table an address belongs to, in a comparison of tables"""
        b = base_of(a)
        n = 0
        while n < 12:
            n += 1
            k = b[0]
            if k == 'arg':
                return 'in' if b[1] == 0 else 'out'
            if k == 'ld' or k == 'liter' or k == 'gep':
                b = base_of(b[1])
            elif k == 'mphi':
                b = base_of(b[2])
            elif k == 'phi':
                return 'out'
            else:
                return None
        return None

    def pair(self, x, y):
        """field when x, y are the same attribute of the input table and of a table of the output"""
        if x[0] != 'ld' or y[0] != 'ld':
            return None
        return self.pair_at(x[1], y[1])

    def pair_at(self, a, b):
        f, g = cell(a), cell(b)
        if f is None or f != g:
            return None
        s, t = self.side(a), self.side(b)
        if {s, t} != {'in', 'out'}:
            return None
        i, o = (a, b) if s == 'in' else (b, a)
        if f[1] in ('eff_wave', 'eff_band'):
            ji = steps_of(i)[-1][1] if steps_of(i) else C(0)
            jo = steps_of(o)[-1][1] if steps_of(o) else C(0)
            if ji != jo:
                self.mixed.append((f, i, o))
                return None
            self.hits.setdefault(f[1], set()).add((strip_ep(base_of(i)), ji))
            return f[1]
        si, so = steps_of(i), steps_of(o)
        k = None
        if si and si[-1][0] == '[' and si[-1][2] == 'a':
            k = si[-1][1]
        k2 = None
        if so and so[-1][0] == '[' and so[-1][2] == 'a':
            k2 = so[-1][1]
        if f[1] == 'staxyz':
            k, k2 = k or C(0), k2 or C(0)
            if k != k2 or k[0] != 'c':
                if k[0] == 'c' and k2[0] == 'c':
                    self.mixed.append((f, i, o))
                    return None
                if k != k2:
                    return None
                return 'staxyz*'
            r = 'staxyz%d' % k[1]
        else:
            r = f[1]
        self.hits.setdefault(f[1], set()).add((strip_ep(i), strip_ep(o)))
        return r

    def dv(self, f):
        if self.d is None or f is None:
            return None
        if f == 'staxyz*':
            vs = {self.d.get('staxyz%d' % k, 0) for k in range(3)}
            return vs.pop() if len(vs) == 1 else None
        return self.d.get(f, 0)

    def number(self, t):
        if t[0] == 'cf':
            return t[1]
        if t[0] == 'c':
            return float(t[1])
        if t[0] == 'op' and t[1] == 'fsub':
            v = self.dv(self.pair(t[2], t[3]))
            if v is not None:
                return float(v)
        if t[0] == 'op' and t[1] in ('fadd', 'fsub', 'fmul'):
            a, b = self.number(t[2]), self.number(t[3])
            if a is None or b is None:
                return None
            return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[t[1]]
        if t[0] == 'op' and t[1] == 'fneg':
            a = self.number(t[2])
            return None if a is None else -a
        if t[0] == 'op' and t[1] == 'toint':
            a = self.number(t[2])
            return None if a is None else float(int(a))
        if t[0] == 'op' and t[1] == 'float':
            return self.number(t[2])
        if t[0] == 'app' and t[1] in ('abs', 'labs', 'llabs'):
            a = self.number(t[2][0])
            return None if a is None else abs(a)
        if t[0] == 'app' and t[1] in ('fabs', 'sqrt', 'hypot', 'pow'):
            a = [self.number(x) for x in t[2]]
            if any(x is None for x in a):
                return None
            try:
                return {'fabs': abs, 'sqrt': lambda x: x ** 0.5, 'hypot': lambda x, y: (x * x + y * y) ** 0.5, 'pow': lambda x, y: x ** y}[t[1]](*a)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
        return None

    def val(self, t):
        k = t[0]
        if k == 'call' and (t[1].startswith('dup_oi_') or t[1] == 'oi_fits_lookup_target'):
            return 'nz'
        if k in ('ld', 'mphi'):
            a = t[1] if k == 'ld' else t[2]
            f = last_field(a)
            if f is not None:
                if f[1] == 'revision' and self.rev is not None and f[0] != 'oi_target':
                    if isinstance(self.rev, tuple):
                        return self.rev[1 if out_member(base_of(a)) or self.side(a) == 'out' and base_of(a)[0] != 'call' else 0]
                    return self.rev
                if f in self.ints:
                    return self.ints[f]
                if f[1] in ARRAYS and steps_of(a)[-1][0] == '.':
                    return 'nz'
                if k == 'ld' and f[1] in self.strs and steps_of(a)[-1][0] == '.':
                    s = self.strs[f[1]]
                    return ord(s[0]) if s else 0
        if k == 'gep' and t[1][0] in ('ld', 'mphi') and all(x[0] == '[' for x in t[2]):
            return 'nz' if self.val(t[1]) == 'nz' else None
        if k == 'phi' and self.matched is not None and self.matched(t):
            return 'nz'
        if k == 'app':
            if t[1] == 'strlen':
                s = self.strval(t[2][0])
                if s is not None:
                    return 70 if self.long and s else len(s)
            if t[1] in ('strcmp', 'g_strcmp0', 'strncmp', 'g_str_equal'):
                x, y = t[2][:2]
                r = None
                if x[0] == 'str' or y[0] == 'str':
                    z, w = (x, y) if x[0] == 'str' else (y, x)
                    s = self.strval(w)
                    if s is not None:
                        r = int(s != z[2].split(b'\0')[0].decode('latin1'))
                elif self.d is not None:
                    f = self.pair_at(x, y)
                    if f is not None:
                        r = int(self.dv(f) != 0)
                if r is not None:
                    if t[1] == 'g_str_equal':
                        return 1 - r
                    return 'nz' if r else 0
            if t[1] in ('g_hash_table_lookup', 'g_hash_table_contains'):
                return self.lookup(t[2][0], t[2][1])
        return None

    def lookup(self, H, key):
        n = cell_name(H)
        if n in ('arrayHash', 'wavelengthHash', 'corrHash'):
            if base_of(key)[0] == 'alloca' or base_of(key)[0] == 'call' and base_of(key)[1] in ALLOCS:
                return self.fresh
            return self.clash
        m = member(H)
        if m and m[0][0] == 'arg':
            s = self.strval(key)
            return None if s is None else 'nz' if s else 0
        if self.found is not None and H[0] == 'call' and H[1].startswith('g_hash_table_new'):
            return self.found
        if H[0] == 'arg':
            return 'nz'
        return None

    def rel(self, a, b):
        if a[0] == 'ld' and b[0] == 'c' and b[1] <= 0:
            f = last_field(a[1])
            if f and f[1] in COUNTS:
                return '>'
        if self.d is not None:
            f = self.pair(a, b)
            if f is not None:
                v = self.dv(f)
                if v is not None:
                    return '=' if v == 0 else '>' if v > 0 else '<'
        x, y = self.number(a), self.number(b)
        if x is not None and y is not None and (a[0] not in ('c', 'cf') or b[0] not in ('c', 'cf')):
            return '<' if x < y else '>' if x > y else '='
        return None


def plain(c, fa):
    """a condition over table contents, not over unresolved control history"""
    for x in subterms(c):
        if x[0] == 'phi':
            if not transparent_cond(x, fa):
                return False
        if x[0] == 'undef':
            return False
        if x[0] == 'mphi' and last_field(x[2]) is None:
            return False
        if x[0] == 'call' and not x[1].startswith(('dup_oi_', 'oi_fits_lookup_')):
            return False
    return True


def must(ctx, oid, fa, insts, msg):
    """one of insts is executed in every iteration of its loops; None when unclear"""
    goals = {i.bb.name for i in insts}
    cs = []
    for i in insts:
        m = inevitable(fa, i, goals)
        if m is None:
            ctx.good(oid)
            return True
        cs.append(miss_conds(fa, m, i))
    if all(c and all(plain(x, fa) for x in c) for c in cs):
        ctx.bad(oid, '%s: only when %s' % (msg, show(cs[0][0])), insts[0])
        return False
    ctx.maybe(oid, 'conditions %s' % [show(x) for c in cs for x in c][:3])
    return None


def whole(ctx, oid, fa, h, what):
    """the list walk h ends only after the last member"""
    for n, c, ex in loop_exits(fa, h):
        if ex:
            continue
        if c is not None and plain(c, fa):
            ctx.bad(oid, '%s: the walk ends early when %s' % (what, show(c)), fa.F.blocks[n].term)
        else:
            ctx.maybe(oid, 'early exit')
        return
    ctx.good(oid)


def anchor(fa):
    return fa.F.blocks[fa.F.entry].term


def swrites(fa):
    """[(inst, destination, source, limit)] string writes"""
    out = []
    for i, a in fa.calls(*STRW):
        if i.callee in ('snprintf', 'g_snprintf'):
            src = a[3] if len(a) == 4 and a[2][0] == 'str' and a[2][2].rstrip(b'\0') == b'%s' else a[2] if a[2][0] == 'str' and b'%' not in a[2][2] else None
            out.append((i, a[0], src, a[1]))
        else:
            n = STRW[i.callee]
            out.append((i, a[0], a[1], None if n is None else a[n]))
    for i, d, s, n in copies(fa):
        if last_field(d) and last_field(d)[1] in NAMEF and steps_of(d)[-1][0] == '.':
            out.append((i, d, s, n))
    return out


def dup_calls(fa, kind):
    return list(fa.calls('dup_oi_' + kind))


def table_ok(ctx, oid, fn, kind, fa, i, t):
    """argument of the dup call is the current table; -> (dataset loop, table loop)"""
    L = K[kind][1]
    r = in_table(t)
    if r is None:
        m = member(t)
        if m is not None and m[0][0] == 'ld' and last_field(m[0][1]) and not any(x[0] in ('liter', 'phi', 'mphi', 'iter', 'call') for x in subterms(m[0])):
            ctx.bad(oid, '%s copies tables of %s' % (fn, show(m[0])), i)
        elif only_first(fa, t):
            ctx.bad(oid, '%s looks only at the first table of each list' % fn, i)
        else:
            ctx.maybe(oid, show(t))
        return None
    if r[1] != L:
        ctx.bad(oid, '%s copies the tables of %s' % (fn, r[1]), i)
        return None
    ctx.good(oid)
    return r[0], r[2]


def only_first(fa, t):
    """t is ->data of a loop variable that is the head of a list in the first iteration and NULL afterwards"""
    t = strip_ep(t)
    if t[0] != 'ld' or not last_field(t[1]) or last_field(t[1])[1] != 'data':
        return False
    b = base_of(t[1])
    if b[0] == 'ld':
        return last_field(b[1]) is not None and last_field(b[1])[0] == 'oi_fits' and dataset(base_of(b[1])) is not None and last_field(b[1])[1].endswith('List')
    i = fa.F.defs.get(b[1]) if b[0] == 'phi' else None
    if i is None or i.bb.name not in fa.F.loops:
        return False
    back = [fa.t(o) for p, o in zip(i.x['preds'], i.ops) if p in fa.F.loops[i.bb.name] and (p, i.bb.name) in fa.exec_edges]
    return bool(back) and all(v is not None and v[0] == 'null' for v in back)


def shares_input(ctx, oid, fn, fa, kind):
    """a table of the input itself is put into the output"""
    for i, a in fa.calls('g_list_append', 'g_list_prepend'):
        for x in leaves(fa, a[1]):
            r = in_table(strip_ep(x))
            if r and r[1] == K[kind][1]:
                ctx.bad(oid, '%s puts the table of the input itself into the output' % fn, i)
                return True
    return False


def delta(fa, i, v, a):
    return ladd(v, fa.mem_load(state_at(fa, i), a, None), -1)


def appended(ctx, P, fn, kind, fa, dups, always=True):
    """the copy goes to the end of the right output list and is counted, once"""
    S, L, N, H, key = K[kind]
    out = fa.F.params[-1][0]
    O = [x for x in range(len(fa.F.params)) if fa.F.params[x][0] == out][0]
    oarg = arg_of(fa, O)
    names = {('call', 'dup_oi_' + kind, i.res) for i in dups}
    apps = [(i, a) for i, a in fa.calls('g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_sorted')
            if any(x in names for x in leaves(fa, a[1]))]
    oid = P + 'appended'
    if not apps:
        if not any(a[1][0] in ('phi', 'mphi') for i, a in fa.calls('g_list_append', 'g_list_prepend')):
            ctx.bad(oid, '%s does not add the copy to the output' % fn, anchor(fa))
        else:
            ctx.maybe(oid, 'append form')
        return
    must(ctx, oid, fa, [i for i, a in apps], '%s does not add every table to the output' % fn)
    i, a = apps[0]
    oid = P + 'list'
    n = cell_name(a[0])
    sts = [(j, ad) for j, (v, ad) in fa.stores() if v == ('call', i.callee, i.res)]
    if n is not None and n != L or sts and last_field(sts[0][1]) and last_field(sts[0][1])[1] != L:
        ctx.bad(oid, '%s adds the copy to %s' % (fn, n if n != L else last_field(sts[0][1])[1]), i)
    elif n == L and sts and sts[0][1] == fld(oarg, 'oi_fits', L):
        ctx.good(oid)
    else:
        ctx.maybe(oid, show(a[0]))
    oid = P + 'order'
    if i.callee == 'g_list_append':
        ctx.good(oid)
    elif i.callee == 'g_list_prepend' and not list(fa.calls('g_list_reverse')):
        ctx.bad(oid, '%s reverses the order of the tables' % fn, i)
    else:
        ctx.maybe(oid, i.callee)
    if len(apps) > 1 and any(reaches(fa, x, y, True) for x, _ in apps for y, _ in apps if x is not y):
        ctx.bad(P + 'once', '%s adds the copy twice' % fn, apps[1][0])
    # counted
    oid = P + 'counted'
    cnt = [(j, v, ad) for j, (v, ad) in fa.stores() if ad == fld(oarg, 'oi_fits', N)]
    if not cnt:
        other = [x for x in ('num%s' % y for y in ('Array', 'Wavelength', 'Corr', 'Inspol', 'Vis', 'Vis2', 'T3', 'Flux'))
                 if any(ad == fld(oarg, 'oi_fits', x) for j, (v, ad) in fa.stores())]
        ctx.bad(oid, '%s does not count the tables it adds in %s' % (fn, N), i)
        return
    d = {delta(fa, j, v, ad) for j, v, ad in cnt}
    if d == {C(1)}:
        must(ctx, oid, fa, [j for j, v, ad in cnt], '%s does not count every table it adds' % fn)
    elif all(x[0] == 'c' for x in d) and len(cnt) == 1:
        ctx.bad(oid, '%s counts %s for a table' % (fn, show(next(iter(d)))), cnt[0][0])
    else:
        ctx.maybe(oid, [show(x) for x in d])


HARG = {'arrname': 'merge_all_oi_array', 'insname': 'merge_all_oi_wavelength', 'corrname': 'merge_all_oi_corr'}


def data_args(kind):
    """name field -> parameter index of the list of hashes"""
    return {'arrname': 2, 'insname': 3} if kind == 'inspol' else {'arrname': 2, 'insname': 3, 'corrname': 4}


@guarded
def data(ctx, kind):
    S = K[kind][0]
    fn = 'merge_all_oi_' + kind
    P = fn + '/'
    stop = ['dup_oi_' + kind, 'oi_fits_lookup_target']
    full = {'arrname': 'A', 'insname': 'I', 'corrname': 'C'}
    long = {k: v * 70 for k, v in full.items()}
    revs = (1, 2) if kind in ('vis', 'vis2', 't3') else (1,)
    data_case(ctx, kind, fn, P + 'rev 2 long names/', stop, 2, long)
    for rev in revs:
        for strs in (full, dict(full, arrname=''), dict(full, corrname='')):
            if rev == 2 and strs is not full or kind == 'inspol' and strs['corrname'] == '':
                continue
            tag = 'rev %d%s' % (rev, ''.join(' no %s' % k for k, v in strs.items() if not v))
            data_case(ctx, kind, fn, P + tag + '/', stop, rev, strs)


@guarded
def data_case(ctx, kind, fn, P, stop, rev, strs):
    S, L, N, _, _ = K[kind]
    fa = ctx.fa(fn, MG(rev=rev, strs=strs), stop=stop)
    dups = dup_calls(fa, kind)
    if not dups:
        other = [i for i, a in fa.calls() if i.callee and i.callee.startswith('dup_oi_')]
        if shares_input(ctx, P + 'copy', fn, fa, kind):
            pass
        elif other:
            ctx.bad(P + 'copy', '%s copies tables with %s' % (fn, other[0].callee), other[0])
        else:
            ctx.maybe(P + 'copy', 'no dup call')
        return
    if len(dups) > 1:
        ctx.maybe(P + 'copy', 'several dup calls')
        return
    i0, a0 = dups[0]
    D = ('call', 'dup_oi_' + kind, i0.res)
    hh = table_ok(ctx, P + 'copy', fn, kind, fa, i0, a0[0])
    if hh is None:
        return
    h, h2 = hh
    whole(ctx, P + 'datasets', fa, h, '%s skips input datasets' % fn)
    whole(ctx, P + 'tables', fa, h2, '%s skips tables' % fn)
    must(ctx, P + 'every table copied', fa, [i0], '%s does not copy every table' % fn)
    appended(ctx, P, fn, kind, fa, [i0])
    rec = ('ld', fld(D, S, 'record'))
    inrec = ('ld', fld(strip_ep(a0[0]), S, 'record'))

    def root(a):
        """'tab' / ('rec', idx) / None for an address in the copy"""
        b = base_of(strip_ep(a))
        st = steps_of(strip_ep(a))
        if b == D:
            return 'tab'
        if b == rec:
            return ('rec', st[0][1] if st and st[0][0] == '[' else C(0))
        return None
    # names
    seen = {}
    for i, d, s, n in swrites(fa):
        r = root(d)
        f = last_field(d)
        if r is None or f is None:
            if base_of(strip_ep(d)) == strip_ep(a0[0]):
                ctx.bad(P + 'input', '%s changes the input table' % fn, i)
            continue
        seen.setdefault(f[1], []).append((i, d, s, n, r))
    args = data_args(kind)
    for f, k in args.items():
        oid = P + f
        per_rec = kind == 'inspol' and f == 'insname'
        ws = seen.get(f, [])
        if not strs[f]:
            bad = [x for x in ws if inevitable(fa, x[0], ()) is None]
            if bad and (bad[0][2] is None or bad[0][2][0] != 'str'):
                ctx.bad(oid + ' absent', '%s replaces %s although the table has none' % (fn, f.upper()), bad[0][0])
            elif ws:
                ctx.maybe(oid + ' absent', 'write')
            else:
                ctx.good(oid + ' absent')
            continue
        if not ws:
            if any(fa.F.blocks and last_field(ad) and last_field(ad)[1] == f for j, (v, ad) in fa.stores()):
                ctx.maybe(oid, 'character stores')
            else:
                ctx.bad(oid, '%s does not replace %s by its name in the output' % (fn, f.upper()), i0)
            continue
        ok = True
        for i, d, s, n, r in ws:
            v = [x for x in leaves(fa, s)] if s is not None else [None]
            for x in v:
                ok = name_source(ctx, oid, fn, fa, i, f, x, k, h, D, a0[0], rec, inrec, r, per_rec) and ok
            if n is not None and n[0] == 'c' and n[1] != FLEN:
                ctx.bad(oid + ' length', '%s copies at most %s characters of the new %s' % (fn, show(n), f.upper()), i)
        if not ok:
            continue
        if must(ctx, oid, fa, [x[0] for x in ws], '%s does not replace %s in every table' % (fn, f.upper())) and per_rec:
            cover(ctx, oid + ' records', fn, fa, [(x[0], x[4][1]) for x in ws if isinstance(x[4], tuple)], D, S, 'INSNAME')
    for f in set(seen) - set(args):
        ctx.bad(P + 'kept', '%s changes %s of the copy' % (fn, f.upper()), seen[f][0][0])
    # stores
    tid = []
    times = []
    revs = []
    for i, (v, a) in fa.stores():
        r = root(a)
        f = last_field(a)
        if r is None:
            if base_of(strip_ep(a)) in (strip_ep(a0[0]), inrec):
                ctx.bad(P + 'input', '%s changes the input table' % fn, i)
            continue
        if f is None:
            ctx.maybe(P + 'kept', show(a))
        elif f[1] == 'target_id' and r != 'tab':
            tid.append((i, v, r[1]))
        elif f[1] == 'time' and r != 'tab':
            times.append((i, v, r[1]))
        elif f[1] == 'revision' and r == 'tab':
            revs.append((i, v))
        elif f[1] in NAMEF:
            ctx.maybe(P + f[1], 'character store')
        elif strip_ep(v) == ('ld', strip_ep(a)) or strip_ep(v)[0] == 'ld' and base_of(strip_ep(v)[1]) in (strip_ep(a0[0]), inrec) \
                and last_field(v[1]) == f:
            pass
        elif inevitable(fa, i, ()) is None or plain(v, fa):
            ctx.bad(P + 'kept', '%s changes %s of the copy' % (fn, f[1].upper()), i)
        else:
            ctx.maybe(P + 'kept', show(a))
    # target ids
    oid = P + 'target_id'
    if not tid:
        ctx.bad(oid, '%s does not renumber TARGET_ID' % fn, i0)
    else:
        good = True
        for i, v, idx in tid:
            good = target_value(ctx, oid, fn, fa, i, v, idx, h, rec, inrec) and good
        if good:
            cover(ctx, oid, fn, fa, [(i, idx) for i, v, idx in tid], D, S, 'TARGET_ID')
            must(ctx, oid + ' always', fa, [i for i, v, idx in tid], '%s does not renumber every TARGET_ID' % fn)
    # revision and time
    oid = P + 'revision'
    up = kind in ('vis', 'vis2', 't3')
    if up and rev == 1:
        fin = [v for i, v in revs]
        if not revs:
            ctx.bad(oid, '%s leaves a version 1 table at revision 1' % fn, i0)
        elif all(v == C(2) for v in fin):
            must(ctx, oid, fa, [i for i, v in revs], '%s does not upgrade every version 1 table' % fn)
        elif any(v[0] == 'c' for v in fin):
            ctx.bad(oid, '%s sets revision %s' % (fn, show(fin[0])), revs[0][0])
        else:
            ctx.maybe(oid, [show(v) for v in fin])
        oid = P + 'time'
        if not times:
            ctx.bad(oid, '%s does not clear TIME of an upgraded table' % fn, i0)
        elif all(v in (('cf', 0.0), C(0)) for i, v, x in times):
            cover(ctx, oid, fn, fa, [(i, x) for i, v, x in times], D, S, 'TIME')
            must(ctx, oid + ' always', fa, [i for i, v, x in times], '%s does not clear every TIME' % fn)
        elif all(v[0] in ('c', 'cf') for i, v, x in times):
            ctx.bad(oid, '%s sets TIME to %s' % (fn, show(times[0][1])), times[0][0])
        else:
            ctx.maybe(oid, 'value')
    else:
        bad = [(i, v) for i, v in revs if v[0] == 'c' and v[1] != rev]
        if bad and inevitable(fa, bad[0][0], ()) is None:
            ctx.bad(oid, '%s changes revision %d to %s' % (fn, rev, show(bad[0][1])), bad[0][0])
        elif bad:
            ctx.maybe(oid, 'revision')
        else:
            ctx.good(oid)
        oid = P + 'time'
        bad = [i for i, v, x in times if v[0] in ('c', 'cf')]
        if bad and inevitable(fa, bad[0], ()) is None:
            ctx.bad(oid, '%s changes TIME of a version 2 table' % fn, bad[0])
        elif times:
            ctx.maybe(oid, 'time')
        else:
            ctx.good(oid)
    ctx.good(P + 'kept')


def cover(ctx, oid, fn, fa, reads, D, S, what):
    n = ('ld', fld(D, S, 'numrec'))
    r = full_cover(fa, [(i, strip_ep(x)) for i, x in reads], n)
    if r is True:
        ctx.good(oid)
    elif r is False:
        ctx.bad(oid, '%s: not every record gets its new %s' % (fn, what), reads[0][0])
    else:
        ctx.maybe(oid, [show(x) for i, x in reads])


def name_source(ctx, oid, fn, fa, i, f, x, k, h, D, tab, rec, inrec, r, per_rec):
    if x is None:
        ctx.maybe(oid, 'source')
        return False
    if x[0] == 'app' and x[1] in LOOKUP:
        H, key = x[2][0], strip_ep(x[2][1])
        m = member(H)
        if m is None or m[0][0] != 'arg':
            if m is None and transparent(strip_ep(H)):
                ctx.bad(oid, '%s looks %s up in %s' % (fn, f.upper(), show(H)), i)
            else:
                ctx.maybe(oid, show(H))
            return False
        if m[0][1] != k:
            ctx.bad(oid, '%s looks %s up in %s' % (fn, f.upper(), show(m[0])), i)
            return False
        if m[1] != h:
            ctx.maybe(oid, 'walk of the hash list')
            return False
        kf = last_field(key)
        kb = base_of(key)
        okb = kb in (rec, inrec) if per_rec else kb in (D, strip_ep(tab))
        if kf is None:
            ctx.maybe(oid, show(key))
            return False
        if kf[1] != f or not okb:
            if kb in (rec, inrec, D, strip_ep(tab)):
                ctx.bad(oid, '%s looks %s up under %s' % (fn, f.upper(), show(key)), i)
            else:
                ctx.maybe(oid, show(key))
            return False
        if per_rec and isinstance(r, tuple):
            ki = steps_of(key)[0][1] if steps_of(key)[0][0] == '[' else C(0)
            if ki != strip_ep(r[1]):
                ctx.bad(oid, '%s gives record %s the name of record %s' % (fn, show(r[1]), show(ki)), i)
                return False
        return True
    if x[0] in ('str',) or transparent(strip_ep(x)) or x[0] == 'gep' and base_of(x) == D:
        ctx.bad(oid, '%s sets %s to %s' % (fn, f.upper(), show(strip_ep(x))), i)
        return False
    if per_rec and isinstance(r, tuple) and base_of(strip_ep(x)) in (rec, inrec):
        st = steps_of(x)
        ki = strip_ep(st[0][1]) if st and st[0][0] == '[' else C(0)
        cs = [c for n, c in deciding(fa, i) if c is not None]
        if ki != strip_ep(r[1]) and not any(last_field(y) and last_field(y)[1] == f for c in cs for y in subterms(c) if y[0] == 'gep'):
            ctx.bad(oid, '%s gives record %s the %s of record %s' % (fn, show(r[1]), f.upper(), show(ki)), i)
            return False
    ctx.maybe(oid, show(x))
    return False


def target_value(ctx, oid, fn, fa, i, v, idx, h, rec, inrec):
    """value is *(lookup(arg1, lookup_target(dataset, old id)->target))"""
    w = strip_ep(v)
    if w[0] == 'ld' and w[1][0] == 'app' and w[1][1] in LOOKUP:
        H, key = w[1][2]
        if H[0] != 'arg' or H[1] != 1:
            ctx.bad(oid, '%s takes the new TARGET_ID from %s' % (fn, show(H)), i) if H[0] == 'arg' or member(H) else ctx.maybe(oid, show(H))
            return False
        b = base_of(key)
        if b[0] == 'call' and b[1] == 'oi_fits_lookup_target':
            j = fa.F.defs[b[2]]
            a = [strip_ep(x) for x in fa.args[id(j)]]
            if last_field(key) != ('target', 'target'):
                ctx.bad(oid, '%s looks the target up by %s' % (fn, show(key)), i)
                return False
            if dataset(a[0]) is None:
                ctx.bad(oid, '%s resolves TARGET_ID in %s' % (fn, show(a[0])), j) if a[0][0] == 'arg' or a[0][0] == 'ld' and base_of(a[0][1])[0] == 'arg' else ctx.maybe(oid, show(a[0]))
                return False
            if dataset(a[0]) != h:
                ctx.maybe(oid, 'dataset walk')
                return False
            o = a[1]
            if o[0] == 'ld' and base_of(o[1]) in (rec, inrec) and last_field(o[1])[1] == 'target_id':
                oi = steps_of(o[1])[0][1] if steps_of(o[1])[0][0] == '[' else C(0)
                if oi != strip_ep(idx):
                    ctx.bad(oid, '%s gives record %s the target of record %s' % (fn, show(idx), show(oi)), i)
                    return False
                return True
            if transparent(o) or o[0] == 'c':
                ctx.bad(oid, '%s resolves %s instead of the TARGET_ID of the record' % (fn, show(o)), j)
                return False
            ctx.maybe(oid, show(o))
            return False
        ctx.maybe(oid, show(key))
        return False
    if w[0] == 'c' or w[0] == 'ld' and (base_of(w[1]) in (rec, inrec)):
        ctx.bad(oid, '%s sets TARGET_ID to %s' % (fn, show(w)), i)
        return False
    ctx.maybe(oid, show(w))
    return False


def datas(ctx):
    for k in ('inspol', 'vis', 'vis2', 't3', 'flux'):
        data(ctx, k)



# ------------------------------------------------------------------ shared tables (array, wavelength, corr)
SAME = {'array': {'arrayx': 1e-10, 'arrayy': 1e-10, 'arrayz': 1e-10, 'sta_index': None, 'staxyz0': 1e-10, 'staxyz1': 1e-10, 'staxyz2': 1e-10,
                  'diameter': 1e-3, 'fov': 1e-10, 'fovtype': None},
        'wavelength': {'nwave': None, 'eff_wave': 1e-10, 'eff_band': 1e-10}}
REV2ONLY = {'fov', 'fovtype'}


def matcher(fa0):
    """phi terms that are NULL or a table found in the output"""
    cache = {}

    def m(t):
        if t not in cache:
            cache[t] = False
            i = fa0[0].F.defs.get(t[1]) if fa0 else None
            if i is not None and i.op == 'phi' and i.bb.name not in fa0[0].F.loops:
                ls = leaves(fa0[0], t)
                cache[t] = any(x[0] == 'null' or x == C(0) for x in ls) and any(out_member(x) for x in ls) \
                    and all(x[0] == 'null' or x == C(0) or out_member(x) for x in ls)
        return cache[t]
    return m


@guarded
def shared(ctx, kind):
    S, L, N, HN, key = K[kind]
    fn = 'merge_all_oi_' + kind
    P = fn + '/'
    stop = ['dup_oi_' + kind]
    base = ctx.fa(fn, stop=stop)
    m = matcher([base])
    dups = dup_calls(base, kind)
    if len(dups) != 1:
        other = [i for i, a in base.calls() if i.callee and i.callee.startswith('dup_oi_')]
        if not dups and shares_input(ctx, P + 'copy', fn, base, kind):
            pass
        elif other and not dups:
            ctx.bad(P + 'copy', '%s copies tables with %s' % (fn, other[0].callee), other[0])
        else:
            ctx.maybe(P + 'copy', '%d dup calls' % len(dups))
        return
    D = ('call', 'dup_oi_' + kind, dups[0][0].res)
    new = dict(d={k: 1 for k in SAME.get(kind, {})}) if kind != 'corr' else {}
    # a new table, its name free
    for rev in (1, 2) if kind != 'corr' else (1,):
        o = MG(rev=rev, clash=0, fresh=0, strs={key: 'NAM'}, **new)
        fa = ctx.fa(fn, o, stop=stop)
        new_table(ctx, P + 'new rev %d/' % rev, fn, kind, fa, D, rev, False)
    o = MG(rev=2, clash='nz', fresh=0, strs={key: 'NAM'}, **new)
    new_table(ctx, P + 'clash/', fn, kind, ctx.fa(fn, o, stop=stop), D, 2, True)
    # every candidate name taken: nothing may be indexed
    oid = P + 'unique name'
    fa = ctx.fa(fn, MG(rev=2, clash='nz', fresh='nz', strs={key: 'NAM'}, **new), stop=stop)
    ins = [i for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace') if cell_name(a[0]) == HN]
    if ins:
        cs = [c for n, c in deciding(fa, ins[0]) if not any(is_count_cond(fa, c, h) for h in fa.F.loops)]
        if all(c is None or plain(c, fa) for c in cs):
            ctx.bad(oid, '%s uses a new %s without having found it unused' % (fn, key.upper()), ins[0])
        else:
            ctx.maybe(oid, 'conditions')
    else:
        ctx.good(oid)
    candidates(ctx, P + 'candidates vary', fn, ctx.fa(fn, MG(rev=2, clash='nz', fresh=None, strs={key: 'NAM'}, **new), stop=stop), kind, key)
    # a long name must still give different candidates
    oid = P + 'long name'
    fa = ctx.fa(fn, MG(rev=2, clash='nz', fresh=None, strs={key: 'NAM'}, long=True, **new), stop=stop)
    for i, a in fa.calls('g_snprintf', 'snprintf'):
        if a[0][0] != 'alloca':
            continue
        k = a[2][2].find(b'%s') if a[2][0] == 'str' else -1
        if k >= 0 and any(x[0] == 'gep' and base_of(x) == D for x in a[3:]) and a[2][2].find(b'%', k + 1) > k:
            ctx.bad(oid, '%s derives the new %s of a table with a 70 character name by appending to it: it is cut off' % (fn, key.upper()), i)
            break
    else:
        ctx.good(oid)
    # matching
    if kind == 'corr':
        return
    found = ctx.fa(fn, MG(rev=2, clash=0, fresh=0, strs={key: 'NAM'}, matched=m), stop=stop)
    matched_table(ctx, P + 'matched/', fn, kind, found, D)
    # what makes two tables the same
    same(ctx, kind, fn, P, stop, D, key)


def value_leaves(fa, t):
    b = base_of(t)
    return leaves(fa, b)


@guarded
def new_table(ctx, P, fn, kind, fa, D, rev, clash):
    S, L, N, HN, key = K[kind]
    dups = dup_calls(fa, kind)
    if not dups:
        if not [c for n, c in open_conds(fa) if c is not None and not plain(c, fa)]:
            ctx.bad(P + 'copied', '%s never copies a table' % fn, anchor(fa))
        else:
            ctx.maybe(P + 'copied', 'no dup')
        return
    i0, a0 = dups[0]
    hh = table_ok(ctx, P + 'copy', fn, kind, fa, i0, a0[0])
    if hh is None:
        return
    h, h2 = hh
    whole(ctx, P + 'datasets', fa, h, '%s skips input datasets' % fn)
    whole(ctx, P + 'tables', fa, h2, '%s skips tables' % fn)
    if not must(ctx, P + 'every table copied', fa, [i0], '%s does not copy every table that is new' % fn):
        return
    appended(ctx, P, fn, kind, fa, [i0])
    oarg = arg_of(fa, len(fa.F.params) - 1)
    tab = strip_ep(a0[0])
    # index of the output
    ins = [(i, a) for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace') if cell_name(a[0]) in ('arrayHash', 'wavelengthHash', 'corrHash')]
    oid = P + 'indexed'
    good = []
    for i, a in ins:
        kk, v = strip_ep(a[1]), a[2]
        vs = leaves(fa, v)
        if cell_name(a[0]) != HN:
            ctx.bad(oid, '%s enters the table in %s' % (fn, cell_name(a[0])), i)
        elif last_field(kk) and last_field(kk)[1] != key:
            ctx.bad(oid, '%s indexes the table by %s' % (fn, last_field(kk)[1]), i)
        elif base_of(kk) == tab or any(strip_ep(x) == tab for x in vs):
            ctx.bad(oid, '%s indexes the input table instead of its copy' % fn, i)
        elif last_field(kk) and all(x == D for x in vs) and all(x == D for x in value_leaves(fa, kk)):
            good.append(i)
        else:
            ctx.maybe(oid, show(a[1]))
    if good:
        must(ctx, oid, fa, good, '%s does not index every table it adds' % fn)
    elif not ins:
        ctx.bad(oid, '%s does not index the tables it adds' % fn, i0)
    # name
    oid = P + 'name'
    ws = [(i, d, s, n) for i, d, s, n in swrites(fa) if base_of(d) == D]
    cs = [i for i, (v, a) in fa.stores() if base_of(a) == D and last_field(a) and last_field(a)[1] == key]
    if not clash:
        hit = [w for w in ws if inevitable(fa, w[0], ()) is None]
        if hit and hit[0][2] is not None and strip_ep(base_of(hit[0][2])) not in (tab, D):
            ctx.bad(oid, '%s changes %s although the name is free' % (fn, last_field(hit[0][1])[1].upper() if last_field(hit[0][1]) else '?'), hit[0][0])
        elif ws or cs:
            ctx.maybe(oid, 'write')
        else:
            ctx.good(oid)
    else:
        w = [x for x in ws if last_field(x[1]) and last_field(x[1])[1] == key]
        if not w and not cs and not [1 for i, a in fa.calls('g_snprintf', 'snprintf', 'sprintf') if base_of(a[0]) == D]:
            ctx.bad(oid, '%s keeps %s although another table of the output has that name' % (fn, key.upper()), i0)
        elif w:
            if must(ctx, oid, fa, [x[0] for x in w], '%s does not always rename a table whose name is taken' % fn):
                late = [x for x in w for i in good if reaches(fa, i, x[0], True)]
                if late:
                    ctx.bad(oid + ' before index', '%s changes the name after the table has been indexed by it' % fn, late[0][0])
                else:
                    ctx.good(oid + ' before index')
                i, d, s, n = w[0]
                if n is not None and n[0] == 'c' and n[1] != FLEN:
                    ctx.bad(oid + ' length', '%s cuts the new name to %s characters' % (fn, show(n)), i)
                new_name(ctx, P + 'candidate', fn, fa, s, HN, key, i)
        else:
            ctx.maybe(oid, 'form')
    # revision
    oid = P + 'revision'
    rs = [(i, v) for i, (v, a) in fa.stores() if base_of(a) == D and last_field(a) == (S, 'revision')]
    if kind != 'corr' and rev == 1:
        if not rs:
            ctx.bad(oid, '%s leaves a version 1 table at revision 1' % fn, i0)
        elif all(v == C(2) for i, v in rs):
            must(ctx, oid, fa, [i for i, v in rs], '%s does not upgrade every version 1 table' % fn)
        elif all(v[0] == 'c' for i, v in rs):
            ctx.bad(oid, '%s sets revision %s' % (fn, show(rs[0][1])), rs[0][0])
        else:
            ctx.maybe(oid, 'value')
    else:
        bad = [i for i, v in rs if v[0] == 'c' and v[1] != rev]
        if bad and inevitable(fa, bad[0], ()) is None:
            ctx.bad(oid, '%s changes revision %d' % (fn, rev), bad[0])
        elif bad:
            ctx.maybe(oid, 'revision')
        else:
            ctx.good(oid)
    for i, (v, a) in fa.stores():
        f = last_field(a)
        if base_of(strip_ep(a)) == tab:
            ctx.bad(P + 'input', '%s changes the input table' % fn, i)
        if base_of(a) == D and f and f[1] not in ('revision', key) and v != ('ld', a):
            if inevitable(fa, i, ()) is None:
                ctx.bad(P + 'kept', '%s changes %s of the copy' % (fn, f[1].upper()), i)
            else:
                ctx.maybe(P + 'kept', f[1])
    ctx.good(P + 'kept')
    mapping(ctx, P, fn, kind, fa, h, h2, tab, {D}, key)


def varies(fa, y, body):
    if y[0] == 'iter':
        return y[1] in body
    if y[0] == 'phi':
        i = fa.F.defs.get(y[1])
        return i is None or i.bb.name in body
    if y[0] == 'mphi':
        return y[1] in body
    return y[0] in ('sel', 'undef', 'liter')


def candidates(ctx, oid, fn, fa, kind, key):
    """the names tried one after the other differ"""
    for i, a in fa.calls('g_snprintf', 'snprintf'):
        lk = [(j, b) for j, b in fa.calls('g_hash_table_lookup', 'g_hash_table_contains') if base_of(b[1]) == base_of(a[0])]
        hs = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h] and any(j.bb.name in fa.F.loops[h] for j, b in lk)]
        if not hs or base_of(a[0])[0] != 'alloca':
            continue
        body = fa.F.loops[min(hs, key=lambda x: len(fa.F.loops[x]))]
        if dup_calls(fa, kind) and dup_calls(fa, kind)[0][0].bb.name in body:
            continue                # no loop of its own
        if any(varies(fa, y, body) for x in a[2:] for y in subterms(x)):
            ctx.good(oid)
        elif all(transparent(strip_ep(x)) or x[0] in ('str', 'c', 'ld', 'lin', 'gep') for x in a[2:]) \
                and not any(base_of(d)[0] == 'call' for j, d, _, _ in swrites(fa) if j.bb.name in body) \
                and not any(j.callee not in ('g_snprintf', 'snprintf', 'strlen', 'g_hash_table_lookup', 'g_hash_table_contains')
                            for j, _ in fa.calls() if j.bb.name in body):
            ctx.bad(oid, '%s tries the same new %s again for ever when it is taken' % (fn, key.upper()), i)


def new_name(ctx, oid, fn, fa, s, HN, key, w):
    """the new name is the candidate that was looked up"""
    b = base_of(s) if s is not None else None
    if b is None or b[0] not in ('alloca', 'call'):
        ctx.maybe(oid, show(s) if s else 'form')
        return
    lk = [(i, a) for i, a in fa.calls('g_hash_table_lookup', 'g_hash_table_contains') if base_of(a[1]) == b]
    if not lk:
        ctx.bad(oid, '%s uses a new %s without having found it unused' % (fn, key.upper()), w)
        return
    wrong = [i for i, a in lk if cell_name(a[0]) not in (HN, None)]
    if wrong:
        ctx.bad(oid, '%s looks the candidate up in %s' % (fn, cell_name(lk[0][1][0])), wrong[0])
        return
    ctx.good(oid)


def mapping(ctx, P, fn, kind, fa, h, h2, tab, values, key):
    """old name -> name in the output is remembered for this dataset"""
    oid = P + 'mapping'
    ins = [(i, a) for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace')
           if cell_name(a[0]) not in ('arrayHash', 'wavelengthHash', 'corrHash')]
    if not ins:
        ctx.bad(oid, '%s does not remember the name tables got in the output' % fn, anchor(fa))
        return
    good = []
    for i, a in ins:
        H, kk, v = a[0], strip_ep(a[1]), a[2]
        bad = None
        if H[0] == 'call' and H[1].startswith('g_hash_table_new'):
            j = fa.F.defs[H[2]]
            if j.bb.name not in fa.F.loops[h]:
                bad = 'uses one mapping for all input datasets'
            elif j.bb.name in fa.F.loops[h2]:
                bad = 'starts a new mapping for every table'
            else:
                ha = fa.args[id(j)]
                if ha[0] != ('fn', 'g_str_hash') or ha[1] != ('fn', 'g_str_equal'):
                    if ha[0][0] in ('fn', 'null') and ha[1][0] in ('fn', 'null'):
                        bad = 'keeps the mapping in a table that does not compare names'
        else:
            ctx.maybe(oid, show(H))
            return
        if bad is None:
            if base_of(kk) != tab:
                bad = 'remembers the new name under %s' % show(kk) if all(x in values or out_member(x) for x in value_leaves(fa, kk)) or transparent(kk) else None
                if bad is None:
                    ctx.maybe(oid, show(kk))
                    return
            elif last_field(kk)[1] != key:
                bad = 'remembers the new name under %s' % show(kk)
        if bad is None:
            vs = value_leaves(fa, v)
            if last_field(v) is None or last_field(v)[1] != key:
                if last_field(v) is None:
                    ctx.maybe(oid, show(v))
                    return
                bad = 'maps names to %s' % last_field(v)[1]
            elif any(strip_ep(x) == tab for x in vs):
                bad = 'maps names to themselves instead of the name in the output'
            elif not all(x in values or out_member(x) == K[kind][1] or x[0] == 'null' for x in vs):
                ctx.maybe(oid, [show(x) for x in vs])
                return
        if bad:
            ctx.bad(oid, '%s %s' % (fn, bad), i)
            return
        good.append((i, H))
    if not must(ctx, oid, fa, [i for i, H in good], '%s does not remember the new name of every table' % fn):
        return
    # the mappings are returned in dataset order
    oid = P + 'returned'
    H = good[0][1]
    for b in rets(fa):
        if not b.term.ops:
            continue
        es, ok = list_sources(fa, b.term.ops[0])
        if not ok or not es:
            r = fa.args.get(id(b.term), (None,))[0]
            if r is not None and (r[0] == 'null' or r[0] == 'call' and r[1].startswith('g_hash_table_new')):
                ctx.bad(oid, '%s returns %s' % (fn, show(r)), b.term)
            else:
                ctx.maybe(oid, 'list')
            return
        mine = [i for i, t in es if t == H]
        if len(mine) != len(es) or any(i.callee != 'g_list_append' for i in mine):
            if all(i.callee == 'g_list_prepend' for i in mine) and not list(fa.calls('g_list_reverse')):
                ctx.bad(oid, '%s returns the mappings in reverse order of the datasets' % fn, mine[0])
            else:
                ctx.maybe(oid, 'list')
            return
        if h2 in fa.F.loops and mine[0].bb.name in fa.F.loops[h2]:
            ctx.bad(oid, '%s appends a mapping per table instead of per dataset' % fn, mine[0])
            return
        must(ctx, oid, fa, mine, '%s does not return a mapping for every input dataset' % fn)


@guarded
def matched_table(ctx, P, fn, kind, fa, D):
    S, L, N, HN, key = K[kind]
    oarg = arg_of(fa, len(fa.F.params) - 1)
    if not fa.oracle.matched or not any(fa.oracle.matched(('phi', r)) for r, i in fa.F.defs.items() if i.op == 'phi'):
        ctx.maybe(P + 'reused', 'match result not recognised')
        return
    for i, a in dup_calls(fa, kind):
        ctx.bad(P + 'reused', '%s copies a table that the output already has' % fn, i) if not [c for n, c in open_conds(fa, nest_of(fa, i)) if c is not None and not plain(c, fa)] else ctx.maybe(P + 'reused', 'condition')
        return
    hot = [i for i, (v, a) in fa.stores() if base_of(a) == oarg] + [i for i, a in fa.calls('g_list_append') if cell_name(a[0]) == L]
    if hot:
        ctx.bad(P + 'reused', '%s changes the output although the table is already there' % fn, hot[0])
        return
    ctx.good(P + 'reused')
    # mapping goes to the matching table
    hs = None
    for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace'):
        r = in_table(base_of(strip_ep(a[1])))
        if r:
            hs = r
            tab = base_of(strip_ep(a[1]))
    if hs is None:
        ctx.maybe(P + 'mapping', 'no mapping')
        return
    mapping(ctx, P, fn, kind, fa, hs[0], hs[2], tab, set(), key)


def nest_of(fa, inst):
    return {n for n in fa.reach if reaches(fa, fa.F.blocks[n].term, inst)} if fa.reach else set()


@guarded
def same(ctx, kind, fn, P, stop, D, key):
    """tables are the same exactly when all compared attributes agree (to the tolerance)"""
    S, L = K[kind][0], K[kind][1]
    spec = SAME[kind]

    def run(rev, d):
        fa = ctx.fa(fn, MG(rev=rev, clash=0, fresh=0, strs={key: 'NAM'}, d=d), stop=stop)
        return fa

    def reused(fa):
        """can the mapping name a table found in the output"""
        r = []
        for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace'):
            if in_table(base_of(strip_ep(a[1]))):
                r += [x for x in value_leaves(fa, a[2]) if out_member(x)]
        return r

    def walk(fa):
        hs = set()
        for i, a in list(fa.stores()) + list(fa.calls()):
            pass
        for n in fa.reach:
            c = fa.brval.get(n)
            for x in subterms(c) if c is not None else ():
                if x[0] == 'liter' and cell_name(x[1]) == L:
                    a = x[1][1] if x[1][0] == 'ld' else x[1][2]
                    if base_of(a)[0] == 'arg' and base_of(a)[1] != 0:
                        hs.add(x[2])
        return hs

    def foreign(fa, h, fields):
        """undecided conditions in the comparison that concern the fields or cannot be read"""
        out = []
        for n, c in open_conds(fa, fa.F.loops.get(h, ())):
            if c is None:
                out.append(c)
                continue
            if any(is_count_cond(fa, c, x) for x in fa.F.loops):
                continue
            fs = {cell(x[1])[1] for x in subterms(c) if x[0] == 'ld' and cell(x[1])}
            if not plain_pair(c) or fs & fields:
                out.append(c)
        return out

    def plain_pair(c):
        return all(x[0] not in ('phi', 'undef', 'call') for x in subterms(c))
    W = walk(ctx.fa(fn, stop=stop))
    if len(W) != 1:
        ctx.maybe(P + 'same', 'search of the output not recognised')
        return
    h = W.pop()
    # an attribute of the output's tables that is never read cannot have been compared
    bs = ctx.fa(fn, MG(rev=2, clash=0, fresh=0, strs={key: 'NAM'}), stop=stop)
    read = set()
    whole_cmp = False
    for b in bs.F.rpo:
        if b.name in bs.reach:
            for i in b.insts:
                if i.op in ('load', 'call'):
                    for a in bs.args.get(id(i), ()):
                        c = a and cell(a)
                        if c and bs.oracle.side(a) == 'out':
                            read.add(c[1])
                    if i.op == 'call' and i.callee in ('memcmp', 'bcmp') or i.op == 'call' and i.callee is None:
                        whole_cmp = True
    if reused(bs) and not whole_cmp:
        for f in spec:
            ff = f.rstrip('012') if f.startswith('staxyz') else f
            if ff not in read:
                ctx.bad(P + 'compares ' + f, '%s reuses tables without looking at %s' % (fn, f.upper()), anchor(bs))
            else:
                ctx.good(P + 'compares ' + f)
    for rev in (2, 1):
        fa = run(rev, {})
        oid = P + 'same rev %d/' % rev
        o = fa.oracle
        for f, a, b in o.mixed:
            ctx.bad(oid + f[1] + ' element', '%s compares %s with %s' % (fn, show(strip_ep(a)), show(strip_ep(b))), anchor(fa))
        if not reused(fa):
            if not foreign(fa, h, set(spec)):
                ctx.bad(oid + 'reused', '%s does not reuse a table of the output that agrees in everything' % fn, anchor(fa))
            else:
                ctx.maybe(oid + 'reused', 'conditions')
        elif latch_reached(fa, h):
            f = foreign(fa, h, set(spec))
            cs = [c for n, c in open_conds(fa, fa.F.loops[h]) if c is not None and not any(is_count_cond(fa, c, x) for x in fa.F.loops)]
            if cs and not f and all(plain_pair(c) for c in cs):
                ctx.bad(oid + 'reused', '%s does not reuse a table of the output that agrees in everything compared: %s' % (fn, show(cs[0])), anchor(fa))
            else:
                ctx.maybe(oid + 'reused', [show(c) for c in cs][:3])
        else:
            ctx.good(oid + 'reused')
        # all channels / stations compared
        if kind == 'wavelength':
            for f in ('eff_wave', 'eff_band'):
                hits = o.hits.get(f, set())
                if hits:
                    bad = []
                    for b, idx in hits:
                        tabs = base_of(b[1])
                        n = ('ld', fld(tabs, S, 'nwave'))
                        its = iters_in(idx)
                        if len(its) == 1:
                            hh = next(iter(its))
                            cs = count_of(fa, hh)
                            alt = [strip_ep(c) if c is not None else None for c in cs]
                            if covers(idx, hh, n) and all(c is not None and c[0] == 'ld' and last_field(c[1]) == (S, 'nwave') for c in alt):
                                bad.append(True)
                            elif all(c is not None and (c[0] == 'c' or ladd(c, n, -1)[0] == 'c') for c in alt):
                                bad.append(False)
                            else:
                                bad.append(None)
                        else:
                            bad.append(False if idx[0] == 'c' else None)
                    if any(x is True for x in bad):
                        ctx.good(oid + f + ' channels')
                    elif all(x is False for x in bad):
                        ctx.bad(oid + f + ' channels', '%s does not compare %s in every channel' % (fn, f.upper()), anchor(fa))
                    else:
                        ctx.maybe(oid + f + ' channels', 'cover')
        else:
            fa3 = run(rev, {'sta_index': 1})
            hits3 = fa3.oracle.hits.get('sta_index', set())
            short = []
            for side, who in ((0, 'stations of the table'), (1, 'stations of the other table')):
                rs = []
                fax, hits = (fa3, hits3) if side else (fa, o.hits.get('sta_index', set()))
                for pr in hits:
                    a = pr[side]
                    st = steps_of(a)
                    idx = st[0][1] if st and st[0][0] == '[' else C(0)
                    b = base_of(a)
                    if b[0] != 'ld':
                        rs.append(None)
                        continue
                    n = ('ld', fld(base_of(b[1]), S, 'nelement'))
                    its = iters_in(idx)
                    if len(its) == 1:
                        hh = next(iter(its))
                        alt = [strip_ep(c) if c is not None else None for c in count_of(fax, hh)]
                        if covers(idx, hh, n) and any(c == n for c in alt):
                            rs.append(True)
                            for c in alt:
                                if c != n and c is not None and c[0] == 'ld' and last_field(c[1]) == (S, 'nelement'):
                                    short.append((hh, n, c))
                        elif alt and all(c is not None and c != n and (c[0] in ('c', 'ld') or ladd(c, n, -1)[0] == 'c') for c in alt):
                            rs.append(False)
                        else:
                            rs.append(None)
                    else:
                        rs.append(False if idx[0] == 'c' else None)
                if rs and all(x is False for x in rs):
                    ctx.bad(oid + who, '%s does not go through all %s' % (fn, who), anchor(fa))
                elif rs and any(x is True for x in rs):
                    ctx.good(oid + who)
                elif hits:
                    ctx.maybe(oid + who, 'cover')
            for hh, n, c in short:
                fb = ctx.fa(fn, Ends(('iter', hh), n, c, rev=rev, clash=0, fresh=0, strs={key: 'NAM'}, d={}), stop=stop)
                if reused(fb) and not foreign(fb, h, set(spec)):
                    ctx.bad(oid + 'stations left', '%s reuses a table when it has come to the end of the shorter one, whatever stations are left' % fn, anchor(fb))
                else:
                    ctx.good(oid + 'stations left')
            met = {strip_ep(pr[1]) for pr in hits3}
            for x in elems_used(bs, S):
                ind = steps_of(x)[0][1]
                if any(y[0] == 'ld' and last_field(y[1]) == ('element', 'sta_index') for y in subterms(ind)) \
                        and not any(steps_of(y) and steps_of(y)[0] == steps_of(x)[0] for y in met):
                    ctx.bad(oid + 'station found', '%s takes element %s of an OI_ARRAY for the station with that STA_INDEX' % (fn, show(ind)), anchor(bs))
                    break
    for f, tol in spec.items():
        for rev in (2, 1):
            if rev == 1 and f in REV2ONLY:
                rev = (1, 2)        # what is in the output has been upgraded
                cases = [(1, True)]
            elif tol is None:
                cases = [(1, False), (-1, False)] if f != 'fovtype' else [(1, False)]
            else:
                cases = [(1, False), (-1, False), (tol * 2, False), (tol * 0.5, True), (-tol * 2, False), (-tol * .5, True)]
            for d, eq in cases:
                oid = P + 'differs rev %s/%s by %g' % (rev, f, d)
                fa = run(rev, {f: d})
                r = reused(fa)
                fs = foreign(fa, h, {f.rstrip('012')})
                if not eq:
                    if not r:
                        ctx.good(oid)
                    elif fs:
                        ctx.maybe(oid, [show(c) if c else None for c in fs][:3])
                    else:
                        ctx.bad(oid, '%s treats tables as the same although %s differs by %g' % (fn, f.upper(), d), anchor(fa))
                else:
                    if r and not latch_reached(fa, h):
                        ctx.good(oid)
                    elif fs:
                        ctx.maybe(oid, [show(c) if c else None for c in fs][:3])
                    elif not r:
                        ctx.bad(oid, '%s treats tables as different although they agree (%s by %g)' % (fn, f.upper(), d), anchor(fa))
                    else:
                        ctx.maybe(oid, 'latch')


class Ends(MG):
    """the walk i has come to the end of the shorter of two arrays"""
    def __init__(self, i, n, c, **k):
        self.i, self.n, self.c = i, n, c
        MG.__init__(self, **k)

    def rel(self, a, b):
        if a == self.i or b == self.i:
            o = strip_ep(b if a == self.i else a)
            if o in (self.n, self.c):
                r = '=' if o == self.c else '<'
                return r if a == self.i or r == '=' else '>'
        return MG.rel(self, a, b)


def elems_used(fa, S):
    """addresses of stations whose attributes are compared"""
    out = set()
    for b in fa.F.rpo:
        if b.name in fa.reach:
            for i in b.insts:
                for t in fa.args.get(id(i), ()):
                    if t is None:
                        continue
                    ts = leaves(fa, base_of(t)) if base_of(t)[0] == 'phi' else [t]
                    for x in ts:
                        x = strip_ep(x)
                        if x[0] == 'gep' and steps_of(x) and steps_of(x)[0][0] == '[' and base_of(x)[0] == 'ld' and last_field(base_of(x)[1]) == (S, 'elem'):
                            out.add(x)
    return out


def shareds(ctx):
    for k in ('array', 'wavelength', 'corr'):
        shared(ctx, k)


# ------------------------------------------------------------------ targets
class TG(MG):
    def __init__(self, usecat=None, newer=None, **k):
        self.usecat, self.newer = usecat, newer
        MG.__init__(self, **k)

    def val(self, t):
        if t[0] == 'ld' and last_field(t[1]) == ('oi_target', 'usecategory') and self.side(t[1]) == 'in':
            return self.usecat
        return MG.val(self, t)

    def rel(self, a, b):
        if self.newer and a[0] == 'ld' and last_field(a[1]) == ('oi_target', 'revision') and self.side(a[1]) == 'in':
            if b[0] == 'c' or b[0] in ('ld', 'mphi', 'phi', 'sel'):
                return self.newer
        return MG.rel(self, a, b)


@guarded
def targets(ctx):
    fn = 'merge_oi_target'
    P = fn + '/'
    out = None
    fas = {}
    for uc in (0, 1):
        fa = ctx.fa(fn, TG(found=0, usecat=uc))
        fas[uc] = fa
        T = fld(arg_of(fa, 1), 'oi_fits', 'targets')
        A = {k: fld(T, 'oi_target', k) for k in ('ntarget', 'targ', 'usecategory', 'revision')}
        cnt = [(i, v) for i, (v, a) in fa.stores() if a == A['ntarget'] and v[0] != 'c']
        tag = P + ('usecategory/' if uc else 'new/')
        if not cnt:
            zero = [i for i, (v, a) in fa.stores() if a == A['ntarget']]
            if zero and not any(reaches(fa, zero[0], j) and last_field(a) == ('oi_target', 'ntarget') for j, (v, a) in fa.stores() if j is not zero[0]):
                ctx.bad(tag + 'counted', '%s never counts a target' % fn, zero[0])
            else:
                ctx.maybe(tag + 'counted', 'form')
            continue
        if len(cnt) > 1:
            ctx.maybe(tag + 'counted', 'form')
            continue
        ic, vc = cnt[0]
        d = delta(fa, ic, vc, A['ntarget'])
        if d != C(1):
            ctx.bad(tag + 'counted', '%s counts %s for a target' % (fn, show(d)), ic) if d[0] == 'c' else ctx.maybe(tag + 'counted', show(vc))
            continue
        must(ctx, tag + 'counted', fa, [ic], '%s does not count every new target' % fn)
        # which input record
        cps = [(i, dd, s, n) for i, dd, s, n in copies(fa) if last_field(s) == ('oi_target', 'targ') or base_of(s)[0] == 'ld' and last_field(base_of(s)[1]) == ('oi_target', 'targ')]
        flds = [(i, v, a) for i, (v, a) in fa.stores() if v[0] == 'ld' and last_field(v[1]) and last_field(v[1])[0] == 'target' and last_field(a) and last_field(a)[0] == 'target']
        if not cps:
            ctx.maybe(tag + 'copied', 'no record copy') if flds else ctx.bad(tag + 'copied', '%s does not copy the target records' % fn, ic)
            continue
        i, dd, s, n = cps[0]
        src = strip_ep(s)
        idx = steps_of(src)[-1][1] if steps_of(src) and steps_of(src)[-1][0] == '[' else C(0)
        rec = base_of(src)
        h = None
        if rec[0] == 'ld' and rec[1][0] == 'gep' and last_field(rec[1]) == ('oi_target', 'targ'):
            h = dataset(base_of(rec[1]))
        if h is None:
            ctx.maybe(tag + 'copied', show(src))
            continue
        whole(ctx, tag + 'datasets', fa, h, '%s skips input datasets' % fn)
        ntar = ('ld', gep(base_of(rec[1]), [('.', 'oi_fits', 'targets'), ('.', 'oi_target', 'ntarget')]))
        r = full_cover(fa, [(i, idx)], ntar)
        if r is True:
            ctx.good(tag + 'every record')
        elif r is False:
            ctx.bad(tag + 'every record', '%s does not go through all target records' % fn, i)
        else:
            ctx.maybe(tag + 'every record', show(idx))
        if n != C(192) and n[0] == 'c':
            ctx.bad(tag + 'copied', '%s copies %s bytes of a target record' % (fn, show(n)), i)
        else:
            must(ctx, tag + 'copied', fa, [i], '%s does not copy every new target' % fn)
        di = steps_of(dd)[-1][1] if steps_of(dd) and steps_of(dd)[-1][0] == '[' else C(0)
        off = ladd(di, vc, -1)
        if off == C(-1):
            ctx.good(tag + 'slot')
        elif off[0] == 'c' or di[0] == 'c' or transparent(strip_ep(di)):
            ctx.bad(tag + 'slot', '%s stores target number %s in slot %s' % (fn, show(vc), show(di)), i)
        else:
            ctx.maybe(tag + 'slot', show(di))
        slot = dd
        ids = [(j, v, a) for j, (v, a) in fa.stores() if last_field(a) == ('target', 'target_id')]
        oid = tag + 'target_id'
        if not ids:
            ctx.bad(oid, '%s keeps the TARGET_ID of the input' % fn, i)
        else:
            j, v, a = ids[0]
            if v == vc and a == gep(slot, [('.', 'target', 'target_id')]) and reaches(fa, i, j, True):
                must(ctx, oid, fa, [j], '%s does not renumber every target' % fn)
            elif a == gep(slot, [('.', 'target', 'target_id')]) and (ladd(v, vc, -1)[0] == 'c' or v[0] == 'c' or transparent(strip_ep(v)) or iters_in(v)):
                ctx.bad(oid, '%s gives target number %s the TARGET_ID %s' % (fn, show(vc), show(v)), j) if v != vc else \
                    ctx.bad(oid, '%s overwrites the new TARGET_ID' % fn, j)
            else:
                ctx.maybe(oid, show(v))
        for j, (v, a) in fa.stores():
            f = last_field(a)
            if base_of(strip_ep(a)) == rec or dataset(base_of(strip_ep(a))) is not None:
                ctx.bad(tag + 'input', '%s changes an input dataset' % fn, j)
            elif f and f[0] == 'target' and f[1] not in ('target_id', 'category') and base_of(a) == base_of(slot) and strip_ep(v)[0] != 'ld':
                ctx.bad(tag + 'kept', '%s changes %s of a target' % (fn, f[1].upper()), j)
        ctx.good(tag + 'kept')
        # name -> number
        oid = tag + 'mapping'
        ins = list(fa.calls('g_hash_table_insert', 'g_hash_table_replace'))
        if not ins:
            ctx.bad(oid, '%s does not remember the new TARGET_ID' % fn, i)
        for j, a in ins:
            kk = strip_ep(a[1])
            vals = [v for x, (v, ad) in fa.stores() if ad == a[2]]
            if last_field(kk) is None or base_of(kk) not in (rec, base_of(strip_ep(slot))):
                ctx.maybe(oid, show(kk))
            elif last_field(kk)[1] != 'target':
                ctx.bad(oid, '%s remembers targets by %s' % (fn, last_field(kk)[1]), j)
            elif base_of(kk) == rec and (steps_of(kk)[0][1] if steps_of(kk)[0][0] == '[' else C(0)) != idx:
                ctx.bad(oid, '%s remembers target %s under the name of target %s' % (fn, show(idx), show(kk)), j)
            elif vals == [vc]:
                must(ctx, oid, fa, [j], '%s does not remember every new target' % fn)
            elif len(vals) == 1 and (ladd(vals[0], vc, -1)[0] == 'c' or vals[0][0] == 'c' or transparent(strip_ep(vals[0])) or iters_in(vals[0])):
                ctx.bad(oid, '%s remembers TARGET_ID %s for target number %s' % (fn, show(vals[0]), show(vc)), j)
            else:
                ctx.maybe(oid, [show(v) for v in vals])
        for j, a in fa.calls('g_hash_table_lookup', 'g_hash_table_contains'):
            kk = strip_ep(a[1])
            oid = tag + 'looked up'
            if base_of(kk) == rec:
                ki = steps_of(kk)[0][1] if steps_of(kk) and steps_of(kk)[0][0] == '[' else C(0)
                ctx.expect(last_field(kk) == ('target', 'target') and ki == idx, oid, '%s looks for target %s under %s' % (fn, show(idx), show(kk)), j)
        # category
        cat = [(j, v) for j, (v, a) in fa.stores() if last_field(a) == ('target', 'category')]
        use = [(j, v) for j, (v, a) in fa.stores() if a == A['usecategory'] and reaches(fa, fa.F.blocks[h].term, j)]
        oid = tag + 'category'
        if uc:
            bad = [j for j, v in cat if v == C(0)]
            if bad and inevitable(fa, bad[0], ()) is None:
                ctx.bad(oid, '%s clears the CATEGORY of a target that has one' % fn, bad[0])
            elif cat:
                ctx.maybe(oid, 'store')
            else:
                ctx.good(oid)
            if not use:
                ctx.bad(oid + ' column', '%s drops the CATEGORY column' % fn, i)
            elif all(v == C(1) for j, v in use):
                must(ctx, oid + ' column', fa, [j for j, v in use], '%s does not keep the CATEGORY column' % fn)
            elif any(v == C(0) for j, v in use):
                ctx.bad(oid + ' column', '%s drops the CATEGORY column' % fn, use[0][0])
            else:
                ctx.maybe(oid + ' column', 'value')
        else:
            if not cat:
                ctx.bad(oid, '%s leaves CATEGORY of a target without category as it was read' % fn, i)
            elif all(v == C(0) for j, v in cat):
                must(ctx, oid, fa, [j for j, v in cat], '%s does not clear CATEGORY' % fn)
            else:
                ctx.maybe(oid, 'value')
            bad = [j for j, v in use if v[0] == 'c' and v != fa.mem_load(state_at(fa, j), A['usecategory'], None)]
            if bad and inevitable(fa, bad[0], ()) is None:
                ctx.bad(oid + ' column', '%s changes the CATEGORY column on account of an input without one' % fn, bad[0])
            elif use:
                ctx.maybe(oid + ' column', 'store')
            else:
                ctx.good(oid + ' column')
    # the column stays once an input had it
    fa = ctx.fa(fn, TG(found=0))
    A = fld(fld(arg_of(fa, 1), 'oi_fits', 'targets'), 'oi_target', 'usecategory')
    for j, (v, a) in fa.stores():
        if a == A and v[0] == 'ld' and last_field(v[1]) == ('oi_target', 'usecategory') and dataset(base_of(strip_ep(v[1]))) is not None:
            cs = [c for n, c in deciding(fa, j)]
            oid = P + 'category column stays'
            if any(c is None or not plain(c, fa) or any(x[0] == 'ld' and last_field(x[1]) == ('oi_target', 'usecategory') for x in subterms(c)) for c in cs):
                ctx.maybe(oid, 'conditions')
            else:
                ctx.bad(oid, '%s keeps the CATEGORY column only if the last input has it' % fn, j)
    # known targets are not repeated
    fa = ctx.fa(fn, TG(found='nz', usecat=1))
    T = fld(arg_of(fa, 1), 'oi_fits', 'targets')
    hot = [i for i, (v, a) in fa.stores() if a == fld(T, 'oi_target', 'ntarget') and v[0] != 'c'] + [i for i, a in fa.calls('g_hash_table_insert', 'g_hash_table_replace')]
    oid = P + 'known target'
    if not hot:
        ctx.good(oid)
    else:
        cs = [c for n, c in deciding(fa, hot[0])]
        if all(c is None or plain(c, fa) for c in cs):
            ctx.bad(oid, '%s adds a target although the output has one of that name' % fn, hot[0])
        else:
            ctx.maybe(oid, 'conditions')
    # revision
    for newer in '<>':
        fa = ctx.fa(fn, TG(found='nz', usecat=1, newer=newer))
        rv = [(i, v) for i, (v, a) in fa.stores() if a == fld(T, 'oi_target', 'revision')]
        hs = [h for h in fa.F.loops if h in fa.reach]
        ini = [(i, v) for i, v in rv if not any(i.bb.name in fa.F.loops[h] for h in hs)]
        upd = [(i, v) for i, v in rv if (i, v) not in ini]
        oid = P + 'revision ' + ('newer' if newer == '>' else 'older')
        if not ini or ini[0][1] != C(2):
            if ini and ini[0][1][0] == 'c':
                ctx.bad(oid, '%s starts from revision %s' % (fn, show(ini[0][1])), ini[0][0])
            else:
                ctx.maybe(oid, 'initial value')
        elif newer == '<':
            new = [x for x in upd if last_field(strip_ep(x[1])[1]) == ('oi_target', 'revision') and dataset(base_of(strip_ep(x[1])[1])) is not None] if all(x[1][0] == 'ld' for x in upd) else None
            if new is None:
                ctx.maybe(oid, 'value')
            elif new and inevitable(fa, new[0][0], ()) is None:
                ctx.bad(oid, '%s lowers the revision' % fn, new[0][0])
            elif new:
                ctx.maybe(oid, 'condition')
            else:
                ctx.good(oid)
        else:
            if not upd:
                if not ini or any(v[0] != 'c' for i, v in ini):
                    ctx.maybe(oid, 'form')
                else:
                    ctx.bad(oid, '%s does not keep the highest revision' % fn, ini[0][0])
            else:
                must(ctx, oid, fa, [i for i, v in upd], '%s does not keep the highest revision' % fn)
    # room for all
    fa = ctx.fa(fn)
    oid = P + 'size'
    al = [(i, a) for i, a in fa.calls('_chkmalloc', 'malloc', 'calloc', 'g_malloc', 'g_malloc0') for j, (v, ad) in fa.stores()
          if ad == fld(T, 'oi_target', 'targ') and v == ('call', i.callee, i.res)]
    if len(al) != 1 or al[0][0].callee == 'calloc':
        ctx.maybe(oid, 'allocation')
    else:
        i, a = al[0]
        c, ts = tolin(a[0])
        ph = [t for t in ts if t[0] == 'phi']
        if len(ph) == 1 and len(ts) == 1:
            k = ts[ph[0]]
            inc, ini = accum(fa, ph[0])
            if inc is None:
                ctx.maybe(oid, 'accumulation')
            else:
                t = strip_ep(inc)
                ok = t[0] == 'ld' and last_field(t[1]) == ('oi_target', 'ntarget') and dataset(base_of(t[1])) is not None
                if k < 192 or c + k * ini < 0:
                    ctx.bad(oid, '%s allocates %d bytes per target' % (fn, k), i)
                elif ok:
                    ctx.good(oid)
                elif t[0] == 'c' or transparent(t):
                    ctx.bad(oid, '%s makes room for %s targets per dataset' % (fn, show(t)), i)
                else:
                    ctx.maybe(oid, show(t))
        elif a[0][0] == 'c' or transparent(strip_ep(a[0])):
            ctx.bad(oid, '%s allocates %s bytes for the targets of all datasets' % (fn, show(strip_ep(a[0]))), i)
        else:
            ctx.maybe(oid, show(a[0]))
    oid = P + 'returned'
    for b in rets(fa):
        r = fa.args.get(id(b.term), (None,))[0]
        if r is not None and r[0] == 'call' and r[1].startswith('g_hash_table_new'):
            ha = fa.args[id(fa.F.defs[r[2]])]
            ok = ha[0] == ('fn', 'g_str_hash') and ha[1] == ('fn', 'g_str_equal')
            ctx.expect(ok or ha[0][0] != 'fn', oid, '%s does not compare target names' % fn, fa.F.defs[r[2]])
        elif r is not None and r[0] in ('null', 'c'):
            ctx.bad(oid, '%s returns %s' % (fn, show(r)), b.term)
        else:
            ctx.maybe(oid, show(r) if r else '?')


def accum(fa, ph):
    """(increment per iteration, initial constant) of an accumulating loop variable"""
    i = fa.F.defs[ph[1]]
    if i.bb.name not in fa.F.loops:
        return None, None
    body = fa.F.loops[i.bb.name]
    inc = ini = None
    for p, o in zip(i.x['preds'], i.ops):
        if (p, i.bb.name) not in fa.exec_edges:
            continue
        v = fa.t(o)
        if v is None:
            return None, None
        if p in body:
            d = ladd(v, ph, -1)
            if ph in set(subterms(d)) or inc not in (None, d):
                return None, None
            inc = d
        else:
            if v[0] != 'c':
                return None, None
            ini = v[1]
    return inc, ini


# ------------------------------------------------------------------ header
REQUIRED = ['origin', 'telescop', 'instrume', 'observer', 'insmode', 'object']
OPTIONAL = ['referenc', 'author', 'prog_id', 'procsoft', 'obstech']


class HD(MG):
    """length of the input keywords, and whether the input value differs from the one in the output"""
    def __init__(self, n=None, differ=None):
        self.n, self.differ = n, differ
        MG.__init__(self)

    def val(self, t):
        if t == ('arg', 0) and self.differ:
            return 'nz'
        if t[0] == 'app' and t[1] == 'strlen':
            f = last_field(t[2][0])
            if f and f[0] == 'oi_header' and self.side(t[2][0]) == 'in' and f[1] not in ('date_obs', 'date', 'content'):
                return self.n
        if t[0] == 'ld':
            f = last_field(t[1])
            if f and f[0] == 'oi_header' and self.side(t[1]) == 'in' and steps_of(t[1])[-1][0] == '.' and f[1] not in ('date_obs', 'date', 'content') \
                    and self.n is not None:
                return 65 if self.n else 0
        if t[0] == 'app' and t[1] in ('strcmp', 'g_strcmp0', 'g_str_equal'):
            fs = [last_field(x) for x in t[2][:2]]
            if all(f and f[0] == 'oi_header' for f in fs) and fs[0] == fs[1] and {self.side(x) for x in t[2][:2]} == {'in', 'out'}:
                if self.differ is not None:
                    return int(not self.differ) if t[1] == 'g_str_equal' else 'nz' if self.differ else 0
        return None


def psub(fa, t, env):
    k = t[0]
    if t in env:
        return env[t]
    if k == 'lin':
        r = C(t[1])
        for x, c in t[2]:
            r = ladd(r, lmul(C(c), psub(fa, x, env)))
        return r
    if k == 'cmp':
        r = fa.evcmp(t[1], psub(fa, t[2], env), psub(fa, t[3], env))
        return r
    if k == 'not':
        return neg(psub(fa, t[1], env))
    if k in ('band', 'bor'):
        xs = [psub(fa, x, env) for x in t[1:]]
        z = C(0) if k == 'band' else C(1)
        if z in xs:
            return z
        xs = [x for x in xs if x != C(1 - z[1])]
        return C(1 - z[1]) if not xs else xs[0] if len(xs) == 1 else (k,) + tuple(xs)
    return t


def trail(fa, start, pred, stays, env, maxlen=6000):
    """follow the flow from block `start`, taking list walks `stays` more times: the blocks passed, or None"""
    out = []
    n, p = start, pred
    env = dict(env)
    while len(out) < maxlen:
        out.append(n)
        b = fa.F.blocks[n]
        upd = {}
        for i in b.insts:
            if i.op == 'phi' and p is not None:
                for q, o in zip(i.x['preds'], i.ops):
                    if q == p:
                        v = fa.t(o)
                        if v is not None:
                            upd[('phi', i.res)] = psub(fa, v, env)
        env.update(upd)
        if b.term.op == 'ret':
            return out
        ss = fa.succs(n)
        if not ss:
            return None
        nx = None
        if len(set(ss)) == 1:
            nx = ss[0]
            c = fa.brval.get(n)
        else:
            c = fa.brval.get(n)
            if c is None or b.term.op != 'condbr':
                return None
            if n in fa.F.loops and any(x[0] == 'liter' and x[2] == n for x in subterms(c)):
                k = stays.get(n, 0)
                inn = [s for s in b.term.x['targets'] if s in fa.F.loops[n]]
                outn = [s for s in b.term.x['targets'] if s not in fa.F.loops[n]]
                if len(inn) != 1 or len(outn) != 1:
                    return None
                if k > 0:
                    stays[n] = k - 1
                    nx = inn[0]
                else:
                    nx = outn[0]
            else:
                live = [s for s in ss if not dead_end(fa, s)]
                if len(live) == 1:
                    nx = live[0]
                else:
                    v = psub(fa, c, env)
                    if v[0] == 'c':
                        nx = b.term.x['targets'][0 if v[1] else 1]
                    else:
                        d = fa.decide_bool(v)
                        if d is None:
                            return None
                        nx = b.term.x['targets'][0 if d else 1]
        if nx in fa.F.loops and n in fa.F.loops[nx]:
            k = ('iter', nx)
            env[k] = ladd(env.get(k, C(0)), C(1))
        elif nx in fa.F.loops:
            env[('iter', nx)] = C(0)
        p, n = n, nx
    return None


@guarded
def header(ctx):
    fn = 'merge_oi_header'
    P = fn + '/'
    base = ctx.fa(fn, stop=['date2mjd', 'mjd2date'])
    out = arg_of(base, 1)

    def key(d):
        f = last_field(d)
        return f[1] if f and f[0] == 'oi_header' and base_of(d) == out else None
    fas = {'none': HD(0), 'same': HD(5, False), 'differ': HD(5, True), 'dropped': HD(0, True), 'short': HD(1, True)}
    fas = {k: ctx.fa(fn, o, stop=['date2mjd', 'mjd2date']) for k, o in fas.items()}

    def kind(fa, k, s):
        if s is None:
            return None
        if s[0] == 'str':
            return s[2].split(b'\0')[0].decode('latin1')
        f = last_field(s)
        if f and f[0] == 'oi_header' and dataset(base_of(strip_ep(s))) is not None:
            return 'copy' if f[1] == k else 'from ' + f[1]
        if f and f[0] == 'oi_header' and base_of(s) == out and f[1] != k:
            return 'from ' + f[1] + ' of the output'
        return None
    W = {}
    for c, fa in fas.items():
        for i, d, s, n in swrites(fa):
            k = key(d)
            if k:
                W.setdefault((c, k), []).append((i, kind(fa, k, s), n))
    for k in REQUIRED + OPTIONAL:
        oid = P + k
        allw = [x for c in fas for x in W.get((c, k), [])]
        if not allw:
            ctx.bad(oid, '%s does not set %s' % (fn, k.upper()), anchor(base)) if not [1 for i, (v, a) in base.stores() if key(a) == k] else ctx.maybe(oid, 'form')
            continue
        bad = [x for x in allw if x[1] is not None and x[1] not in ('copy', 'UNKNOWN', 'MULTIPLE')]
        if bad:
            ctx.bad(oid, '%s sets %s to "%s"' % (fn, k.upper(), bad[0][1]), bad[0][0])
            continue
        short = [x for x in allw if x[2] is not None and x[2][0] == 'c' and x[2][1] != FLEN and x[1] == 'copy']
        if short:
            ctx.bad(oid + ' length', '%s copies at most %s characters of %s' % (fn, show(short[0][2]), k.upper()), short[0][0])
        if any(x[1] is None for x in allw):
            ctx.maybe(oid, 'form')
            continue
        # nobody gives a value
        fa = fas['none']
        ws = W.get(('none', k), [])
        got = {x[1] for x in ws}
        o2 = oid + ' given by none'
        if k in REQUIRED:
            if not ws:
                ctx.bad(o2, '%s leaves %s empty when no input has it' % (fn, k.upper()), anchor(fa))
            elif got == {'UNKNOWN'}:
                must(ctx, o2, fa, [x[0] for x in ws], '%s does not always set %s when no input has it' % (fn, k.upper()))
            else:
                w = [x for x in ws if x[1] != 'UNKNOWN'][0]
                if inevitable(fa, w[0], ()) is None:
                    ctx.bad(o2, '%s sets %s to "%s" when no input has it' % (fn, k.upper(), w[1]), w[0])
                else:
                    ctx.maybe(o2, 'condition')
        else:
            hot = [x for x in ws if inevitable(fa, x[0], ()) is None]
            if hot:
                ctx.bad(o2, '%s sets %s to "%s" when no input has it' % (fn, k.upper(), hot[0][1]), hot[0][0])
            elif ws:
                ctx.maybe(o2, 'condition')
            else:
                ctx.good(o2)
        # an input without it, after one that has it
        fa = fas['dropped']
        o2 = oid + ' missing later'
        hot = [x for x in W.get(('dropped', k), []) if x[1] in ('copy', 'MULTIPLE')]
        if hot:
            cs = [c for n, c in deciding(fa, hot[0][0])]
            if all(c is None or plain(c, fa) for c in cs):
                ctx.bad(o2, '%s takes an empty %s for a value of its own' % (fn, k.upper()), hot[0][0])
            else:
                ctx.maybe(o2, 'condition')
        else:
            ctx.good(o2)
        # the inputs agree with what is there
        fa = fas['same']
        ws = W.get(('same', k), [])
        o2 = oid + ' agreed'
        hot = [x for x in ws if x[1] == 'MULTIPLE']
        if hot:
            cs = [c for n, c in deciding(fa, hot[0][0])]
            ctx.bad(o2, '%s sets %s to "MULTIPLE" although no input has another value' % (fn, k.upper()), hot[0][0]) if all(c is None or plain(c, fa) for c in cs) else ctx.maybe(o2, 'condition')
        else:
            ctx.good(o2)
        # one, two, three inputs with a value of their own
        fa = fas['differ']
        ws = W.get(('differ', k), [])
        for c, m in (('differ', 1), ('differ', 2), ('differ', 3), ('short', 1), ('short', 2)):
            fa = fas[c]
            ws = W.get((c, k), [])
            o2 = oid + ' given by %d' % m + (' as one letter' if c == 'short' else '')
            want = 'copy' if m == 1 else 'MULTIPLE'
            if want not in {x[1] for x in ws}:
                ctx.bad(o2, '%s does not set %s to %s when %d inputs give %s' % (fn, k.upper(), 'the value' if m == 1 else want, m, 'it' if m == 1 else 'different values'), anchor(fa))
                continue
            tr = trail(fa, fa.F.entry, None, {h: m for h in fa.F.loops}, {})
            if tr is None:
                # only the part that concerns this keyword
                hs = [h for x in ws for h in fa.F.loops if x[0].bb.name in fa.F.loops[h]]
                tr = None
                for h in set(hs):
                    pp = [a for a, b in fa.exec_edges if b == h and a not in fa.F.loops[h]]
                    if len(pp) == 1:
                        tr = seg(fa, h, pp[0], m)
            if tr is None:
                ctx.maybe(o2, 'flow not followed')
                continue
            seq = []
            for n in tr:
                for x in ws:
                    if x[0].bb.name == n:
                        seq.append(x)
            seq = [x[1] for x in seq]
            want = 'copy' if m == 1 else 'MULTIPLE'
            if seq and seq[-1] == want and (m != 1 or seq == ['copy']):
                ctx.good(o2)
            elif not seq:
                ctx.bad(o2, '%s leaves %s unset when %d inputs give it' % (fn, k.upper(), m), anchor(fa))
            else:
                ctx.bad(o2, '%s sets %s to %s when %d inputs give %s' % (fn, k.upper(), 'the last value' if seq[-1] == 'copy' else '"%s"' % seq[-1], m, 'it' if m == 1 else 'different values'),
                        [x for x in ws if x[1] == seq[-1]][0][0])
    # fixed keywords
    cw = [(i, s) for i, d, s, n in swrites(base) if key(d) == 'content']
    oid = P + 'content'
    if not cw:
        ctx.bad(oid, '%s does not set CONTENT' % fn, anchor(base))
    elif cw[-1][1] is not None and cw[-1][1][0] == 'str':
        v = cw[-1][1][2].split(b'\0')[0]
        if v != b'OIFITS2':
            ctx.bad(oid, '%s sets CONTENT to %r' % (fn, v.decode('latin1')), cw[-1][0])
        else:
            must(ctx, oid, base, [cw[-1][0]], '%s does not always set CONTENT' % fn)
    else:
        ctx.maybe(oid, 'form')
    dates(ctx, P, fn)


def seg(fa, h, pred, m):
    env = {}
    # values entering the loop
    return trail_until(fa, h, pred, m)


def trail_until(fa, h, pred, m):
    tr = trail(fa, h, pred, {h: m}, {("iter", h): C(0)})
    return tr


class DO(Oracle):
    def __init__(self, r=None):
        self.r = r

    def val(self, t):
        if t[0] == 'call' and 'sscanf' in t[1]:
            return 3
        return None

    def rel(self, a, b):
        if self.r and a[0] == 'call' and a[1] == 'date2mjd' and b[0] in ('phi', 'c'):
            return self.r
        return None


@guarded
def dates(ctx, P, fn):
    """DATE-OBS of the output is the earliest of the inputs"""
    stop = ['date2mjd', 'mjd2date']
    fa = ctx.fa(fn, DO(), stop=stop)
    oid = P + 'date_obs'
    cs = list(fa.calls('mjd2date'))
    if len(cs) != 1 or cs[0][1][0][0] != 'phi':
        ctx.maybe(oid, 'form')
        return
    ph = cs[0][1][0]
    for r in '<>':
        fb = ctx.fa(fn, DO(r), stop=stop)
        ok = None
        seen = set()
        work = [ph[1]]
        lat = []
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            i = fb.F.defs.get(x)
            if i is None or i.op != 'phi':
                continue
            for p, o in zip(i.x['preds'], i.ops):
                if (p, i.bb.name) in fb.exec_edges:
                    v = fb.t(o)
                    if v is not None and v[0] == 'phi':
                        work.append(v[1])
                    elif v is not None:
                        lat.append(v)
                    if o[0] == 'v':
                        work.append(o[1])
        dm = [v for v in lat if v[0] == 'call' and v[1] == 'date2mjd']
        other = [v for v in lat if v not in dm and v[0] != 'c']
        o2 = oid + (' earlier' if r == '<' else ' later')
        if other:
            ctx.maybe(o2, [show(v) for v in other])
        elif r == '<':
            ctx.expect(bool(dm), o2, '%s does not take the earliest DATE-OBS of the inputs' % fn, cs[0][0])
        else:
            ctx.expect(not dm, o2, '%s takes a later DATE-OBS than that of another input' % fn, cs[0][0])
    ini = [v for v in leaves(fa, ph) if v[0] == 'c']
    ctx.expect(not any(0 < v[1] < 88069 for v in ini), oid + ' limit', '%s does not take any DATE-OBS after MJD %s' % (fn, [v[1] for v in ini]), cs[0][0])
    for i, a in fa.calls():
        if i.callee and 'sscanf' in i.callee:
            f = last_field(a[0])
            if f and dataset(base_of(strip_ep(a[0]))) is not None:
                ctx.expect(f == ('oi_header', 'date_obs'), oid + ' source', '%s takes the date from %s' % (fn, f[1]), i)
                whole(ctx, oid + ' datasets', fa, dataset(base_of(strip_ep(a[0]))), '%s ignores input datasets' % fn)
    w = [(i, a) for i, a in fa.calls('g_snprintf', 'snprintf', 'sprintf') if last_field(a[0]) == ('oi_header', 'date_obs')]
    oid += ' form'
    if len(w) == 1:
        i, a = w[0]
        xs = a[3:] if i.callee != 'sprintf' else a[2:]
        fm = a[2] if i.callee != 'sprintf' else a[1]
        ptr = cs[0][1][1:]
        src = [x[1] if x[0] == 'ld' else None for x in xs]
        if fm[0] == 'str' and len(xs) == 3 and all(s is not None for s in src):
            ctx.expect(list(src) == list(ptr), oid, '%s writes year, month and day of DATE-OBS in another order' % fn, i)
        else:
            ctx.maybe(oid, 'form')
    else:
        ctx.maybe(oid, 'form')


def va_offset(fa, i):
    """the load of gp_offset that starts a va_arg on x86-64"""
    a = i.ops[0]
    g = fa.F.defs.get(a[1]) if a[0] == 'v' else None
    return g is not None and g.op == 'gep' and isinstance(g.x['sty'], tuple) and '__va_list_tag' in str(g.x['sty']) and g.ops[-1] == ('i', 0) and len(g.ops) == 3


def fa_path(fa, i, j, avoid):
    """a path from after the block of i to that of j that avoids the blocks"""
    seen = set()
    st = list(fa.succs(i.bb.name))
    while st:
        x = st.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        if x == j.bb.name:
            return True
        st += fa.succs(x)
    return False


# ------------------------------------------------------------------ composition
PARTS = ['merge_oi_header', 'merge_oi_target', 'merge_all_oi_array', 'merge_all_oi_wavelength', 'merge_all_oi_corr', 'merge_all_oi_inspol',
         'merge_all_oi_vis', 'merge_all_oi_vis2', 'merge_all_oi_t3', 'merge_all_oi_flux']
USES = {'merge_all_oi_inspol': ['merge_oi_target', 'merge_all_oi_array', 'merge_all_oi_wavelength']}
for _k in ('vis', 'vis2', 't3', 'flux'):
    USES['merge_all_oi_' + _k] = ['merge_oi_target', 'merge_all_oi_array', 'merge_all_oi_wavelength', 'merge_all_oi_corr']


def foreign_leaf(fa, x, w):
    ls = [strip_ep(y) for y in leaves(fa, x)]
    return any(y != w for y in ls) and all(y == w or y[0] == 'null' or y[0] == 'ld' and base_of(y[1])[0] == 'arg' for y in ls)


@guarded
def compose(ctx):
    fn = 'merge_oi_fits_list'
    P = fn + '/'
    fa = ctx.fa(fn, stop=PARTS + ['init_oi_fits'])
    calls = {f: list(fa.calls(f)) for f in PARTS + ['init_oi_fits']}
    lst, out = arg_of(fa, 0), arg_of(fa, 1)
    ini = calls['init_oi_fits']
    if not ini:
        ctx.bad(P + 'init', '%s does not initialise the output' % fn, anchor(fa))
    else:
        must(ctx, P + 'init', fa, [ini[0][0]], '%s does not always initialise the output' % fn)
        ctx.expect(ini[0][1][0] == out, P + 'init of output', '%s initialises %s' % (fn, show(ini[0][1][0])), ini[0][0])
    for f in PARTS:
        oid = P + f
        cs = calls[f]
        if not cs:
            ctx.bad(oid, '%s does not call %s' % (fn, f), anchor(fa))
            continue
        if len(cs) > 1 and any(reaches(fa, a[0], b[0]) for a in cs for b in cs if a is not b):
            ctx.bad(oid, '%s calls %s twice' % (fn, f), cs[1][0])
            continue
        i, a = cs[0]
        must(ctx, oid, fa, [x[0] for x in cs], '%s does not always call %s' % (fn, f))
        for j, _ in ini:
            if reaches(fa, i, j):
                ctx.bad(P + 'init first', '%s initialises the output after %s' % (fn, f), j)
        want = [lst] + [('call', u, calls[u][0][0].res) if calls[u] else None for u in USES.get(f, [])] + [out]
        for k, (x, w) in enumerate(zip(a, want)):
            if w is None:
                continue
            if x == w:
                ctx.good(oid + ' arg %d' % k)
            elif x[0] in ('call', 'arg', 'null') or x[0] in ('phi', 'sel', 'ld') and foreign_leaf(fa, x, w):
                ctx.bad(oid + ' arg %d' % k, '%s passes %s to %s instead of %s' % (fn, show(x), f, show(w)), i)
            else:
                ctx.maybe(oid + ' arg %d' % k, show(x))
    # mappings live until last used
    for i, a in list(fa.calls('g_hash_table_destroy', 'g_hash_table_unref', 'g_list_free', 'g_list_free_full', 'free_oi_fits')):
        roots = {x for x in subterms(a[0]) if x[0] == 'call' and x[1] in PARTS}
        late = [j for f in PARTS for j, b in calls[f] if reaches(fa, i, j) and any(x in roots for x in b)]
        oid = P + 'released last'
        if late:
            ctx.bad(oid, '%s uses a mapping after releasing it' % fn, late[0])
        else:
            ctx.good(oid)
    # variadic front end
    fn = 'merge_oi_fits'
    P = fn + '/'
    fa = ctx.fa(fn, stop=['merge_oi_fits_list'])
    cs = list(fa.calls('merge_oi_fits_list'))
    if not cs:
        ctx.bad(P + 'call', '%s does not merge' % fn, anchor(fa))
        return
    i, a = cs[0]
    must(ctx, P + 'call', fa, [x[0] for x in cs], '%s does not always merge' % fn)
    ctx.expect(a[1] == arg_of(fa, 0) or a[1][0] == 'phi', P + 'output', '%s writes to %s' % (fn, show(a[1])), i)
    es, ok = list_sources(fa, i.ops[0])
    if not ok:
        ctx.maybe(P + 'inputs', 'list')
        return
    for k in (1, 2):
        mine = [j for j, t in es if t == arg_of(fa, k)]
        oid = P + 'input %d' % k
        if not mine:
            ctx.bad(oid, '%s leaves out its input %d' % (fn, k), i)
        else:
            must(ctx, oid, fa, mine, '%s does not always include its input %d' % (fn, k))
    extra = [(j, t) for j, t in es if t[0] not in ('arg',)]
    oid = P + 'further inputs'
    if not extra:
        ctx.bad(oid, '%s ignores its further arguments' % fn, i)
    else:
        must(ctx, oid, fa, [j for j, t in extra], '%s does not include every further argument' % fn)
    oid = P + 'order'
    where = {k: [j for j, t in es if t == arg_of(fa, k)] for k in (1, 2)}
    where[3] = [j for j, t in extra]
    rev = list(fa.calls('g_list_reverse'))
    if all(len(v) == 1 for v in where.values()) and not rev:
        seq = [where[k][0] for k in (1, 2, 3)]
        ok = None
        if all(j.callee == 'g_list_append' for j in seq):
            ok = all(reaches(fa, a, b) and not reaches(fa, b, a) for a, b in zip(seq, seq[1:]))
        else:
            for a in seq:
                for b in seq:
                    if a is not b and a.callee == 'g_list_append' and b.callee == 'g_list_prepend' and reaches(fa, a, b) and seq.index(b) > seq.index(a):
                        ok = False
            if seq[2].callee == 'g_list_prepend':
                ok = False
        if ok:
            ctx.good(oid)
        elif ok is False:
            ctx.bad(oid, '%s does not keep the order of its inputs' % fn, seq[2])
        else:
            ctx.maybe(oid, 'form')
    else:
        ctx.maybe(oid, 'form')
    # every argument fetched is used
    oid = P + 'every argument'
    fetch = [j for b in fa.F.rpo if b.name in fa.reach for j in b.insts if j.op == 'load' and va_offset(fa, j)]
    put = {j.bb.name for j, t in extra}
    lost = [f for f in fetch if any(fa_path(fa, f, g, put) for g in fetch)]
    if not fetch:
        ctx.maybe(oid, 'va_arg not recognised')
    elif lost:
        ctx.bad(oid, '%s skips an argument' % fn, lost[0])
    else:
        ctx.good(oid)
    fr = [j for j, b in fa.calls('g_list_free') if reaches(fa, j, i)]
    ctx.expect(not fr, P + 'list alive', '%s releases the list before merging it' % fn, fr[0] if fr else None)


def merge(ctx):
    datas(ctx)
    shareds(ctx)
    targets(ctx)
    header(ctx)
    compose(ctx)
