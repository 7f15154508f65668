"""Lookups (C18): oi_fits_lookup_*."""
from engine.lib import *
from .schema import full_cover
from .merge import anchor
from .query import retleaves, allplain

TABLES = {'oi_fits_lookup_array': ('arrayHash', 'OI_ARRAY', 'ARRNAME'), 'oi_fits_lookup_wavelength': ('wavelengthHash', 'OI_WAVELENGTH', 'INSNAME'),
          'oi_fits_lookup_corr': ('corrHash', 'OI_CORR', 'CORRNAME')}
CMPS = ('strcmp', 'g_strcmp0', 'g_str_equal', 'strncmp', 'memcmp', 'strcasecmp', 'g_ascii_strcasecmp', 'strncasecmp', 'g_ascii_strncasecmp', 'g_ascii_strncasecmp')


def gindex(a, b):
    """b - a for two pointers into one array"""
    if base_of(a) != base_of(b) or b[0] != 'gep' and a[0] != 'gep':
        return None
    sa, sb = list(steps_of(a)), list(steps_of(b))
    n = max(len(sa), len(sb))
    for x in (sa, sb):
        if len(x) == n - 1:
            x.append(('[', C(0), 'p'))
    if not n or len(sa) != n or len(sb) != n or sa[:-1] != sb[:-1] or sa[-1][0] != '[' or sb[-1][0] != '[':
        return None
    return ladd(sb[-1][1], sa[-1][1], -1)


def pointers(ctx, fn):
    return {k for k, p in enumerate(ctx.fa(fn).F.params) if p[1].startswith('ptr')}


def clear(t):
    """made of inputs, what was found in an index, and loop counters"""
    return all(x[0] not in OPAQUE and (x[0] != 'app' or x[1] in ('g_hash_table_lookup', 'strlen')) for x in subterms(t))


class LO(Oracle):
    """every entry matches the wanted key ('eq'), none does ('below', 'above': its number is smaller / larger), or an entry differs from it only in
    case ('case'), or it begins like it ('prefix'); the table is known or not"""
    def __init__(self, field, m=None, known='nz', width=17, cnt=None, ptrs=()):
        self.field, self.m, self.known, self.width, self.cnt, self.ptrs = field, m, known, width, cnt, ptrs
        self.hits = []

    def begin(self):
        self.hits = []

    def val(self, t):
        if t[0] == 'app' and t[1] in ('g_hash_table_lookup', 'g_hash_table_contains', 'g_hash_table_lookup_extended'):
            return self.known
        if t[0] == 'arg':
            return 'nz' if t[1] in self.ptrs else None
        if t[0] == 'app' and t[1] == 'g_str_has_prefix' and self.m and last_field(t[2][0]) == self.field:
            self.hits.append((strip_ep(t[2][0]), strip_ep(t[2][1])))
            return int(self.m in ('eq', 'prefix'))
        if t[0] == 'app' and t[1] in CMPS and self.m:
            fs = [last_field(x) for x in t[2][:2]]
            if self.field in fs and fs[0] != fs[1]:
                x = t[2][fs.index(self.field)]
                if steps_of(x)[-1][0] == '.':
                    self.hits.append((strip_ep(x), strip_ep(t[2][1 - fs.index(self.field)])))
                    if t[1] == 'g_str_equal':
                        return int(self.m == 'eq')
                    if self.m == 'eq' or self.m == 'case' and 'case' in t[1]:
                        return 0
                    if t[1] in ('strncmp', 'memcmp') or 'ncase' in t[1]:
                        n = t[2][2]
                        if n[0] != 'c':
                            return None
                        if self.m == 'prefix':
                            return 0 if n[1] < self.width - 1 else 'nz'
                    return 'nz'
        return None

    def rel(self, a, b):
        if self.cnt:
            d = ladd(strip_ep(gindex(a, b)), C(0)) if gindex(a, b) is not None else None
            if d is not None and d[0] == 'ld' and last_field(d[1]) and last_field(d[1])[1] == self.cnt:
                return '<'
        if self.cnt and a[0] == 'ld' and last_field(a[1]) and last_field(a[1])[1] == self.cnt and b[0] == 'c':
            return '>' if b[1] <= 0 else {'<', '=', '>'} if b[1] > 1 else {'=', '>'}
        if self.m and a[0] == 'ld' and last_field(a[1]) == self.field and b[0] in ('arg', 'lin', 'op'):
            if b[0] != 'arg':
                return None
            self.hits.append((strip_ep(a[1]), b))
            return '=' if self.m == 'eq' else '<' if self.m == 'below' else '>'
        return None


@guarded
def hashed(ctx, fn):
    h, tab, key = TABLES[fn]
    fa = ctx.fa(fn)
    me, k = arg_of(fa, 0), arg_of(fa, 1)
    ls = retleaves(fa)
    if not ls:
        ctx.maybe(fn, 'no result')
    for x in ls:
        oid = fn + '/result'
        if x[0] == 'app' and x[1] == 'g_hash_table_lookup':
            t, kk = strip_ep(x[2][0]), strip_ep(x[2][1])
            w = ('ld', gep(me, [('.', 'oi_fits', h)]))
            if t == w and kk == k:
                ctx.good(oid)
            elif t != w and t[0] == 'ld' and base_of(t[1]) == me:
                ctx.bad(oid, '%s looks in %s instead of %s' % (fn, last_field(t[1])[1], h), anchor(fa))
            elif t == w and (kk[0] in ('str', 'arg', 'null') or kk[0] == 'gep' and base_of(kk) in (me, k)):
                ctx.bad(oid, '%s looks for %s instead of the %s given' % (fn, show(kk), key), anchor(fa))
            else:
                ctx.maybe(oid, show(x))
        elif x[0] == 'null' or x == C(0):
            # only when there is nothing to look in or for
            cs = [c for n, c in open_conds(fa)]
            allowed = all(c is None or any(y in (k, ('ld', gep(me, [('.', 'oi_fits', h)])), me) or y[0] == 'app' and y[1] in ('g_hash_table_lookup', 'g_hash_table_contains', 'g_hash_table_lookup_extended')
                                           for y in map(strip_ep, subterms(c))) for c in cs)
            if cs and allowed:
                ctx.good(oid + ' none')
            elif not cs or allplain(fa):
                ctx.bad(oid + ' none', '%s gives NULL for a name that is known' % fn, anchor(fa))
            else:
                ctx.maybe(oid + ' none', 'conditions')
        elif x[0] in ('c', 'arg', 'alloca', 'str'):
            ctx.bad(oid, '%s returns %s' % (fn, show(x)), anchor(fa))
        else:
            ctx.maybe(oid, show(x))


@guarded
def unknown(ctx, fn):
    fa = ctx.fa(fn, LO(None, known=0, ptrs=pointers(ctx, fn)))
    ls = retleaves(fa)
    oid = fn + '/unknown name'
    rest = [x for x in ls if x not in (('null',), C(0)) and not (x[0] == 'app' and x[1] == 'g_hash_table_lookup')]
    if ls and not rest:
        ctx.good(oid)
    elif rest and all(transparent(strip_ep(x)) for x in rest) and all(clear(c) for n, c in open_conds(fa) if c is not None):
        ctx.bad(oid, '%s returns %s for a name that is not known' % (fn, show(rest[0])), anchor(fa))
    else:
        ctx.maybe(oid, [show(x) for x in ls])


def lastval(fa, t, h):
    """values a loop-carried variable has after one iteration"""
    i = fa.F.defs[t[1]]
    return {strip_ep(fa.t(o)) for p, o in zip(i.x['preds'], i.ops) if (p, h) in fa.exec_edges and p in fa.F.loops[h]}


def search(ctx, fn, what, field, arr, cnt, key, misses, owner, known='nz', width=17):
    """the first entry of owner->arr (owner->cnt of them) whose field equals argument `key`"""
    oid = fn + '/'
    f = dict(field=field, known=known, width=width, ptrs=pointers(ctx, fn))
    om = LO(m=misses[0], **f)
    ne = ctx.fa(fn, om)
    hits = set(om.hits)
    keyarg = arg_of(ne, key)
    if not hits:
        # another attribute, or none, is compared
        other = [c for n, c in open_conds(ne) if c is not None and any(x[0] == 'ld' and last_field(x[1]) and last_field(x[1])[0] == field[0] for x in subterms(c))]
        if other and all(x[0] != 'phi' for c in other for x in subterms(c)):
            ctx.bad(oid + 'key', '%s compares %s' % (fn, show(other[0])), anchor(ne))
        else:
            ctx.maybe(oid + 'key', 'comparison not recognised')
        return
    for a, k in hits:
        ctx.expect(k == keyarg, oid + 'key', '%s compares %s with %s' % (fn, show(a), show(k)), anchor(ne)) if k[0] in ('arg', 'str') else ctx.maybe(oid + 'key', show(k))
    if len(hits) != 1:
        ctx.maybe(oid + 'match', 'several comparisons')
        return
    a = next(iter(hits))[0]
    its = iters_in(a)
    hs = [h for h in ne.F.loops if h in its]
    if len(hs) != 1:
        if not its and all(x[0] not in ('phi', 'mphi', 'liter', 'iter', 'call') for x in subterms(a)):
            ctx.bad(oid + 'match', '%s looks at one %s only' % (fn, what), anchor(ne))
        else:
            ctx.maybe(oid + 'match', show(a))
        return
    h = hs[0]
    idx = [s[1] for s in steps_of(a) if s[0] == '[']
    first = strip_ep(gep(base_of(a), [('[', C(0), x[2]) if x[0] == '[' else x for x in list(steps_of(a))[:-1]]))
    up = len(idx) == 1 and strip_ep(idx[0]) == ('iter', h)
    want = strip_ep(gep(base_of(a), list(steps_of(a))[:-1]))
    # every entry matches: the first is returned
    eq = ctx.fa(fn, LO(m='eq', cnt=cnt, **f))
    ls = retleaves(eq)
    other = [x for x in ls if strip_ep(x) != first]
    if ls and not other:
        ctx.good(oid + 'match')
        if up:
            ctx.good(oid + 'first')
        else:
            ctx.maybe(oid + 'first', show(a))
    elif other and up and all(x[0] == 'phi' and x[1] in eq.F.defs and eq.F.defs[x[1]].bb.name == h for x in other) and not [x for x in loop_exits(eq, h) if not x[2]] \
            and all(lastval(eq, x, h) == {want} for x in other):
        ctx.bad(oid + 'first', '%s does not return the first match' % fn, eq.F.blocks[h].term)
    elif other and all(clear(c) for n, c in open_conds(eq) if c is not None) and all(clear(strip_ep(x)) for x in ls):
        if any(x[0] != 'null' and x != C(0) and base_of(strip_ep(x)) == base_of(a) and len(steps_of(strip_ep(x))) == 1 for x in other):
            if latch_reached(eq, h) or not up:
                ctx.bad(oid + 'first', '%s does not return the first match' % fn, eq.F.blocks[h].term)
            else:
                ctx.bad(oid + 'match', '%s returns %s instead of the matching %s' % (fn, show(other[0]), what), anchor(eq))
        else:
            ctx.bad(oid + 'match', '%s returns %s instead of the matching %s' % (fn, show(other[0]), what), anchor(eq))
    else:
        ctx.maybe(oid + 'match', [show(x) for x in ls])
    # owner
    if owner is not None:
        b = base_of(a)
        w = owner(ne, arr)
        b = strip_ep(b)
        if b == w:
            ctx.good(oid + 'searched')
        elif b[0] == 'ld' and transparent(b):
            ctx.bad(oid + 'searched', '%s searches %s' % (fn, show(b)), anchor(ne))
        else:
            ctx.maybe(oid + 'searched', show(b))
    # no match: NULL, after all of them
    for m in misses:
        on = LO(m=m, **f)
        ne = ctx.fa(fn, on)
        name = {'below': ' (smaller)', 'above': ' (larger)', 'ne': '', 'case': ' (other case)', 'prefix': ' (same beginning)'}[m]
        ls = retleaves(ne)
        o2 = oid + 'no match' + name
        if ls and all(x in (('null',), C(0)) for x in ls):
            ctx.good(o2)
        elif any(strip_ep(x) == want for x in ls) or any(x[0] not in ('null',) and transparent(strip_ep(x)) and x[0] != 'c' for x in ls):
            if allplain(ne):
                ctx.bad(o2, '%s returns a %s that does not match%s' % (fn, what, name), anchor(ne))
            else:
                ctx.maybe(o2, 'conditions')
        else:
            ctx.maybe(o2, [show(x) for x in ls])
        o2 = oid + 'all' + name
        if h not in ne.reach:
            ctx.maybe(o2, 'loop')
            continue
        n = ('ld', gep(base_of(base_of(a)[1]), list(steps_of(base_of(a)[1]))[:-1] + [('.', list(steps_of(base_of(a)[1]))[-1][1], cnt)])) if base_of(a)[0] == 'ld' else None
        idx = [x[1] for x in steps_of(a) if x[0] == '[']
        early = [(x, c) for x, c, ex in loop_exits(ne, h) if not ex]
        if early:
            if all(c is None or transparent(strip_ep(c)) or all(y[0] != 'phi' for y in subterms(c)) for x, c in early):
                ctx.bad(o2, '%s stops before the last %s' % (fn, what), ne.F.blocks[early[0][0]].term)
            else:
                ctx.maybe(o2, 'early end')
            continue
        r = full_cover(ne, [(None, strip_ep(idx[0]))], strip_ep(n)) if n is not None and idx else None
        if r is True:
            ctx.good(o2)
        elif r is False:
            ctx.bad(o2, '%s does not look at every %s' % (fn, what), ne.F.blocks[h].term)
        else:
            ctx.maybe(o2, 'coverage')


@guarded
def element(ctx):
    fn = 'oi_fits_lookup_element'

    def owner(fa, arr):
        me, k = arg_of(fa, 0), arg_of(fa, 1)
        t = ('app', 'g_hash_table_lookup', (('ld', gep(me, [('.', 'oi_fits', 'arrayHash')])), k))
        return ('ld', gep(t, [('.', 'oi_array', 'elem')]))
    search(ctx, fn, 'station', ('element', 'sta_index'), 'elem', 'nelement', 2, ('below', 'above'), owner)
    fa = ctx.fa(fn, LO(('element', 'sta_index'), known=0, ptrs=pointers(ctx, fn)))
    ls = retleaves(fa)
    oid = fn + '/no array'
    if ls and all(x in (('null',), C(0)) for x in ls):
        ctx.good(oid)
    elif allplain(fa):
        ctx.bad(oid, '%s returns %s when there is no such array' % (fn, show([x for x in ls if x != ('null',)][0]) if ls else 'nothing'), anchor(fa))
    else:
        ctx.maybe(oid, [show(x) for x in ls])
    hot = [i for b in fa.F.rpo if b.name in fa.reach for i in b.insts if i.op == 'load' and id(i) in fa.args
           and base_of(fa.args[id(i)][0])[0] in ('app', 'null') and steps_of(fa.args[id(i)][0])]
    ctx.expect(not hot, oid + ' not accessed', '%s accesses an array that was not found' % fn, hot[0] if hot else None)


@guarded
def target(ctx, fn, field, misses):
    def owner(fa, arr):
        return ('ld', gep(arg_of(fa, 0), [('.', 'oi_fits', 'targets'), ('.', 'oi_target', 'targ')]))
    search(ctx, fn, 'target', field, 'targ', 'ntarget', 1, misses, owner)


def lookups(ctx):
    for fn in TABLES:
        hashed(ctx, fn)
        unknown(ctx, fn)
    element(ctx)
    target(ctx, 'oi_fits_lookup_target', ('target', 'target_id'), ('below', 'above'))
    target(ctx, 'oi_fits_lookup_target_by_name', ('target', 'target'), ('ne', 'case', 'prefix'))
