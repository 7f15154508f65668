"""What library operations modify (C11): inputs stay as they are, outputs share no storage with them."""
from engine.lib import *
from .files import leaves
from .merge import anchor

TABLES = ('oi_fits', 'oi_header', 'oi_array', '_array', 'oi_target', '_target', 'oi_wavelength', 'oi_corr', 'oi_inspol', 'oi_vis', 'oi_vis2', 'oi_t3', 'oi_flux',
          'element', 'target', 'oi_inspol_record', 'oi_vis_record', 'oi_vis2_record', 'oi_t3_record', 'oi_flux_record')
MEMCPY = ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
# external functions that modify what the argument points to
DEST = {k: (0,) for k in MEMCPY + ('memset', 'llvm.memset.p0.i64', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strlcpy', 'stpcpy', 'snprintf', 'sprintf',
        'g_snprintf', 'g_strlcpy', 'g_strlcat', 'g_stpcpy', 'g_strchomp', 'g_strchug', 'g_strreverse', 'g_strdelimit', 'g_strcanon', 'g_ascii_strdown_inplace',
        'strtok', 'free', 'g_free', 'realloc', '_chkrealloc', 'g_realloc', 'qsort', 'g_qsort_with_data',
        'g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_sorted', 'g_list_insert_before', 'g_list_remove', 'g_list_remove_all',
        'g_list_remove_link', 'g_list_delete_link', 'g_list_reverse', 'g_list_sort', 'g_list_sort_with_data', 'g_list_free', 'g_list_free_full',
        'g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add', 'g_hash_table_remove', 'g_hash_table_steal', 'g_hash_table_destroy',
        'g_hash_table_unref', 'g_hash_table_remove_all', 'g_hash_table_steal_all', 'swab', 'strsep')}
DEST['g_list_concat'] = (0, 1)
DEST['g_clear_pointer'] = (0,)
SAMELIST = ('g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_sorted', 'g_list_reverse', 'g_list_sort', 'g_list_concat', 'g_list_remove',
            'g_list_delete_link', 'g_list_first', 'g_list_last', 'g_list_nth', 'g_list_find', 'g_list_find_custom', 'g_list_nth_data', 'strchr', 'strstr', 'strrchr',
            'g_list_remove_link', 'g_strchomp', 'g_strchug')
HASHPUT = ('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add')
LISTPUT = ('g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_sorted')


class EO(Oracle):
    """pointers handed in and allocations are non-null"""
    def __init__(self, null=()):
        self.null = null

    def val(self, t):
        if t[0] == 'arg':
            return 0 if t[1] in self.null else None
        if t[0] == 'call' and t[1] in ALLOCS:
            return 'nz'
        return None


class Origin:
    """what the memory a pointer designates belongs to:
    ('arg', k) the object passed as argument k itself; ('in', k) anything reachable from it; 'fresh', 'local', 'glob', 'null', '?'"""
    def __init__(self, fa):
        self.fa = fa
        self.memo = {}
        self.cells = {}
        for i, (v, a) in fa.stores():
            if i.ops and i.ops[0] is not None:
                self.cells.setdefault(strip_ep(a), []).append((i, v))

    def of(self, t, busy=frozenset()):
        k = t
        if k in self.memo:
            return self.memo[k]
        if k in busy:
            return set()
        r = self._of(t, busy | {k})
        if not busy:
            self.memo[k] = r
        return r

    def _of(self, t, busy):
        fa = self.fa
        k = t[0]
        if k == 'arg':
            return {('arg', t[1])}
        if k in ('null', 'c'):
            return {'null'}
        if k == 'gep':
            return self.of(t[1], busy)
        if k == 'alloca':
            return {'local'}
        if k in ('glob', 'str', 'fn'):
            return {'glob'}
        if k == 'liter':
            return {self.deeper(x) for x in self.of(t[1], busy)}
        if k in ('ld', 'mphi'):
            a = t[1] if k == 'ld' else t[2]
            out = {self.deeper(x) for x in self.of(a, busy)}
            if k == 'mphi' or out & {'?'}:
                for i, v in self.cells.get(strip_ep(a), ()):
                    out |= self.of(v, busy)
                if k == 'mphi' and out - {'?'}:
                    out -= {'?'}
            return out
        if k == 'phi':
            out = set()
            for x in leaves(fa, t):
                if x != t:
                    out |= self.of(x, busy)
            return out or {'?'}
        if k == 'sel':
            return set().union(*[self.of(x, busy) for x in t[2:] if isinstance(x, tuple)])
        if k == 'call':
            i = fa.F.defs.get(t[2])
            if t[1] in SAMELIST and i is not None and id(i) in fa.args:
                out = set()
                for n, x in enumerate(fa.args[id(i)]):
                    if n == 0 or t[1] == 'g_list_concat':
                        out |= self.of(x, busy)
                return {x for x in out if x != 'null'} or {'fresh'}
            if t[1] in ALLOCS or t[1] in ('g_hash_table_new', 'g_hash_table_new_full', 'g_list_copy', 'g_list_alloc', 'g_string_new', 'g_string_sized_new'):
                return {'fresh'}
            return {'?'}
        if k == 'app':
            if t[1] == 'g_hash_table_lookup':
                return {self.deeper(x) for x in self.of(t[2][0], busy)}
            if t[1] in SAMELIST:
                return self.of(t[2][0], busy)
        return {'?'}

    @staticmethod
    def deeper(x):
        if isinstance(x, tuple):
            return ('in', x[1])
        return '?' if x in ('fresh', 'local', 'null') else x

    def hit(self, t, ks, direct=True):
        """argument among ks the pointer leads into, or None"""
        for x in self.of(t):
            if isinstance(x, tuple) and x[1] in ks and (direct or x[0] == 'in'):
                return x[1]
        return None


def name_of(ctx, fa, k):
    return fa.F.params[k][0].split('.')[-1]


def what(a):
    f = last_field(a)
    if f:
        return '%s.%s' % f
    return show(strip_ep(a))


def writes(fa):
    """[(inst, pointer written through)]"""
    for i, (v, a) in fa.stores():
        yield i, a, None
    for i, a in fa.calls():
        f = i.callee
        ks = DEST.get(f)
        if ks is None:
            ks = FAM.WRITES.get(f, ())
        for k in ks:
            if k < len(a) and a[k][0] not in ('null', 'c'):
                yield i, a[k], f


# function: (arguments that are inputs, with the struct itself unless passed by value / modified by design, output argument)
OPS = [
    ('apply_oi_filter', {0: True, 1: True}, 2),
    ('apply_user_oi_filter', {0: True}, 1),
    ('merge_oi_fits_list', {0: True}, 1),
    ('merge_oi_fits', {1: True, 2: True}, 0),
    ('write_oi_fits', {1: False}, None),
] + [('write_oi_' + k, {1: False}, None) for k in ('header', 'target', 'array', 'wavelength', 'corr', 'inspol', 'vis', 'vis2', 't3', 'flux')] + \
    [('dup_oi_' + k, {0: True}, None) for k in ('target', 'array', 'wavelength', 'corr', 'inspol', 'vis', 'vis2', 't3', 'flux')] + \
    [('check_' + k, {0: True}, None) for k in ('tables', 'header', 'keywords', 'visrefmap', 'unique_targets', 'targets_present', 'arrname', 'elements_present',
                                               'corr_present', 'flagging', 't3amp', 'waveorder', 'time', 'flux')] + \
    [('oi_%s_iter_init' % k, {1: True, 2: True}, None) for k in ('vis', 'vis2', 't3')] + \
    [('oi_%s_iter_next' % k, {0: False}, None) for k in ('vis', 'vis2', 't3')] + \
    [('oi_%s_iter_get_uv' % k, {0: True}, None) for k in ('vis', 'vis2', 't3')] + \
    [(k, {0: True}, None) for k in ('is_oi_fits_one', 'is_oi_fits_two', 'is_atomic', 'count_oi_fits_data', 'oi_fits_lookup_array', 'oi_fits_lookup_element',
                                    'oi_fits_lookup_wavelength', 'oi_fits_lookup_corr', 'oi_fits_lookup_target', 'oi_fits_lookup_target_by_name',
                                    'format_oi_fits_summary', 'print_oi_fits_summary', 'format_oi_filter', 'print_oi_filter')]


@guarded
def untouched(ctx, fn, ins, fa, O, rng=None):
    n = 0
    for i, a, f in writes(fa):
        n += 1
        for k, direct in ins.items():
            h = O.hit(a, {k}, direct)
            if h is None:
                continue
            lf = last_field(a)
            if lf and lf[1].endswith('_pttn'):
                continue
            ctx.bad('%s/%s' % (fn, name_of(ctx, fa, k)), '%s modifies its input %s: %s%s' % (
                fn, name_of(ctx, fa, k), (f + ' of ') if f else 'store to ', what(a)), i)
    ctx.count('writes_classified', n)
    for k in ins:
        ctx.good('%s/%s' % (fn, name_of(ctx, fa, k)))


def ispointer(i):
    return i.op == 'store' and i.x.get('vty', None) == 'ptr'


@guarded
def separate(ctx, fn, ins, out, fa, O):
    """the output holds no pointer into the inputs"""
    ks = set(ins)
    pub = set()
    for i, (v, a) in fa.stores():
        if O.hit(a, {out}) is not None:
            for x in leaves(fa, v):
                pub.add(strip_ep(x))

    def of_out(t):
        return O.hit(t, {out}) is not None or any(strip_ep(x) in pub for x in leaves(fa, t) if x[0] == 'call')
    n = 0
    for i, (v, a) in fa.stores():
        lf = last_field(a)
        if not lf or lf[0] not in TABLES or v[0] in ('null', 'c') or 'local' in O.of(a):
            continue
        if O.hit(a, ks) is not None:
            continue
        ty = dict((f, t) for f, t, c in ctx.prog().struct_fields(lf[0])).get(lf[1])
        if ty != 'ptr':
            continue
        n += 1
        oid = '%s/%s.%s' % (fn, lf[0], lf[1])
        h = O.hit(v, ks)
        if h is not None and lf[1].endswith('List') and v[0] == 'call':
            h = None
        ctx.expect(h is None, oid, '%s makes %s.%s of the output point into its input %s' % (fn, lf[0], lf[1], name_of(ctx, fa, h) if h is not None else ''), i)
    for i, a in fa.calls(*HASHPUT):
        if not of_out(a[0]):
            continue
        n += 1
        for q, w in zip(a[1:3], ('key', 'entry')):
            h = O.hit(q, ks)
            ctx.expect(h is None, '%s/index %s %d' % (fn, w, n), '%s puts into an index of the output a%s %s that belongs to its input %s (%s)' % (
                fn, 'n' if w == 'entry' else '', w, name_of(ctx, fa, h) if h is not None else '', what(q)), i)
    for i, a in fa.calls(*LISTPUT):
        if not of_out(a[0]) and strip_ep(('call', i.callee, i.res)) not in pub:
            continue
        n += 1
        h = O.hit(a[1], ks)
        ctx.expect(h is None, '%s/list member %d' % (fn, n), '%s puts a table of its input %s into a list of the output' % (fn, name_of(ctx, fa, h) if h is not None else ''), i)
    # structures copied as a whole from the input must have their pointers replaced
    from .memory import reaches
    for i, a in fa.calls(*MEMCPY):
        d, s = a[0], a[1]
        if O.hit(s, ks) is None or O.hit(d, ks) is not None or 'local' in O.of(d):
            continue
        st = struct_at(ctx, fa, s)
        if st is None:
            continue
        n += 1
        for f, ty, ct in ctx.prog().struct_fields(st):
            if ty != 'ptr':
                continue
            later = [j for j, (v, b) in fa.stores() if last_field(b) == (st, f) and O.hit(b, ks) is None and O.hit(v, ks) is None
                     and (i.bb is j.bb and i.idx < j.idx or reaches(fa, i, j))]
            ctx.expect(bool(later), '%s/copy %d %s' % (fn, n, f), '%s copies %s from its input %s and leaves %s pointing into it' % (
                fn, st, name_of(ctx, fa, O.hit(s, ks)), f), i)
    ctx.count('transfers_classified', n)


def struct_at(ctx, fa, s):
    """table or record structure a copied block consists of, from the type of the member it is reached through"""
    t = strip_ep(s)
    lf = None
    x = t
    m = x
    if m[0] == 'ld' and load_field(m) == ('_GList', 'data'):
        m = base_of(m[1])
    while m[0] in ('liter', 'mphi'):
        m = m[1] if m[0] == 'liter' else m[2]
    f = load_field(m) if m[0] == 'ld' else last_field(m) if m[0] == 'gep' else None
    if f and f[1].endswith('List'):
        b = 'oi_' + f[1][:-4]
        if b in TABLES:
            return b
    while x[0] == 'gep' and x[2] and x[2][-1][0] == '[':
        x = gep(x[1], x[2][:-1]) if len(x[2]) > 1 else x[1]
    if x[0] == 'gep':
        lf = last_field(x)
    elif x[0] == 'ld':
        lf = load_field(x)
    if lf:
        ct = ctx.prog().ctype(*lf) or ''
        b = ct.replace('*', '').replace('struct ', '').strip()
        if b in TABLES:
            return b
    return None


def effects(ctx):
    for fn, ins, out in OPS:
        fa = ctx.fa(fn, EO())
        O = Origin(fa)
        untouched(ctx, fn, ins, fa, O)
        if out is not None:
            separate(ctx, fn, ins, out, fa, O)
