"""What read_oi_fits collects, what write_oi_fits writes, init_oi_fits (C10)."""
from engine.lib import *
from engine.ts import *
from .status import NEXT, LISTS, STRICT, RSTOP, WSTOP, KINDS, MOVE, ERR, EOFST, WRITERS, PRINTS, varprint
from .schema import StatO, full_cover, transparent_cond, miss_conds
from .memory import reaches, list_iter
from .tables import cell_name, dominates

HASH = {'arrname': ('arrayHash', 'arrayList', 'oi_array'), 'insname': ('wavelengthHash', 'wavelengthList', 'oi_wavelength'),
        'corrname': ('corrHash', 'corrList', 'oi_corr')}
NAMES = {'inspol': ['arrname'], 'vis': ['arrname', 'insname', 'corrname'], 'vis2': ['arrname', 'insname', 'corrname'],
         't3': ['arrname', 'insname', 'corrname'], 'flux': ['arrname', 'insname', 'corrname']}
APPEND = ('g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_before', 'g_list_concat')


def hash_name(fa, t):
    """which index of the dataset a GHashTable term is"""
    n = cell_name(t)
    if n:
        return n
    hit = {last_field(ad)[1] for i, (v, ad) in fa.stores() if v == t and last_field(ad) and last_field(ad)[0] == 'oi_fits'}
    return hit.pop() if len(hit) == 1 else None


def leaves(fa, t, seen=None):
    """terms a term may stand for, looking through phi nodes (executable edges only)"""
    seen = set() if seen is None else seen
    if t is None:
        return [('undef',)]
    if t[0] == 'phi' and t[1] not in seen:
        seen.add(t[1])
        i = fa.F.defs.get(t[1])
        if i is None or i.op != 'phi':
            return [t]
        out = []
        for p, o in zip(i.x['preds'], i.ops):
            if (p, i.bb.name) in fa.exec_edges:
                for x in leaves(fa, fa.t(o), seen):
                    if x not in out:
                        out.append(x)
        return out
    if t[0] == 'phi':
        return []
    return [t]


def item_of(v):
    """list of the dataset the term is a member (->data) of"""
    if v[0] != 'ld':
        return None
    b = base_of(v[1])
    if last_field(v[1]) and last_field(v[1])[1] != 'data':
        return None
    return cell_name(b[1] if b[0] == 'liter' else b)


class RM(Model):
    """(position, pending (kind, outcome, appended, counted, told, freed), initialised cells)"""
    def __init__(self, fa, out):
        self.fa, self.out = fa, out
        self.tags0 = ('?', None, frozenset())
        self.bad = {}
        self.unk = {}
        self.good = set()
        self.ended = []
        self.cells = {}
        for k, (l, n) in LISTS.items():
            self.cells[fld(out, 'oi_fits', l)] = (k, 'list')
            self.cells[fld(out, 'oi_fits', n)] = (k, 'num')
        for h, l, s in HASH.values():
            self.cells[fld(out, 'oi_fits', h)] = (h, 'hash')
        self.ptr = {}

    def status_call(self, f):
        return is_ff(f) or f in RSTOP

    def faults(self, ts, i, f, a):
        if f in NEXT:
            return (ERR, EOFST)
        return ()

    def note(self, k, msg, i):
        self.bad.setdefault(k, (msg, i))

    def close(self, ts, p, i, nxt):
        """consistency of the bookkeeping for the table read last"""
        if p is None:
            return
        k, oc, app, cnt, told, freed = p
        K = 'OI_' + k.upper()
        if oc == 'ok':
            if (k, 'app') in self.unk or (k, 'cnt') in self.unk:
                return
            if app == 0:
                self.note((k, 'appended'), 'an %s table that was read is not added to the dataset' % K, i)
            elif app > 1:
                self.note((k, 'appended'), 'an %s table is added to the dataset more than once' % K, i)
            elif cnt != 1:
                self.note((k, 'counted'), 'the number of %s tables is %s when a table is added' % (K, 'not increased' if cnt == 0 else 'increased twice'), i)
            else:
                self.good.add((k, 'kept'))
            if freed:
                self.note((k, 'freed'), 'an %s table in the dataset is freed' % K, i)
        elif oc == 'bad':
            if app or cnt:
                self.note((k, 'unreadable kept'), 'an unreadable %s table is %s' % (K, 'added to the dataset' if app else 'counted'), i)
            elif nxt != 'ret' and k not in STRICT and not told:
                self.note((k, 'told'), 'an unreadable %s table is skipped without a message on standard error' % K, i)
            else:
                self.good.add((k, 'skipped'))
        elif oc == 'eof':
            if app or cnt:
                self.note((k, 'eof kept'), 'a table is %s after the last %s' % ('added' if app else 'counted', K), i)
            else:
                self.good.add((k, 'end'))

    def on_call(self, ts, i, f, a, st, c, cur):
        pos, p, ini = st[2]
        if f in NEXT:
            k = NEXT[f]
            if cur:
                if p is not None and p[0] == k and p[1] == 'bad' and k not in STRICT:
                    self.note((k, 'goes on'), 'after an unreadable OI_%s table the error is kept, so that no further one can be read' % k.upper(), i)
                return st[2]
            self.close(ts, p, i, 'read')
            self.whole(p, k, i)
            if pos == 'start' or pos == ('scan', k):
                self.good.add((k, 'from start'))
            elif pos != '?':
                self.note((k, 'from start'), 'the search for OI_%s tables does not begin at the start of the file' % k.upper(), i)
            self.ptr.setdefault(k, set()).add(a[1])
            for m in ('list', 'num'):
                if (k, m) not in ini:
                    self.note((k, 'initial ' + m), '%s is not initialised before the OI_%s tables are read' % (LISTS[k][m == 'num'], k.upper()), i)
            return (('scan', k), (k, 'ok' if c == 0 else 'eof' if c == EOFST else 'bad', 0, 0, 0, 0), ini)
        if cur:
            return st[2]
        if f == 'ffmahd':
            return (('start' if a[1] == C(1) else 'elsewhere' if a[1][0] == 'c' else '?'), p, ini)
        if f in MOVE:
            return ('?', p, ini)
        if f in ('read_oi_header', 'read_oi_target', 'ffopen') or (f or '').startswith('read_oi_'):
            return ('elsewhere', p, ini)
        if p is not None:
            if f in ('fprintf', 'fputs', 'g_printerr', 'g_log', 'fwrite', 'g_warning', 'vfprintf') or f in PRINTS and f not in ('printf', 'puts', 'putchar', 'g_print'):
                p = p[:4] + (1,) + p[5:]
            if f == 'ffrprt':
                p = p[:4] + (1,) + p[5:]
            if f in ('free', 'g_free') and a[0] in self.ptr.get(p[0], ()):
                p = p[:5] + (1,)
            return (pos, p, ini)
        return st[2]

    def whole(self, p, k, i):
        """the search for tables of one type goes on to the end of the file"""
        if p is None or p[0] == k:
            return
        if p[1] == 'eof':
            self.good.add((p[0], 'to the end'))
        else:
            self.note((p[0], 'to the end'), 'the search for OI_%s tables ends at %s one' % (p[0].upper(), 'an unreadable' if p[1] == 'bad' else 'a readable'), i)

    def on_store(self, ts, inst, v, addr, st):
        pos, p, ini = st[2]
        c = self.cells.get(addr)
        if c is None:
            return st[2]
        k, what = c
        if what == 'hash':
            if v[0] == 'call':
                return (pos, p, ini | {c})
            return st[2]
        if p is None or p[0] != k:
            if v == C(0) or v == ('null',):
                return (pos, p, ini | {c})
            if v[0] == 'call' or p is not None:
                self.other(p, k, what, v, inst)
            return st[2]
        vs = strip_ep(v)
        if what == 'num':
            d = ladd(vs, ('ld', addr), -1)
            if d == C(1) or self.plus1(v, addr):
                return (pos, p[:3] + (min(p[3] + 1, 2),) + p[4:], ini)
            if v == C(0):
                self.note((k, 'counted'), 'the number of OI_%s tables is reset while reading' % k.upper(), inst)
            else:
                self.unk.setdefault((k, 'cnt'), show(v))
            return st[2]
        if v[0] == 'call' and v[1] in APPEND:
            j = self.fa.F.defs.get(v[2])
            a = self.fa.args.get(id(j)) if j is not None else None
            if a and a[1] in self.ptr.get(k, ()):
                if cell_name(a[0]) not in (None, LISTS[k][0]):
                    self.note((k, 'list'), 'an OI_%s table is added to %s' % (k.upper(), cell_name(a[0])), inst)
                if v[1] == 'g_list_prepend' and not any(True for _ in self.fa.calls('g_list_reverse')):
                    self.note((k, 'order'), 'OI_%s tables are collected in reverse order' % k.upper(), inst)
                return (pos, p[:2] + (min(p[2] + 1, 2),) + p[3:], ini)
            if a and any(a[1] in s for s in self.ptr.values()):
                self.note((k, 'list'), 'a table of another type is added to %s' % LISTS[k][0], inst)
        self.unk.setdefault((k, 'app'), show(v))
        return st[2]

    def plus1(self, v, addr):
        """old value of the cell plus one, through a loop-carried memory value"""
        c, t = tolin(v)
        if c != 1 or len(t) != 1:
            return v[0] == 'lin' and False or self.itercount(v)
        x = next(iter(t))
        return t[x] == 1 and (x[0] == 'mphi' and x[2] == addr or x[0] == 'ld' and x[1] == addr or x[0] == 'iter')

    def itercount(self, v):
        return v == C(1)

    def other(self, p, k, what, v, inst):
        if p is None:
            return
        if what == 'list' and v[0] == 'call' and v[1] in APPEND:
            j = self.fa.F.defs.get(v[2])
            a = self.fa.args.get(id(j)) if j is not None else None
            if a and a[1] in self.ptr.get(p[0], ()):
                self.note((p[0], 'list'), 'an OI_%s table is added to %s' % (p[0].upper(), LISTS[k][0]), inst)
        elif what == 'num' and v != C(0):
            self.note((p[0], 'counted'), '%s is changed when an OI_%s table is read' % (LISTS[k][1], p[0].upper()), inst)

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        s = cells.get(ts.status)
        self.close(ts, tags[1], inst, 'ret' if s else 'end')
        if s == 0:
            self.whole(tags[1], None, inst)
            miss = [c for c in self.cells.values() if c not in tags[2]]
            for c in self.cells.values():
                if c in miss:
                    self.note(('init', c), '%s is not initialised by read_oi_fits' % (c[0] if c[1] == 'hash' else LISTS[c[0]][c[1] == 'num']), inst)
                else:
                    self.good.add(('init', c))


@guarded
def collect(ctx):
    fa = ctx.fa('read_oi_fits', stop=RSTOP)
    out = arg_of(fa, 1)
    m = RM(fa, out)
    ts = TS(ctx.prog(), fa.F, fa, m, 0, arg_of(fa, 2))
    ctx.count('typestate_states', ts.nstates)
    for k, (msg, i) in sorted(m.bad.items(), key=repr):
        if k[0] in LISTS and any((k[0], x) in m.unk for x in ('app', 'cnt')):
            ctx.maybe('read_oi_fits/%s' % (k,), msg)
            continue
        ctx.bad('read_oi_fits/%s %s' % (k[0], ' '.join(k[1]) if isinstance(k[1], tuple) else k[1]), msg, i)
    for k in sorted(m.good, key=repr):
        if k not in m.bad:
            ctx.good('read_oi_fits/%s %s' % (k[0], k[1]))
    for k, w in m.unk.items():
        ctx.maybe('read_oi_fits/%s' % (k,), w)
    for k in LISTS:
        if k not in m.ptr:
            if any(True for _ in fa.calls('read_next_oi_' + k)):
                ctx.maybe('read_oi_fits/%s' % k, 'not explored')
            else:
                ctx.bad('read_oi_fits/%s' % k, 'read_oi_fits does not read OI_%s tables' % k.upper(), fa.F.blocks[fa.F.entry].term)
    # hash tables keyed by string contents
    for i, a in fa.calls('g_hash_table_new', 'g_hash_table_new_full'):
        hashfn(ctx, 'read_oi_fits', i, a)
    references(ctx, fa, m)


def hashfn(ctx, fn, i, a):
    oid = '%s/index by contents' % fn
    if a[0] == ('fn', 'g_str_hash') and a[1] == ('fn', 'g_str_equal'):
        ctx.good(oid)
    elif a[0][0] == 'null' or a[0] == ('fn', 'g_direct_hash') or a[1] in (('fn', 'g_direct_equal'), ('null',)):
        ctx.bad(oid, '%s indexes tables by address instead of by name' % fn, i)
    else:
        ctx.maybe(oid, 'hash functions')


class RefO(Oracle):
    """the name of a list member equals the wanted one or not; not yet indexed; names non-empty"""
    def __init__(self, eq, known=0, empty=False, alone=None):
        self.eq, self.known, self.empty, self.alone = eq, known, empty, alone

    def absent(self, n):
        return self.empty or self.alone is not None and n not in (self.alone, 'insname')

    def val(self, t):
        if t[0] == 'app' and t[1] in ('strcmp', 'g_strcmp0', 'g_str_equal'):
            fs = [last_field(x) for x in t[2]]
            if all(f and f[1] in HASH for f in fs):
                return (0 if self.eq else 'nz') if t[1] != 'g_str_equal' else (1 if self.eq else 0)
        if t[0] == 'app' and t[1].startswith('g_hash_table_') and t[1] not in ('g_hash_table_size',):
            return self.known
        if t[0] == 'app' and t[1] == 'strlen':
            f = last_field(t[2][0])
            if f and f[1] in HASH:
                return 0 if self.absent(f[1]) else 'nz'
        if t[0] == 'ld':
            f = last_field(t[1])
            if f and f[1] in HASH and steps_of(t[1])[-1][0] == '[' or f and f[1] in HASH:
                return 0 if self.absent(f[1]) else 'nz'
        return None

    def rel(self, a, b):
        if a[0] == 'app' and a[1] == 'strlen' and b == C(0):
            f = last_field(a[2][0])
            if f and f[1] in HASH:
                return '=' if self.absent(f[1]) else '>'
        return None


@guarded
def references(ctx, fa0, m):
    P = 'read_oi_fits/'
    eq = ctx.fa('read_oi_fits', RefO(True), stop=RSTOP)
    ne = ctx.fa('read_oi_fits', RefO(False), stop=RSTOP)
    em = ctx.fa('read_oi_fits', RefO(True, empty=True), stop=RSTOP)
    ins = [(i, a) for i, a in eq.calls('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add')]
    for i, a in ins:
        f = last_field(a[1])
        h = hash_name(eq, a[0])
        if f is None or h is None or f[1] not in HASH:
            continue
        oid = P + 'index %s.%s' % f
        if HASH[f[1]][0] != h:
            ctx.bad(oid + ' in', '%s of an %s table is entered in %s' % (f[1].upper(), f[0], h), i)
            continue
        vals = leaves(eq, a[2])
        ok, bad = 0, None
        first = [v for v in vals if v[0] == 'ld' and last_field(v[1]) == ('_GList', 'data') and any(
            x[0] == 'ld' and last_field(x[1]) == ('_GList', 'next') and cell_name(base_of(x[1])) == HASH[f[1]][1]
            for y in (base_of(v[1]),) for x in leaves(eq, y[1] if y[0] == 'liter' else y))]
        if first:
            ctx.bad(oid + ' value', 'the first member of %s is never found for %s of an %s table' % (HASH[f[1]][1], f[1].upper(), f[0]), i)
            continue
        for v in vals:
            if v in (('null',), C(0)):
                continue
            src = item_of(v)
            if src == HASH[f[1]][1]:
                ok = 1
            elif src:
                bad = 'a member of ' + src
            elif f[0] == HASH[f[1]][2] and v == base_of(a[1]):
                ok = 1
            elif v in [p for s in m.ptr.values() for p in s]:
                bad = 'the data table itself'
        if bad:
            ctx.bad(oid + ' value', '%s of an %s table is resolved to %s' % (f[1].upper(), f[0], bad), i)
        elif ok:
            ctx.good(oid + ' value')
        elif all(v in (('null',), C(0)) for v in vals):
            ctx.bad(oid + ' value', 'no table is ever found for %s of an %s table' % (f[1].upper(), f[0]), i)
        else:
            ctx.maybe(oid + ' value', [show(v) for v in vals])
        # compared with the wanted name; not equal -> not resolved to it
        for j, b in ne.calls('g_hash_table_insert', 'g_hash_table_replace'):
            if j is i:
                vs = leaves(ne, b[2])
                if any(v[0] == 'ld' for v in vs) and f[0] != HASH[f[1]][2]:
                    own = [t for t in m.ptr.get(f[0][3:], ())]
                    ctx.bad(oid + ' mismatch', '%s of an %s table is resolved to a table with another name' % (f[1].upper(), f[0]), i)
                else:
                    ctx.good(oid + ' mismatch')
        # first match wins
        if ok:
            if any(v[0] == 'ld' and base_of(v[1])[0] == 'liter' for v in vals):
                ctx.maybe(oid + ' first', 'the search goes on after a match')
            else:
                ctx.good(oid + ' first')
    # compared names belong together
    for i, a in fa0.calls('strcmp', 'g_strcmp0'):
        fs = [last_field(x) for x in a]
        if all(f and f[1] in HASH for f in fs):
            oid = P + 'compare %s.%s' % fs[0]
            ctx.expect(fs[0][1] == fs[1][1], oid, '%s is compared with %s' % (fs[0][1].upper(), fs[1][1].upper()), i)
    for i, a in eq.calls('g_hash_table_lookup', 'g_hash_table_contains', 'g_hash_table_lookup_extended'):
        f, h = last_field(a[1]), hash_name(eq, a[0])
        if f and f[1] in HASH and h:
            oid = P + 'lookup of %s.%s' % f
            ctx.expect(HASH[f[1]][0] == h, oid, '%s is looked up in %s' % (f[1].upper(), h), i)
    # inevitability
    for alone in ('arrname', 'corrname', 'insname', None):
        inevitable(ctx, m, alone)
    for k, ns in NAMES.items():
        for n in ns:
            if n != 'insname':
                bad = [i for i, a in em.calls('g_hash_table_insert') if last_field(a[1]) == ('oi_' + k, n)]
                ctx.expect(not bad, P + '%s.%s resolved if present' % (k, n), 'an absent %s is looked up' % n.upper(), bad[0] if bad else None)


@guarded
def inevitable(ctx, m, alone):
    """the name (the only one present, or one of all) of a table just added is indexed before the next table is read"""
    P = 'read_oi_fits/'
    eq = ctx.fa('read_oi_fits', RefO(True, alone=alone), stop=RSTOP)
    ins = [(i, a) for i, a in eq.calls('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add')]
    for k, ns in NAMES.items():
        app = []
        for i, a in eq.calls(*APPEND):
            if a[1] in m.ptr.get(k, ()):
                app.append(i)
        rd = [i for i, a in eq.calls('read_next_oi_' + k)]
        if len(app) != 1 or not rd:
            ctx.maybe(P + 'references of ' + k, 'append not recognised')
            continue
        for n in [n for n in ns if alone in (None, n)]:
            oid = P + '%s.%s resolved%s' % (k, n, ' alone' if alone else '')
            goal = [i for i, a in ins if last_field(a[1]) == ('oi_' + k, n) and hash_name(eq, a[0]) in (HASH[n][0], None)]
            owner = [i for i, a in ins if last_field(a[1]) == (HASH[n][2], n)]
            if owner:
                ctx.maybe(oid, 'indexed when the owning table is read')
                continue
            if not goal:
                if any(last_field(a[1]) is None for i, a in ins):
                    ctx.maybe(oid, 'insert not recognised')
                else:
                    ctx.bad(oid, '%s of an OI_%s table is not made available to lookups' % (n.upper(), k.upper()), app[0])
                continue
            ends = {i.bb.name for i in rd} | {b.name for b in rets(eq)}
            hit = any(g.bb is app[0].bb for g in goal)
            miss = None if hit else eq.must_pass(app[0].bb.name, {g.bb.name for g in goal}, ends)
            if miss is None:
                ctx.good(oid)
            elif all(reaches(eq, g, app[0], same_iter=True) for g in goal):
                ctx.maybe(oid, 'inserted before')
            else:
                cs = miss_conds(eq, miss, goal[0])
                if cs and all(transparent_cond(c, eq) or c[0] == 'c' for c in cs) or not cs:
                    ctx.bad(oid, '%s of an OI_%s table is not always made available to lookups' % (n.upper(), k.upper()), goal[0])
                else:
                    ctx.maybe(oid, [show(c) for c in cs])


# ---------------------------------------------------------------- writing
@guarded
def written(ctx):
    base = ctx.fa('write_oi_fits', stop=WSTOP)
    o = StatO(arg_of(base, 2))
    o.rel = lambda a, b: None
    W = set(WSTOP)
    oval = o.val
    o.val = lambda t: 0 if t[0] == 'call' and t[1] in W else oval(t)
    fa = ctx.fa('write_oi_fits', o, stop=WSTOP)
    P = 'write_oi_fits/'
    inp = arg_of(fa, 1)
    anchor = fa.F.blocks[fa.F.entry].term
    rb = {b.name for b in rets(fa)}
    for fn, f in (('write_oi_header', 'header'), ('write_oi_target', 'targets')):
        oid = P + f
        cs = list(fa.calls(fn))
        if not cs:
            ctx.bad(oid, 'the %s is never written' % f, anchor)
            continue
        i, a = cs[0]
        if len(cs) > 1 or [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]:
            ctx.maybe(oid, 'calls')
        elif region(a[1]) is not None and a[1] != fld(inp, 'oi_fits', f) and region(a[1])[0] == 'arg':
            ctx.bad(oid, '%s is given %s' % (fn, show(a[1])), i)
        elif fa.must_pass(fa.F.entry, {i.bb.name}, rb) is not None:
            ctx.bad(oid, 'the %s is not always written' % f, i)
        else:
            ctx.good(oid)
        if fn == 'write_oi_header':
            for k in WRITERS[1:]:
                for j, b in fa.calls(k):
                    first = i.bb is j.bb and i.idx < j.idx or i.bb is not j.bb and dominates(fa, i.bb.name, j.bb.name)
                    ctx.expect(first, P + 'header before ' + k, 'a table can be written before the primary header', j)
    for k, (l, n) in LISTS.items():
        oid = P + k
        cs = list(fa.calls('write_oi_' + k))
        if not cs:
            ctx.bad(oid, 'OI_%s tables are never written' % k.upper(), anchor)
            continue
        for i, a in cs:
            t = a[1]
            if t[0] == 'alloca' or region(t) is not None and region(t)[0] == 'alloca':
                for j, d, s, sz in copies_of(fa):
                    if d == t and reaches(fa, j, i):
                        t = s
            if not (t[0] == 'ld' and base_of(t[1])[0] == 'liter'):
                ctx.maybe(oid, show(t))
                continue
            li = base_of(t[1])
            src = load_field(li[1])
            skipped = [x for x in leaves(fa, li[1]) if x[0] == 'ld' and last_field(x[1]) == ('_GList', 'next')]
            if skipped:
                ctx.bad(oid, 'the first member of %s is not written' % l, i)
                continue
            if src and src[1] != l:
                ctx.bad(oid, 'write_oi_%s is given the members of %s' % (k, src[1]), i)
                continue
            if not src:
                ctx.maybe(oid, show(li[1]))
                continue
            ok, miss = list_iter(fa, i)
            if ok:
                ctx.good(oid)
            else:
                c = miss_conds(fa, miss, i)
                if c and all(transparent_cond(x, fa) for x in c):
                    ctx.bad(oid, 'OI_%s tables are written only when %s' % (k.upper(), show(c[0])), i)
                else:
                    ctx.maybe(oid, 'condition %s' % [show(x) for x in c or ()])
            early = [(b, c) for b, c, e in loop_exits(fa, li[2]) if not e]
            if early and all(c is None or transparent(c) for b, c in early):
                ctx.bad(oid + ' all', 'writing of OI_%s tables stops before the last one' % k.upper(), i)
            elif early:
                ctx.maybe(oid + ' all', 'early exit')
            else:
                ctx.good(oid + ' all')
            inner = [h for h in fa.F.loops if i.bb.name in fa.F.loops[h]]
            ev = strip_ep(a[2])
            want = ladd(('iter', li[2]), C(1))
            if ev == want:
                ctx.good(oid + ' extver')
            elif transparent(ev):
                ctx.bad(oid + ' extver', 'EXTVER of successive OI_%s tables is %s instead of 1, 2, ...' % (k.upper(), show(ev)), i)
            else:
                ctx.maybe(oid + ' extver', show(ev))
        if len(cs) > 1 and all(reaches(fa, x[0], y[0], same_iter=False) for x in cs[:1] for y in cs[1:]):
            ctx.maybe(oid + ' once', 'several calls')


def copies_of(fa):
    from .memory import copies
    return copies(fa)


# ---------------------------------------------------------------- header of version 1 files
class HM(Model):
    """(header read, header derived from the tables)"""
    tags0 = (0, 0)

    def __init__(self):
        self.rets = {}

    def status_call(self, f):
        return is_ff(f) or f in RSTOP

    def faults(self, ts, i, f, a):
        return (EOFST,) if f in NEXT else ()

    def on_call(self, ts, i, f, a, st, c, cur):
        rd, dv = st[2]
        if f == 'read_oi_header':
            return (1, 0)
        if f == 'set_oi_header':
            if dv == 0 and not rd:
                return (rd, 3)
            return (rd, 1)
        return st[2]

    def ret(self, ts, inst, x):
        node, env, cells, tags = x
        if cells.get(ts.status) == 0:
            self.rets.setdefault(tags[1], inst)


@guarded
def derived(ctx):
    from .query import QO
    P = 'read_oi_fits/header '
    stop = list(RSTOP) + ['set_oi_header']
    base = ctx.fa('read_oi_fits', stop=stop)
    if not any(True for _ in base.calls('set_oi_header')):
        if inlined_header(base):
            ctx.maybe(P, 'set_oi_header is not called as such')
        else:
            ctx.bad(P + 'derived', 'read_oi_fits never derives the header of a version 1 dataset', base.F.blocks[base.F.entry].term)
        return
    call = next(base.calls('set_oi_header'))
    if call[1][0] != arg_of(base, 1):
        ctx.maybe(P, show(call[1][0]))
        return
    for c, w in (('OIFITS2', False), ('', True), ('OIFITS1', True), ('oifits2', True)):
        oid = P + ('derived' if w else 'kept') + ' for CONTENT "%s"' % c
        o = ContO(c)
        fa = ctx.fa('read_oi_fits', o, stop=stop)
        m = HM()
        ts = TS(ctx.prog(), fa.F, fa, m, 0, arg_of(fa, 2))
        ctx.count('typestate_states', ts.nstates)
        got = set(m.rets)
        if not got:
            ctx.maybe(oid, 'no successful return')
        elif got == {int(w)}:
            ctx.good(oid)
        elif int(w) not in got and not 3 in got:
            ctx.bad(oid, 'the header of a dataset with CONTENT "%s" is %s' % (c, 'not derived from its tables' if w else 'replaced by one derived from its tables'), call[0])
        elif 3 in got:
            ctx.bad(oid, 'the header is derived before the primary header is read', call[0])
        else:
            ks = [fa.brval.get(n) for n in fa.F.blocks if n in fa.reach and len(fa.succs(n)) > 1 and call[0].bb.name in fa.succs(n)]
            if ks and all(k is not None and transparent_cond(k, fa) for k in ks):
                ctx.bad(oid, 'the header of a dataset with CONTENT "%s" is derived from its tables depending on %s' % (c, show(ks[0])), call[0])
            else:
                ctx.maybe(oid, 'conditions')


def inlined_header(fa):
    return any(last_field(a) and last_field(a)[0] == 'oi_header' for i, (v, a) in fa.stores()) or \
        any(x and last_field(x) and last_field(x)[0] == 'oi_header' for i, a in fa.calls('g_strlcpy', 'g_snprintf', 'strcpy', 'snprintf') for x in a[:1])


class ContO(Oracle):
    """CONTENT known; every revision is 2"""
    def __init__(self, content):
        from .query import QO
        self.q = QO(content=content)

    def val(self, t):
        if t[0] == 'ld' and last_field(t[1]) and last_field(t[1])[1] == 'revision':
            return 2
        return self.q.val(t)


# ---------------------------------------------------------------- init
@guarded
def initial(ctx):
    fa = ctx.fa('init_oi_fits')
    out = arg_of(fa, 0)
    anchor = fa.F.blocks[fa.F.entry].term
    P = 'init_oi_fits/'

    def cell(oid, addr, ok, want):
        vs = final_mem(fa, addr)
        if all(ok(v) for v in vs):
            ctx.good(P + oid)
        elif any(v[0] == 'ld' and transparent(v) or v[0] in ('c', 'null') for v in vs if not ok(v)):
            bad = [v for v in vs if not ok(v)][0]
            ctx.bad(P + oid, 'init_oi_fits leaves %s %s instead of %s' % (oid, 'unset' if bad[0] == 'ld' else show(bad), want), anchor)
        else:
            ctx.maybe(P + oid, [show(v) for v in vs])

    def zero(v):
        return v == C(0) or v == ('null',)
    if any(True for i, a in fa.calls() if (i.callee or '').startswith('llvm.memset') or i.callee == 'memset'):
        ctx.maybe(P + 'memset', 'cleared as a block')
        ms = True
    else:
        ms = False
    for k, (l, n) in LISTS.items():
        if not ms:
            cell(l, fld(out, 'oi_fits', l), zero, 'empty')
            cell(n, fld(out, 'oi_fits', n), zero, '0')
    t = fld(out, 'oi_fits', 'targets')
    if not ms:
        cell('ntarget', fld(t, 'oi_target', 'ntarget'), zero, '0')
        cell('targ', fld(t, 'oi_target', 'targ'), zero, 'NULL')
        cell('usecategory', fld(t, 'oi_target', 'usecategory'), zero, '0')
        for f, ty, ct in ctx.prog().struct_fields('oi_header'):
            if isinstance(ty, tuple) and ty[0] == 'arr' or '[' in str(ct or ''):
                cell('header.' + f, gep(fld(fld(out, 'oi_fits', 'header'), 'oi_header', f), [('[', C(0), 'p')]), zero, 'empty')
    cell('revision', fld(t, 'oi_target', 'revision'), lambda v: v == C(2), '2')
    seen = {}
    for h, l, s in HASH.values():
        vs = final_mem(fa, fld(out, 'oi_fits', h))
        oid = P + h
        if all(v[0] == 'call' and v[1] in ('g_hash_table_new', 'g_hash_table_new_full') for v in vs):
            ctx.expect(vs[0] not in seen, oid, '%s and %s are the same index' % (h, seen.get(vs[0])), anchor)
            seen[vs[0]] = h
        elif all(v[0] == 'ld' or zero(v) for v in vs):
            ctx.bad(oid, 'init_oi_fits does not create %s' % h, anchor)
        else:
            ctx.maybe(oid, [show(v) for v in vs])
    for i, a in fa.calls('g_hash_table_new', 'g_hash_table_new_full'):
        hashfn(ctx, 'init_oi_fits', i, a)


def files(ctx):
    collect(ctx)
    written(ctx)
    derived(ctx)
    initial(ctx)
