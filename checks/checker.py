"""Conformance checks (C12): which datasets each check_* function reports, with which severity."""
from engine.lib import *
from .schema import full_cover, transparent_cond, miss_conds
from .memory import copies
from .tables import state_at

STOP = ['oi_fits_lookup_target', 'oi_fits_lookup_element', 'oi_fits_lookup_corr', 'oi_fits_lookup_array', 'oi_fits_lookup_wavelength',
        'init_check_result']
COUNTS = {'numrec', 'nwave', 'ntarget', 'nelement', 'ncorr'}
NUMS = {'numArray', 'numWavelength', 'numCorr', 'numInspol', 'numVis', 'numVis2', 'numT3', 'numFlux'}
REV2 = {'oi_target': 2, 'oi_array': 2, 'oi_wavelength': 2, 'oi_vis': 2, 'oi_vis2': 2, 'oi_t3': 2, 'oi_flux': 1, 'oi_corr': 1, 'oi_inspol': 1}
REV1 = {'oi_target': 1, 'oi_array': 1, 'oi_wavelength': 1, 'oi_vis': 1, 'oi_vis2': 1, 'oi_t3': 1}
LISTOF = {'oi_array': 'arrayList', 'oi_wavelength': 'wavelengthList', 'oi_corr': 'corrList', 'oi_inspol': 'inspolList', 'oi_vis': 'visList',
          'oi_vis2': 'vis2List', 'oi_t3': 't3List', 'oi_flux': 'fluxList'}
HEADER = ['origin', 'date', 'date_obs', 'content', 'telescop', 'instrume', 'observer', 'insmode', 'object']
SIZES = {'record': 'numrec', 'targ': 'ntarget', 'elem': 'nelement'}
NSTA = {'oi_vis_record': 2, 'oi_vis2_record': 2, 'oi_t3_record': 3}


def cell(a):
    """(struct, field) an address belongs to: a field, or an element of the buffer a pointer field holds"""
    f = last_field(a)
    if f is None:
        b = base_of(a)
        if b[0] == 'ld':
            f = last_field(b[1])
    return f


class CO(Oracle):
    """every table attribute has the assumed value; result level so far as given"""
    def __init__(self, v2=True, strs=(), ints=(), nums=(), calls=None, level=None, nbreach=None, found=0, tabs=None, cnt=None, other=None, described=None):
        self.strs = {('oi_header', 'content'): 'OIFITS2' if v2 else ''}
        self.strs.update(dict(strs))
        self.ints = {(s, 'revision'): r for s, r in (REV2 if v2 else REV1).items()}
        self.ints.update(dict(ints))
        self.nums = dict(nums)
        self.calls = calls or {}
        self.level, self.nbreach, self.found = level, nbreach, found
        self.tabs = tabs or {}
        self.cnt = cnt              # counts: None positive, 'one' exactly 1, 'many' more than any constant
        self.other = other          # result of lookups not listed in calls
        self.hits = {}
        self.asked = set()
        self.lits = {}
        self.described = described  # description recorded so far

    def begin(self):
        self.hits = {}
        self.lits = {}
        self.asked = set()

    def string(self, a):
        f = last_field(a)
        if f is None or f[0] not in STRUCTS:
            return None
        st = steps_of(a)
        if st[-1][0] == '[' and st[-1][1] != C(0):
            return None
        if f in self.strs:
            self.asked.add(('str', f))
            return self.strs[f]
        if f[1] in STRF:
            self.asked.add(('str', f))
            return 'x'
        return None

    def number(self, t):
        if t[0] == 'cf':
            return t[1]
        if t[0] == 'c':
            return float(t[1])
        if t[0] == 'ld':
            f = cell(t[1])
            if f in self.nums:
                self.hits.setdefault(f, set()).add(strip_ep(t[1]))
                return self.nums[f]
            return None
        if t[0] == 'op' and t[1] in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.number(t[2]), self.number(t[3])
            if a is None or b is None or t[1] == 'fdiv' and b == 0:
                return None
            return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b, 'fdiv': a / b if b else None}[t[1]]
        if t[0] == 'op' and t[1] == 'fneg':
            a = self.number(t[2])
            return None if a is None else -a
        if t[0] == 'app' and t[1] == 'fabs':
            a = self.number(t[2][0])
            return None if a is None else abs(a)
        return None

    def val(self, t):
        if t[0] == 'mphi' or t[0] == 'ld':
            a = t[2] if t[0] == 'mphi' else t[1]
            f = cell(a)
            if f is not None:
                if f == ('oi_check_result', 'level') and self.level is not None:
                    return self.level
                if f == ('oi_check_result', 'numBreach') and self.nbreach is not None:
                    return self.nbreach
                if f == ('oi_check_result', 'description') and self.described is not None:
                    return self.described
                if f[0] == 'oi_fits' and f[1] in NUMS:
                    self.asked.add(('num', f[1]))
                    return self.tabs.get(f[1], 'nz')
                if f[1] in COUNTS and self.tabs.get(f[1]) == 0:
                    return 0
                if f in self.ints and not (f[1] == 'flag' and last_field(a) is not None):
                    self.hits.setdefault(f, set()).add(strip_ep(a))
                    self.asked.add(('int', f))
                    return self.ints[f]
                if t[0] == 'ld':
                    s = self.string(a)
                    if s is not None and steps_of(a)[-1][0] in '.[':
                        self.hits.setdefault(f, set()).add(strip_ep(a))
                        return ord(s[0]) if s else 0
        if t[0] == 'call' and t[1] in STOP:
            if t[2] not in self.calls:
                self.asked.add(('call', t[1])) if t[1].startswith('oi_fits_lookup') else None
            return self.calls.get(t[2], self.other)
        if t[0] == 'lin' and t[1] >= 0 and all(k > 0 for x, k in t[2]):
            vs = [self.val(x) for x, k in t[2]]
            if all(v == 'nz' or isinstance(v, int) and v >= 0 for v in vs) and all(last_field(x[1]) and last_field(x[1])[1] in NUMS for x, k in t[2] if x[0] == 'ld'):
                if 'nz' in vs:
                    return 'nz'
                return t[1] + sum(v * k for v, (x, k) in zip(vs, t[2]))
        if t[0] == 'app':
            if t[1] == 'strlen':
                s = self.string(t[2][0])
                if s is not None:
                    self.hits.setdefault(last_field(t[2][0]), set()).add(strip_ep(t[2][0]))
                    return len(s)
            if t[1] in ('strcmp', 'g_strcmp0', 'g_str_equal', 'strncmp', 'memcmp'):
                x, y = t[2][:2]
                sx, sy = (z[2].split(b'\0')[0].decode('latin1') if z[0] == 'str' else self.string(z) for z in (x, y))
                if sx is not None and sy is not None and (x[0] == 'str') != (y[0] == 'str'):
                    self.lits.setdefault(last_field(y if x[0] == 'str' else x), set()).add(sx if x[0] == 'str' else sy)
                    fa = last_field(y if x[0] == 'str' else x)
                    self.hits.setdefault(fa, set()).add(strip_ep(y if x[0] == 'str' else x))
                    if t[1] in ('strncmp', 'memcmp'):
                        n = t[2][2]
                        if n[0] != 'c':
                            return None
                        sx, sy = (sx + '\0')[:n[1]], (sy + '\0')[:n[1]]
                    if t[1] == 'g_str_equal':
                        return int(sx == sy)
                    return 0 if sx == sy else 'nz'
            if t[1] in ('strcasecmp', 'g_ascii_strcasecmp', 'g_strcasecmp', 'g_ascii_strncasecmp', 'strncasecmp'):
                x, y = t[2][:2]
                sx, sy = (z[2].split(b'\0')[0].decode('latin1') if z[0] == 'str' else self.string(z) for z in (x, y))
                if sx is not None and sy is not None and (x[0] == 'str') != (y[0] == 'str'):
                    self.lits.setdefault(last_field(y if x[0] == 'str' else x), set()).add(sx if x[0] == 'str' else sy)
                    f = y if x[0] == 'str' else x
                    self.hits.setdefault(last_field(f), set()).add(strip_ep(f))
                    sx, sy = sx.lower(), sy.lower()
                    if 'ncase' in t[1]:
                        n = t[2][2]
                        if n[0] != 'c':
                            return None
                        sx, sy = (sx + '\0')[:n[1]], (sy + '\0')[:n[1]]
                    return 0 if sx == sy else 'nz'
            if t[1] == 'g_list_find_custom':
                return self.found
        return None

    def rel(self, a, b):
        if a[0] == 'ld' and b[0] == 'c' and b[1] <= 0:
            f = last_field(a[1])
            if f and f[1] in COUNTS | NUMS:
                self.asked.add(('num', f[1]))
                if self.tabs.get(f[1]) != 0:
                    return '>'
                return '=' if b[1] == 0 else '>'
        if a[0] == 'ld' and b[0] == 'c' and b[1] > 0:
            f = last_field(a[1])
            if f and f[1] in COUNTS:
                self.asked.add(('const', f[1]))
                if self.cnt == 'one':
                    return '=' if b[1] == 1 else '<'
                if self.cnt == 'many':
                    return '>'
        x, y = self.number(a), self.number(b)
        if x is not None and y is not None and (a[0] not in ('c', 'cf') or b[0] not in ('c', 'cf')):
            return '<' if x < y else '>' if x > y else '='
        return None


STRUCTS = {'oi_header', 'oi_target', 'target'} | set(LISTOF) | {k + '_record' for k in LISTOF} | {'element'}
STRF = {'arrname', 'insname', 'corrname', 'frame', 'amptyp', 'phityp', 'fovtype', 'date_obs', 'target', 'category', 'origin', 'date', 'content',
        'telescop', 'instrume', 'observer', 'insmode', 'object'}
RES = 'oi_check_result'


def base(ctx, fn):
    c = ctx.__dict__.setdefault('_ck', {})
    if fn not in c:
        c[fn] = ctx.fa(fn, CO(), stop=STOP)
    return c[fn]


def lookups(ctx, fn, name):
    """[(uid, key addresses)] of the calls of a lookup function"""
    out = []
    for i, a in ctx.fa(fn, stop=STOP).calls(name):
        out.append((i.res, a[1:], i))
    return out


def incs(fa):
    """stores that count a breach: [(inst, ok)]"""
    out = []
    for i, (v, a) in fa.stores():
        if last_field(a) == (RES, 'numBreach'):
            out.append((i, v, a))
    return out


def nest(fa, bn):
    hs = [h for h in fa.F.loops if bn in fa.F.loops[h] and h in fa.reach]
    return sorted(hs, key=lambda h: -len(fa.F.loops[h]))


def inevitable(fa, inst, goals):
    """inst (or another goal block in the same loop nest) is executed in every iteration of every enclosing loop"""
    hs = nest(fa, inst.bb.name)
    ends = {b.name for b in rets(fa)}
    start = [fa.F.entry]
    for h in hs:
        for s in start:
            if s == h or s in goals:
                continue
            m = fa.must_pass(s, {h}, ends)
            if m:
                return m
        start = [s for s in fa.succs(h) if s in fa.F.loops[h]]
        ends = {h}
    g = set(goals) | {inst.bb.name}
    for s in start:
        if s in g:
            continue
        m = fa.must_pass(s, g, ends)
        if m:
            return m
    return None


RELEVANT = {'check_tables': {'revision'} | NUMS, 'check_header': set(HEADER), 'check_keywords': {'frame', 'amptyp', 'phityp', 'calstat', 'fovtype'},
            'check_visrefmap': {'amptyp', 'phityp', 'usevisrefmap'}, 'check_unique_targets': {'target', 'ntarget'},
            'check_targets_present': {'target_id'}, 'check_arrname': {'arrname', 'calstat'}, 'check_elements_present': {'arrname', 'sta_index'},
            'check_corr_present': {'corrname'}, 'check_flagging': {'flag'}, 'check_t3amp': {'flag'}, 'check_waveorder': {'eff_wave'}, 'check_time': {'time'},
            'check_flux': {'arrname', 'calstat', 'sta_index', 'fovtype'}}
TABLEWISE = {'check_tables', 'check_keywords', 'check_visrefmap', 'check_arrname', 'check_corr_present'}


def variants(fn, o, level, kw):
    """attributes the verdict must not depend on, the other way round: [(text, kw)]"""
    out = []
    rel = RELEVANT.get(fn, ())
    if fn == 'check_header':
        # a missing value is missing whatever the others are
        for kind, x in sorted(o.asked, key=repr) if level else ():
            if kind == 'str' and x[1] != 'content' and x not in kw.get('strs', ()):
                for w in sorted(set(o.lits.get(x, ())) | {''}):
                    out.append(('%s is %r' % (x[1].upper(), w), dict(kw, strs={**dict(kw.get('strs', ())), x: w})))
        return out
    for kind, x in sorted(o.asked, key=repr):
        if kind == 'str' and x[1] not in rel and x[1] != 'content':
            for w in sorted(o.lits.get(x, ())):
                out.append(('%s of %s is %r' % (x[1].upper(), x[0], w), dict(kw, strs={**dict(kw.get('strs', ())), x: w})))
            out.append(('%s of %s is %r' % (x[1].upper(), x[0], '' if o.strs.get(x, 'x') else 'x'), dict(kw, strs={**dict(kw.get('strs', ())), x: '' if o.strs.get(x, 'x') else 'x'})))
        elif kind == 'int' and x[1] == 'revision' and x[1] not in rel:
            for r in (1, 2):
                if o.ints[x] != r:
                    out.append(('OI_REVN of %s is %d' % (x[0].upper(), r), dict(kw, ints={**dict(kw.get('ints', ())), x: r})))
        elif kind == 'num' and level and x not in rel:
            own = {'check_keywords': {'numArray'}, 'check_waveorder': {'numWavelength'}}.get(fn, set())
            if x in ('numArray', 'numWavelength', 'numCorr') and x not in own or x == 'ntarget' or x in ('numrec', 'nwave') and fn in TABLEWISE:
                out.append(('%s is 0' % x, dict(kw, tabs={**(kw.get('tabs') or {}), x: 0})))
        elif kind == 'const' and level:
            for c in ('one', 'many'):
                out.append(('%s is %s' % (x, c), dict(kw, cnt=c)))
        elif kind == 'call':
            for v in ((0, 'nz') if level or fn in ('check_arrname',) else ('nz',)):
                out.append(('%s finds %s' % (x, 'nothing' if v == 0 else 'something'), dict(kw, other=v)))
    return out


def scen(ctx, fn, name, level, hit=None, cover=None, **kw):
    o = scen1(ctx, fn, name, level, hit=hit, cover=cover, **kw)
    if o is not None:
        for text, k in variants(fn, o, level, kw):
            scen1(ctx, fn, '%s (%s)' % (name, text), level, hit=hit, cover=cover, **k)


@guarded
def scen1(ctx, fn, name, level, hit=None, cover=None, times=1, **kw):
    """level None: nothing may be reported; else a breach of that severity must be reported.
    hit: attribute whose values decide; its addresses must cover the whole table (list)"""
    oid = '%s/%s' % (fn, name)
    o = CO(**kw)
    fa = ctx.fa(fn, o, stop=STOP)
    anchor = fa.F.blocks[fa.F.entry].term
    st = incs(fa)
    lev = [(i, v) for i, (v, a) in fa.stores() if last_field(a) == (RES, 'level') and v != C(0)]
    if level is None:
        hot = st + [(i, v, None) for i, v in lev]
        if not hot:
            r = [fa.args.get(id(b.term), (None,))[0] for b in rets(fa)]
            lv = [fa.mem_load(fa.out[b.name], fld(arg_of(fa, 1), RES, 'level'), None) for b in rets(fa)]
            for x, y in zip(r, lv):
                if x is None:
                    continue
                if x == C(0) or x == y or strip_ep(x) == strip_ep(y):
                    ctx.good(oid)
                elif x[0] == 'c' or transparent(x):
                    ctx.bad(oid, '%s returns %s for a sound dataset (%s)' % (fn, show(x), name), anchor)
                else:
                    ctx.maybe(oid, show(x))
            if hit:
                scan(ctx, oid + ' scanned', fn, fa, o.hits.get(hit, set()), cover, anchor)
            return o
        i = hot[0][0]
        m = inevitable(fa, i, ())
        cs = miss_conds(fa, m, i) if m else []
        if m is None or (cs and all(transparent_cond(c, fa) for c in cs)):
            ctx.bad(oid, '%s reports a breach although %s' % (fn, name), i)
        else:
            ctx.maybe(oid, 'conditions %s' % [show(c) for c in cs][:3])
        return o
    what = '%s does not report that %s' % (fn, name)
    if not st:
        und = [c for n, c in open_conds(fa)]
        if not und or all(c is None or transparent_cond(c, fa) for c in und):
            ctx.bad(oid, what, anchor)
        else:
            ctx.maybe(oid, 'no breach recorded')
        return o
    # choose the recordings the assumption leads to
    goals = {i.bb.name for i, v, a in st}
    best = None
    for i, v, a in st:
        m = inevitable(fa, i, goals)
        if m is None:
            best = (i, v, a)
            break
    if best is None:
        i = st[0][0]
        cs = []
        bads = 0
        for i, v, a in st:
            cs = miss_conds(fa, inevitable(fa, i, goals), i)
            if cs and all(transparent_cond(c, fa) for c in cs):
                bads += 1
        if bads == len(st):
            ctx.bad(oid, '%s: recorded only when %s' % (what, show(cs[0])), i)
        else:
            ctx.maybe(oid, 'conditions %s' % [show(c) for c in cs][:3])
        return o
    if times > 1:
        sites = [j for j, v, a in st if inevitable(fa, j, ()) is None]
        loops = {h for j in sites for h in nest(fa, j.bb.name) if any(c is not None and c[0] == 'c' for c in count_of(fa, h))}
        if len(sites) >= times:
            ctx.good(oid + ' each counted')
        elif loops or any(ladd(v, fa.mem_load(state_at(fa, j), a, None), -1) != C(1) for j, v, a in st if j in sites) or not all(
                j in sites or any(c is not None and c[0] == 'listlen' for h in nest(fa, j.bb.name) for c in count_of(fa, h)) or j.bb.name not in fa.out for j, v, a in st):
            ctx.maybe(oid + ' each counted', 'sites %s' % [str(j) for j in sites])
        else:
            ctx.bad(oid + ' each counted', '%s records %d of %d breaches when %s' % (fn, len(sites), times, name), best[0])
    i, v, a = best
    # counted once
    d = ladd(strip_ep(v), ('ld', strip_ep(a)), -1)
    cnt = fa.mem_load(state_at(fa, i), a, None)
    d = ladd(v, cnt, -1)
    ctx.expect(d == C(1), oid + ' counted', '%s: the number of occurrences changes by %s' % (fn, show(d)), i) if d[0] == 'c' else ctx.maybe(oid + ' counted', show(v))
    ctx.good(oid)
    # severity with nothing / something worse recorded so far
    kw2 = dict(kw)
    kw2['level'] = 0
    fa2 = ctx.fa(fn, CO(**kw2), stop=STOP)
    sv = [(i2, v2) for i2, (v2, a2) in fa2.stores() if last_field(a2) == (RES, 'level') and v2 != C(0)]
    g2 = {i2.bb.name for i2, v2 in sv}
    inev = [(i2, v2) for i2, v2 in sv if inevitable(fa2, i2, g2) is None]
    oid2 = oid + ' severity'
    if inev and all(v2 == C(level) for i2, v2 in sv):
        ctx.good(oid2)
    elif any(v2[0] == 'c' and v2 != C(level) for i2, v2 in inev):
        ctx.bad(oid2, '%s: recorded with severity %s instead of %d' % (fn, show([v2 for i2, v2 in inev if v2 != C(level)][0]), level), inev[0][0])
    elif not sv and not any(last_field(a2) == (RES, 'level') for i2, (v2, a2) in fa2.stores() if False):
        ctx.bad(oid2, '%s: the severity is not recorded' % fn, i)
    else:
        ctx.maybe(oid2, [show(v2) for i2, v2 in sv])
    kw2['level'] = 3
    fa3 = ctx.fa(fn, CO(**kw2), stop=STOP)
    low = [i2 for i2, (v2, a2) in fa3.stores() if last_field(a2) == (RES, 'level') and v2[0] == 'c' and v2[1] < 3
           and fa3.resolve_val(fa3.mem_load(state_at(fa3, i2), a2, None)) == C(3)]
    ctx.expect(not low, oid + ' worst severity kept', '%s: a more severe result is replaced by a less severe one' % fn, low[0] if low else None)
    seen = ctx.__dict__.setdefault('_bk', set())
    if kw.get('v2', True) and (fn, level, hit if isinstance(hit, tuple) else None) not in seen:
        seen.add((fn, level, hit if isinstance(hit, tuple) else None))
        bookkeeping(ctx, oid, fn, level, kw, i)
    # every table / record / channel is examined
    if hit:
        ads = o.hits.get(hit, set()) if not callable(hit) else hit(fa)
        scan(ctx, oid + ' scanned', fn, fa, ads, cover, i)
    return o


def follows(fa, i, insts):
    """one of insts is executed whenever i is, in the same round: True / False / None (on conditions not decided)"""
    if not insts:
        return False
    if any(j.bb.name == i.bb.name for j in insts):
        return True
    hs = nest(fa, i.bb.name)
    head = {hs[-1]} if hs else set()
    ends = head or {b.name for b in rets(fa)}
    bl = {j.bb.name for j in insts}
    if fa.must_pass(i.bb.name, bl, ends) is None:
        return True
    starts = [x for x in fa.succs(hs[-1]) if x in fa.F.loops[hs[-1]]] if hs else [fa.F.entry]
    if all(x in bl or x != i.bb.name and fa.must_pass(x, bl, {i.bb.name}) is None for x in starts):
        return True
    return None


def bookkeeping(ctx, oid, fn, level, kw, site):
    """what a recording does to the result, given what the result holds"""
    for n, lev, desc in ((0, 0, 0), (8, level, 'nz'), (9, 0, 'nz'), (10, 0, 'nz'), (40, level - 1, 'nz')):
        k = dict(kw, level=lev, nbreach=n, described=desc)
        fb = ctx.fa(fn, CO(**k), stop=STOP)
        st = incs(fb)
        goals = {i.bb.name for i, v, a in st}
        o2 = '%s after %d of severity %d' % (oid, n, lev)
        hit = [(i, v, a) for i, v, a in st if inevitable(fb, i, goals) is None]
        if not hit:
            und = [c for x, c in open_conds(fb)]
            if not st and all(c is None or transparent_cond(c, fb) for c in und):
                ctx.bad(o2, '%s does not count a breach after %d of severity %d' % (fn, n, lev), site)
            elif st:
                cs = [miss_conds(fb, inevitable(fb, i, goals), i) for i, v, a in st]
                ctx.expect(not all(c and all(transparent_cond(x, fb) for x in c) for c in cs), o2, '%s: a breach is counted only when %s' % (
                    fn, show(cs[0][0]) if cs[0] else ''), st[0][0]) if any(cs) else ctx.maybe(o2, 'site')
            else:
                ctx.maybe(o2, 'site')
            continue
        ctx.good(o2)
        # only recordings that happen on top of what was assumed
        hit = [(i, v, a) for i, v, a in hit if fb.resolve_val(fb.mem_load(state_at(fb, i), a, None)) == C(n)]
        for i, v, a in hit:
            def stores(fl, f=lambda v: True, only=None):
                return [j for j, (w, b) in fb.stores() if last_field(b) == (RES, fl) and f(w) and nest(fb, j.bb.name) == nest(fb, i.bb.name)]
            if lev < level:
                r = follows(fb, i, stores('level', lambda w: w != C(0)))
                if r is False and not nest(fb, i.bb.name):
                    ctx.maybe(o2 + ' severity', 'no store')
                elif r is False:
                    ctx.bad(o2 + ' severity', '%s: the severity of a breach is not recorded after %d breaches' % (fn, n), i)
                elif r:
                    ctx.good(o2 + ' severity')
            if n < 9:
                ls = stores('location', lambda w: w not in (('null',), C(0)))
                r = follows(fb, i, ls)
                if r is False and nest(fb, i.bb.name) and not any((j.callee or '').startswith(('llvm.mem', 'mem')) and any(x[0] in ('.',) and x[1] == RES for x in steps_of(b[0])) for j, b in fb.calls() if b):
                    ctx.bad(o2 + ' location', '%s: the location of breach %d is not recorded' % (fn, n + 1), i)
                elif r:
                    ctx.good(o2 + ' location')
                for j, (w, b) in fb.stores():
                    if last_field(b) == (RES, 'location') and w not in (('null',), C(0)):
                        kept(ctx, o2 + ' location text', fn, fb, j, w)
            ds = stores('description', lambda w: w not in (('null',), C(0)))
            if desc == 'nz' and nest(fb, i.bb.name):
                ctx.expect(not any(follows(fb, j, [i]) and not same_value(fb, j) for j in ds), o2 + ' description', '%s replaces the description of the first breach' % fn, ds[0] if ds else i)
            elif nest(fb, i.bb.name):
                r = follows(fb, i, ds)
                if r is False:
                    ctx.bad(o2 + ' description', '%s does not describe the breach' % fn, i)
                elif r:
                    ctx.good(o2 + ' description')
                for j, (w, b) in fb.stores():
                    if last_field(b) == (RES, 'description') and w not in (('null',), C(0)):
                        kept(ctx, o2 + ' description text', fn, fb, j, w)


def same_value(fb, j):
    """the store leaves what was there"""
    w, b = fb.args[id(j)]
    old = fb.mem_load(fb.mem_before(j), b, None)
    return w == old or strip_ep(w) == strip_ep(old)


def kept(ctx, oid, fn, fb, j, w):
    """a text kept in the result outlives the check, and is whole"""
    b = base_of(w)
    i = fb.F.defs.get(w[2]) if w[0] == 'call' else None
    if b[0] in ('alloca', 'loc', 'stack'):
        ctx.bad(oid, '%s keeps a pointer to its own local text' % fn, j)
    elif w[0] == 'call' and w[1] in ('g_string_chunk_insert', 'g_string_chunk_insert_const', 'g_strdup'):
        ctx.good(oid)
    elif w[0] == 'call' and w[1] in ('g_string_chunk_insert_len', 'g_strndup') and i is not None and fb.args.get(id(i)) and fb.args[id(i)][-1][0] == 'c' and 0 <= fb.args[id(i)][-1][1] < 60:
        ctx.bad(oid, '%s keeps only %d characters of the text' % (fn, fb.args[id(i)][-1][1]), j)
    else:
        ctx.maybe(oid, show(w))


def scan(ctx, oid, fn, fa, ads, cover, inst):
    """the addresses, taken over all iterations, are all the cells of the attribute in the dataset"""
    if not ads:
        ctx.maybe(oid, 'attribute not recognised')
        return
    res = []
    ads = {strip_ep(a) for a in ads}
    for a in ads:
        res.append(scan_one(fa, a, cover, ads))
    if any(r is True for r in res):
        ctx.good(oid)
    elif all(isinstance(r, str) and r.startswith('!') for r in res):
        ctx.bad(oid, '%s: %s' % (fn, res[0][1:]), inst)
    else:
        ctx.maybe(oid, [str(r) for r in res])


def scan_one(fa, a, cover=None, ads=()):
    t = a
    tab = None
    parts = []
    while True:
        st = list(steps_of(t))
        b = base_of(t)
        if b[0] == 'ld' and last_field(b[1]) and steps_of(b[1])[-1][0] == '.' and (not st or st[0][0] != '['):
            # first element
            f = last_field(b[1])
            if f[1] in SIZES or f[0].endswith('_record') or f[0] == 'oi_wavelength':
                parts.append((t, b, None, C(0)))
        if len(st) and st[-1][0] == '.' and st[-1][2] == 'sta_index' and st[-1][1] in NSTA:
            parts.append((t, b, st[-1], C(0)))
        # array steps inside the object
        flds = None
        for k, s in enumerate(st):
            if s[0] == '.':
                flds = (s[1], s[2])
            elif s[0] == '[':
                prev = st[k - 1] if k else None
                parts.append((t, b, prev, s[1]))
        if b[0] == 'liter':
            tab = t
            break
        if b[0] == 'ld':
            t = strip_ep(b[1])
            continue
        break
    # find the list
    msgs = []
    li = None
    for x in subterms(a):
        if x[0] == 'liter':
            li = x
    if li is None:
        for x in subterms(a):
            if x[0] == 'ld' and last_field(x[1]) == ('_GList', 'data'):
                b = strip_ep(base_of(x[1]))
                if b[0] == 'ld' and last_field(b[1]) and last_field(b[1])[0] == 'oi_fits':
                    return '!the tables after the first one are not examined'
                i = fa.F.defs.get(b[1]) if b[0] == 'phi' else None
                if i is not None and i.bb.name in fa.F.loops:
                    lv = [fa.t(o) for p, o in zip(i.x['preds'], i.ops) if p in fa.F.loops[i.bb.name] and (p, i.bb.name) in fa.exec_edges]
                    if lv and all(v == ('null',) for v in lv):
                        return '!the tables after the first one are not examined'
                return 'list'
    if li is not None:
        if li[1][0] == 'phi' and any(v is not None and v[0] == 'ld' and last_field(v[1]) == ('_GList', 'next') for v in joined(fa, li[1])):
            return '!the first table is not examined'
        if li[1][0] != 'ld' or last_field(li[1][1]) is None or last_field(li[1][1])[0] != 'oi_fits':
            if li[1][0] == 'ld' and last_field(li[1][1]) == ('_GList', 'next'):
                return '!the first table is not examined'
            return 'list'
        early = [(n, c) for n, c, e in loop_exits(fa, li[2]) if not e]
        if early:
            if all(c is None or transparent_cond(c, fa) or c[0] == 'c' for n, c in early) or not latch_reached(fa, li[2]):
                return '!the tables after the first one reported are not examined'
            return 'early exit'
        if not latch_reached(fa, li[2]):
            return '!the tables after the first one are not examined'
    for t, b, prev, idx in parts:
        if prev is not None:
            # array embedded in a structure
            n = C(NSTA[prev[1]]) if prev[2] == 'sta_index' and prev[1] in NSTA else None
            if n is None:
                continue
            if strip_ep(idx)[0] == 'c':
                # examined one by one
                if {const_steps(x, prev) for x in ads} >= set(range(n[1])):
                    continue
        else:
            if b[0] != 'ld':
                continue
            s = steps_of(b[1])[-1]
            if s[0] != '.':
                continue
            if s[2] in SIZES:
                n = ('ld', gep(base_of(b[1]), list(steps_of(b[1])[:-1]) + [('.', s[1], SIZES[s[2]])]))
            elif s[1].endswith('_record') or s[1] == 'oi_wavelength':
                # per-channel array: number of channels of the table
                ob = b[1]
                tb = None
                if s[1] == 'oi_wavelength':
                    tb = fld_of(ob)
                else:
                    for x in subterms(ob):
                        if x[0] == 'ld' and last_field(x[1]) and last_field(x[1])[1] == 'record':
                            tb = fld_of(x[1])
                if tb is None:
                    return 'channels'
                n = ('ld', gep(tb[0], list(tb[1]) + [('.', s[1].replace('_record', ''), 'nwave')]))
            else:
                continue
        if cover == 'first' and s[2] == 'record':
            continue
        idx = strip_ep(idx)
        if cover == 'pairs':
            continue
        r = full_cover(fa, [(None, idx)], strip_ep(n))
        if r is False:
            return '!not every element (index %s of %s) is examined' % (show(idx), show(n))
        if r is None:
            return 'coverage of %s over %s' % (show(idx), show(n))
        for h in iters_in(idx):
            early = [(x, c) for x, c, e in loop_exits(fa, h) if not e]
            if early:
                if all(c is None or transparent_cond(c, fa) or c[0] == 'c' for x, c in early):
                    return '!elements after the first one reported are not examined'
                return 'early exit'
    return True


def const_steps(a, prev):
    """constant index an address applies to the array field prev"""
    for t in subterms(a):
        st = list(steps_of(t)) if t[0] == 'gep' else []
        for k, s in enumerate(st):
            if s[0] == '.' and s[1:3] == prev[1:3]:
                if k + 1 < len(st) and st[k + 1][0] == '[':
                    return st[k + 1][1][1] if st[k + 1][1][0] == 'c' else None
                return 0
    return None


def joined(fa, t, seen=()):
    """values merged at a join that is no loop header"""
    i = fa.F.defs.get(t[1]) if t is not None and t[0] == 'phi' else None
    if i is None or i.bb.name in fa.F.loops or t in seen:
        return [t]
    return [y for p, o in zip(i.x['preds'], i.ops) if (p, i.bb.name) in fa.exec_edges for y in joined(fa, fa.t(o), seen + (t,))]


def fld_of(a):
    """(base, steps) of the object a field address belongs to"""
    st = list(steps_of(a))
    while st and st[-1][0] == '[':
        st.pop()
    return base_of(a), st[:-1]


# ---------------------------------------------------------------- specification
WARN, ERR = 1, 2
DATA = ['vis', 'vis2', 't3', 'flux']


def oi(k):
    return 'oi_' + k


def spec_tables(ctx):
    f = 'check_tables'
    L = {'oi_array': 'numArray', 'oi_wavelength': 'numWavelength'}
    for v2, R, need in ((True, REV2, ['numArray', 'numWavelength']), (False, REV1, ['numWavelength'])):
        V = 'OIFITS %d: ' % (1 + v2)
        scen(ctx, f, V + 'all tables are present', None, v2=v2)
        scen(ctx, f, V + 'there is no table at all', ERR, v2=v2, tabs={n: 0 for n in NUMS}, times=2 + v2)
        for n in ('numArray', 'numWavelength'):
            scen(ctx, f, V + '%s is 0' % n, ERR if n in need else None, v2=v2, tabs={n: 0})
        dn = ['numVis', 'numVis2', 'numT3'] + (['numFlux'] if v2 else [])
        scen(ctx, f, V + 'there is no data table', ERR, v2=v2, tabs={n: 0 for n in dn})
        for n in dn:
            scen(ctx, f, V + 'the only data tables are counted by %s' % n, None, v2=v2, tabs={x: 0 for x in dn if x != n})
        if not v2:
            scen(ctx, f, V + 'the only data tables are counted by numFlux', ERR, v2=v2, tabs={x: 0 for x in dn})
        for s, r in R.items():
            for w in (r + 1, 0):
                scen(ctx, f, V + 'OI_REVN of %s is %d' % (s.upper(), w), ERR, hit=(s, 'revision'), v2=v2, ints={(s, 'revision'): w})
        if not v2:
            for s in ('oi_flux', 'oi_corr', 'oi_inspol'):
                scen(ctx, f, V + 'OI_REVN of %s is arbitrary' % s.upper(), None, v2=v2, ints={(s, 'revision'): 7})


def spec_header(ctx):
    f = 'check_header'
    scen(ctx, f, 'all keywords are present', None)
    scen(ctx, f, 'all keywords but CONTENT are missing', ERR, strs={('oi_header', h): '' for h in HEADER if h != 'content'}, times=len(HEADER) - 1)
    for h in HEADER:
        if h != 'content':
            scen(ctx, f, '%s is missing' % h.upper(), ERR, strs={('oi_header', h): ''})
            scen(ctx, f, 'OIFITS 1: %s is missing' % h.upper(), None, v2=False, strs={('oi_header', h): ''})


def spec_keywords(ctx):
    f = 'check_keywords'
    ok = dict(strs={('oi_array', 'frame'): 'GEOCENTRIC', ('oi_vis', 'amptyp'): 'absolute', ('oi_vis', 'phityp'): 'absolute', ('oi_flux', 'fovtype'): 'FWHM'},
              ints={('oi_flux', 'calstat'): ord('C')})

    def s(name, lev, v2=True, strs=(), ints=(), **k):
        scen(ctx, f, name, lev, v2=v2, strs={**ok['strs'], **dict(strs)}, ints={**ok['ints'], **dict(ints)}, **k)
    s('AMPTYP and PHITYP are invalid', ERR, True, {('oi_vis', 'amptyp'): 'other', ('oi_vis', 'phityp'): 'other'}, times=2)
    s('CALSTAT and FOVTYPE are invalid', ERR, True, {('oi_flux', 'fovtype'): 'other'}, {('oi_flux', 'calstat'): ord('X')}, times=2)
    for v2 in (True, False):
        V = '' if v2 else 'OIFITS 1: '
        s(V + 'all values are allowed', None, v2)
        s(V + "FRAME is 'SKY'", None, v2, {('oi_array', 'frame'): 'SKY'})
        for w in ('', 'geocentric', 'GEO', 'SKYX'):
            s(V + "FRAME is '%s'" % w, ERR, v2, {('oi_array', 'frame'): w}, hit=('oi_array', 'frame'))
        for fld_, good in (('amptyp', ('', 'absolute', 'differential', 'correlated flux')), ('phityp', ('', 'absolute', 'differential'))):
            for g in good:
                s(V + "%s is '%s'" % (fld_.upper(), g), None, v2, {('oi_vis', fld_): g})
            for w in ('other', 'absolut', 'correlated flux' if fld_ == 'phityp' else 'correlated'):
                s(V + "%s is '%s'" % (fld_.upper(), w), ERR if v2 else None, v2, {('oi_vis', fld_): w}, hit=('oi_vis', fld_) if v2 else None)
        s(V + "CALSTAT is 'U'", None, v2, (), {('oi_flux', 'calstat'): ord('U')})
        for w in 'cX\0':
            s(V + 'CALSTAT is %r' % w, ERR, v2, (), {('oi_flux', 'calstat'): ord(w)}, hit=('oi_flux', 'calstat'))
        for g in ('', 'FWHM', 'RADIUS'):
            s(V + "FOVTYPE is '%s'" % g, None, v2, {('oi_flux', 'fovtype'): g})
        for w in ('fwhm', 'other'):
            s(V + "FOVTYPE is '%s'" % w, ERR, v2, {('oi_flux', 'fovtype'): w}, hit=('oi_flux', 'fovtype'))


def spec_visrefmap(ctx):
    f = 'check_visrefmap'
    A, P, U = ('oi_vis', 'amptyp'), ('oi_vis', 'phityp'), ('oi_vis', 'usevisrefmap')
    for v2 in (True, False):
        for a in ('', 'absolute', 'differential', 'correlated flux'):
            for p in ('', 'absolute', 'differential'):
                for u in (0, 1):
                    diff = 'differential' in (a, p)
                    lev = ERR if diff and not u else WARN if u and not diff else None
                    scen(ctx, f, "%sAMPTYP is '%s', PHITYP '%s' and VISREFMAP is %s" % ('' if v2 else 'OIFITS 1: ', a, p, 'present' if u else 'absent'),
                         lev, hit=U if lev else None, v2=v2, strs={A: a, P: p}, ints={U: u})
    for w in ('diff', 'differentialX', 'Differential', 'absolute'):
        for F, G in ((A, P), (P, A)):
            scen(ctx, f, "%s is '%s' and VISREFMAP is absent" % (F[1].upper(), w), None, strs={F: w, G: ''}, ints={U: 0})


@guarded
def spec_unique(ctx):
    f = 'check_unique_targets'
    P = f + '/'
    scen(ctx, f, 'target names are different', None, found=0)
    scen(ctx, f, 'target names are repeated', WARN, found='nz', hit=lambda fa: {strip_ep(a[1]) for i, a in fa.calls('g_list_find_custom')})
    fa = ctx.fa(f, CO(found=0), stop=STOP)
    fs = list(fa.calls('g_list_find_custom'))
    ins = [(i, a) for i, a in fa.calls('g_list_prepend', 'g_list_append', 'g_list_insert_sorted')]
    for i, a in fs:
        lf = last_field(a[1])
        if lf:
            ctx.expect(lf == ('target', 'target'), P + 'compares names', 'targets are compared by %s' % (lf,), i)
        if a[2] == ('fn', 'strcmp') or a[2] == ('fn', 'g_strcmp0'):
            ctx.good(P + 'compares strings')
        elif a[2][0] in ('null',) or a[2] in (('fn', 'g_direct_equal'), ('fn', 'strcasecmp'), ('fn', 'g_ascii_strcasecmp')):
            ctx.bad(P + 'compares strings', 'target names are not compared exactly', i)
    for i, a in fs:
        vs = joined(fa, a[0])
        if any(v is not None and v[0] == 'ld' and last_field(v[1]) == ('_GList', 'next') for v in vs):
            ctx.bad(P + 'all earlier', 'a target name is not compared with all earlier ones', i)
        else:
            ctx.good(P + 'all earlier')
    if fs:
        if not ins:
            ctx.maybe(P + 'remembers', 'no list built')
        for i, a in ins:
            if strip_ep(a[1]) == strip_ep(fs[0][1][1]):
                m = inevitable(fa, i, {j.bb.name for j, b in ins})
                if m is None:
                    ctx.good(P + 'remembers')
                else:
                    cs = miss_conds(fa, m, i)
                    if cs and all(transparent_cond(c, fa) for c in cs):
                        ctx.bad(P + 'remembers', 'a target name is remembered only when %s' % show(cs[0]), i)
                    else:
                        ctx.maybe(P + 'remembers', 'condition')
            elif last_field(a[1]):
                ctx.bad(P + 'remembers', '%s is remembered instead of the target name' % show(a[1]), i)


def keyed(ctx, fn, look, kind, value, key):
    """assumed results of the lookups for tables of one kind; others find something"""
    d = {}
    for uid, a, i in lookups(ctx, fn, look):
        k = key(a)
        d[uid] = value if k == kind else 'nz'
    return d


def kind_of(t):
    for x in subterms(t):
        if x[0] in ('ld', 'gep'):
            a = x[1] if x[0] == 'ld' else x
            for s in steps_of(a):
                if s[0] == '.' and s[1] in LISTOF:
                    return s[1]
    return None


@guarded
def spec_lookup(ctx, f, look, field, kinds, extra=None):
    key = lambda a: kind_of(a[-1])
    ls = lookups(ctx, f, look)
    P = f + '/'
    for k in kinds + [None]:
        nm = dict((x, 'nz') for x in ())
        calls = {}
        mine = []
        for uid, a, i in ls:
            kk = kind_of(a[-1])
            calls[uid] = 0 if kk == oi(k or '') else 'nz'
            if kk == oi(k or ''):
                mine.append((uid, a, i))
        if k is None:
            scen(ctx, f, 'every reference resolves', None, calls=calls, ints=extra or ())
            continue
        if not mine:
            # nothing looks at tables of this kind
            if ls and all(kind_of(a[-1]) for _, a, _ in ls):
                fa = base(ctx, f)
                ctx.bad(P + k, '%s does not examine OI_%s tables' % (f, k.upper()), fa.F.blocks[fa.F.entry].term)
            else:
                ctx.maybe(P + k, 'lookup not recognised')
            continue
        for uid, a, i in mine:
            lf = last_field(a[-1][1]) if a[-1][0] == 'ld' else last_field(a[-1])
            if lf:
                ctx.expect(lf[1] == field, P + k + ' key', '%s of an OI_%s table is looked up as %s' % (lf[1].upper(), k.upper(), field.upper()), i)

        def hit(fa, k=k):
            out = set()
            for j, b in fa.calls(look):
                if kind_of(b[-1]) == oi(k):
                    out.add(strip_ep(b[-1][1] if b[-1][0] == 'ld' else b[-1]))
            return out or fa.oracle.hits.get((oi(k) + '_record', field)) or fa.oracle.hits.get((oi(k), field)) or out
        scen(ctx, f, 'an OI_%s table refers to a missing %s' % (k.upper(), field.upper()), ERR, hit=hit, calls=calls, ints=extra or ())
        scen(ctx, f, 'OIFITS 1: an OI_%s table refers to a missing %s' % (k.upper(), field.upper()), ERR, v2=False, hit=hit, calls=calls, ints=extra or ())


def spec_arrname(ctx):
    f = 'check_arrname'
    scen(ctx, f, 'ARRNAME is set everywhere', None, ints={('oi_flux', 'calstat'): ord('U')})
    for k in ('inspol', 'vis', 'vis2', 't3', 'flux'):
        for v2 in (True, False):
            scen(ctx, f, '%san OI_%s table has no ARRNAME' % ('' if v2 else 'OIFITS 1: ', k.upper()), ERR if v2 else None, v2=v2,
                 hit=(oi(k), 'arrname') if v2 else None, strs={(oi(k), 'arrname'): ''}, ints={('oi_flux', 'calstat'): ord('U')})
    for cs in 'X\0':
        scen(ctx, f, 'fluxes of CALSTAT %r have no ARRNAME' % cs, None, strs={('oi_flux', 'arrname'): ''}, ints={('oi_flux', 'calstat'): ord(cs)})
    scen(ctx, f, 'calibrated fluxes have no ARRNAME', None, strs={('oi_flux', 'arrname'): ''}, ints={('oi_flux', 'calstat'): ord('C')})


@guarded
def spec_elements(ctx):
    f = 'check_elements_present'
    spec_lookup(ctx, f, 'oi_fits_lookup_element', 'sta_index', ['inspol', 'vis', 'vis2', 't3', 'flux'], {('oi_flux_record', 'sta_index'): 5})
    ls = lookups(ctx, f, 'oi_fits_lookup_element')
    for k in ('vis', 'vis2', 't3', 'flux', 'inspol'):
        for v in (0, -1, -2, 3):
            if k != 'flux' or v != -1:
                scen(ctx, f, 'STA_INDEX of OI_%s is %d and missing' % (k.upper(), v), ERR, calls={uid: (0 if kind_of(a[-1]) == oi(k) else 'nz') for uid, a, i in ls},
                     ints={('oi_flux_record', 'sta_index'): 5, ('oi_%s_record' % k, 'sta_index'): v})
    none = {uid: 0 for uid, a, i in ls}
    some = {uid: 'nz' for uid, a, i in ls}
    for uid, a, i in ls:
        lf, ks = last_field(a[0]), kind_of(a[-1])
        if lf and ks:
            ctx.expect(lf == (ks, 'arrname'), f + '/%s array' % ks, 'elements of an %s table are looked up in the array named by %s of %s' % (ks.upper(), lf[1].upper(), lf[0]), i)
    for k in ('vis', 'vis2', 't3', 'flux'):
        scen(ctx, f, 'OI_%s has no ARRNAME' % k.upper(), None, calls={uid: (0 if kind_of(a[-1]) == oi(k) else 'nz') for uid, a, i in ls}, strs={(oi(k), 'arrname'): ''}, hit=(oi(k), 'arrname'),
             ints={('oi_flux_record', 'sta_index'): 5})
    scen(ctx, f, 'OI_INSPOL has no ARRNAME', ERR, calls=some, strs={('oi_inspol', 'arrname'): ''}, hit=('oi_inspol', 'arrname'), ints={('oi_flux_record', 'sta_index'): 5})
    scen(ctx, f, 'STA_INDEX of OI_FLUX is absent', None, hit=('oi_flux_record', 'sta_index'), calls={uid: (0 if kind_of(a[-1]) == 'oi_flux' else 'nz') for uid, a, i in ls},
         ints={('oi_flux_record', 'sta_index'): -1})


def spec_corr(ctx):
    f = 'check_corr_present'
    spec_lookup(ctx, f, 'oi_fits_lookup_corr', 'corrname', DATA)
    ls = lookups(ctx, f, 'oi_fits_lookup_corr')
    for k in DATA:
        scen(ctx, f, 'OI_%s has no CORRNAME' % k.upper(), None, calls={uid: (0 if kind_of(a[-1]) == oi(k) else 'nz') for uid, a, i in ls}, strs={(oi(k), 'corrname'): ''}, hit=(oi(k), 'corrname'))


ERRF = [('vis', 'visamperr'), ('vis', 'visphierr'), ('vis2', 'vis2err'), ('t3', 't3amperr'), ('t3', 't3phierr')]


def spec_flagging(ctx):
    f = 'check_flagging'
    fl = {('oi_%s_record' % k, 'flag'): 0 for k in DATA}
    ok = {('oi_%s_record' % k, e): 0.5 for k, e in ERRF}
    scen(ctx, f, 'all errors are positive', None, ints=fl, nums=ok)
    for k, e in ERRF:
        K = ('oi_%s_record' % k, e)
        scen(ctx, f, 'unflagged %s values are negative' % e.upper(), ERR, hit=K, ints=fl, nums={**ok, K: -0.25})
        scen(ctx, f, 'unflagged %s values are slightly negative' % e.upper(), ERR, ints=fl, nums={**ok, K: -1e-12})
        scen(ctx, f, '%s is zero' % e.upper(), None, hit=K, ints=fl, nums={**ok, K: 0.0})
        scen(ctx, f, 'flagged %s values are negative' % e.upper(), None, hit=('oi_%s_record' % k, 'flag'), ints={**fl, ('oi_%s_record' % k, 'flag'): 1}, nums={**ok, K: -0.25})


def spec_t3amp(ctx):
    f = 'check_t3amp'
    A, E, F = ('oi_t3_record', 't3amp'), ('oi_t3_record', 't3amperr'), ('oi_t3_record', 'flag')
    for a, e, fl, lev in ((0.5, 0.25, 0, None), (1.25, 0.5, 0, None), (1.5, 0.5, 0, None), (1.75, 0.5, 0, ERR), (3.0, 0.5, 0, ERR), (1.25, 0.125, 0, ERR),
                          (3.0, 0.5, 1, None), (1.0, 0.0, 0, None), (1.25, 0.0, 0, ERR), (1.0 + 1e-9, 0.0, 0, ERR), (-3.0, 0.5, 0, None)):
        scen(ctx, f, 'T3AMP=%s T3AMPERR=%s%s' % (a, e, ' flagged' if fl else ''), lev, hit=F if fl else A, nums={A: a, E: e}, ints={F: fl})


class WO(CO):
    def __init__(self, order, **k):
        CO.__init__(self, **k)
        self.order_ = order
        self.pairs = set()

    def begin(self):
        CO.begin(self)
        self.pairs = set()

    def rel(self, a, b):
        fa_, fb = (cell(x[1]) if x[0] == 'ld' else None for x in (a, b))
        if fa_ == fb == ('oi_wavelength', 'eff_wave'):
            ia, ib = strip_ep(elem_index(a)), strip_ep(elem_index(b))
            d = ladd(ia, ib, -1)
            if d[0] == 'c' and d[1] != 0:
                lo = ib if d[1] > 0 else ia
                if abs(d[1]) == 1:
                    self.pairs.add(lo)
                r = self.order_
                if r == '=':
                    return '='
                return r if d[1] > 0 else ('<' if r == '>' else '>')
            return None
        return CO.rel(self, a, b)


@guarded
def spec_waveorder(ctx):
    f = 'check_waveorder'
    for order, lev, what in (('>', None, 'wavelengths ascend'), ('=', None, 'wavelengths are equal'), ('<', WARN, 'wavelengths descend')):
        oid = f + '/' + what
        o = WO(order)
        fa = ctx.fa(f, o, stop=STOP)
        st = incs(fa)
        if lev is None:
            if not st:
                ctx.good(oid)
            else:
                m = inevitable(fa, st[0][0], ())
                cs = miss_conds(fa, m, st[0][0]) if m else []
                if not m or cs and all(transparent_cond(c, fa) for c in cs):
                    ctx.bad(oid, '%s reports a breach although %s' % (f, what), st[0][0])
                else:
                    ctx.maybe(oid, 'cond')
            continue
        if not st:
            ctx.bad(oid, '%s does not report that %s' % (f, what), fa.F.blocks[fa.F.entry].term) if o.pairs else ctx.maybe(oid, 'comparison not recognised')
            continue
        m = min((inevitable(fa, i, {j.bb.name for j, v, a in st}) or () for i, v, a in st), key=len)
        if m:
            cs = miss_conds(fa, m, st[0][0])
            if cs and all(transparent_cond(c, fa) for c in cs):
                ctx.bad(oid, '%s does not report that %s when %s' % (f, what, show(cs[0])), st[0][0])
            else:
                ctx.maybe(oid, 'cond')
            continue
        ctx.good(oid)
        lv = {v for i, (v, a) in fa.stores() if last_field(a) == (RES, 'level') and v != C(0)}
        ctx.expect(lv == {C(lev)}, oid + ' severity', '%s records severity %s' % (f, [show(v) for v in lv]), st[0][0]) if all(v[0] == 'c' for v in lv) else ctx.maybe(oid + ' severity', 'form')
        # all adjacent pairs
        tabn = None
        for i, a in fa.calls():
            pass
        pairs = [p for p in o.pairs if len(iters_in(p)) == 1]
        res = []
        for p in pairs:
            h = next(iter(iters_in(p)))
            n = [c for c in count_of(fa, h)]
            d = ladd(p, ('iter', h), -1)
            if len(n) == 1 and n[0] is not None and d[0] == 'c':
                # low indices d .. d+n-1 must be 0 .. nwave-2
                nw = [x for x in subterms(n[0]) if x[0] == 'ld' and last_field(x[1]) == ('oi_wavelength', 'nwave')]
                if nw:
                    e = ladd(ladd(n[0], nw[0], -1), C(d[1] + 1))
                    res.append(d[1] == 0 and e == C(0) if e[0] == 'c' else None)
                    continue
            res.append(None)
        if any(r is True for r in res):
            ctx.good(oid + ' scanned')
        elif res and all(r is False for r in res):
            ctx.bad(oid + ' scanned', '%s does not compare every pair of adjacent channels' % f, st[0][0])
        else:
            ctx.maybe(oid + ' scanned', str(pairs))
    # list
    fa = ctx.fa(f, WO('<'), stop=STOP)
    ads = {x for b in fa.brval.values() if b is not None for x in subterms(b) if x[0] == 'liter'}
    lis = {x for i, a in fa.calls() for y in a for x in subterms(y) if x[0] == 'liter'} | ads
    scan(ctx, f + '/tables scanned', f, fa, lis, None, fa.F.blocks[fa.F.entry].term)


def spec_time(ctx):
    f = 'check_time'
    T = {('oi_%s_record' % k, 'time'): 0.0 for k in ('vis', 'vis2', 't3')}
    scen(ctx, f, 'TIME is zero', None, nums=T)
    for K in T:
        for v in (1.0, -1.0, 86000.0):
            scen(ctx, f, 'TIME of %s is %s' % (K[0], v), WARN, hit=K, nums={**T, K: v})
        scen(ctx, f, 'OIFITS 1: TIME of %s is set' % K[0], None, v2=False, nums={**T, K: 1.0})


def spec_flux(ctx):
    f = 'check_flux'
    A, S, Fv, Cs = ('oi_flux', 'arrname'), ('oi_flux_record', 'sta_index'), ('oi_flux', 'fovtype'), ('oi_flux', 'calstat')
    for cs in 'X\0c':
        for a in ('', 'x'):
            for s_ in (-1, 5):
                scen(ctx, f, "CALSTAT is %r, ARRNAME '%s', STA_INDEX %d, FOVTYPE 'FWHM'" % (cs, a, s_), None, strs={A: a, Fv: 'FWHM'}, ints={S: s_, Cs: ord(cs)})
    for cs in 'CU':
        for a in ('', 'x'):
            for s in (-1, 0, 5):
                for v in ('', 'FWHM'):
                    bad = []
                    if cs == 'C':
                        bad = [A] if a else []
                        bad += [S] if s != -1 else []
                    else:
                        bad = [A] if not a else []
                        bad += [S] if s == -1 else []
                        bad += [Fv] if v else []
                    scen(ctx, f, "CALSTAT is %s, ARRNAME '%s', STA_INDEX %d, FOVTYPE '%s'" % (cs, a, s, v), ERR if bad else None,
                         hit=bad[0] if bad else None, cover='first', times=len(bad), strs={A: a, Fv: v}, ints={S: s, Cs: ord(cs)})


# ---------------------------------------------------------------- result bookkeeping
FUNCS = ['check_tables', 'check_header', 'check_keywords', 'check_visrefmap', 'check_unique_targets', 'check_targets_present', 'check_arrname',
         'check_elements_present', 'check_corr_present', 'check_flagging', 'check_t3amp', 'check_waveorder', 'check_time', 'check_flux']


@guarded
def result(ctx, f):
    P = f + '/'
    stop = [s for s in STOP if s != 'init_check_result']
    fa = ctx.fa(f, Oracle(), stop=stop)
    res = arg_of(fa, 1)
    anchor = fa.F.blocks[fa.F.entry].term
    # initialised before anything is recorded
    first = {}
    for i, (v, a) in fa.stores():
        lf = last_field(a)
        if lf and lf[0] == RES and lf[1] in ('level', 'numBreach', 'description') and a == fld(res, RES, lf[1]) and v in (C(0), ('null',)) and not nest(fa, i.bb.name):
            first.setdefault(lf[1], i)
    for fl in ('level', 'numBreach', 'description'):
        if fl in first:
            m = fa.must_pass(fa.F.entry, {first[fl].bb.name}, {b.name for b in rets(fa)})
            ctx.expect(m is None or first[fl].bb.name == fa.F.entry, P + 'initialises ' + fl, '%s does not always initialise %s' % (f, fl), first[fl])
        elif any((i.callee or '').startswith(('llvm.memset', 'memset')) for i, a in fa.calls()):
            ctx.maybe(P + 'initialises ' + fl, 'memset')
        else:
            ctx.bad(P + 'initialises ' + fl, '%s does not initialise %s of the result' % (f, fl), anchor)
    nulls = [(i, steps_of(a)[-1][1]) for i, (v, a) in fa.stores() if last_field(a) == (RES, 'location') and v in (C(0), ('null',)) and steps_of(a)[-1][0] == '[']
    if nulls:
        r = full_cover(fa, nulls, C(10))
        if r is False:
            ctx.bad(P + 'initialises locations', '%s does not clear every location of the result' % f, nulls[0][0])
        elif r:
            ctx.good(P + 'initialises locations')
    # returns the severity recorded
    for b in rets(fa):
        r = fa.args.get(id(b.term), (None,))[0]
        lv = fa.mem_load(fa.out[b.name], fld(res, RES, 'level'), None)
        if r is None:
            continue
        if strip_ep(r) == strip_ep(lv):
            ctx.good(P + 'returns the severity')
        elif r[0] == 'c' or r[0] == 'ld' or r[0] == 'mphi':
            ctx.bad(P + 'returns the severity', '%s returns %s instead of the severity found' % (f, show(r)), b.term)
        else:
            ctx.maybe(P + 'returns the severity', show(r))
    for n in (1, 9, 10, 11, 1000):
        for L in (1, 2):
            o = CO(level=L, nbreach=n)
            fb = ctx.fa(f, o, stop=STOP)
            for b in rets(fb):
                r = fb.args.get(id(b.term), (None,))[0]
                oid = P + 'returns severity %d after %d' % (L, n)
                if r is None:
                    continue
                elif r == C(L):
                    ctx.good(oid)
                elif r[0] == 'c':
                    ctx.bad(oid, '%s returns %s after %d breaches, the worst of severity %d' % (f, show(r), n, L), b.term)
                else:
                    ctx.maybe(oid, show(r))
    # locations: only inside the array, in order
    for n in (0, 4, 8, 9, 10, 11, 1000):
        o = Oracle()
        heads = set(ctx.inlined(f, stop).loops)
        o.val = lambda t, n=n: n if t[0] == 'mphi' and t[1] in heads and last_field(t[2]) == (RES, 'numBreach') else None
        fb = ctx.fa(f, o, stop=stop)
        for i, (v, a) in fb.stores():
            lf = last_field(a)
            if lf == (RES, 'location') and not (v == ('null',) or v == C(0)):
                idx = steps_of(a)[-1][1] if steps_of(a)[-1][0] == '[' else C(0)
                cur = fb.mem_load(state_at(fb, i), fld(res, RES, 'numBreach'), None)
                oid = P + 'location after %s' % n
                if cur[0] != 'c' or idx[0] != 'c':
                    if idx[0] == 'c' and not 0 <= idx[1] < 10:
                        ctx.bad(oid, '%s stores a location beyond the end of the list' % f, i)
                    elif cur[0] != 'c':
                        continue
                    else:
                        ctx.maybe(oid, '%s with %s' % (show(idx), show(cur)))
                elif not 0 <= idx[1] < 10:
                    ctx.bad(oid, '%s stores location %d of 10 after %d breaches' % (f, idx[1], n), i)
                elif idx[1] != min(cur[1], 10) - 1:
                    ctx.bad(oid, '%s stores the location of breach %d in entry %d' % (f, cur[1], idx[1]), i)
                else:
                    ctx.good(oid)
        if n < 10:
            # the location of each reported breach is kept
            pass


import re
CONV = re.compile(r'%[-+ #0]*[0-9]*(?:\.[0-9]+)?(?:hh|h|ll|l|z)?([a-zA-Z%])')
NAMES = {'OI_ARRAY': 'arrayList', 'OI_WAVELENGTH': 'wavelengthList', 'OI_CORR': 'corrList', 'OI_INSPOL': 'inspolList', 'OI_VIS': 'visList', 'OI_VIS2': 'vis2List',
         'OI_T3': 't3List', 'OI_FLUX': 'fluxList'}


def pieces(fmt, args):
    """[(text before, conversion, argument)] of a formatted print; constant strings are part of the text"""
    out, text, pos = [], '', 0
    args = list(args)
    for m in CONV.finditer(fmt):
        text += fmt[pos:m.start()]
        pos = m.end()
        if m.group(1) == '%':
            text += '%'
            continue
        if not args:
            return None
        a = args.pop(0)
        if m.group(1) == 's' and a[0] == 'str':
            text += a[2].split(b'\0')[0].decode('latin1')
            continue
        out.append((text, m.group(1), a))
        text = ''
    return None if args else out


def listpos(fa, t):
    """(list, element, offset) of an expression of a position in a list"""
    c, ts = tolin(t)
    if len(ts) != 1:
        return None
    (x, k), = ts.items()
    if k != 1 or x[0] != 'app' or x[1] not in ('g_list_position', 'g_list_index'):
        return None
    return x[2][0], x[2][1], c


@guarded
def locations(ctx, f):
    """the text naming the place of a breach: kind of table, its number, record and channel numbers, from 1"""
    fa = ctx.fa(f, Oracle(), stop=STOP)
    for i, a in fa.calls('g_snprintf', 'snprintf', 'sprintf', '__snprintf_chk', 'g_string_printf'):
        k = next((n for n, x in enumerate(a) if x[0] == 'str'), None)
        if k is None:
            continue
        ps = pieces(a[k][2].split(b'\0')[0].decode('latin1'), a[k + 1:])
        P = '%s/location %s' % (f, i.bb.name)
        if ps is None:
            ctx.maybe(P, 'format')
            continue
        for text, conv, t in ps:
            if conv not in 'diu':
                continue
            m = re.search(r'(OI_[A-Z0-9]+) #$', text)
            if m and m.group(1) in NAMES:
                name, li = m.group(1), NAMES[m.group(1)]
                lp = listpos(fa, t)
                oid = P + ' ' + name
                if lp is None:
                    ctx.maybe(oid, show(t))
                    continue
                L, e, c = lp
                lf = last_field(strip_ep(L)[1]) if L[0] == 'ld' else None
                el = next((x for x in subterms(e) if x[0] == 'liter'), None)
                ef = last_field(strip_ep(el[1])[1]) if el is not None and el[1][0] == 'ld' else None
                if lf and lf[0] == 'oi_fits' and lf[1] != li:
                    ctx.bad(oid, '%s numbers an %s table by its position in %s' % (f, name, lf[1]), i)
                elif ef and ef[0] == 'oi_fits' and ef[1] != li:
                    ctx.bad(oid, '%s calls an element of %s %s' % (f, ef[1], name), i)
                elif c != 1 and lf:
                    ctx.bad(oid, '%s numbers %s tables from %d' % (f, name, c), i)
                elif lf and ef:
                    ctx.good(oid)
                else:
                    ctx.maybe(oid, show(t))
                continue
            m = re.search(r'\b(record|channel) $', text)
            if m and f == 'check_waveorder':
                c, ts = tolin(strip_ep(t))
                if len(ts) == 1 and next(iter(ts))[0] == 'iter' and next(iter(ts.values())) == 1:
                    ctx.expect(c >= 1, P + ' channel', '%s numbers channels from %d' % (f, c), i)
            if m and f != 'check_waveorder':
                oid = P + ' ' + m.group(1)
                c, ts = tolin(strip_ep(t))
                if len(ts) != 1 or next(iter(ts.items()))[0][0] != 'iter' or next(iter(ts.items()))[1] != 1:
                    ctx.maybe(oid, show(t))
                    continue
                h = next(iter(ts))[1]
                n = [last_field(x[1]) if x is not None and x[0] == 'ld' else None for x in count_of(fa, h)]
                want = 'numrec' if m.group(1) == 'record' else 'nwave'
                if len(n) != 1 or n[0] is None or n[0][1] not in ('numrec', 'nwave'):
                    ctx.maybe(oid, 'loop')
                elif n[0][1] != want:
                    ctx.bad(oid, '%s gives the %s number for the %s' % (f, 'channel' if want == 'numrec' else 'record', m.group(1)), i)
                else:
                    ctx.expect(c == 1, oid, '%s numbers %ss from %d' % (f, m.group(1), c), i)
            m = re.search(r'\bTARGET_ID[= ]*$|\btarget_id[= ]*$', text)
            if m and iters_in(strip_ep(t)) and all(x[0] == 'iter' for x in tolin(strip_ep(t))[1]):
                ctx.bad(P + ' target', '%s gives the position of a target as its TARGET_ID' % f, i)
            if m and t[0] == 'ld':
                lf = last_field(t[1])
                if lf:
                    ctx.expect(lf == ('target', 'target_id'), P + ' target', '%s gives %s as TARGET_ID' % (f, show(t)), i)


@guarded
def formatting(ctx):
    f = 'format_check_result'
    P = f + '/'
    for lev, n in ((0, 0), (1, 1), (2, 9), (2, 10), (2, 11), (3, 500)):
        o = Oracle()

        def val(t, lev=lev, n=n):
            lf = last_field(t[1]) if t[0] == 'ld' else None
            return lev if lf == (RES, 'level') else n if lf == (RES, 'numBreach') else None
        o.val = val
        fa = ctx.fa(f, o)
        rs = [fa.args.get(id(b.term), (None,))[0] for b in rets(fa)]
        if lev == 0:
            if all(r in (('null',), C(0)) for r in rs):
                ctx.good(P + 'no breach')
            elif any(r is not None and r[0] == 'ld' for r in rs):
                ctx.bad(P + 'no breach', 'format_check_result describes a breach although there is none', fa.F.blocks[fa.F.entry].term)
            else:
                ctx.maybe(P + 'no breach', str(rs))
            continue
        if any(r in (('null',), C(0)) for r in rs) and len(rs) == 1:
            ctx.bad(P + 'breach', 'format_check_result gives no description of a breach of severity %d' % lev, fa.F.blocks[fa.F.entry].term)
        else:
            ctx.good(P + 'breach')
        summary(ctx, P + '%d of severity %d' % (n, lev), fa, lev, n)
        reads = []
        for b in fa.F.rpo:
            if b.name in fa.reach:
                for i in b.insts:
                    if i.op == 'load' and id(i) in fa.args and last_field(fa.args[id(i)][0]) == (RES, 'location'):
                        a = fa.args[id(i)][0]
                        reads.append((i, steps_of(a)[-1][1] if steps_of(a)[-1][0] == '[' else C(0)))
        oid = P + 'locations of %d' % n
        if not reads:
            ctx.bad(oid, 'format_check_result does not list the locations', fa.F.blocks[fa.F.entry].term)
            continue
        r = full_cover(fa, reads, C(min(n, 10)))
        for i, x in reads:
            c, ts = tolin(strip_ep(x))
            if len(ts) == 1 and next(iter(ts))[0] == 'iter':
                ctx.expect(next(iter(ts.values())) > 0, P + 'order', 'format_check_result lists the locations in reverse', i)
        if r is True:
            ctx.good(oid)
        else:
            h = [h for i, x in reads for h in iters_in(x)]
            c = [c for x in h for c in count_of(fa, x)]
            if r is False or (len(c) == 1 and c[0] is not None and c[0][0] == 'c'):
                ctx.bad(oid, 'format_check_result lists %s locations of %d' % (show(c[0]) if c and c[0] else '?', min(n, 10)), reads[0][0])
            else:
                ctx.maybe(oid, 'count')


@guarded
def summary(ctx, oid, fa, lev, n):
    """the text starts anew and gives severity, description and number of occurrences"""
    ops = ('g_string_printf', 'g_string_append_printf', 'g_string_assign', 'g_string_truncate', 'g_string_set_size', 'g_string_append', 'g_string_append_c',
           'g_string_append_len', 'g_string_erase', 'g_string_new', 'g_string_insert', 'g_string_prepend')
    cs = [(i, a) for i, a in fa.calls(*ops)]
    fresh = [(i, a) for i, a in cs if i.callee in ('g_string_printf', 'g_string_assign', 'g_string_new') or i.callee in ('g_string_truncate', 'g_string_set_size') and a[1] == C(0)
             or i.callee == 'g_string_erase']
    ends = {b.name for b in rets(fa)}
    direct = [(i, a) for i, a in cs if a and a[0][0] in ('ld', 'call', 'phi', 'mphi')]
    if not fresh and len(direct) and not any(i.callee == 'g_string_free' for i, a in fa.calls()):
        ctx.bad(oid + ' text', 'format_check_result appends to the text of an earlier result', direct[0][0])
    elif fresh and fa.must_pass(fa.F.entry, {i.bb.name for i, a in fresh}, ends) is None:
        ctx.good(oid + ' text')
    else:
        ctx.maybe(oid + ' text', 'form')
    seen = {'level': None, 'description': None, 'numBreach': None}
    und = False
    nums = []
    table = []
    for m in ctx.prog().modules:
        g = m.globals.get('oi_breach_level_desc')
        if g and g.get('init') and g['init'][0] == 'agg':
            ys = [m.globals.get(x[1][1]) if x[0] == 'ptr' and x[1][0] == 'g' else None for x in g['init'][1]]
            table = [y['init'][1] if y and y.get('init') and y['init'][0] == 'bytes' else None for y in ys]
    for i, a in fa.calls('g_string_printf', 'g_string_append_printf', 'g_snprintf', 'snprintf', 'g_strdup_printf'):
        k = next((x for x, y in enumerate(a) if y[0] == 'str'), None)
        ps = pieces(a[k][2].split(b'\0')[0].decode('latin1'), a[k + 1:]) if k is not None else None
        if ps is None:
            und = True
            continue
        for t in a:
            if t[0] == 'str' and len(table) > lev and table.count(table[lev]) == 1 and table.count(t[2]) == 1:
                ctx.expect(t[2] == table[lev], oid + ' severity', 'format_check_result describes severity %d as %d' % (lev, table.index(t[2])), i)
        for text, conv, t in ps:
            if conv in 'diul':
                nums.append((i, t))
            if t[0] == 'ld' and last_field(t[1]) == (RES, 'description'):
                seen['description'] = True
            b = base_of(t[1]) if t[0] == 'ld' else None
            if b is not None and b[0] == 'glob' and b[1] == 'oi_breach_level_desc':
                idx = steps_of(t[1])[-1][1] if steps_of(t[1]) and steps_of(t[1])[-1][0] == '[' else C(0)
                if idx[0] == 'c':
                    ctx.expect(idx[1] == lev, oid + ' severity', 'format_check_result describes severity %d as %d' % (lev, idx[1]), i)
                    seen['level'] = True
    if len(nums) == 1 and not nest(fa, nums[0][0].bb.name) and nums[0][1][0] == 'c':
        ctx.expect(nums[0][1][1] == n, oid + ' count', 'format_check_result gives %d occurrences instead of %d' % (nums[0][1][1], n), nums[0][0])
    else:
        ctx.maybe(oid + ' count', 'form')


def checker(ctx):
    spec_tables(ctx)
    spec_header(ctx)
    spec_keywords(ctx)
    spec_visrefmap(ctx)
    spec_unique(ctx)
    spec_lookup(ctx, 'check_targets_present', 'oi_fits_lookup_target', 'target_id', DATA)
    spec_arrname(ctx)
    spec_elements(ctx)
    spec_corr(ctx)
    spec_flagging(ctx)
    spec_t3amp(ctx)
    spec_waveorder(ctx)
    spec_time(ctx)
    spec_flux(ctx)
    for f in FUNCS:
        result(ctx, f)
        locations(ctx, f)
    formatting(ctx)
