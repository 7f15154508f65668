"""Command-line programs (C17): oifits-check, oifits-filter, oifits-merge, oifits-upgrade."""
from engine.lib import *
from .schema import transparent_cond, miss_conds
from .merge import anchor, swrites
from .query import onward

EXITS = ('exit', '_exit', '_Exit', 'quick_exit')
ABORTS = ('abort', 'g_abort', '__assert_fail', 'g_assertion_message_expr', 'g_assertion_message')
CHECKFNS = ['check_tables', 'check_header', 'check_keywords', 'check_visrefmap', 'check_unique_targets', 'check_targets_present', 'check_arrname',
            'check_elements_present', 'check_corr_present', 'check_flagging', 'check_t3amp', 'check_waveorder', 'check_time', 'check_flux']


def plain(c, fa):
    """a condition on what the program is given, none of it assumed (an assumed pointer may point to anything)"""
    there = {x[1] for x in subterms(c) if x[0] == 'ld'} - {x for x in (c[2:] if c[0] == 'op' else ()) if isinstance(x, tuple)}
    for x in subterms(c):
        if x in there and fa.oracle.val(x) == 'nz':
            continue
        if x[0] == 'phi' and not transparent_cond(x, fa) or x[0] == 'undef' or x[0] == 'mphi' and last_field(x[2]) is None:
            return False
        if x[0] == 'call' and x[1] not in ('?', '_chkmalloc', 'malloc', 'g_malloc', 'g_malloc0') and x[1] not in CHECKFNS:
            return False
        if x[0] in ('ld', 'call', 'app', 'mphi', 'arg') and fa.oracle.val(x) is not None:
            return False
    return True


def allplain(fa, blocks=None):
    return all(c is None or c[0] == 'c' or plain(c, fa) for n, c in open_conds(fa, blocks))


class TO(Oracle):
    """cells: {(callee or instruction, address): value the cell holds after that call}; calls: {callee or uid: result};
    args/globs/fields: values of arguments, global variables, structure members; force: assumed loop-carried values; least: lower bound of argc"""
    def __init__(self, tok=None, cells=(), calls=(), args=(), globs=(), fields=(), force=(), least=None, argc=None):
        self.tok, self.cells, self.calls, self.args = tok or {}, dict(cells), dict(calls), dict(args)
        self.globs, self.fields, self.force = dict(globs), dict(fields), dict(force)
        self.least, self.argc = least, argc

    def val(self, t):
        if t[0] == 'arg' and t[1] in self.args:
            return self.args[t[1]]
        if t[0] in ('call', 'app'):
            if t[0] == 'call' and t[2] in self.calls:
                return self.calls[t[2]]
            return self.calls.get(t[1])
        if t[0] == 'ld':
            a = t[1]
            if len(t) > 2 and t[2] in self.tok:
                w = self.tok[t[2]]
                for k in ((w[1], a), (w[0], a)):
                    if k in self.cells:
                        return self.cells[k]
            if a[0] == 'glob' and a[1] in self.globs:
                return self.globs[a[1]]
            f = last_field(a)
            if f in self.fields:
                return self.fields[f]
        if t[0] == 'mphi':
            f = last_field(t[2])
            if f in self.fields:
                return self.fields[f]
            vs = {v for (w, a), v in self.cells.items() if a == t[2]}
            if vs == {0}:
                return 0
        return None

    def isargc(self, a):
        return a[0] == 'arg' and a[1] == 0 or self.argc is not None and a[0] == 'ld' and a[1] == self.argc

    def rel(self, a, b):
        if self.least is not None and self.isargc(a) and b[0] == 'c':
            return '>' if b[1] < self.least else {'=', '>'} if b[1] == self.least else None
        if b[0] == 'c' and b[1] <= 1 and a[0] != 'c' and self.val(a) == 'nz':
            return '>' if b[1] < 1 else {'=', '>'}          # error codes and counts are positive
        return None


class Tool:
    """one program: its main function analysed under assumptions"""
    def __init__(self, ctx, name):
        self.ctx, self.name, self.kind = ctx, name, 'tool:' + name
        self.F = ctx.inlined('main', (), self.kind)
        self.tok = {}
        for b in self.F.rpo:
            for i in b.insts:
                if i.op == 'call':
                    self.tok['c:%s:%d' % (b.name, i.idx)] = (i.callee, i.res)
        self.plain = self.run()

    def run(self, **kw):
        fa = self.ctx.fa('main', TO(self.tok, **kw), kind=self.kind)
        preds = {}
        for a, b in fa.exec_edges:
            preds.setdefault(b, []).append(a)
        live = {i.bb.name for i, c in ends(fa)}
        st = list(live)
        while st:
            for p in preds.get(st.pop(), ()):
                if p not in live:
                    live.add(p)
                    st.append(p)
        fa._dead = live
        return fa


def ends(fa):
    """[(instruction, exit status)] where the program ends"""
    out = []
    for b in fa.F.rpo:
        if b.name not in fa.reach:
            continue
        for i in b.insts:
            if i.op == 'call' and i.callee in EXITS and id(i) in fa.args:
                out.append((i, fa.args[id(i)][0]))
        if b.term.op == 'ret' and fa.args.get(id(b.term)):
            out.append((b.term, fa.args[id(b.term)][0]))
    return out


def region(fa, pos):
    """(blocks reachable after position pos = (block, index), edges taken); the start block is included only as a start"""
    edges, ok = set(), set()
    st = [pos[0]]
    while st:
        x = st.pop()
        if x in ok:
            continue
        ok.add(x)
        for s in onward(fa, x):
            edges.add((x, s))
            if s not in ok:
                st.append(s)
    return ok, edges


def after(i):
    return i.bb.name, i.idx


def start(fa):
    return fa.F.entry, -1


def statuses(fa, pos):
    """values the program may exit with, when at position pos"""
    ok, edges = region(fa, pos)
    out = []

    def go(t, seen):
        if t in seen:
            return
        if t is not None:
            t = fa.resolve_val(t)
        if t is not None and t[0] == 'phi':
            i = fa.F.defs.get(t[1])
            if i is not None and i.bb.name not in fa.F.loops:
                for p, o in zip(i.x['preds'], i.ops):
                    if (p, i.bb.name) in edges or (p, i.bb.name) in fa.exec_edges and p == pos[0]:
                        go(fa.t(o), seen | {t})
                return
        if t is not None and t[0] == 'sel':
            d = fa.decide_bool(t[1])
            for y in (t[2:4] if d is None else [t[2 if d else 3]]):
                go(y, seen | {t})
            return
        if t not in out:
            out.append(t)
    for i, c in ends(fa):
        if i.bb.name in ok and (i.bb.name != pos[0] or i.idx > pos[1] or i.op == 'ret'):
            go(c, frozenset())
    return out


def stat(fa, t):
    """exit status as a number, 'nz', or None"""
    if t is None:
        return None
    if t[0] == 'c':
        return t[1] & 255
    v = fa.oracle.val(t)
    if v is not None:
        return v
    d = fa.decide_bool(t)
    return None if d is None else 'nz' if d else 0


def follow(fa, pos, label):
    """first labelled instructions met after pos on every path: {label: [inst]}; a path that ends gives 'exit'"""
    out = {}
    seen = set()
    st = [pos]
    stop = {id(i) for i, c in ends(fa)}
    while st:
        n, k = st.pop()
        b = fa.F.blocks[n]
        hit = False
        for i in list(b.insts) + ([b.term] if b.term not in b.insts else []):
            if i is not b.term and i.idx <= k:
                continue
            l = None
            if i.op == 'call' and id(i) in fa.args:
                l = label(i, fa.args[id(i)])
            if l is None and id(i) in stop:
                l = 'exit'
            if l is not None:
                out.setdefault(l, []).append(i)
                hit = True
                break
            if i.op == 'call' and i.callee in ABORTS:
                hit = True
                break
        if hit:
            continue
        for s in onward(fa, n):
            if s not in seen:
                seen.add(s)
                st.append((s, -1))
    return out


def mayreach(fa, pos, insts):
    """those of insts some path from pos executes"""
    ok, edges = region(fa, pos)
    back = {b for a, b in edges}
    return [i for i in insts if i.bb.name in ok and (i.bb.name in back or i.bb.name != pos[0] or i.idx > pos[1])]


def missed(fa, pos, insts):
    """a path from pos to an end without any of insts, or None"""
    endb = {i.bb.name for i, c in ends(fa)}
    here = [i for i in insts if i.bb.name == pos[0] and i.idx > pos[1]]
    if here:
        return None
    g = {i.bb.name for i in insts}
    if pos[0] in endb and any(i.bb.name == pos[0] for i, c in ends(fa)):
        return (pos[0],)
    for s in onward(fa, pos[0]):
        if s in g:
            continue
        m = fa.must_pass(s, g, endb)
        if m:
            return (pos[0],) + m
        if s in endb:
            return (pos[0], s)
    return None


def always(ctx, oid, fa, pos, insts, msg, inst=None):
    """some of insts is executed on every path from pos to the end"""
    m = missed(fa, pos, insts)
    if m is None:
        ctx.good(oid)
        return True
    got = mayreach(fa, pos, insts)
    cs = [c for i in got for c in miss_conds(fa, m, i)]
    if not got or cs and all(plain(c, fa) for c in cs):
        ctx.bad(oid, msg + (': only when %s' % show(cs[0]) if cs else ''), inst or anchor(fa))
        return False
    ctx.maybe(oid, [show(c) for c in cs])
    return None


def never(ctx, oid, fa, pos, insts, msg):
    got = mayreach(fa, pos, insts)
    if not got:
        ctx.good(oid)
        return True
    if allplain(fa, region(fa, pos)[0]) or missed(fa, pos, got) is None:
        ctx.bad(oid, msg, got[0])
        return False
    ctx.maybe(oid, 'conditions')
    return None


def leaves(ctx, oid, fa, pos, want, msg, inst=None):
    """want: 0, 'nz' or a number: the exit status of every path from pos"""
    ss = statuses(fa, pos)
    vs = [stat(fa, t) for t in ss]
    def right(v):
        return v is not None and (v != 0 if want == 'nz' else v == want)
    wrong = [t for t, v in zip(ss, vs) if v is not None and not right(v)]
    if ss and all(right(v) for v in vs):
        ctx.good(oid)
        return True
    if wrong and (len(wrong) == len(ss) or allplain(fa, region(fa, pos)[0])):
        ctx.bad(oid, '%s ends with status %s' % (msg, show(wrong[0])), inst or anchor(fa))
        return False
    ctx.maybe(oid, [show(t) if t else None for t in ss])
    return None


def cell_of(fa, inst, k):
    """address passed as argument k"""
    a = fa.args[id(inst)]
    return strip_ep(a[k]) if k < len(a) else None


def only(ctx, oid, fa, names, msg):
    """the only call of one of names"""
    cs = [(i, a) for i, a in fa.calls(*names)]
    if not cs:
        ctx.bad(oid, msg, anchor(fa))
        return None
    if len(cs) > 1:
        ctx.maybe(oid, '%d calls' % len(cs))
        return None
    return cs[0]


def argname(fa, t, argv):
    """index of the command-line argument a file name comes from, or None"""
    t = strip_ep(t)
    if t[0] == 'ld' and len(t) > 1:
        a = t[1]
        if base_of(a) in argv:
            st = steps_of(a)
            return st[0][1] if st else C(0)
        return None
    b = base_of(t)
    if b[0] in ('alloca', 'glob') and not [x for x in steps_of(t) if x[0] != '[' or x[1] != C(0)]:
        ws = [(i, s, n) for i, d, s, n in swrites(fa) if base_of(strip_ep(d)) == b]
        if len(ws) == 1 and ws[0][1] is not None and (ws[0][2] is None or ws[0][2][0] != 'c' or ws[0][2][1] >= 1025):
            return argname(fa, ws[0][1], argv)
    if t[0] == 'call' and t[1] in ('g_strdup', 'strdup', 'g_strndup'):
        i = fa.F.defs.get(t[2])
        if i is not None and id(i) in fa.args:
            return argname(fa, fa.args[id(i)][0], argv)
    return None


def expect_name(ctx, oid, fa, t, argv, k, msg, inst):
    r = argname(fa, t, argv)
    if r == C(k):
        ctx.good(oid)
    elif r is not None and r[0] == 'c':
        ctx.bad(oid, '%s argument %d instead of %d' % (msg, r[1], k), inst)
    elif t[0] == 'str':
        ctx.bad(oid, '%s %s' % (msg, show(t)), inst)
    else:
        ctx.maybe(oid, show(t))


def summary(ctx, oid, fa, pos, obj, name):
    ss = [i for i, a in fa.calls('print_oi_fits_summary', 'format_oi_fits_summary') if strip_ep(a[0]) == obj]
    if not ss and [1 for i, a in fa.calls('print_oi_fits_summary', 'format_oi_fits_summary') if base_of(strip_ep(a[0]))[0] not in ('alloca', 'arg', 'call')]:
        ctx.maybe(oid, 'form')
        return
    always(ctx, oid, fa, pos, ss, '%s does not print the summary of the dataset' % name)


def usage(ctx, T, bad, okay, work):
    """wrong numbers of arguments end the program with status 2 before anything is done"""
    n = T.name
    for k in bad:
        fa = T.run(args={0: k})
        leaves(ctx, '%s/%d arguments' % (n, k - 1), fa, start(fa), 2, '%s with %d argument(s)' % (n, k - 1))
        ws = [i for i, a in fa.calls(*work)]
        never(ctx, '%s/%d arguments nothing done' % (n, k - 1), fa, start(fa), ws, '%s works on files although it was given %d argument(s)' % (n, k - 1))
    for k in okay:
        fa = T.run(args={0: k})
        vs = [stat(fa, t) for t in statuses(fa, start(fa))]
        rd = [i for i, a in fa.calls('read_oi_fits')]
        oid = '%s/%d arguments accepted' % (n, k - 1)
        if not mayreach(fa, start(fa), rd):
            ctx.bad(oid, '%s does not accept %d arguments' % (n, k - 1), anchor(fa))
        else:
            lab = lambda i, a: 'read' if i.callee == 'read_oi_fits' else None
            ev = follow(fa, start(fa), lab)
            if 2 in vs and allplain(fa):
                ctx.bad(oid, '%s does not always accept %d arguments' % (n, k - 1), anchor(fa))
            else:
                ctx.good(oid)


# ------------------------------------------------------------------ oifits-check
def initial(ctx, T, g):
    """entries of a constant table of functions up to the terminating NULL"""
    for M in ctx.prog(T.kind).modules:
        x = M.globals.get(g)
        if x is not None and x['init'] is not None and x['init'][0] == 'agg':
            out = []
            for ty, c in x['init'][1]:
                if c[0] == 'g':
                    out.append(c[1])
                else:
                    out.append(None)
            return out
    return None


def table_of(fa, a):
    """global whose contents the array at a has"""
    b = base_of(strip_ep(a))
    if b[0] == 'glob':
        return b[1]
    if b[0] == 'alloca':
        src = [x for i, x in fa.calls() if i.callee and i.callee.startswith('llvm.memcpy') and base_of(x[0]) == b]
        if len(src) == 1 and src[0][1][0] == 'glob':
            return src[0][1][1]
    return None


def invocations(ctx, T, fa):
    """[(instruction, names of the check functions it invokes or None, loop or None)]"""
    out = []
    for i, a in fa.calls():
        if i.callee in CHECKFNS:
            out.append((i, [i.callee], None))
        elif i.callee is None:
            f = fa.t(i.x['fptr']) if 'fptr' in i.x else None
            if f is None:
                out.append((i, None, None))
                continue
            if f[0] == 'fn':
                out.append((i, [f[1]], None))
                continue
            g = table_of(fa, f[1]) if f[0] == 'ld' else None
            es = initial(ctx, T, g) if g else None
            its = iters_in(f[1]) if g else set()
            st = [x for x in steps_of(f[1]) if x[0] == '['] if g else []
            if es is None or len(its) != 1 or not st:
                out.append((i, None, None))
                continue
            h = next(iter(its))
            d = ladd(st[-1][1], ('iter', h), -1)
            if d[0] != 'c':
                out.append((i, None, None))
                continue
            # how far the walk goes
            n = None
            cnt = [r for r in count_of(fa, h) if r is not None and r[0] == 'c']
            if cnt:
                n = min(r[1] for r in cnt)
            elif None in es:
                c = [c for x, c, ex in loop_exits(fa, h)]
                c = [y for y in c if y is not None and any(z[0] == 'ld' and table_of(fa, z[1]) == g for z in subterms(y))]
                if len(c) == 1:
                    n = es.index(None) - d[1]
                    for y in subterms(c[0]):
                        if y[0] == 'ld' and table_of(fa, y[1]) == g:
                            e = ladd([x for x in steps_of(y[1]) if x[0] == '['][-1][1], ('iter', h), -1)
                            if e[0] == 'c' and e != d:
                                n = es.index(None) - e[1]
            if n is None:
                out.append((i, None, h))
                continue
            out.append((i, [x for x in es[d[1]:d[1] + n] if x], h))
    return out


@guarded
def prog_check(ctx):
    n = 'oifits-check'
    T = Tool(ctx, n)
    usage(ctx, T, (0, 1, 3, 4), (2,), ('read_oi_fits',))
    r = only(ctx, n + '/reads', T.plain, ('read_oi_fits',), n + ' does not read the file')
    if r is None:
        return
    ri, ra = r
    oi, sc = strip_ep(ra[1]), strip_ep(ra[2])
    cells = lambda v: {('read_oi_fits', sc): v}
    base = dict(args={0: 2})
    argv = [arg_of(T.plain, 1)]
    expect_name(ctx, n + '/input', T.plain, ra[0], argv, 1, n + ' reads', ri)
    # failure to read
    fa = T.run(cells=cells('nz'), calls={'read_oi_fits': 'nz'}, **base)
    leaves(ctx, n + '/unreadable file', fa, after(ri), 'nz', n + ' with an unreadable file', ri)
    never(ctx, n + '/unreadable file not checked', fa, after(ri), [i for i, f, h in invocations(ctx, T, fa)], n + ' checks a dataset that could not be read')
    ok = dict(cells=cells(0), args={0: 2})
    fa = T.run(**dict(ok, calls={'read_oi_fits': 0}))
    leaves(ctx, n + '/success', fa, after(ri), 0, n + ' with a readable file', ri)
    summary(ctx, n + '/summary', fa, after(ri), oi, n)
    inv = invocations(ctx, T, fa)
    known = [x for i, f, h in inv if f for x in f]
    unknown = [i for i, f, h in inv if f is None]
    for f in CHECKFNS:
        oid = '%s/%s' % (n, f)
        if f not in known:
            if unknown:
                ctx.maybe(oid, 'indirect call')
            else:
                ctx.bad(oid, '%s does not run %s' % (n, f), inv[0][0] if inv else anchor(fa))
            continue
        cs = [(i, h) for i, g, h in inv if g and f in g]
        hit = None
        for i, h in cs:
            if strip_ep(fa.args[id(i)][0]) == oi:
                hit = i
        if hit is None:
            i = cs[0][0]
            ctx.bad(oid, '%s runs %s on another dataset' % (n, f), i) if base_of(fa.args[id(i)][0])[0] in ('alloca', 'null') else ctx.maybe(oid, 'dataset')
            continue
        i, h = [(i, h) for i, h in cs if i is hit][0]
        if h is None:
            always(ctx, oid, fa, after(ri), [i for i, h in cs], '%s does not always run %s' % (n, f))
        else:
            # the walk is reached, each pass invokes the function, no early end
            term = fa.F.blocks[h].term
            m = missed(fa, after(ri), [term])
            early = [(x, c) for x, c, ex in loop_exits(fa, h) if not ex and not (c is not None and any(y[0] == 'ld' and table_of(fa, y[1]) for y in subterms(c)))]
            body = [s for s in fa.succs(h) if s in fa.F.loops[h]]
            skip = [p for s in body if s != i.bb.name for p in [fa.must_pass(s, {i.bb.name}, {h})] if p]
            if m is None and not early and not skip:
                ctx.good(oid)
            elif early and all(c is None or plain(c, fa) or c[0] == 'op' for x, c in early):
                ctx.bad(oid, '%s does not run the remaining checks after a breach' % n, fa.F.blocks[early[0][0]].term)
            elif skip and all(plain(c, fa) for c in miss_conds(fa, skip[0], i)):
                ctx.bad(oid, '%s leaves out some checks' % n, i)
            else:
                ctx.maybe(oid, 'conditions')
    if unknown or not inv:
        ctx.maybe(n + '/results', 'invocations')
        return
    results(ctx, T, n, ri, oi, ok, inv)


def label_of(inv, res, oi):
    ids = {id(i) for i, f, h in inv}

    def label(i, a):
        if id(i) in ids:
            return 'check'
        if i.callee in ('print_check_result', 'format_check_result') and strip_ep(a[0]) == res:
            return 'print'
        if i.callee == 'free_check_result' and strip_ep(a[0]) == res:
            return 'free'
        return None
    return label


def passed_calls(fa):
    out = []
    for i, a in fa.calls('printf', 'puts', 'fputs', 'g_print', 'fprintf', 'fwrite', 'putchar', '__printf_chk'):
        if any(x[0] == 'str' and b'All checks passed' in x[2] for x in a):
            out.append(i)
    return out


def results(ctx, T, n, ri, oi, ok, inv):
    loops = {h for i, f, h in inv}
    calls = {}
    if len(loops) != 1:
        ctx.maybe(n + '/results', 'mixed')
        return
    h = loops.pop()
    fa0 = T.run(**dict(ok, calls={'read_oi_fits': 0}))
    LV = ('oi_check_result', 'level')

    def case(levels, force=()):
        """levels: {uid of invocation: level}"""
        cl = {'read_oi_fits': 0}
        cells = dict(ok['cells'])
        for i, f, hh in inv:
            l = levels[i.res]
            cl[i.res] = l
            res = strip_ep(fa0.args[id(i)][1])
            cells[(i.res, gep(res, [('.', LV[0], LV[1])]))] = l
            for x in ('print_check_result', 'format_check_result'):
                cells[(x, gep(res, [('.', LV[0], LV[1])]))] = max(levels.values())
        return T.run(cells=cells, args={0: 2}, calls=cl, force={p[1]: v for p, v in dict(force).items()})
    # what is done with each result
    for i, f, hh in inv:
        res = strip_ep(fa0.args[id(i)][1])
        oid = '%s/result of %s' % (n, f[0] if len(f) == 1 else 'each check')
        label = label_of(inv, res, oi)
        for lev in (1, 2, 3):
            fa = case({j.res: lev if j is i else 0 for j, g, hh in inv})
            printed(ctx, oid + ' printed, level %d' % lev, fa, i, label, n, lev)
        fa = case({j.res: 0 for j, g, hh in inv})
        ev = follow(fa, after(i), label)
        pr = [j for j, a in fa.calls('print_check_result') if strip_ep(a[0]) == res]
        if 'print' not in ev:
            ctx.good(oid + ' not printed')
        elif all(x.callee == 'print_check_result' for x in ev['print']) and (len(ev) == 1 or allplain(fa, region(fa, after(i))[0])):
            ctx.bad(oid + ' not printed', '%s prints a result without a breach' % n, ev['print'][0])
        else:
            ctx.maybe(oid + ' not printed', 'conditions')
        for lev in (0, 1):
            fa = case({j.res: lev if j is i else 0 for j, g, hh in inv})
            noprint = lambda x, a, label=label: (lambda l: None if l == 'print' else l)(label(x, a))
            ev = follow(fa, after(i), noprint)
            oid2 = '%s released, level %d' % (oid, lev)
            wrong = set(ev) - {'free'}
            if 'free' in ev and not wrong:
                ctx.good(oid2)
            elif 'free' not in ev or allplain(fa, region(fa, after(i))[0]):
                ctx.bad(oid2, '%s does not release the result of a check' % n, i)
            else:
                ctx.maybe(oid2, 'conditions')
            for j in ev.get('free', ()):
                e2 = follow(fa, after(j), label)
                if 'print' in e2:
                    ctx.bad(oid + ' order', '%s prints a result after releasing it' % n, e2['print'][0])
                if 'free' in e2:
                    ctx.bad(oid + ' once', '%s releases a result twice' % n, e2['free'][0])
    # the verdict
    verdict(ctx, T, n, ri, inv, h, case, fa0)


def printed(ctx, oid, fa, i, label, n, lev):
    ev = follow(fa, after(i), label)
    wrong = set(ev) - {'print'}
    if 'print' in ev and not wrong:
        ctx.good(oid)
    elif 'print' not in ev or allplain(fa, region(fa, after(i))[0]):
        ctx.bad(oid, '%s does not print the result of a check with a breach of level %d%s' % (n, lev, ' before it is released' if 'free' in wrong else ''), i)
    else:
        ctx.maybe(oid, 'conditions')


def verdict(ctx, T, n, ri, inv, h, case, fa0):
    oid = n + '/All checks passed'
    none = {i.res: 0 for i, f, hh in inv}
    if not passed_calls(fa0):
        if [1 for i, a in fa0.calls('printf', 'puts', 'fputs', 'g_print', 'fprintf') if any(x[0] == 'sel' or x[0] == 'phi' for x in a)]:
            ctx.maybe(oid, 'form')
        else:
            ctx.bad(oid, '%s never says that all checks passed' % n, anchor(fa0))
        return
    if h is None:
        fa = case(none)
        always(ctx, oid, fa, after(ri), passed_calls(fa), '%s does not say that all checks passed' % n)
        for i, f, hh in inv:
            for lev in (1, 2, 3):
                fa = case(dict(none, **{i.res: lev}))
                never(ctx, '%s with %s at level %d' % (oid, f[0], lev), fa, after(ri), passed_calls(fa), '%s says that all checks passed although %s found a breach' % (n, f[0]))
        return
    # loop: explore the values of the loop-carried variables
    body = fa0.F.loops[h]
    carr, init = [], {}
    for i in fa0.F.blocks[h].insts:
        if i.op != 'phi' or (fa0.val.get(i.res) or ('?',))[0] != 'phi':
            continue
        ph = ('phi', i.res)
        vs = [fa0.t(o) for p, o in zip(i.x['preds'], i.ops) if p not in body and (p, h) in fa0.exec_edges]
        if len(vs) != 1 or vs[0] is None or vs[0][0] not in ('c',):
            if used(fa0, ph):
                ctx.maybe(oid, 'carried %s' % show(ph))
                return
            continue
        carr.append(ph)
        init[ph] = vs[0][1]
    memc = [c for m, c in open_conds(fa0) if c is not None and any(x[0] == 'mphi' for x in subterms(c))]
    if memc:
        ctx.maybe(oid, 'carried in memory')
        return
    uid = inv[0][0].res
    first = tuple(init[p] for p in carr)
    label = label_of(inv, strip_ep(fa0.args[id(inv[0][0])][1]), None)
    todo = [(first, False)]
    seen = set()
    while todo:
        st, breached = todo.pop()
        if (st, breached) in seen:
            continue
        seen.add((st, breached))
        if len(seen) > 60:
            # values that go on growing
            return
        forced = dict(zip(carr, st))
        for lev in (0, 1, 2, 3):
            fa = case({uid: lev}, forced)
            if lev and st != first:
                printed(ctx, '%s/result of each check printed, level %d later' % (n, lev), fa, inv[0][0], label, n, lev)
            nx = []
            for p in carr:
                i = fa.F.defs[p[1]]
                ls = []
                for q, o in zip(i.x['preds'], i.ops):
                    if q in body and (q, h) in region(fa, (h, -1))[1]:
                        for z in leafvals(fa, fa.t(o), h):
                            ls.append(z)
                ls = list(dict.fromkeys(ls))
                cs = [fa.resolve_val(z) if z is not None else None for z in ls]
                cs = list(dict.fromkeys(const(fa, C(forced[z]) if z in forced else z) for z in cs))
                nx.append(cs)
            if any(len(c) != 1 or c[0] is None or c[0][0] != 'c' for c in nx):
                ctx.maybe(oid, 'next value %s' % [[show(z) if z else None for z in c] for c in nx])
                return
            todo.append((tuple(c[0][1] for c in nx), breached or lev > 0))
        fa = case({uid: 0}, forced)
        exits = [m for m, c, ex in loop_exits(fa, h)]
        for m in exits:
            out = [s for s in fa.succs(m) if s not in body]
            pc = passed_calls(fa)
            for s in out:
                leaves(ctx, n + '/success after the checks', fa, (s, -1), 0, '%s with%s' % (n, ' breaches' if breached else 'out breaches'))
                if breached:
                    never(ctx, oid + ' after a breach', fa, (s, -1), pc, '%s says that all checks passed although one found a breach' % n)
                else:
                    always(ctx, oid, fa, (s, -1), pc, '%s does not say that all checks passed although none found a breach' % n)
    # not said within the walk
    hot = [i for i in passed_calls(fa0) if i.bb.name in body]
    ctx.expect(not hot, oid + ' once', '%s says that all checks passed before all were run' % n, hot[0] if hot else None)


def const(fa, t):
    v = fa.oracle.val(t) if t is not None and t[0] != 'c' else None
    return C(v) if isinstance(v, int) else t


def used(fa, ph):
    return any(c is not None and ph in set(subterms(c)) for m, c in open_conds(fa))


def leafvals(fa, t, h):
    """values a loop variable can take on its way back, joins taken apart"""
    out = []
    seen = set()
    edges = region(fa, (h, -1))[1]

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t is not None:
            t = fa.resolve_val(t)
        if t is not None and t[0] == 'phi':
            i = fa.F.defs.get(t[1])
            if i is not None and i.bb.name not in fa.F.loops:
                for p, o in zip(i.x['preds'], i.ops):
                    if (p, i.bb.name) in edges:
                        go(fa.t(o))
                return
        if t is not None and t[0] == 'sel':
            d = fa.decide_bool(t[1])
            if d is not None:
                go(t[2 if d else 3])
            else:
                go(t[2])
                go(t[3])
            return
        out.append(t)
    go(t)
    return out


# ------------------------------------------------------------------ oifits-filter
def option(ctx, T, fa, call, name):
    """(entry index, short name, arg type, destination global) of a command-line option among the tables added"""
    for i, a in fa.calls('g_option_context_add_main_entries', 'g_option_group_add_entries'):
        g = base_of(a[1])
        if g[0] != 'glob':
            continue
        for M in ctx.prog(T.kind).modules:
            x = M.globals.get(g[1])
            if x is None or x['init'] is None or x['init'][0] != 'agg':
                continue
            for ty, e in x['init'][1]:
                if e[0] != 'agg':
                    break
                f = [c for ty, c in e[1]]
                if f[0][0] != 'g':
                    break
                s = M.globals[f[0][1]]['init'][1].split(b'\0')[0].decode()
                if s == name:
                    return i, f
    return None


@guarded
def prog_filter(ctx):
    n = 'oifits-filter'
    T = Tool(ctx, n)
    fa = T.plain
    p = only(ctx, n + '/options', fa, ('g_option_context_parse',), n + ' does not parse its options')
    r = only(ctx, n + '/reads', fa, ('read_oi_fits',), n + ' does not read the file')
    ap = only(ctx, n + '/filters', fa, ('apply_user_oi_filter', 'apply_oi_filter'), n + ' does not apply the filter')
    w = only(ctx, n + '/writes', fa, ('write_oi_fits',), n + ' does not write the result')
    if not (p and r and ap and w):
        return
    (pi, pa), (ri, ra), (ai, aa), (wi, wa) = p, r, ap, w
    argc, err = strip_ep(pa[1]), strip_ep(pa[3])
    argv = [('ld', strip_ep(pa[2])), arg_of(fa, 1)]
    inobj, outobj = strip_ep(ra[1]), strip_ep(aa[-1])
    # options are known before they are parsed
    def label(i, a):
        if i is pi:
            return 'parse'
        if i.callee in ('g_option_context_add_group', 'g_option_context_set_main_group') and len(a) > 1 and a[1][0] == 'call' and a[1][1] == 'get_oi_filter_option_group':
            return 'group'
        return None
    ev = follow(fa, start(fa), label)
    if set(ev) == {'group'}:
        ctx.good(n + '/filter options')
    elif 'group' not in ev and not [1 for i, a in fa.calls('get_oi_filter_option_group')] or set(ev) == {'parse'}:
        ctx.bad(n + '/filter options', '%s does not know the filter options when it parses its command line' % n, pi)
    else:
        ctx.maybe(n + '/filter options', 'conditions')
    op = option(ctx, T, fa, pi, 'clobber')
    clob = None
    if op is None:
        if [1 for i, a in fa.calls('g_option_context_add_main_entries', 'g_option_group_add_entries') if base_of(a[1])[0] != 'glob']:
            ctx.maybe(n + '/clobber', 'form')
        else:
            ctx.bad(n + '/clobber', '%s has no option --clobber' % n, pi)
    else:
        i, f = op
        if f[4][0] == 'g' and f[3] == ('i', 0) and f[1] == ('i', ord('o')) and (f[2] == ('i', 0)):
            clob = f[4][1]
            ctx.good(n + '/clobber')
        elif f[3] != ('i', 0):
            ctx.bad(n + '/clobber', '--clobber of %s wants a value' % n, i)
        elif f[2][0] == 'i' and f[2][1] & 4:
            ctx.bad(n + '/clobber', '--clobber of %s is reversed' % n, i)
        elif f[1] != ('i', ord('o')):
            ctx.bad(n + '/clobber', '%s has no option -o' % n, i)
        else:
            ctx.maybe(n + '/clobber', 'form')
        ev = follow(fa, start(fa), lambda j, a: 'parse' if j is pi else 'entries' if j is i else None)
        if set(ev) == {'parse'}:
            ctx.bad(n + '/clobber known', '--clobber is not known when %s parses its command line' % n, pi)
        for M in ctx.prog(T.kind).modules:
            g = M.globals.get(clob)
            if g and g['init'] is not None:
                ctx.expect(g['init'] in (('i', 0), ('zero',)), n + '/clobber default', '%s overwrites files by default' % n, pi)
    REM = ('g_remove', 'remove', 'unlink', 'g_unlink')
    WORK = ('read_oi_fits', 'write_oi_fits') + REM

    def case(perr=0, argn=3, read=0, exists=0, clobber=0, rm=0, write=0):
        cells = {('g_option_context_parse', err): perr, ('g_option_context_parse', argc): argn,
                 ('read_oi_fits', strip_ep(ra[2])): read, ('write_oi_fits', strip_ep(wa[2])): write}
        no = 0 if exists else -1
        calls = {'g_option_context_parse': int(not perr), 'read_oi_fits': read, 'write_oi_fits': write, 'g_file_test': int(bool(exists)),
                 'access': no, 'g_access': no, 'stat': no, 'g_stat': no}
        for x in REM:
            calls[x] = -1 if rm else 0
        return T.run(cells=cells, calls=calls, globs={clob: int(bool(clobber))} if clob else {})
    work = lambda f: [i for i, a in f.calls(*WORK)]
    rems = lambda f: [i for i, a in f.calls(*REM)]
    writes = lambda f: [i for i, a in f.calls('write_oi_fits')]
    for name, kw in (('a wrong option', dict(perr='nz')), ('no argument', dict(argn=1)), ('1 argument', dict(argn=2)), ('3 arguments', dict(argn=4)), ('4 arguments', dict(argn=5))):
        f = case(**kw)
        leaves(ctx, '%s/%s' % (n, name), f, after(pi), 2, '%s with %s' % (n, name), pi)
        never(ctx, '%s/%s nothing done' % (n, name), f, after(pi), work(f), '%s works on files although it was given %s' % (n, name))
    ok = case()
    expect_name(ctx, n + '/input', ok, ok.args[id(ri)][0], argv, 1, n + ' reads', ri) if id(ri) in ok.args else None
    expect_name(ctx, n + '/output', ok, ok.args[id(wi)][0], argv, 2, n + ' writes', wi) if id(wi) in ok.args else None
    for j, a in ok.calls(*REM):
        pass
    # unreadable
    f = case(read='nz')
    leaves(ctx, n + '/unreadable file', f, after(ri), 'nz', n + ' with an unreadable file', ri)
    never(ctx, n + '/unreadable file nothing written', f, after(ri), writes(f) + rems(f), '%s writes or removes a file although the input could not be read' % n)
    # the data
    oid = n + '/filtered data'
    src = strip_ep(aa[0])
    ctx.expect(src == inobj, oid + ' input', '%s filters something else than what it read' % n, ai) if base_of(src)[0] in ('alloca', 'null', 'glob') else ctx.maybe(oid, show(src))
    if ai.callee == 'apply_oi_filter':
        ctx.maybe(oid + ' filter', 'own filter') if not (aa[1][0] == 'call' and aa[1][1] == 'get_user_oi_filter') else ctx.good(oid + ' filter')
    else:
        ctx.good(oid + ' filter')
    wv = strip_ep(wa[1])
    ctx.expect(wv == outobj, oid + ' output', '%s writes %s instead of the filtered data' % (n, 'the input data' if wv == inobj else show(wv)), wi) \
        if base_of(wv)[0] == 'alloca' and not copied(fa, wv) else ctx.maybe(oid + ' output', show(wv))
    for ex, cl in ((0, 0), (0, 'nz'), ('nz', 'nz')):
        what = 'output file %s%s' % ('exists' if ex else 'does not exist', ', --clobber' if cl else '')
        if clob is None and ex:
            continue
        f = case(exists=ex, clobber=cl)
        leaves(ctx, '%s/%s' % (n, what), f, after(ri), 0, '%s (%s)' % (n, what), ri)
        always(ctx, '%s/%s written' % (n, what), f, after(ri), writes(f), '%s does not write its result (%s)' % (n, what), ri)
        # filtered before it is written
        lab = lambda j, a: 'write' if j.callee == 'write_oi_fits' else 'apply' if j is ai else None
        ev = follow(f, after(ri), lab)
        o2 = '%s/%s filtered' % (n, what)
        if set(ev) == {'apply'}:
            ctx.good(o2)
        elif 'apply' not in ev or allplain(f, region(f, after(ri))[0]):
            ctx.bad(o2, '%s does not always filter before it writes' % n, wi)
        else:
            ctx.maybe(o2, 'conditions')
        rm = rems(f)
        o2 = '%s/%s removal' % (n, what)
        if not ex:
            never(ctx, o2, f, after(pi), rm, '%s removes a file although the output file does not exist' % n)
        else:
            ev = follow(f, after(ri), lambda j, a: 'write' if j.callee == 'write_oi_fits' else 'remove' if j.callee in REM else None)
            if set(ev) == {'remove'}:
                ctx.good(o2)
            elif 'remove' not in ev and bang(f, wi):
                ctx.good(o2)
            elif 'remove' not in ev or allplain(f, region(f, after(ri))[0]):
                ctx.bad(o2, '%s does not remove the existing output file before it writes, although --clobber was given' % n, wi)
            else:
                ctx.maybe(o2, 'conditions')
            for j in rm:
                t = f.args[id(j)][0]
                k = argname(f, t, argv)
                if k == C(2):
                    ctx.good(o2 + ' file')
                elif k is not None and k[0] == 'c':
                    ctx.bad(o2 + ' file', '%s removes the file of argument %d' % (n, k[1]), j)
                else:
                    ctx.maybe(o2 + ' file', show(t))
        # nothing is removed before the input was read and filtered
        ev = follow(f, start(f), lambda j, a: 'remove' if j.callee in REM else 'apply' if j is ai else None)
        if 'remove' in ev:
            ctx.bad(n + '/removal late', '%s removes the output file before it has its result' % n, ev['remove'][0])
    if clob:
        f = case(exists='nz', clobber=0)
        leaves(ctx, n + '/existing output file', f, after(ri), 'nz', '%s with an existing output file' % n, ri)
        never(ctx, n + '/existing output file kept', f, after(pi), writes(f) + rems(f), '%s replaces an existing output file without --clobber' % n)
        f = case(exists='nz', clobber='nz', rm='nz')
        leaves(ctx, n + '/removal fails', f, after(ri), 'nz', '%s that cannot remove the output file' % n, ri)
        never(ctx, n + '/removal fails not written', f, after(ri), writes(f), '%s writes although the existing output file could not be removed' % n)
        f = case(exists='nz', clobber='nz', write='nz')
        leaves(ctx, n + '/write fails, --clobber', f, after(wi), 'nz', '%s that cannot write its output' % n, wi)
    f = case(write='nz')
    leaves(ctx, n + '/write fails', f, after(wi), 'nz', '%s that cannot write its output' % n, wi)


def copied(fa, v):
    """the object is assigned from another one"""
    return any(i.callee and i.callee.startswith('llvm.memcpy') and base_of(a[0]) == base_of(v) for i, a in fa.calls())


def bang(fa, wi):
    return fa.args[id(wi)][0][0] != 'alloca'


# ------------------------------------------------------------------ oifits-upgrade
@guarded
def prog_upgrade(ctx):
    n = 'oifits-upgrade'
    T = Tool(ctx, n)
    usage(ctx, T, (0, 1, 2, 3, 4, 5), (6,), ('read_oi_fits', 'write_oi_fits'))
    fa = T.plain
    r = only(ctx, n + '/reads', fa, ('read_oi_fits',), n + ' does not read the file')
    w = only(ctx, n + '/writes', fa, ('write_oi_fits',), n + ' does not write the result')
    if not (r and w):
        return
    (ri, ra), (wi, wa) = r, w
    obj = strip_ep(ra[1])
    argv = [arg_of(fa, 1)]
    expect_name(ctx, n + '/input', fa, ra[0], argv, 1, n + ' reads', ri)
    expect_name(ctx, n + '/output', fa, wa[0], argv, 2, n + ' writes', wi)
    wv = strip_ep(wa[1])
    ctx.expect(wv == obj, n + '/data', '%s writes something else than what it read' % n, wi) if base_of(wv)[0] == 'alloca' and not copied(fa, wv) else ctx.maybe(n + '/data', show(wv))

    def case(read=0, two=0, arrays='nz', write=0):
        return T.run(args={0: 6}, cells={('read_oi_fits', strip_ep(ra[2])): read, ('write_oi_fits', strip_ep(wa[2])): write},
                     calls={'read_oi_fits': read, 'write_oi_fits': write, 'is_oi_fits_two': int(bool(two)), 'is_oi_fits_one': int(not two)},
                     fields={('oi_fits', 'numArray'): arrays, ('oi_fits', 'arrayList'): arrays})
    for name, kw in (('unreadable file', dict(read='nz')), ('OIFITS 2 input', dict(two='nz')), ('input without OI_ARRAY', dict(arrays=0))):
        f = case(**kw)
        leaves(ctx, '%s/%s' % (n, name), f, after(ri), 'nz', '%s with an %s' % (n, name), ri)
        never(ctx, '%s/%s not written' % (n, name), f, after(ri), [i for i, a in f.calls('write_oi_fits')], '%s writes a file for an %s' % (n, name))
    f = case(write='nz')
    leaves(ctx, n + '/write fails', f, after(wi), 'nz', '%s that cannot write its output' % n, wi)
    f = case()
    leaves(ctx, n + '/success', f, after(ri), 0, n + ' with a good file', ri)
    always(ctx, n + '/written', f, after(ri), [i for i, a in f.calls('write_oi_fits')], n + ' does not write the result')
    for k, key in ((3, 'origin'), (4, 'observer'), (5, 'insmode')):
        oid = '%s/%s' % (n, key)
        ws = [(i, s, m) for i, d, s, m in swrites(f) if last_field(d) == ('oi_header', key) and base_of(strip_ep(d)) == base_of(obj)]
        if not ws:
            if [1 for i, a in f.calls() if any(base_of(strip_ep(x)) == base_of(obj) and last_field(x) in (('oi_header', key), ('oi_fits', 'header')) for x in a)] or \
                    [1 for i, (v, a) in f.stores() if base_of(a) == base_of(obj)]:
                ctx.maybe(oid, 'form')
            else:
                ctx.bad(oid, '%s does not set %s' % (n, key.upper()), wi)
            continue
        lab = lambda j, a: 'write' if j is wi else 'set' if j in [x[0] for x in ws] else None
        ev = follow(f, after(ri), lab)
        if set(ev) == {'set'}:
            ctx.good(oid + ' first')
        elif 'set' not in ev or allplain(f, region(f, after(ri))[0]):
            ctx.bad(oid + ' first', '%s does not always set %s between reading and writing' % (n, key.upper()), ws[0][0])
        else:
            ctx.maybe(oid + ' first', 'conditions')
        for i, s, m in ws:
            j = argname(f, s, argv) if s is not None else None
            if j == C(k) and (m is None or m[0] != 'c' or m[1] >= 69):
                ctx.good(oid)
            elif j == C(k):
                ctx.bad(oid, '%s cuts %s to %s characters' % (n, key.upper(), show(ladd(m, C(-1)))), i)
            elif j is not None and j[0] == 'c' or s is not None and s[0] == 'str':
                ctx.bad(oid, '%s sets %s to %s' % (n, key.upper(), 'argument %d' % j[1] if j is not None else show(s)), i)
            else:
                ctx.maybe(oid, show(s) if s else 'form')


# ------------------------------------------------------------------ oifits-merge
def trace_list(fa, t, depth=0):
    """how a list was built: (loop, appended value, order 'fwd'/'rev', append instruction) or None"""
    if t is None or depth > 4:
        return None
    t = strip_ep(t)
    if t[0] == 'call' and t[1] == 'g_list_reverse':
        i = fa.F.defs.get(t[2])
        x = trace_list(fa, fa.args[id(i)][0], depth + 1)
        return x and (x[0], x[1], 'rev' if x[2] == 'fwd' else 'fwd', x[3])
    if t[0] == 'call' and t[1] == 'g_list_first':
        i = fa.F.defs.get(t[2])
        return trace_list(fa, fa.args[id(i)][0], depth + 1)
    if t[0] != 'phi':
        return None
    i = fa.F.defs.get(t[1])
    if i is None:
        return None
    h = i.bb.name
    if h not in fa.F.loops:
        vs = [fa.t(o) for p, o in zip(i.x['preds'], i.ops) if (p, h) in fa.exec_edges]
        vs = [v for v in vs if v is not None and v != ('null',)]
        return trace_list(fa, vs[0], depth + 1) if len(set(vs)) == 1 else None
    body = fa.F.loops[h]
    got = None
    for p, o in zip(i.x['preds'], i.ops):
        if (p, h) not in fa.exec_edges:
            continue
        v = fa.t(o)
        if p not in body:
            if v != ('null',):
                return None
            continue
        ls = leafvals(fa, v, h)
        for z in ls:
            if z == t:
                return (h, None, 'some', fa.F.blocks[p].term)
            if z is None or z[0] != 'call' or z[1] not in ('g_list_append', 'g_list_prepend', 'g_list_insert'):
                return None
            c = fa.F.defs.get(z[2])
            a = fa.args[id(c)]
            if strip_ep(a[0]) != t:
                return None
            if z[1] == 'g_list_insert' and a[2] != C(-1):
                return None
            x = (h, a[1], 'rev' if z[1] == 'g_list_prepend' else 'fwd', c)
            if got is not None:
                return None
            got = x
    return got


@guarded
def prog_merge(ctx):
    n = 'oifits-merge'
    T = Tool(ctx, n)
    usage(ctx, T, (0, 1, 2, 3), (4, 5, 9), ('read_oi_fits', 'write_oi_fits'))
    fa = T.plain
    r = only(ctx, n + '/reads', fa, ('read_oi_fits',), n + ' does not read its input')
    w = only(ctx, n + '/writes', fa, ('write_oi_fits',), n + ' does not write the result')
    m = only(ctx, n + '/merges', fa, ('merge_oi_fits_list',), n + ' does not merge')
    if not (r and w and m):
        return
    (ri, ra), (wi, wa), (mi, ma) = r, w, m
    argv = [arg_of(fa, 1)]
    rst, wst = strip_ep(ra[2]), strip_ep(wa[2])
    ok = T.run(least=4, cells={('read_oi_fits', rst): 0, ('write_oi_fits', wst): 0}, calls={'read_oi_fits': 0, 'write_oi_fits': 0})
    expect_name(ctx, n + '/output', ok, ok.args[id(wi)][0], argv, 1, n + ' writes', wi)
    leaves(ctx, n + '/success', ok, start(ok), 0, n + ' with good files', ri)
    always(ctx, n + '/written', ok, start(ok), [i for i, a in ok.calls('write_oi_fits')], n + ' does not write the result')
    ev = follow(ok, start(ok), lambda j, a: 'write' if j is wi else 'merge' if j is mi else None)
    if set(ev) == {'merge'}:
        ctx.good(n + '/merged first')
    elif 'merge' not in ev:
        ctx.bad(n + '/merged first', '%s writes before it has merged' % n, wi)
    else:
        ctx.maybe(n + '/merged first', 'conditions')
    wv, mo = strip_ep(wa[1]), strip_ep(ma[1])
    ctx.expect(wv == mo, n + '/data', '%s writes %s instead of the merged data' % (n, show(wv)), wi) if base_of(wv)[0] == 'alloca' and not copied(fa, wv) else ctx.maybe(n + '/data', show(wv))
    # failures
    f = T.run(least=4, cells={('read_oi_fits', rst): 'nz', ('write_oi_fits', wst): 0}, calls={'read_oi_fits': 'nz', 'write_oi_fits': 0})
    leaves(ctx, n + '/unreadable file', f, after(ri), 'nz', n + ' with an unreadable file', ri)
    never(ctx, n + '/unreadable file not written', f, after(ri), [i for i, a in f.calls('write_oi_fits')], '%s writes a file although an input could not be read' % n)
    never(ctx, n + '/unreadable file not merged', f, after(ri), [i for i, a in f.calls('merge_oi_fits_list')], '%s merges an input that could not be read' % n)
    f = T.run(least=4, cells={('read_oi_fits', rst): 0, ('write_oi_fits', wst): 'nz'}, calls={'read_oi_fits': 0, 'write_oi_fits': 'nz'})
    leaves(ctx, n + '/write fails', f, after(wi), 'nz', '%s that cannot write its output' % n, wi)
    # inputs: every argument from the second on, in order
    fa = ok
    fa0 = ok
    argc = arg_of(fa, 0)
    ra, ma = fa.args[id(ri)], fa.args[id(mi)]
    oid = n + '/inputs'
    hs = [h for h in fa.F.loops if ri.bb.name in fa.F.loops[h]]
    if not hs:
        k = argname(fa, ra[0], argv)
        if k is not None and k[0] == 'c':
            ctx.bad(oid, '%s reads only one input' % n, ri)
        else:
            ctx.maybe(oid, 'form')
        return
    h = min(hs, key=lambda x: len(fa.F.loops[x]))
    body = [s for s in fa.succs(h) if s in fa.F.loops[h]]
    skip = [p for s in body if s != ri.bb.name for p in [fa.must_pass(s, {ri.bb.name}, {h} | {i.bb.name for i, c in ends(fa)})] if p]
    early = [(x, c) for x, c, ex in loop_exits(fa, h) if not ex]
    if not skip and not early:
        ctx.good(oid + ' each')
    elif skip and all(plain(c, fa) for c in miss_conds(fa, skip[0], ri)):
        ctx.bad(oid + ' each', '%s leaves out some inputs' % n, ri)
    elif early and all(c is None or plain(c, fa) for x, c in early):
        ctx.bad(oid + ' each', '%s stops reading before the last input' % n, fa.F.blocks[early[0][0]].term)
    else:
        ctx.maybe(oid + ' each', 'conditions')
    cover(ctx, oid + ' names', fa, ra[0], argv, argc, n, ri)
    # merged: the datasets read
    x = trace_list(fa, ma[0])
    oid = n + '/merged inputs'
    if x is None:
        ctx.maybe(oid, show(ma[0]))
        return
    if x[1] is None:
        cs = [c for y, c in open_conds(fa, fa.F.loops[x[0]] - {x[0]})]
        if cs and all(c is not None and plain(c, fa) for c in cs):
            ctx.bad(oid, '%s leaves out some inputs' % n, x[3])
        else:
            ctx.maybe(oid, 'conditions')
        return
    o = strip_ep(ra[1])
    if x[0] == h and strip_ep(x[1]) == o:
        ctx.good(oid)
        ctx.expect(x[2] == 'fwd', oid + ' order', '%s merges its inputs in reverse order' % n, x[3])
        # each dataset has its own storage
        b = base_of(o)
        if b[0] == 'alloca':
            ctx.bad(oid + ' own storage', '%s reads every input into the same object' % n, ri)
        elif b[0] == 'call':
            d = fa.F.defs.get(b[2])
            ctx.expect(d is not None and d.bb.name in fa.F.loops[h], oid + ' own storage', '%s reads every input into the same object' % n, ri)
    elif x[0] == h and x[1][0] in ('alloca', 'null'):
        ctx.bad(oid, '%s merges something else than what it read' % n, x[3])
    else:
        ctx.maybe(oid, show(x[1]))


def cover(ctx, oid, fa, t, argv, argc, n, inst):
    """the names read are argv[2] ... argv[argc-1] in this order"""
    t = strip_ep(t)
    if t[0] == 'ld' and base_of(t[1]) in argv:
        st = steps_of(t[1])
        idx = st[0][1] if st else C(0)
        its = iters_in(idx)
        if len(its) != 1:
            ctx.bad(oid, '%s always reads argument %d' % (n, idx[1]), inst) if idx[0] == 'c' else ctx.maybe(oid, show(idx))
            return
        h = next(iter(its))
        d = ladd(idx, ('iter', h), -1)
        cs = count_of(fa, h)
        if d[0] == 'c' and len(cs) == 1 and cs[0] is not None:
            last = ladd(ladd(cs[0], d), argc, -1)
            if d != C(2):
                ctx.bad(oid, '%s starts with argument %d' % (n, d[1]), inst)
            elif last == C(0):
                ctx.good(oid)
            elif last[0] == 'c':
                ctx.bad(oid, '%s reads arguments up to argc%+d instead of argc-1' % (n, last[1] - 1), inst)
            else:
                ctx.maybe(oid, show(cs[0]))
        elif strip_ep(ladd(ladd(argc, ('iter', h), -1), C(-1))) == strip_ep(idx):
            ctx.bad(oid, '%s reads its inputs in reverse order' % n, inst)
        else:
            ctx.maybe(oid, show(idx))
        return
    if t[0] == 'ld' and last_field(t[1]) == ('_GList', 'data'):
        l = base_of(t[1])
        if l[0] == 'liter':
            x = trace_list(fa, l[1])
            if x is not None and x[1] is not None:
                if x[2] != 'fwd':
                    ctx.bad(oid, '%s reads its inputs in reverse order' % n, x[3])
                else:
                    early = [(b, c) for b, c, ex in loop_exits(fa, x[0]) if not ex]
                    if early:
                        ctx.maybe(oid, 'early exit')
                    else:
                        cover(ctx, oid, fa, x[1], argv, argc, n, x[3])
                return
            if x is not None and x[1] is None:
                cs = [c for y, c in open_conds(fa, fa.F.loops[x[0]] - {x[0]})]
                if cs and all(c is not None and plain(c, fa) for c in cs):
                    ctx.bad(oid, '%s leaves out some inputs' % n, x[3])
                    return
            if l[1][0] == 'ld' and last_field(l[1][1]) == ('_GList', 'next'):
                ctx.bad(oid, '%s does not read its first input' % n, inst)
                return
    ctx.maybe(oid, show(t))


def programs(ctx):
    prog_check(ctx)
    prog_filter(ctx)
    prog_merge(ctx)
    prog_upgrade(ctx)
