"""Calendar conversions (C22): abstract interpretation in the domain of linear forms over a box of symbols, partitioned where a quotient or comparison changes."""
import datetime
from engine.lib import *
from .query import anchor

DAY0 = datetime.date(1858, 11, 17).toordinal()
LO, HI = datetime.date(1901, 1, 1).toordinal() - DAY0, datetime.date(2099, 12, 31).toordinal() - DAY0


class Unknown(Exception):
    pass


class Split(Exception):
    """the form is not linear on the whole box: cut symbol s after value v"""
    def __init__(self, s, v):
        self.s, self.v = s, v


class Wrong(Exception):
    def __init__(self, msg, inst):
        self.msg, self.inst = msg, inst


def form(c, **k):
    return (c, {})


def fadd(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + s * v
        if not d[k]:
            del d[k]
    return a[0] + s * b[0], d


def fmul(a, n):
    return a[0] * n, {k: v * n for k, v in a[1].items()} if n else {}


def fix(f, box):
    """symbols with one value left are constants"""
    c, d = f
    o = {}
    for k, v in d.items():
        lo, hi = box[k]
        if lo == hi:
            c += v * lo
        else:
            o[k] = v
    return c, o


def frange(f, box):
    lo = hi = f[0]
    for k, v in f[1].items():
        a, b = v * box[k][0], v * box[k][1]
        lo += min(a, b)
        hi += max(a, b)
    return lo, hi


def halve(f, box):
    k = max(f[1], key=lambda s: box[s][1] - box[s][0])
    lo, hi = box[k]
    raise Split(k, (lo + hi) // 2)


def last_with(lo, hi, ok):
    """largest x in [lo, hi) with ok (true at lo, false at hi, monotone)"""
    while hi - lo > 1:
        m = (lo + hi) // 2
        if ok(m):
            lo = m
        else:
            hi = m
    return lo


def sign_split(f, box, t=0):
    """the box is cut so that f >= t or f < t throughout; returns which"""
    lo, hi = frange(f, box)
    if lo >= t:
        return True
    if hi < t:
        return False
    if len(f[1]) == 1:
        (k, v), = f[1].items()
        a, b = box[k]
        w = f[0] + v * a >= t
        raise Split(k, last_with(a, b, lambda x: (f[0] + v * x >= t) == w))
    halve(f, box)


def fdiv(f, n, box):
    """quotient rounded towards zero"""
    if n == 0:
        raise Unknown('division by zero')
    if n < 0:
        return fmul(fdiv(f, -n, box), -1)
    f = fix(f, box)
    if not sign_split(f, box):
        return fmul(fdiv(fmul(f, -1), n, box), -1)
    even = {k: v // n for k, v in f[1].items() if v % n == 0}
    odd = {k: v for k, v in f[1].items() if v % n}
    g = (f[0], odd)
    lo, hi = frange(g, box)
    if lo // n == hi // n:
        return lo // n, even
    if len(odd) == 1:
        (k, v), = odd.items()
        a, b = box[k]
        q = (g[0] + v * a) // n
        raise Split(k, last_with(a, b, lambda x: (g[0] + v * x) // n == q))
    halve(g, box)


PRED = {'eq': None, 'ne': None, 'slt': (0, False), 'sle': (1, False), 'sgt': (1, True), 'sge': (0, True), 'ult': (0, False), 'ule': (1, False), 'ugt': (1, True), 'uge': (0, True)}


def compare(pred, a, b, box):
    d = fix(fadd(a, b, -1), box)
    if pred[0] == 'u':
        for x in (a, b):
            if frange(fix(x, box), box)[0] < 0:
                raise Unknown('unsigned comparison')
    if pred in ('eq', 'ne'):
        r = sign_split(d, box) and not sign_split(d, box, 1)
        return int(r == (pred == 'eq'))
    t, w = PRED[pred]
    return int(sign_split(d, box, t) == w)


def width(ty):
    return int(ty[1:]) if isinstance(ty, str) and ty[0] == 'i' and ty[1:].isdigit() else None


class Run:
    """all paths of F from the given forms of its arguments over the box"""
    def __init__(self, prog, F, args, box, limit=400000):
        self.prog, self.F = prog, F
        self.done, self.steps, self.limit, self.parts = [], 0, limit, 0
        env = {}
        for k, (n, ty, at) in enumerate(F.params):
            env[n] = args[k]
        work = [(F.entry, 0, None, env, {}, box)]
        while work:
            bn, k, prev, env, mem, box = work.pop()
            env, mem = dict(env), dict(mem)
            while True:
                b = F.blocks[bn]
                try:
                    if k == 0:
                        new = {}
                        for i in b.insts:
                            if i.op != 'phi':
                                break
                            for p, o in zip(i.x['preds'], i.ops):
                                if p == prev:
                                    new[i.res] = self.op(o, env)
                            k += 1
                        env.update(new)
                    i = b.insts[k]
                    self.steps += 1
                    if self.steps > limit:
                        raise Unknown('too many steps')
                    if i.op == 'ret':
                        self.done.append((box, self.op(i.ops[0], env) if i.ops else None, mem, i))
                        self.parts += 1
                        break
                    if i.op == 'unreachable':
                        self.done.append((box, None, None, i))
                        break
                    if i.op == 'br':
                        bn, k, prev = i.x['targets'][0], 0, bn
                        continue
                    if i.op == 'condbr':
                        c = self.const(self.op(i.ops[0], env), box)
                        bn, k, prev = i.x['targets'][0 if c else 1], 0, bn
                        continue
                    if i.op == 'switch':
                        v = self.const(self.op(i.ops[0], env), box)
                        t = i.x['targets'][0]
                        for cv, tg in zip(i.x['cases'], i.x['targets'][1:]):
                            if cv == v:
                                t = tg
                        bn, k, prev = t, 0, bn
                        continue
                    if i.op == 'call' and i.callee in ('__assert_fail', 'abort', 'g_assertion_message', 'g_assertion_message_expr', 'exit', '_exit', 'g_assertion_message_cmpint',
                                                       'g_assertion_message_cmpnum'):
                        self.done.append((box, None, None, i))
                        break
                    v = self.step(i, env, mem, box)
                    if i.res is not None:
                        env[i.res] = v
                    k += 1
                except Split as s:
                    lo, hi = box[s.s]
                    for r in ((s.v + 1, hi), (lo, s.v)):
                        work.append((bn, k, prev, env, mem, dict(box, **{s.s: r})))
                    break

    def const(self, f, box):
        if not (isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], dict)):
            raise Unknown('value')
        f = fix(f, box)
        if f[1]:
            k = next(iter(f[1]))
            raise Split(k, box[k][0])
        return f[0]

    def op(self, o, env):
        if o[0] == 'v':
            if o[1] not in env:
                raise Unknown(o[1])
            return env[o[1]]
        if o[0] == 'i':
            return (int(o[1]), {})
        if o[0] == 'g':
            return ('ptr', ('g', o[1]), ())
        if o[0] in ('true', 'false'):
            return (int(o[0] == 'true'), {})
        raise Unknown(str(o))

    def fit(self, f, ty, box, i):
        w = width(ty)
        if w is None:
            raise Unknown('type')
        f = fix(f, box)
        lo, hi = frange(f, box)
        if w > 1 and (lo < -(1 << (w - 1)) or hi >= 1 << (w - 1)):
            raise Wrong('exceeds %d bits' % w, i)
        return f

    def step(self, i, env, mem, box):
        if i.op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr'):
            a, b = (self.op(o, env) for o in i.ops)
            for x in (a, b):
                if not isinstance(x[1], dict):
                    raise Unknown('operand')
            a, b = fix(a, box), fix(b, box)
            if i.op in ('add', 'sub'):
                return self.fit(fadd(a, b, 1 if i.op == 'add' else -1), i.ty, box, i)
            if i.op == 'mul':
                if a[1] and b[1]:
                    return fmul(a, self.const(b, box))
                return self.fit(fmul(a, b[0]) if not b[1] else fmul(b, a[0]), i.ty, box, i)
            n = self.const(b, box)
            if i.op == 'shl':
                return self.fit(fmul(a, 1 << n), i.ty, box, i)
            if i.op[0] == 'u' and (not sign_split(a, box) or n < 0):
                raise Unknown('unsigned')
            if i.op == 'ashr':
                if not sign_split(a, box):
                    raise Unknown('shift')
                return fdiv(a, 1 << n, box)
            q = fdiv(a, n, box)
            return q if i.op in ('sdiv', 'udiv') else fadd(a, fmul(q, n), -1)
        if i.op == 'icmp':
            a, b = (self.op(o, env) for o in i.ops)
            if not isinstance(a[1], dict) or not isinstance(b[1], dict):
                if i.x['pred'] in ('eq', 'ne') and 'ptr' in (a[0], b[0]):
                    raise Unknown('pointer')
                raise Unknown('comparison')
            return compare(i.x['pred'], a, b, box), {}
        if i.op == 'select':
            c = self.const(self.op(i.ops[0], env), box)
            return self.op(i.ops[1 if c else 2], env)
        if i.op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = (self.const(self.op(o, env), box) for o in i.ops)
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[i.op] & 1, {}
        if i.op == 'and':
            a, b = (self.op(o, env) for o in i.ops)
            n = self.const(b, box)
            if n > 0 and n & (n + 1) == 0 and sign_split(fix(a, box), box):
                return fadd(a, fmul(fdiv(a, n + 1, box), n + 1), -1)
            raise Unknown('and')
        if i.op == 'cast':
            a = self.op(i.ops[0], env)
            k = i.x['kind']
            if k in ('sext', 'freeze'):
                if i.x['fty'] == 'i1':
                    a = (-self.const(a, box), {})
                return a
            if k == 'zext':
                if i.x['fty'] != 'i1' and not sign_split(fix(a, box), box):
                    raise Unknown('zext')
                return a
            if k == 'trunc':
                return self.fit(a, i.ty, box, i)
            raise Unknown(k)
        if i.op == 'alloca':
            return ('ptr', ('a', i.res), ())
        if i.op == 'gep':
            p = self.op(i.ops[0], env)
            if p[0] != 'ptr':
                raise Unknown('address')
            ix = tuple(self.const(self.op(o, env), box) for o in i.ops[1:])
            if isinstance(i.x['sty'], tuple) and ix and ix[0] == 0:
                return ('ptr', p[1], p[2] + ix[1:])
            if len(ix) == 1 and p[2]:
                return ('ptr', p[1], p[2][:-1] + (p[2][-1] + ix[0],))
            if len(ix) == 1:
                return ('ptr', p[1], ix if ix[0] else ())
            raise Unknown('address')
        if i.op == 'store':
            v, p = (self.op(o, env) for o in i.ops)
            if p[0] != 'ptr':
                raise Unknown('address')
            mem[(p[1], p[2])] = v
            return None
        if i.op == 'load':
            p = self.op(i.ops[0], env)
            if p[0] != 'ptr':
                raise Unknown('address')
            key = (p[1], p[2])
            if key in mem:
                return mem[key]
            if p[1][0] == 'g':
                v = self.table(p[1][1], p[2])
                if v is not None:
                    return (v, {})
            raise Unknown('memory')
        raise Unknown(i.op + ' ' + str(i.callee or ''))

    def table(self, name, ix):
        for M in self.prog.modules:
            g = M.globals.get(name)
            if g and g.get('init') and g.get('const', True):
                v = g['init']
                for k in ix:
                    if v[0] in ('zero', 'zeroinitializer'):
                        return 0
                    if v[0] == 'bytes':
                        return v[1][k] if 0 <= k < len(v[1]) else None
                    if v[0] != 'agg' or not 0 <= k < len(v[1]):
                        return None
                    v = v[1][k][1]
                while v[0] == 'agg':
                    v = v[1][0][1]
                if v[0] == 'i':
                    return int(v[1])
        return None


def day(n):
    return datetime.date.fromordinal(DAY0 + n)


@guarded
def to_mjd(ctx):
    fn = 'date2mjd'
    F = ctx.inlined(fn)
    end = F.blocks[F.entry].term
    parts = 0
    for r in range(4):
        k0, k1 = -(-(1901 - r) // 4), (2099 - r) // 4
        for m in range(1, 13):
            oid = '%s/year 4k+%d month %d' % (fn, r, m)
            n = [31, 29 if r == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
            want = (datetime.date(2000 + r, m, 1).toordinal() - DAY0 - 1461 * 500 - 1, {'k': 1461, 'd': 1})
            try:
                R = Run(ctx.prog(), F, [(r, {'k': 4}), (m, {}), (0, {'d': 1})], {'k': (k0, k1), 'd': (1, n)})
            except Unknown as e:
                ctx.maybe(oid, str(e))
                continue
            except Wrong as e:
                ctx.bad(oid, '%s: an intermediate result %s for month %d' % (fn, e.msg, m), e.inst)
                continue
            parts += R.parts
            ok = True
            for box, v, mem, i in R.done:
                k, d = box['k'][0], box['d'][0]
                if mem is None:
                    ok = False
                    ctx.bad(oid, '%s ends the program for %d-%02d-%02d' % (fn, 4 * k + r, m, d), i)
                    continue
                if v is None or not isinstance(v[1], dict):
                    ok = None
                    continue
                diff = fix(fadd(v, want, -1), box)
                if diff != (0, {}):
                    if diff[0] + sum(c * box[s][0] for s, c in diff[1].items()) == 0:
                        for s in diff[1]:
                            if s == 'k':
                                k = box['k'][1]
                            else:
                                d = box['d'][1]
                    ok = False
                    ctx.bad(oid, '%s gives another day for %d-%02d-%02d' % (fn, 4 * k + r, m, d), i)
            if ok:
                ctx.good(oid)
            elif ok is None:
                ctx.maybe(oid, 'value')
    ctx.count('partitions', parts)


@guarded
def to_date(ctx):
    fn = 'mjd2date'
    F = ctx.inlined(fn)
    outs = [('ptr', ('p', k), ()) for k in range(3)]
    try:
        R = Run(ctx.prog(), F, [(0, {'n': 1})] + outs, {'n': (LO, HI)}, limit=3000000)
    except Unknown as e:
        ctx.maybe(fn + '/all', str(e))
        return
    except Wrong as e:
        ctx.bad(fn + '/range', '%s: an intermediate result %s' % (fn, e.msg), e.inst)
        return
    ctx.count('partitions', R.parts)
    res = {}
    for box, v, mem, i in sorted(R.done, key=lambda x: x[0]['n']):
        lo, hi = box['n']
        n = lo
        while n <= hi:
            d = day(n)
            e = min(hi, (datetime.date(d.year + d.month // 12, d.month % 12 + 1, 1).toordinal() - DAY0) - 1)
            b = {'n': (n, e)}
            if mem is None:
                ctx.bad('%s/%d' % (fn, d.year), '%s ends the program for MJD %d' % (fn, n), i)
                n = e + 1
                continue
            for k, (what, want) in enumerate((('year', (d.year, {})), ('month', (d.month, {})), ('day', (d.day - n, {'n': 1})))):
                oid = '%s/%s in %d' % (fn, what, d.year)
                got = mem.get((('p', k), ()))
                if got is None:
                    ctx.bad(oid, '%s does not give the %s' % (fn, what), i)
                elif not isinstance(got[1], dict):
                    ctx.maybe(oid, 'value')
                else:
                    diff = fix(fadd(got, want, -1), b)
                    if diff != (0, {}):
                        w = n if diff[0] + sum(c * n for c in diff[1].values()) else e
                        ctx.bad(oid, '%s gives the wrong %s for MJD %d (%s)' % (fn, what, w, day(w)), i)
                    else:
                        ctx.good(oid)
            n = e + 1


def dates(ctx):
    to_mjd(ctx)
    to_date(ctx)
