"""Typestate analysis: propagation of finite abstract states (status values, flags,
handle states, tags) over the inlined control-flow graph.

A state is (environment of status-derived SSA values, tracked memory cells, tags).
States are kept apart per program point (no join), so a flag set together with a
failure stays correlated with it; the domain is finite (copied constants only), so
the exploration of the product graph terminates.  No solver, nothing is executed.
"""
from .fa import *
from . import fa as FAM

NOSTATUS = {'ffpmrk', 'ffcmrk', 'ffgerr', 'ffrprt', 'ffpmsg', 'ffcmsg', 'ffghdn', 'ffgmsg', 'ffvers'}
ALWAYS = {'ffclos', 'ffdelt'}      # do their work whatever the status


def is_ff(f):
    return f is not None and STATUS_LAST.match(f) and f not in NOSTATUS


class Model:
    """override: faults(), on_call(), start tags"""
    tags0 = ()

    def faults(self, ts, inst, f, args):
        """possible non-zero status codes of a CFITSIO (or summarised) call made with status 0"""
        return ()

    def on_call(self, ts, inst, f, args, st, code):
        """tags after the call returned with status `code` (None for calls without status)"""
        return st[2]

    def on_store(self, ts, inst, v, addr, st):
        return st[2]

    def load(self, addr):
        """assumed value of an untracked cell"""
        return None

    def ret(self, ts, inst, st):
        pass

    def status_call(self, f):
        return is_ff(f)

    def skip_fault(self, st):
        return False


class TS:
    def __init__(self, prog, F, fa, model, entry_status=0, status=None, limit=400000):
        self.prog, self.F, self.fa, self.m = prog, F, fa, model
        self.status = status
        self.limit = limit
        self._relevant()
        self._live()
        self.parent = {}
        self.nstates = 0
        self.calls_seen = set()
        cells = {}
        if status is not None:
            cells[status] = entry_status
        self.run(cells)

    # ---- relevance
    def trackable(self, a):
        if a is None:
            return False
        if a == self.status:
            return True
        b = base_of(a)
        if b[0] == 'alloca' and a == b:
            return True
        if b[0] == 'arg' and a == b:
            return True
        return False

    def _relevant(self):
        R = set()
        ch = True
        handle = self.handle_cells()
        self.extra = set()          # other fixed cells that receive status-derived values
        while ch:
            ch = False
            for b in self.F.rpo:
                for i in b.insts:
                    if i.op == 'store' and i.ops[0][0] == 'v' and i.ops[0][1] in R:
                        va = self.fa.args.get(id(i))
                        if va is not None and va[1] not in handle and va[1] not in self.extra and stable_addr(va[1]):
                            self.extra.add(va[1])
                            ch = True
                    if i.res is None or i.res in R:
                        continue
                    r = False
                    if i.op == 'load':
                        a = self.fa.args.get(id(i), (None,))[0]
                        r = a is not None and (a == self.status or a in handle or a in self.extra or self.m.load(a) is not None)
                    elif i.op == 'call':
                        r = self.m.status_call(i.callee)
                    elif i.op in ('icmp', 'cast', 'select', 'and', 'or', 'xor'):
                        r = any(o[0] == 'v' and o[1] in R for o in i.ops)
                    elif i.op == 'phi':
                        r = any(o[0] == 'v' and o[1] in R for o in i.ops) or \
                            (i.ty in ('i1', 'i8', 'i32', 'i64') and any(o[0] == 'i' for o in i.ops))
                    if r:
                        R.add(i.res)
                        ch = True
        self.rel = R

    def handle_cells(self):
        out = set()
        for b in self.F.rpo:
            for i in b.insts:
                if i.op == 'call' and i.callee in ('ffopen', 'ffopentest', 'ffinit', 'ffdkinit', 'ffdkopen', 'ffreopen', 'ffdopn', 'fftopn'):
                    a = self.fa.args.get(id(i))
                    if a:
                        k = 1 if i.callee in ('ffopentest', 'ffreopen') else 0
                        out.add(a[k])
        # status cells held in locals
        self.scells = set()
        for b in self.F.rpo:
            for i in b.insts:
                if i.op == 'call' and self.m.status_call(i.callee):
                    a = self.fa.args.get(id(i))
                    if a:
                        self.scells.add(a[-1])
        return out | self.scells

    def _live(self):
        F = self.F
        use = {}
        deff = {}
        phiuse = {}
        for b in F.rpo:
            u, d = set(), set()
            for i in b.insts:
                if i.op == 'phi':
                    if i.res in self.rel:
                        d.add(i.res)
                    for p, o in zip(i.x['preds'], i.ops):
                        if o[0] == 'v' and o[1] in self.rel:
                            phiuse.setdefault(p, set()).add(o[1])
                    continue
                for o in i.ops:
                    if o[0] == 'v' and o[1] in self.rel and o[1] not in d:
                        u.add(o[1])
                if i.res in self.rel:
                    d.add(i.res)
            use[b.name], deff[b.name] = u, d
        livein = {b.name: set() for b in F.rpo}
        liveout = {b.name: set() for b in F.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(F.rpo):
                n = b.name
                o = set(phiuse.get(n, ()))
                for s in b.term.x['targets']:
                    o |= livein.get(s, set())
                i = use[n] | (o - deff[n])
                if o != liveout[n] or i != livein[n]:
                    liveout[n], livein[n] = o, i
                    ch = True
        self.liveout = liveout

    # ---- values
    def cv(self, o, env):
        if o[0] == 'v':
            return env.get(o[1])
        if o[0] == 'i':
            return o[1]
        if o[0] == 'null':
            return 0
        return None

    def evaluate(self, i, env, cells):
        op = i.op
        if op == 'load':
            a = self.fa.args.get(id(i), (None,))[0]
            if a is None:
                return None
            if a in cells:
                return cells[a]
            return self.m.load(a)
        if op == 'cast':
            v = self.cv(i.ops[0], env)
            if v == 'nz' and i.ty == 'i1':
                return None
            if i.ty == 'i1' and isinstance(v, int):
                return v & 1 if i.x['kind'] == 'trunc' else v
            return v
        if op == 'icmp':
            a, b = self.cv(i.ops[0], env), self.cv(i.ops[1], env)
            if a is None or b is None:
                return None
            p = PRED[i.x['pred']]
            if 'nz' in (a, b):
                if 0 in (a, b) and p in ('eq', 'ne'):
                    return int(p == 'ne')
                return None
            if isinstance(a, str) or isinstance(b, str):
                return None
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[p])
        if op in ('and', 'or', 'xor'):
            a, b = self.cv(i.ops[0], env), self.cv(i.ops[1], env)
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'or' and i.ty == 'i1' and (a == 1 or b == 1):
                return 1
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            return None
        if op == 'select':
            c = self.cv(i.ops[0], env)
            if c is None or isinstance(c, str):
                a, b = self.cv(i.ops[1], env), self.cv(i.ops[2], env)
                return a if a == b else None
            return self.cv(i.ops[1] if c else i.ops[2], env)
        return None

    def run(self, cells0):
        F = self.F
        start = (F.entry, None, frozenset(), frozenset(cells0.items()), self.m.tags0)
        seen = {start}
        self.parent[start] = None
        work = [start]
        while work:
            node = work.pop()
            self.nstates += 1
            if self.nstates > self.limit:
                raise RuntimeError('too many states in ' + F.name)
            bn, pred, env, cells, tags = node
            self._block(node, F.blocks[bn], pred, dict(env), dict(cells), tags, work, seen)

    def _block(self, node, b, pred, env, cells, tags, work, seen):
        # phis in parallel
        new = {}
        k = 0
        for i in b.insts:
            if i.op != 'phi':
                break
            k += 1
            if i.res in self.rel:
                for p, o in zip(i.x['preds'], i.ops):
                    if p == pred:
                        v = self.cv(o, env)
                        new[i.res] = v
        for r, v in new.items():
            if v is None:
                env.pop(r, None)
            else:
                env[r] = v
        self._insts(node, b, k, env, cells, tags, work, seen)

    def _insts(self, node, b, k, env, cells, tags, work, seen):
        for idx in range(k, len(b.insts) - 1):
            i = b.insts[idx]
            if i.op == 'store':
                va = self.fa.args.get(id(i))
                if va is not None:
                    a = va[1]
                    for x in [x for x in cells if x in self.extra and x != a and may_alias(x, a)]:
                        del cells[x]
                    if a == self.status or a in self.tracked_cells() or a in self.extra:
                        v = self.cv(i.ops[0], env)
                        if v is None:
                            cells.pop(a, None)
                        else:
                            cells[a] = v
                    tags = self.m.on_store(self, i, va[0], a, (env, cells, tags))
                continue
            if i.op == 'call':
                f = i.callee
                args = self.fa.args.get(id(i))
                if f is None or args is None:
                    continue
                self.calls_seen.add(id(i))
                if self.extra:
                    self._kill(f, args, cells)
                if self.m.status_call(f):
                    sa = args[-1]
                    cur = cells.get(sa)
                    outs = []
                    if cur is not None and cur != 0:
                        outs = [cur]
                    else:
                        fs = () if self.m.skip_fault((env, cells, tags)) else self.m.faults(self, i, f, args)
                        outs = [0] + [c for c in fs]
                        only = [c for c in fs if isinstance(c, tuple)]
                        if only:
                            outs = [c[0] for c in only]
                    res = []
                    for c in outs:
                        e2, c2 = dict(env), dict(cells)
                        c2[sa] = c
                        if f in ('ffopen', 'ffopentest', 'ffinit', 'ffdkinit', 'ffdkopen', 'ffreopen', 'ffdopn', 'fftopn') and (cur in (0, None)):
                            h = args[1 if f in ('ffopentest', 'ffreopen') else 0]
                            c2[h] = 'nz' if c == 0 else 0
                        if i.res is not None and i.res in self.rel:
                            e2[i.res] = c
                        t2 = self.m.on_call(self, i, f, args, (e2, c2, tags), c, cur)
                        res.append((e2, c2, t2))
                    for e2, c2, t2 in res[1:]:
                        self._insts(node, b, idx + 1, e2, c2, t2, work, seen)
                    env, cells, tags = res[0]
                    continue
                tags = self.m.on_call(self, i, f, args, (env, cells, tags), None, None)
                if i.res is not None:
                    env.pop(i.res, None)
                continue
            if i.res is not None and i.res in self.rel:
                v = self.evaluate(i, env, cells)
                if v is None:
                    env.pop(i.res, None)
                else:
                    env[i.res] = v
        t = b.term
        if t.op == 'ret':
            self.m.ret(self, t, (node, env, cells, tags))
            return
        tg = t.x['targets']
        if t.op == 'condbr':
            c = self.cv(t.ops[0], env)
            if isinstance(c, int):
                tg = [tg[0 if c else 1]]
            else:
                tg = [x for x in tg if (b.name, x) in self.fa.exec_edges]
        elif t.op == 'switch':
            c = self.cv(t.ops[0], env)
            if isinstance(c, int):
                d = tg[0]
                for kk, x in zip(t.x['cases'], tg[1:]):
                    if kk == c:
                        d = x
                tg = [d]
        live = self.liveout[b.name]
        e = frozenset((x, v) for x, v in env.items() if x in live)
        c = frozenset(cells.items())
        for x in dict.fromkeys(tg):
            n = (x, b.name, e, c, tags)
            if self.F.blocks[x].insts[0].op != 'phi':
                n = (x, None, e, c, tags)
            if n not in seen:
                seen.add(n)
                self.parent[n] = node
                work.append(n)

    def _kill(self, f, args, cells):
        for x in [x for x in cells if x in self.extra and x not in self.tracked_cells() and x != self.status]:
            if is_ff(f) or f in WRITES:
                if any(a == x for a in args):
                    del cells[x]
            elif f in PURE or f in NOSTATUS or f in ('printf', 'fprintf', 'puts', 'free', 'g_list_append', 'g_hash_table_insert') or f in ALLOCS:
                pass
            elif any(region(a) is not None and region(a) == region(x) for a in args):
                del cells[x]

    def tracked_cells(self):
        if not hasattr(self, '_tc'):
            self._tc = self.handle_cells()
        return self._tc

    def path(self, node, n=40):
        out = []
        while node is not None:
            out.append(node[0])
            node = self.parent[node]
        return out[::-1]
