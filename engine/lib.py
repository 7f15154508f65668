"""Shared services of the property checkers: cached program, inlined functions,
polynomial recognition, reporting, evidence."""
import os, sys, json, time
from . import prog as P
from .prog import Program, inline, lib_sources, util_sources
from .fa import *
from . import fa as FAM

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM = {'_chkmalloc', '_chkrealloc'}


class Broken(Exception):
    """an anchor the rule needs is gone, or a rule matched nothing: no verdict"""


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self._prog = {}
        self._inl = {}
        self.violations = []        # dicts
        self.undecided = []
        self.ok = []                # obligation ids discharged
        self.counts = {}
        self.assumptions = []
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def prog(self, kind='lib'):
        if kind not in self._prog:
            if kind.startswith('tool:'):
                src = [s for s in util_sources() if os.path.splitext(os.path.basename(s))[0] == kind[5:]]
            else:
                src = {'lib': lib_sources, 'all': lambda: lib_sources() + util_sources(), 'util': util_sources}[kind]()
            if not src:
                raise Broken('no sources')
            p = Program(src)
            self._prog[kind] = p
            self.counts['units'] = len(p.modules)
            self.counts['functions_in_program'] = sum(len(M.funcs) for M in p.modules)
        return self._prog[kind]

    def func(self, name, kind='lib'):
        F = self.prog(kind).public.get(name)
        if F is None:
            F = self.prog(kind).func(name)
        if F is None or not F.blocks:
            raise Broken('function %s not found' % name)
        return F

    def inlined(self, name, stop=(), kind='lib', F=None):
        key = (name, tuple(sorted(stop)), kind)
        if key not in self._inl:
            F = F or self.func(name, kind)
            st = set(stop) | PRIM
            R = inline(self.prog(kind), F, lambda g: g.name not in st)
            self._inl[key] = R
            self.count('functions_analysed')
            self.count('blocks_analysed', len(R.blocks))
        return self._inl[key]

    def fa(self, name, oracle=None, stop=(), kind='lib', **kw):
        R = self.inlined(name, stop, kind)
        self.count('dataflow_runs')
        return FA(self.prog(kind), R, oracle, **kw)

    def loc(self, inst, kind=None):
        for p in self._prog.values():
            l = p.loc(inst)
            if l != '?':
                return l
        return '?'

    # ---- verdicts
    def good(self, oid):
        self.ok.append(oid)

    def bad(self, oid, msg, inst=None, where=None):
        where = where or (self.loc(inst) if inst is not None else '')
        if not any(v['obligation'] == oid for v in self.violations):
            self.violations.append({'obligation': oid, 'message': msg, 'where': where})

    def maybe(self, oid, why):
        self.undecided.append({'obligation': oid, 'why': why})

    def expect(self, cond, oid, msg, inst=None, where=None):
        if cond:
            self.good(oid)
        else:
            self.bad(oid, msg, inst, where)
        return cond


# ------------------------------------------------------------ polynomials
def strip_ep(t):
    """drop memory epochs"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ld':
        return ('ld', strip_ep(t[1]))
    if t[0] in ('c', 'cf', 'str', 'glob', 'arg', 'alloca', 'call', 'iter', 'phi', 'null', 'fn', 'undef'):
        return t
    return tuple(strip_ep(x) if isinstance(x, tuple) else x for x in t)


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def poly(t, leaf):
    """polynomial over leaf(t) symbols, None if not a polynomial"""
    if t[0] == 'cf':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'c':
        return {(): float(t[1])} if t[1] else {}
    s = leaf(t)
    if s is not None:
        return {(s,): 1.0}
    if t[0] == 'op':
        if t[1] in ('fadd', 'fsub', 'fmul'):
            a, b = poly(t[2], leaf), poly(t[3], leaf)
            if a is None or b is None:
                return None
            return pmul(a, b) if t[1] == 'fmul' else padd(a, b, 1 if t[1] == 'fadd' else -1)
        if t[1] == 'fneg':
            a = poly(t[2], leaf)
            return None if a is None else {m: -c for m, c in a.items()}
    if t[0] == 'app' and t[1] == 'pow' and t[2][1] == ('cf', 2.0):
        a = poly(t[2][0], leaf)
        return None if a is None else pmul(a, a)
    return None


def sqrt_arg(t, leaf):
    """polynomial p with t == sqrt(p), or None"""
    if t[0] == 'app':
        if t[1] in ('sqrt', 'sqrtf', 'llvm.sqrt.f64'):
            return poly(t[2][0], leaf)
        if t[1] in ('pow', 'powf') and t[2][1] == ('cf', 0.5):
            return poly(t[2][0], leaf)
        if t[1] in ('hypot', 'hypotf'):
            a, b = poly(t[2][0], leaf), poly(t[2][1], leaf)
            if a is None or b is None:
                return None
            return padd(pmul(a, a), pmul(b, b))
    return None


def P2(*terms):
    """polynomial sum of squares of sums: P2(('u1','u2'),('v1','v2'))"""
    out = {}
    for ts in terms:
        lin_ = {}
        for x in ts:
            lin_ = padd(lin_, {(x,): 1.0})
        out = padd(out, pmul(lin_, lin_))
    return out


def rets(fa):
    for b in fa.F.rpo:
        if b.name in fa.reach and b.term.op == 'ret':
            yield b


def final_mem(fa, addr):
    """values possibly held at addr when the function returns"""
    out = []
    for b in rets(fa):
        v = fa.mem_load(fa.out[b.name], addr, None)
        if v not in out:
            out.append(v)
    return out


def mem_leaves(fa, v, seen=None):
    """values merged into a loaded cell at a join (executable edges; not through loop headers)"""
    seen = seen or set()
    ep = v[2] if v[0] == 'ld' and len(v) > 2 else None
    if isinstance(ep, str) and ep.startswith('m:') and ep not in seen:
        bn = ep[2:]
        if bn in fa.F.blocks and bn not in fa.F.loops:
            out = []
            for p in fa.F.blocks[bn].preds:
                if (p.name, bn) in fa.exec_edges and p.name in fa.out:
                    for x in mem_leaves(fa, fa.mem_load(fa.out[p.name], v[1], None), seen | {ep}):
                        if x not in out:
                            out.append(x)
            return out or [v]
    return [v]


def fld(base, sname, field):
    return gep(base, [('.', sname, field)])


def arg_of(fa, k):
    pn = fa.F.params[k][0]
    return ('arg', k, pn)


def loops_of(fa, bname):
    return [h for h, body in fa.F.loops.items() if bname in body]


# ------------------------------------------------------------ generic flow queries
OPAQUE = {'phi', 'mphi', 'call', 'undef', 'sel'}


def transparent(t):
    """built only from arguments, fields, constants, loop counters and arithmetic"""
    for x in subterms(t):
        if x[0] in OPAQUE:
            return False
        if x[0] == 'app' and x[1] not in ('sqrt', 'pow', 'hypot', 'fabs', 'strlen', 'floor'):
            return False
        if x[0] == 'ld' and len(x) > 2 and x[2]:
            return False
    return True


def open_conds(fa, blocks=None):
    """[(block, condition)] undecided two-way branches"""
    out = []
    for b in fa.F.rpo:
        n = b.name
        if n not in fa.reach or (blocks is not None and n not in blocks):
            continue
        if b.term.op == 'condbr' and len(fa.succs(n)) > 1:
            # a branch whose one side cannot return is an abort check
            ss = [s for s in fa.succs(n) if not dead_end(fa, s)]
            if len(ss) > 1:
                out.append((n, fa.brval.get(n)))
        elif b.term.op == 'switch' and len(set(fa.succs(n))) > 1:
            out.append((n, fa.brval.get(n)))
    return out


def deciding(fa, inst):
    """undecided conditions inst depends on: those passed on every path to it, with a side that leads elsewhere"""
    goal = inst.bb.name
    out = []
    for n, c in open_conds(fa):
        if n == goal:
            continue

        def reach(st, avoid):
            seen = set(st)
            st = list(st)
            while st:
                x = st.pop()
                if x == goal:
                    return True
                if x == avoid:
                    continue
                for y in fa.succs(x):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            return False
        if reach([fa.F.entry], n) and n != fa.F.entry:
            continue            # can be by-passed
        if any(not reach([s], n) for s in fa.succs(n)):
            out.append((n, c))
    return out


def dead_end(fa, n):
    """no path from block n returns (abort/assert)"""
    c = getattr(fa, '_dead', None)
    if c is None:
        live = {b.name for b in rets(fa)}
        ch = True
        preds = {}
        for (a, b) in fa.exec_edges:
            preds.setdefault(b, []).append(a)
        st = list(live)
        while st:
            x = st.pop()
            for p in preds.get(x, []):
                if p not in live:
                    live.add(p)
                    st.append(p)
        c = fa._dead = live
    return n not in c


def is_count_cond(fa, t, h):
    """loop-exhaustion test of loop h"""
    if t is None:
        return False
    def go(x):
        if x == ('iter', h) or x[0] == 'liter' and x[2] == h:
            return True
        if x[0] == 'ld':
            f = last_field(x[1])
            if f and (f[0].endswith('_record') or f[0] in ('target', 'element')):
                return False        # an attribute of the entry looked at
            return go(x[1])
        if x[0] == 'lin':
            return any(go(y) for y, _ in x[2])
        if x[0] == 'gep':
            return go(x[1]) or any(go(s[1]) for s in x[2] if s[0] == '[')
        if x[0] in ('c', 'cf', 'nan', 'null', 'str', 'glob', 'fn', 'arg', 'alloca', 'call', 'phi', 'iter', 'undef'):
            return False
        return any(go(z) for y in x[1:] if isinstance(y, tuple) and y
                   for z in ((y,) if isinstance(y[0], str) else y) if isinstance(z, tuple) and z and isinstance(z[0], str))
    return go(t)


def loop_exits(fa, h):
    """executable exits of loop h that can still return: [(block, cond, is_exhaustion)]"""
    body = fa.F.loops[h]
    out = []
    for n in body:
        if n not in fa.reach:
            continue
        for s in fa.succs(n):
            if s not in body and not dead_end(fa, s):
                for x in exit_conds(fa, n, s, h):
                    if x not in out:
                        out.append(x)
    return out


def exit_conds(fa, n, s, h, depth=0):
    """conditions deciding the exit n -> s; a condition merged from several tests is taken apart"""
    c = fa.brval.get(n)
    b = fa.F.blocks[n]
    if c is not None and c[0] == 'phi' and depth < 4 and b.term.op == 'condbr':
        i = fa.F.defs.get(c[1])
        if i is not None and i.bb is b and n not in fa.F.loops:
            out = []
            want = 1 if b.term.x['targets'][0] == s else 0
            for p, o in zip(i.x['preds'], i.ops):
                if (p, n) not in fa.exec_edges:
                    continue
                v = fa.t(o)
                if v is not None:
                    v = fa.resolve_val(v)
                    d = v[1] if v[0] == 'c' else fa.decide_bool(v)
                    if d is not None:
                        if bool(d) != bool(want):
                            continue
                        if fa.F.blocks[p].term.op == 'condbr' and p in fa.F.loops[h]:
                            out += exit_conds(fa, p, n, h, depth + 1)
                            continue
                out.append((n, v, is_count_cond(fa, v, h)))
            return out
    return [(n, c, is_count_cond(fa, c, h))]


def latch_reached(fa, h):
    return any((b, h) in fa.exec_edges for b in fa.F.loops[h])


def latches(fa, h):
    return [b for b in fa.F.loops[h] if (b, h) in fa.exec_edges]


def iters_in(t):
    return {x[1] for x in subterms(t) if x[0] == 'iter'}


def count_of(fa, h):
    """set of iteration-count terms of loop h (epochs stripped), None entries for unknown exits"""
    out = []
    for n, r, c in fa.loop_count(h):
        if dead_end(fa, [x for x in fa.F.blocks[n].term.x['targets'] if x not in fa.F.loops[h]][0]):
            continue
        if r is not None and r[0] != 'listlen':
            r = strip_ep(ladd(r, C(1)) if (n, h) in fa.exec_edges else r)      # tested after the body: one more
        out.append(r)
    return out


def covers(idx, h, n):
    """affine index idx over loop h with n iterations visits 0..n-1 exactly"""
    it = ('iter', h)
    return strip_ep(idx) in (it, strip_ep(ladd(ladd(n, C(-1)), it, -1)))


def elem_index(t):
    """index of x->field[i]"""
    a = t[1]
    st = steps_of(a)
    return st[-1][1] if st and st[-1][0] == '[' else C(0)


def first_inst(fa, bn):
    return fa.F.blocks[bn].term


def guarded(fn):
    """an internal failure of one rule instance leaves that instance undecided, not the whole check"""
    def g(ctx, *a, **k):
        try:
            return fn(ctx, *a, **k)
        except (Broken, P.BuildError):
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            ctx.maybe('%s%s' % (fn.__name__, tuple(x for x in a if isinstance(x, (str, int)))), 'analysis: %s: %s' % (type(e).__name__, e))
    g.__name__ = fn.__name__
    return g
