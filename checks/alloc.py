"""Allocation failure (C19): _chkmalloc, _chkrealloc and every direct use of an allocator that can fail."""
import os
from engine.lib import *
from engine.prog import util_sources
from .merge import anchor
from .query import retleaves
from .cli import ABORTS, EXITS, region, allplain, onward

RAW = {'malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'vasprintf', 'g_try_malloc', 'g_try_malloc0',
       'g_try_malloc_n', 'g_try_malloc0_n', 'g_try_realloc', 'g_try_realloc_n'}
SAFE = {'_chkmalloc', '_chkrealloc', 'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_realloc', 'g_realloc_n', 'g_strdup', 'g_strndup', 'g_strdup_printf', 'g_memdup', 'g_memdup2'}
MSG = {'fprintf', 'fputs', 'fputc', 'fwrite', 'vfprintf', '__fprintf_chk', 'g_printerr', 'perror', 'g_log', 'g_error', 'g_critical', 'dprintf'}


class AO(Oracle):
    """the results of some allocation calls, by call, and the value of the size argument"""
    def __init__(self, calls=(), args=()):
        self.calls, self.args = dict(calls), dict(args)

    def val(self, t):
        if t[0] == 'arg':
            return self.args.get(t[1])
        if t[0] == 'call':
            return self.calls.get(t[2], self.calls.get(t[1]) if t[1] in RAW else None)
        return None

    def rel(self, a, b):
        if b == C(0) and self.val(a) == 'nz':
            return '>'          # sizes are unsigned
        return None


def sites(F):
    return [i for b in F.rpo for i in b.insts if i.op == 'call' and i.callee in RAW]


def message(fa, i):
    if i.op != 'call' or id(i) not in fa.args:
        return False
    if i.callee in ('g_printerr', 'perror', 'g_log', 'g_error', 'g_critical'):
        return True
    return i.callee in MSG and any(a is not None and a[0] == 'ld' and a[1][:2] == ('glob', 'stderr') for a in fa.args[id(i)])


def fails(ctx, oid, fa, fn, what, frm=None):
    """with what assumed, the function does not return but aborts after a message"""
    live = [b for b in rets(fa) if frm is None or b.name in region(fa, frm)[0]]
    if live:
        if allplain(fa):
            ctx.bad(oid, '%s returns %s' % (fn, what), live[0].term if fa.args.get(id(live[0].term)) is None else anchor(fa))
        else:
            ctx.maybe(oid, 'conditions')
        return False
    ctx.good(oid)
    msgs = {b.name for b in fa.F.rpo if b.name in fa.reach for i in b.insts if message(fa, i)}
    stop = {b.name for b in fa.F.rpo if b.name in fa.reach and any(i.op == 'call' and i.callee in ABORTS + EXITS for i in b.insts)}
    if not stop:
        ctx.maybe(oid + ' message', 'end of the program not found')
        return True
    miss = None if fa.F.entry in msgs else fa.must_pass(fa.F.entry, msgs, stop - msgs) if stop - msgs else None
    if fa.F.entry in stop and fa.F.entry not in msgs:
        miss = (fa.F.entry,)
    if miss is None:
        ctx.good(oid + ' message')
    elif not msgs or allplain(fa):
        ctx.bad(oid + ' message', '%s ends the program without a message %s' % (fn, what), anchor(fa))
    else:
        ctx.maybe(oid + ' message', 'conditions')
    bad = [i for b in fa.F.rpo if b.name in fa.reach for i in b.insts if i.op == 'call' and i.callee in EXITS and id(i) in fa.args]
    for i in bad:
        if fa.args[id(i)][0] == C(0):
            ctx.bad(oid + ' status', '%s ends the program with status 0 %s' % (fn, what), i)
    return True


@guarded
def wrapper(ctx, fn, prim, alt, ptr, size):
    F = ctx.inlined(fn)
    oid = fn + '/'
    raw = sites(F)
    if not raw:
        ctx.maybe(oid + 'block', 'no call of %s' % prim)
        return
    # it works
    fa = ctx.fa(fn, AO(args={size: 'nz'}, calls={n: 'nz' for n in RAW}))
    sz = arg_of(fa, size)
    for i in raw:
        if id(i) not in fa.args:
            continue
        a = [strip_ep(x) for x in fa.args[id(i)]]
        o = oid + 'request'
        if i.callee == prim:
            want = [arg_of(fa, ptr), sz] if ptr is not None else [sz]
            wrong = [x for x, w in zip(a, want) if x != w]
        elif i.callee == 'calloc' and alt:
            wrong = [] if sorted(a, key=repr) == sorted([C(1), sz], key=repr) else a
        else:
            ctx.maybe(o, i.callee)
            continue
        if not wrong:
            ctx.good(o)
        elif all(transparent(x) or x[0] == 'op' for x in wrong):
            d = [tolin(ladd(x, sz, -1)) for x in wrong if x[0] in ('lin', 'arg', 'c')]
            if d and all(not ts and k >= 0 for k, ts in d) and len(d) == len(wrong):
                ctx.good(o)                 # some more than asked for
            else:
                ctx.bad(o, '%s asks for %s instead of %s' % (fn, show(wrong[0]), show(sz)), i)
        else:
            ctx.maybe(o, [show(x) for x in wrong])
    ls = retleaves(fa)
    toks = {('call', i.callee, i.res) for i in raw}
    wrong = [x for x in ls if x not in toks and not (x[0] == 'call' and x[1] in RAW)]
    o = oid + 'block'
    if not rets(fa):
        ctx.bad(o, '%s never returns' % fn, anchor(fa))
    elif ls and not wrong:
        ctx.good(o)
    elif wrong and any(x[0] in ('null', 'c', 'arg', 'gep') for x in wrong) and allplain(fa):
        x = [x for x in wrong if x[0] in ('null', 'c', 'arg', 'gep')][0]
        ctx.bad(o, '%s returns %s instead of the block it got' % (fn, show(x)), anchor(fa))
    else:
        ctx.maybe(o, [show(x) for x in ls])
    ab = [i for b in fa.F.rpo if b.name in fa.reach for i in b.insts if i.op == 'call' and i.callee in ABORTS + EXITS]
    if not ab:
        ctx.good(oid + 'no abort')
    elif allplain(fa, None) and all(dead_end(fa, i.bb.name) for i in ab):
        cs = [(n, fa.brval.get(n)) for n in fa.reach if fa.F.blocks[n].term.op == 'condbr' and len(fa.succs(n)) > 1]
        if cs and all(c is None or not transparent(strip_ep(c)) for n, c in cs):
            ctx.maybe(oid + 'no abort', 'conditions')
        else:
            ctx.bad(oid + 'no abort', '%s ends the program although the allocation succeeded' % fn, ab[0])
    else:
        ctx.maybe(oid + 'no abort', 'conditions')
    fr = [i for b in fa.F.rpo if b.name in fa.reach for i in b.insts if i.op == 'call' and i.callee in ('free', 'g_free') and id(i) in fa.args
          and base_of(fa.args[id(i)][0]) in toks]
    ctx.expect(not fr, oid + 'kept', '%s frees the block it returns' % fn, fr[0] if fr else None)
    # nothing asked for, and nothing got
    fails(ctx, oid + 'zero', ctx.fa(fn, AO(args={size: 0}, calls={n: 'nz' for n in RAW})), fn, 'for a size of 0')
    fails(ctx, oid + 'failed', ctx.fa(fn, AO(args={size: 'nz'}, calls={n: 0 for n in RAW})), fn, 'although %s failed' % prim)


def used(fa, tok, pos):
    """an instruction reached after pos that accesses memory through tok, stores it or hands it on"""
    ok, edges = region(fa, pos)
    for b in fa.F.rpo:
        if b.name not in ok:
            continue
        for i in b.insts:
            if i.op in ('load', 'store') and id(i) in fa.args:
                a = fa.args[id(i)]
                if any(x is not None and base_of(x) == tok for x in a):
                    return i
    return None


@guarded
def direct(ctx, kind, F):
    """an allocation that can fail, made outside the two wrappers"""
    R = ctx.inlined(F.name, (), kind, F)
    for i in sites(R):
        oid = '%s/%s' % (F.name, i.callee)
        fa = FA(ctx.prog(kind), R, AO(calls={i.res: 0}))
        ctx.count('dataflow_runs')
        if id(i) not in fa.args or i.bb.name not in fa.reach:
            ctx.good(oid)
            continue
        pos = (i.bb.name, i.idx)
        ok, edges = region(fa, pos)
        if not any(b.name in ok for b in rets(fa)) and F.name != 'main':
            ctx.good(oid)
            continue
        tok = ('call', i.callee, i.res)
        fb = FA(ctx.prog(kind), R, AO())
        u = used(fb, tok, pos)
        # is that use still reached when the call has failed?
        if u is not None and u.bb.name in ok:
            # a test of something merged after the call could be a test of its result: is there a way round such tests?
            hid = {n for n, c in open_conds(fa) if n in ok and c is not None and any(
                x[0] == 'phi' and x[1] in R.defs and R.defs[x[1]].bb.name in ok and R.defs[x[1]].bb.name not in R.loops for x in subterms(c))}
            seen, st = set(), [i.bb.name]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += [] if x in hid else onward(fa, x)
            tests = u.bb.name not in seen
            if tests:
                ctx.maybe(oid, 'conditions')
            else:
                ctx.bad(oid, 'the result of %s is used in %s without checking that it succeeded' % (i.callee, F.name), u)
        else:
            cs = [fb.brval.get(n) for n in fb.reach if fb.F.blocks[n].term.op == 'condbr']
            if not any(c is not None and any(x == tok for x in subterms(c)) for c in cs) and not any(c is not None and any(x[0] in ('phi', 'mphi') for x in subterms(c)) for c in cs):
                ctx.bad(oid, 'nothing in %s checks whether %s succeeded' % (F.name, i.callee), i)
            else:
                ctx.maybe(oid, 'result handled otherwise')


def alloc(ctx):
    wrapper(ctx, '_chkmalloc', 'malloc', True, None, 0)
    wrapper(ctx, '_chkrealloc', 'realloc', False, 0, 1)
    n = 0
    for kind in ['lib'] + ['tool:' + os.path.splitext(os.path.basename(s))[0] for s in util_sources()]:
        for F in ctx.prog(kind).all_funcs():
            if F.name in ('_chkmalloc', '_chkrealloc') or not F.blocks:
                continue
            k = [i.callee for b in F.rpo for i in b.insts if i.op == 'call']
            for c in k:
                if c in SAFE:
                    n += 1
                    ctx.good('%s/%s' % (F.name, c))
            if any(c in RAW for c in k):
                direct(ctx, kind, F)
    ctx.count('allocation_sites', n)
