"""Flow analysis of one (inlined) function: conditional value propagation.

Every SSA value is given a canonical *term* (access path, linear integer
expression, comparison, ...).  Memory cells are tracked flow-sensitively with
a field-based may-alias rule.  Branch edges whose condition is decided -- by
constants or by the *assumption oracle* -- are not propagated, so running the
analysis under an assumption ("every record's MJD is below the range") tells
which program points stay reachable.  This is an abstract interpretation with
joins at merge points: no path enumeration, no solver, nothing is executed.
"""
import os, re, struct as _struct
from .ir import NORETURN, ABORTS

PURE = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'g_strcmp0', 'g_str_equal', 'pow', 'sqrt', 'hypot', 'fabs', 'fabsf', 'isnan',
        'floor', 'ceil', 'memcmp', 'sqrtf', 'powf', 'strstr', 'strchr', 'g_ascii_strcasecmp', 'g_strcmp', 'g_str_has_prefix', 'g_str_has_suffix', 'rint', 'nearbyint', 'round', 'trunc',
        'llvm.rint.f64', 'llvm.ceil.f64', 'llvm.round.f64', 'llvm.trunc.f64', 'llvm.nearbyint.f64',
        'llvm.fabs.f64', 'llvm.fabs.f32', 'llvm.floor.f64', 'llvm.sqrt.f64', 'llvm.pow.f64', 'g_pattern_match_string',
        'g_pattern_spec_match_string', 'g_list_length', 'g_list_position', 'g_hash_table_lookup', 'g_list_find',
        'g_list_index', 'g_list_first', 'g_list_last', 'g_list_nth', 'g_list_nth_data', 'g_hash_table_contains', 'g_pattern_match_simple',
        'g_hash_table_size', 'abs', 'labs', 'llabs', 'g_str_hash', 'g_list_find_custom', 'hypotf', '__isnan', '__isnanf', 'llvm.is.constant.i32', 'llvm.is.constant.i64'}
MEMPURE = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'g_strcmp0', 'g_str_equal'}
ALLOCS = {'malloc', 'calloc', 'realloc', '_chkmalloc', '_chkrealloc', 'g_malloc', 'g_malloc0', 'g_realloc', 'strdup',
          'g_strdup', 'g_strndup', 'g_memdup', 'g_memdup2', 'g_malloc_n', 'g_malloc0_n', 'chkmalloc', 'chkrealloc', 'g_strdup_printf'}
NONNULL_ALLOCS = ALLOCS - {'malloc', 'calloc', 'realloc', 'strdup'}

# external call -> indices of pointer args written through (last cfitsio arg is the status)
WRITES = {
    'ffgcv': (7, 8, 9), 'ffgky': (3, 4, 5), 'ffgcno': (3, 4), 'ffgtcl': (2, 3, 4, 5), 'ffgnrw': (1, 2),
    'ffghdn': (1,), 'ffvcks': (1, 2, 3), 'ffthdu': (1, 2), 'ffmahd': (2, 3), 'ffmrhd': (2, 3), 'ffmnhd': (4,),
    'ffinit': (0, 2), 'ffopentest': (1, 4), 'ffopen': (0, 3), 'ffclos': (1,), 'ffdelt': (1,), 'ffpky': (5,), 'ffpcl': (7,),
    'ffpcks': (1,), 'ffcrtb': (8,), 'ffcrim': (4,), 'ffpdat': (1,), 'ffpunt': (3,), 'fficol': (4,), 'fficls': (5,),
    'ffgerr': (1,), 'ffrprt': (), 'ffpmrk': (), 'ffcmrk': (), 'ffpmsg': (), 'ffcmsg': (), 'ffreopen': (1, 2), 'ffflus': (1,),
    'ffgkys': (2, 3, 4), 'ffgkyj': (2, 3, 4), 'ffgkyd': (2, 3, 4), 'ffgcx': (5, 6),
    'ffgcvs': (6, 7, 8), 'ffgcvj': (6, 7, 8), 'ffgcvd': (6, 7, 8), 'ffgcve': (6, 7, 8), 'ffpcls': (6,), 'ffpcld': (6,),
    'ffukys': (4,), 'ffuky': (5,), 'ffpkys': (4,), 'ffpkyj': (4,), 'ffuksg': (), 'ffgncl': (1, 2), 'ffgcdw': (),
    'snprintf': (0,), 'g_snprintf': (0,), 'sprintf': (0,), 'strncpy': (0,), 'strcpy': (0,), 'g_strlcpy': (0,),
    'g_strlcat': (0,), 'strcat': (0,), 'strncat': (0,), 'memset': (0,), 'g_stpcpy': (0,), 'sscanf': (2, 3, 4, 5, 6, 7), '__isoc99_sscanf': (2, 3, 4, 5, 6, 7),
    '__isoc23_sscanf': (2, 3, 4, 5, 6, 7),
}
STATUS_LAST = re.compile(r'^ff[a-z]{2,10}$')


STRARGS = {'strcpy', 'g_strlcpy', 'strncpy', 'g_stpcpy', 'strlcpy', 'stpcpy', 'snprintf', 'g_snprintf', 'sprintf', 'strcat', 'strncat', 'g_strlcat', 'strlen', 'strcmp',
           'strncmp', 'g_strcmp0', 'g_str_equal', 'strdup', 'g_strdup', 'g_strndup', 'strcasecmp', 'g_ascii_strcasecmp'}


def is_const(t):
    return t[0] == 'c'


def C(n):
    return ('c', n)


def lin(const, terms):
    """terms: dict term->coef"""
    ts = tuple(sorted(((t, k) for t, k in terms.items() if k), key=repr))
    if not ts:
        return ('c', const)
    if const == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ('lin', const, ts)


def tolin(t):
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def ladd(a, b, sb=1):
    ca, ta = tolin(a)
    cb, tb = tolin(b)
    ta = dict(ta)
    for t, k in tb.items():
        ta[t] = ta.get(t, 0) + sb * k
    return lin(ca + sb * cb, ta)


def lmul(a, b):
    if b[0] == 'c':
        a, b = b, a
    if a[0] == 'c':
        c, ts = tolin(b)
        return lin(a[1] * c, {t: k * a[1] for t, k in ts.items()})
    x, y = sorted((a, b), key=repr)
    return ('mul', x, y)


FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
SAT = {'lt': {'<'}, 'le': {'<', '='}, 'gt': {'>'}, 'ge': {'>', '='}, 'eq': {'='}, 'ne': {'<', '>'}}
PRED = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': 'lt', 'ule': 'le',
        'ugt': 'gt', 'uge': 'ge', 'oeq': 'eq', 'one': 'ne', 'olt': 'lt', 'ole': 'le', 'ogt': 'gt', 'oge': 'ge',
        'ueq': 'eq', 'une': 'ne', 'uno': None, 'ord': None, 'true': None, 'false': None}


def neg(t):
    if t[0] == 'c':
        return C(0 if t[1] else 1)
    if t[0] == 'not':
        return t[1]
    if t[0] == 'cmp':
        return ('cmp', NEG[t[1]], t[2], t[3])
    return ('not', t)


def is_bool(t):
    return t[0] in ('cmp', 'not', 'band', 'bor', 'isnan') or t in (('c', 0), ('c', 1))


def gep(base, steps):
    if base[0] == 'gep':
        b, s = base[1], list(base[2])
    else:
        b, s = base, []
    for st in steps:
        if st[0] == '[':
            if st[2] == 'p' and s and s[-1][0] == '[':
                s[-1] = ('[', ladd(s[-1][1], st[1]), s[-1][2])
                if s[-1][1] == C(0):
                    s.pop()
                continue
            if st[1] == C(0) and st[2] == 'p':
                continue
            s.append(st)
        else:
            while s and s[-1][0] == '[' and s[-1][1] == C(0) and s[-1][2] == 'p':
                s.pop()
            s.append(st)
    while s and s[-1][0] == '[' and s[-1][1] == C(0):
        s.pop()
    if not s:
        return b
    return ('gep', b, tuple(s))


def base_of(a):
    return a[1] if a[0] == 'gep' else a


def steps_of(a):
    return a[2] if a[0] == 'gep' else ()


def last_field(a):
    """(struct, field) of the last field step of an address, or None"""
    if a[0] == 'gep':
        for st in reversed(a[2]):
            if st[0] == '.':
                return (st[1], st[2])
    return None


def load_field(t):
    """(struct, field) if t is a load of a struct field (possibly array element of it)"""
    if t[0] == 'ld':
        return last_field(t[1])
    return None


def elem_field(t):
    """(struct, field) if t is a load of an element of a buffer held in a pointer field: x->field[i]"""
    if t[0] == 'ld':
        a = t[1]
        b = base_of(a)
        if b[0] == 'ld' and (a[0] != 'gep' or all(s[0] == '[' for s in a[2])):
            return last_field(b[1])
    return None


def const_index(t):
    """constant index of the last '[' step of a load address (0 if none)"""
    a = t[1]
    if a[0] == 'gep' and a[2] and a[2][-1][0] == '[':
        i = a[2][-1][1]
        return i[1] if i[0] == 'c' else None
    return 0


def akey(a):
    """alias class of an address"""
    f = last_field(a)
    if f:
        return f
    b = base_of(a)
    if b[0] == 'ld':
        f = last_field(b[1])
        if f:
            return ('elem',) + f
        return ('elem', b)
    return ('root', b)


ROOTK = {'alloca': 'A', 'arg': 'P', 'glob': 'G', 'str': 'G', 'call': 'F', 'null': 'N'}


def distinct(b1, b2):
    """provably different objects (roots of addresses)"""
    if b1 == b2:
        return False
    k1 = b1[0]
    k2 = b2[0]
    if k1 == 'alloca' or k2 == 'alloca':
        return True
    if k1 == 'call' and b1[1] in ALLOCS or k2 == 'call' and b2[1] in ALLOCS:
        return True
    if k1 in ('glob', 'str') and k2 in ('glob', 'str', 'arg'):
        return True
    if k2 in ('glob', 'str') and k1 == 'arg':
        return True
    if k1 == 'arg' and k2 == 'arg':
        return True
    if k1 == 'ld' and k2 == 'arg' or k1 == 'arg' and k2 == 'ld':
        return True
    if k1 == 'ld' and k2 == 'ld':
        return not may_alias(b1[1], b2[1])
    return False


_region = {}


def region(a):
    """region an address belongs to: a fresh object, a local, what one argument reaches, a global, or None (unknown)"""
    r = _region.get(a)
    if r is None:
        r = _region[a] = (_region_of(a),)
    return r[0]


def _region_of(a):
    b = base_of(a)
    if b[0] == 'alloca' or (b[0] == 'call' and b[1] in ALLOCS) or b[0] in ('arg', 'glob', 'str'):
        return b
    if b[0] == 'ld':
        r = region(b[1])
        return r if r is not None and r[0] in ('arg', 'glob') else None
    if b[0] == 'liter':
        r = region(b[1])
        return r if r is not None and r[0] in ('arg', 'glob') else None
    return None


def get_ep(eps, k, addr):
    r = region(addr)
    e = eps.get((k, r))
    if r is not None:
        e2 = eps.get((k, None))
        if e is not None and e2 is not None:
            return e + '/' + e2
        return e or e2
    es = [v for (k2, r2), v in eps.items() if k2 == k and (r2 is None or r2[0] in ('arg', 'glob'))]
    return '/'.join(sorted(es)) if es else None


def may_alias(a, b):
    if a == b:
        return True
    ka, kb = akey(a), akey(b)
    ba, bb = base_of(a), base_of(b)
    if ka != kb:
        # prefix relation (whole-object address vs field)?
        return False
    if ba != bb:
        return not distinct(ba, bb)
    sa, sb = steps_of(a), steps_of(b)
    for x, y in zip(sa, sb):
        if x == y:
            continue
        if x[0] == '[' and y[0] == '[':
            d = ladd(x[1], y[1], -1)
            if d[0] == 'c' and d[1] != 0:
                return False
            return True
        return False
    for x in (sa[len(sb):] or sb[len(sa):]):
        # the shorter address denotes element 0
        if x[0] == '[' and x[1][0] == 'c' and x[1][1] != 0:
            return False
        break
    return True


def subterms(t):
    yield t
    k = t[0]
    if k in ('c', 'cf', 'nan', 'null', 'str', 'glob', 'fn', 'arg', 'alloca', 'call', 'phi', 'iter', 'undef'):
        return
    if k == 'lin':
        for x, _ in t[2]:
            yield from subterms(x)
        return
    if k == 'gep':
        yield from subterms(t[1])
        for s in t[2]:
            if s[0] == '[':
                yield from subterms(s[1])
        return
    if k == 'ld':
        yield from subterms(t[1])
        return
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield from subterms(x)
            elif isinstance(x[0], tuple):
                for y in x:             # arguments of a call
                    if y and isinstance(y[0], str):
                        yield from subterms(y)


def show(t, depth=0):
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 'cf':
        return repr(t[1])
    if k == 'null':
        return 'NULL'
    if k == 'str':
        return repr(t[2].rstrip(b'\0').decode('latin1'))
    if k in ('glob', 'fn'):
        return t[1]
    if k == 'arg':
        return t[2]
    if k == 'alloca':
        return '&' + t[1]
    if k == 'call':
        return '%s()#%s' % (t[1], t[2])
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2]))
    if k == 'gep':
        s = show(t[1])
        for st in t[2]:
            if st[0] == '.':
                s += '->' + st[2]
            else:
                s += '[%s]' % show(st[1])
        return s
    if k == 'ld':
        return '*(%s)%s' % (show(t[1]), '' if len(t) < 3 else '@' + str(t[2]))
    if k == 'lin':
        return '(' + ' + '.join(([str(t[1])] if t[1] else []) + [(('%d*' % c) if c != 1 else '') + show(x) for x, c in t[2]]) + ')'
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2]), {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[t[1]], show(t[3]))
    if k == 'iter':
        return 'i<%s>' % t[1]
    if k == 'liter':
        return 'each<%s>' % show(t[1])
    if k == 'phi':
        return 'phi<%s>' % t[1]
    if k in ('undef', 'nan'):
        return k
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def stable_addr(a):
    """address that denotes the same location in every loop iteration"""
    return base_of(a)[0] in ('arg', 'alloca', 'glob') and all(x[0] == '.' or x[1][0] == 'c' for x in steps_of(a))


def uid0(i):
    return i.res if i.res is not None else '%s.%d' % (i.bb.name, i.idx)


class Oracle:
    """Assumption: override rel()/val().  rel -> '<','=','>' or a set of them or None; val -> int or None."""

    def begin(self):
        """called before each pass; the last pass is the one whose values hold"""

    def rel(self, a, b):
        return None

    def val(self, t):
        return None

    def order(self, pred, a, b):
        r = self.rel(a, b)
        if r is None:
            r = self.rel(b, a)
            if r is not None:
                r = {{'<': '>', '>': '<', '=': '='}[x] for x in r}
        if r is None:
            return None
        r = set(r)
        if r <= SAT[pred]:
            return True
        if not (r & SAT[pred]):
            return False
        return None


class FA:
    def __init__(self, prog, F, oracle=None, mods=None, maxiter=90, noreturn_ok=None):
        self.prog = prog
        self.F = F
        self.oracle = oracle or Oracle()
        self.mods = mods            # callable: callee name -> set of alias keys modified, or None
        self.val = {}
        self.args = {}              # inst id -> tuple of terms (calls), (val, addr) for store
        self.exec_edges = set()
        self.out = {}
        self.in_ = {}
        self.brval = {}
        self._ind = {}
        self.mem_at = {}
        self.mod_cache = {}
        self.hstate = {}
        self.hentry = {}
        self.hrestart = {}
        self.settled = set()
        self._scan_ind()
        self.settled_phi = set()
        for _ in range(5):
            self.run(maxiter)
            ph = self.stale()
            if ph is None:
                break
            # a guess made on the way (an induction that was none) opened edges that the final values close:
            # start over without that guess
            top = {k for k, v in self.hstate.items() if v[1] == 'top'}
            if top <= self.settled and ph <= self.settled_phi:
                break
            self.settled |= top
            self.settled_phi |= ph
            for d in (self.val, self.args, self.out, self.in_, self.brval, self._ind, self.mem_at, self.hstate, self.hentry, self.hrestart):
                d.clear()
            self.exec_edges = set()

    # ---------- constants
    def const(self, o):
        k = o[0]
        if k == 'i':
            return C(o[1])
        if k == 'f':
            return ('cf', o[1]) if o[1] == o[1] else ('nan',)
        if k == 'null':
            return ('null',)
        if k == 'g':
            return self.globterm(o[1])
        if k == 'cgep':
            b = self.const(o[2][0][1])
            return gep(b, self.gepsteps(o[1], [self.const(x[1]) for x in o[2][1:]]))
        if k in ('undef', 'zero'):
            return ('undef',) if k == 'undef' else C(0)
        return ('undef',)

    def curmod(self):
        return self._curmod

    def globterm(self, name):
        M = self._curmod
        g = M.globals.get(name)
        if g is not None:
            if g['const'] and g['init'] is not None and g['init'][0] == 'bytes':
                return ('str', name, g['init'][1])
            if g['const'] and g['init'] is not None and g['init'][0] == 'zero' and isinstance(g['ty'], tuple) and g['ty'][0] == 'arr' and g['ty'][2] == 'i8':
                return ('str', name, b'\0' * g['ty'][1])
            if g['internal']:
                return ('glob', name, M.path.rsplit('/', 1)[-1])
            return ('glob', name, '')
        return ('fn', name)

    def gepsteps(self, sty, idx):
        steps = []
        ty = sty
        first = True
        for t in idx:
            if first:
                steps.append(('[', t, 'p'))
                first = False
                continue
            if isinstance(ty, tuple) and ty[0] == 'named':
                i = t[1]
                steps.append(('.', self.prog.sname(ty), self.prog.fieldname(ty, i)))
                ty = self.prog.types[ty[1]][1][i]
            elif isinstance(ty, tuple) and ty[0] == 'struct':
                i = t[1]
                steps.append(('.', 'anon', 'f%d' % i))
                ty = ty[1][i]
            elif isinstance(ty, tuple) and ty[0] == 'arr':
                steps.append(('[', t, 'a'))
                ty = ty[2]
            elif isinstance(ty, tuple) and ty[0] == 'vec':
                steps.append(('[', t, 'a'))
                ty = ty[2]
        return steps

    def byte_steps(self, a, off):
        """steps to the member at byte offset off when address a is known to be that of a struct member of struct type"""
        if a[0] != 'gep' or a[2][-1][0] != '.' or off < 0:
            return None
        _, sn, fn = a[2][-1]
        ty = self.prog.field_type(sn, fn)
        if not (isinstance(ty, tuple) and ty[0] == 'named'):
            return None
        out = []
        while isinstance(ty, tuple) and ty[0] == 'named':
            hit = None
            fs = self.prog.types.get(ty[1])
            if fs is None:
                return None
            for k, (o, e) in enumerate(zip(self.prog.offsets(ty), fs[1])):
                if o <= off < o + self.prog.sizeof(e):
                    hit = (k, o, e)
            if hit is None:
                return None
            out.append(('.', self.prog.sname(ty), self.prog.fieldname(ty, hit[0])))
            off -= hit[1]
            ty = hit[2]
        if isinstance(ty, tuple) and ty[0] == 'arr':
            z = self.prog.sizeof(ty[2])
            if off % z:
                return None
            if off:
                out.append(('[', C(off // z), 'a'))
            off = 0
        return out if off == 0 else None

    def t(self, o):
        k = o[0]
        if k == 'v':
            v = self.val.get(o[1])
            if v is None:
                p = self.params.get(o[1])
                if p is not None:
                    return p
                return None     # not yet evaluated (optimistic top)
            return v
        return self.const(o)

    # ---------- induction variables
    def _scan_ind(self):
        F = self.F
        self.params = {}
        for k, (pn, pty, pat) in enumerate(F.params):
            self.params[pn] = ('arg', k, pn)
        self.headers = set(F.loops)

    def _chase(self, o, phi, seen):
        """increment c such that o == phi + c (int) / pointer gep [c]; 'next' for list; None"""
        if o[0] != 'v':
            return None
        if o[1] == phi.res:
            return 0
        i = self.F.defs.get(o[1])
        if i is None or o[1] in seen:
            return None
        seen = seen | {o[1]}
        if i.op == 'cast' and i.x['kind'] in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            return self._chase(i.ops[0], phi, seen)
        if i.op in ('add', 'sub'):
            a, b = i.ops
            if b[0] == 'i':
                c = self._chase(a, phi, seen)
                if isinstance(c, int):
                    return c + (b[1] if i.op == 'add' else -b[1])
            if a[0] == 'i' and i.op == 'add':
                c = self._chase(b, phi, seen)
                if isinstance(c, int):
                    return c + a[1]
            return None
        if i.op == 'gep' and len(i.ops) == 2 and i.ops[1][0] == 'i':
            c = self._chase(i.ops[0], phi, seen)
            if isinstance(c, int):
                return c + i.ops[1][1]
            return None
        if i.op == 'load':
            g = self.F.defs.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
            if g is not None and g.op == 'gep' and isinstance(g.x['sty'], tuple) and g.x['sty'][0] == 'named' \
                    and self.prog.sname(g.x['sty']) in ('_GList', '_GSList', 'GList', 'GSList') and len(g.ops) == 3 \
                    and g.ops[2] == ('i', 1):
                c = self._chase(g.ops[0], phi, seen)
                if c == 0:
                    return 'next'
            return None
        if i.op == 'phi':
            if i.bb.name in self.headers and not self._same_loop_header_ok(i, phi):
                return None
            cs = []
            for p, v in zip(i.x['preds'], i.ops):
                if (p, i.bb.name) in self.exec_edges:
                    cs.append(self._chase(v, phi, seen))
            if cs and all(c == cs[0] for c in cs):
                return cs[0]
            return None
        if i.op == 'call' and i.callee in ('g_list_next',):
            return 'next'
        return None

    def _same_loop_header_ok(self, i, phi):
        return False

    def phi_term(self, i):
        bn = i.bb.name
        vals = []
        for p, o in zip(i.x['preds'], i.ops):
            if (p, bn) in self.exec_edges:
                v = self.t(o)
                vals.append((p, o, v))
        known = [v for _, _, v in vals if v is not None]
        if not known:
            return None
        if bn in self.headers:
            body = self.F.loops[bn]
            init = [v for p, o, v in vals if p not in body]
            lat = [(p, o, v) for p, o, v in vals if p in body]
            if lat:
                init = [v for v in init if v is not None]
                if init and all(v == init[0] for v in init):
                    i0 = init[0]
                    cs = [self._chase(o, i, frozenset()) for _, o, _ in lat]
                    if all(c == cs[0] for c in cs) and cs[0] is not None:
                        c = cs[0]
                        if c == 0:
                            return i0
                        if c == 'next':
                            return ('liter', i0, bn)
                        if i.ty == 'ptr':
                            return gep(i0, [('[', lmul(C(c), ('iter', bn)), 'p')])
                        return ladd(i0, lmul(C(c), ('iter', bn)))
                    # all latch values equal to init or to this phi
                    me = ('phi', i.res)
                    if all(v is None or v == i0 or v == me for _, _, v in lat):
                        return i0
                return ('phi', i.res)
        if i.res in self.settled_phi:
            return ('phi', i.res)
        if all(v == known[0] for v in known):
            return known[0]
        # or/and shaped boolean phi stays opaque; resolved by edge pruning
        if i.ty == 'i1' and len(vals) == 2 and all(v in (C(0), C(1)) for _, _, v in vals):
            # `a && b` with b known: the condition of the triangle
            for (p, _, v), (q, _, w) in (vals, vals[::-1]):
                t = self.F.blocks[p].term
                k = self.brval.get(p)
                if t.op == 'condbr' and k is not None and {bn, q} == set(t.x['targets']) and is_bool(k) \
                        and {x.name for x in self.F.blocks[q].preds if (x.name, q) in self.exec_edges} == {p}:
                    return k if (t.x['targets'][0] == bn) == bool(v[1]) else neg(k)
        return ('phi', i.res)

    # ---------- memory state
    @staticmethod
    def st_copy(s):
        return (dict(s[0]), dict(s[1]), dict(s[2]))

    def mem_ind(self, bn, k, ivals, lvals):
        """value of memory cell k at loop header bn (entry values, back-edge values): optimistic, then
        induction variable, then opaque; restarted when the entry value changes, so it terminates"""
        m = ('mphi', bn, k)
        if not ivals or any(v != ivals[0] for v in ivals):
            return m
        i0 = ivals[0]
        if (bn, k) in self.settled:
            self.hstate[(bn, k)] = (i0, 'top', 99)
            return m
        st = self.hstate.get((bn, k))
        if st is None or st[0] != i0:
            n = 0 if st is None else st[2] + 1
            self.again = True            # the assumption has to be confirmed by another pass
            self.hstate[(bn, k)] = (i0, 'opt' if n < 12 else 'top', n)
            return i0 if n < 12 else m
        mode = st[1]
        if mode == 'opt':
            if all(v == i0 or v == m for v in lvals):
                return i0
            if i0[0] not in ('null', 'cf', 'undef', 'str'):
                ds = [ladd(v, i0, -1) for v in lvals if v[0] not in ('null', 'cf', 'undef')]
                if len(ds) == len(lvals) and ds and all(d == ds[0] for d in ds) and ds[0][0] == 'c' and ds[0][1] != 0:
                    self.hstate[(bn, k)] = (i0, ds[0][1], st[2])
                    return ladd(i0, lmul(ds[0], ('iter', bn)))
            self.hstate[(bn, k)] = (i0, 'top', st[2])
            return m
        if mode == 'top':
            return m
        cand = ladd(i0, lmul(C(mode), ('iter', bn)))
        if all(v in (ladd(cand, C(mode)), ladd(i0, C(mode)), ladd(m, C(mode))) for v in lvals):
            return cand
        self.hstate[(bn, k)] = (i0, 'top', st[2])
        return m

    def st_join(self, states, bn, names=None):
        if len(states) == 1:
            s = self.st_copy(states[0])
            for h, k in self.settled:
                if h == bn and k in s[0]:
                    s[0][k] = ('mphi', bn, k)
            return s
        a = states[0]
        cells = {}
        body = self.F.loops.get(bn) if names else None
        keys = set(a[0])
        for s in states[1:]:
            keys &= set(s[0])
        for s in states:
            for k in s[0]:
                if k not in keys and stable_addr(k):
                    keys.add(k)

        def get(s, k):
            v = s[0].get(k)
            return v if v is not None else self.mem_load(s, k, None)
        for k in keys:
            v = get(a, k)
            if body is None and all(get(s, k) == v for s in states[1:]):
                cells[k] = v
            else:
                r = None
                if body is not None:
                    r = self.mem_ind(bn, k, [get(s, k) for s, n in zip(states, names) if n not in body],
                                     [get(s, k) for s, n in zip(states, names) if n in body])
                cells[k] = r if r is not None else ('mphi', bn, k)
        # cells present in only some: unknown -> epoch bump
        eps = {}
        allk = set()
        for s in states:
            allk |= set(s[1])
        for k in allk:
            v = a[1].get(k)
            if all(s[1].get(k) == v for s in states[1:]):
                eps[k] = v
            else:
                eps[k] = 'm:' + bn
        lost = set()
        for s in states:
            for k in s[0]:
                if k not in keys:
                    lost.add((akey(k), region(k)))
        for k in lost:
            eps[k] = 'm:' + bn
        copies = {}
        for d, src in a[2].items():
            if all(s[2].get(d) == src for s in states[1:]):
                copies[d] = src
        for s in states:
            for d in s[2]:
                if d not in copies:
                    eps[(('obj', base_of(d)), None)] = 'm:' + bn
        return (cells, eps, copies)

    def mem_load(self, st, addr, i):
        cells, eps, copies = st
        if addr in cells:
            return cells[addr]
        # copied objects: longest prefix
        if copies:
            steps = steps_of(addr)
            for n in range(len(steps), -1, -1):
                p = gep(base_of(addr), steps[:n]) if n else base_of(addr)
                if p in copies:
                    src, snap_s, snap_d, ln = copies[p]
                    if ln is not None and self.beyond(steps[n:], ln):
                        break               # not reached by the copy
                    k = akey(addr)
                    if get_ep(eps, k, addr) == get_ep(dict(snap_d), k, addr):
                        sa = gep(src, steps[n:])
                        ep = get_ep(dict(snap_s), akey(sa), sa)
                        return ('ld', sa) if ep is None else ('ld', sa, ep)
                    break
        # constant global tables
        b = base_of(addr)
        if b[0] == 'glob':
            v = self.glob_load(addr)
            if v is not None:
                return v
        ep = get_ep(eps, akey(addr), addr) or eps.get((('obj', b), None))
        if ep is None:
            return ('ld', addr)
        return ('ld', addr, ep)

    def glob_load(self, addr):
        b = base_of(addr)
        g = None
        for M in self.prog.modules:
            x = M.globals.get(b[1])
            if x is not None and x['const'] and (b[2] == '' or M.path.endswith('/' + b[2])):
                g = x
                gm = M
                break
        if g is None or g['init'] is None:
            return None
        v = g['init']
        ty = g['ty']
        st = list(steps_of(addr))
        # walk, adding implicit zero indices
        while True:
            if v[0] == 'zero':
                return ('null',) if False else C(0)
            if v[0] != 'agg':
                break
            if isinstance(ty, tuple) and ty[0] == 'arr':
                if st and st[0][0] == '[':
                    ix = st.pop(0)[1]
                    if ix[0] != 'c':
                        return None
                    ix = ix[1]
                else:
                    ix = 0
                if ix >= len(v[1]):
                    return None
                ty, v = v[1][ix]
            else:
                if st and st[0][0] == '.':
                    f = st.pop(0)[2]
                    names = [self.prog.fieldname(ty, q) for q in range(len(v[1]))] if ty[0] == 'named' else []
                    if f not in names:
                        return None
                    ix = names.index(f)
                else:
                    ix = 0
                ty, v = v[1][ix]
        if st:
            return None
        save = self._curmod
        self._curmod = gm
        r = self.const(v) if v[0] != 'bytes' else None
        self._curmod = save
        return r

    def mem_store(self, st, addr, v, tok):
        cells, eps, copies = st
        k = akey(addr)
        kill = [a for a in cells if akey(a) == k and a != addr and may_alias(a, addr)]
        for a in kill:
            cells[a] = ('ld', a, tok)
        b = base_of(addr)
        # unknown cells of the same class may be modified, unless this object's cell is exact
        cells[addr] = v
        if not (b[0] in ('alloca',) or (b[0] == 'call' and b[1] in ALLOCS)):
            eps[(k, region(addr))] = tok
        else:
            # only this object: bump object-local epoch if store is indexed by a non-constant
            if any(s[0] == '[' and s[1][0] != 'c' for s in steps_of(addr)):
                eps[(k, b)] = tok

    def mem_clobber(self, st, addr, tok):
        """contents of the object/field at addr become unknown"""
        cells, eps, copies = st
        k = akey(addr)
        b = base_of(addr)
        pre = steps_of(addr)
        for a in list(cells):
            if a == addr or (akey(a) == k and may_alias(a, addr)) or (base_of(a) == b and steps_of(a)[:len(pre)] == pre):
                cells[a] = ('ld', a, tok)
        eps[(k, region(addr))] = tok
        if b[0] == 'alloca' and not pre:
            eps[(('obj', b), None)] = tok
            for d in list(copies):
                if base_of(d) == b:
                    del copies[d]

    def mem_clobber_keys(self, st, keys, tok):
        cells, eps, copies = st
        for a in list(cells):
            if akey(a) in keys and base_of(a)[0] != 'alloca':
                cells[a] = ('ld', a, tok)
        for k in keys:
            eps[(k, None)] = tok

    def cuts(self, dst, src, n):
        """a string copy limited to n bytes shortens a value that both places could hold"""
        def room(a):
            f = last_field(a)
            ty = self.prog.field_type(*f) if f and steps_of(a) and steps_of(a)[-1][0] == '.' else None
            return ty[1] if isinstance(ty, tuple) and ty[0] == 'arr' and ty[2] == 'i8' else None
        d, s = room(dst), len(src[2]) if src[0] == 'str' else room(src)
        return d is not None and n < d and (s is None or n < s)

    def beyond(self, steps, ln):
        """the member starts at or after byte ln of the object (or is cut by it)"""
        if not steps or steps[0][0] != '.':
            return False
        fs = self.prog.structs.get(steps[0][1], ([],))[0]
        for fn, off, _ in fs:
            if fn == steps[0][2]:
                ty = self.prog.field_type(steps[0][1], fn)
                sz = self.prog.sizeof(ty) if ty is not None and len(steps) == 1 else 1
                return off + sz > ln
        return False

    def mem_copy(self, st, dst, src, tok, ln=None):
        cells, eps, copies = st
        b = base_of(dst)
        pre = steps_of(dst)
        for a in list(cells):
            if base_of(a) == b and steps_of(a)[:len(pre)] == pre and not (ln is not None and self.beyond(steps_of(a)[len(pre):], ln)):
                del cells[a]
        for d in list(copies):
            if base_of(d) == b and steps_of(d)[:len(pre)] == pre:
                del copies[d]
        # bring over cells known under src
        sb, sp = base_of(src), steps_of(src)
        for a in list(cells):
            if base_of(a) == sb and steps_of(a)[:len(sp)] == sp and not (ln is not None and self.beyond(steps_of(a)[len(sp):], ln)):
                cells[gep(dst, steps_of(a)[len(sp):])] = cells[a]
        snap = frozenset(eps.items())
        if src in copies and copies[src][0] != src:
            l2 = copies[src][3]
            copies[dst] = (copies[src][0], copies[src][1], snap, l2 if ln is None else ln if l2 is None else min(ln, l2))
        else:
            copies[dst] = (src, snap, snap, ln)

    # ---------- evaluation
    def evcmp(self, pred, a, b):
        if a is None or b is None:
            return None
        if pred is None:
            return None
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            return C(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred]))
        if a[0] == 'cf' and b[0] == 'cf':
            x, y = a[1], b[1]
            return C(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred]))
        if a == b and a[0] != 'undef' and pred in ('eq', 'le', 'ge'):
            return C(1)
        if a == b and a[0] != 'undef' and pred in ('ne', 'lt', 'gt'):
            return C(0)
        na, nb = self.nullness(a), self.nullness(b)
        if pred in ('eq', 'ne') and ((na == 'null' and nb == 'nonnull') or (na == 'nonnull' and nb == 'null')):
            return C(int(pred == 'ne'))
        if na == 'null' and nb == 'null':
            return C(int(pred in ('eq', 'le', 'ge')))
        # boolean test against 0/1
        for x, y, p in ((a, b, pred), (b, a, FLIP[pred])):
            if y[0] == 'c' and is_bool(x):
                if p == 'ne' and y[1] == 0 or p == 'eq' and y[1] == 1:
                    return x
                if p == 'eq' and y[1] == 0 or p == 'ne' and y[1] == 1:
                    return neg(x)
        # assumption on values
        va = a[1] if a[0] == 'c' else self.oracle.val(a)
        vb = b[1] if b[0] == 'c' else self.oracle.val(b)
        if b[0] == 'null':
            vb = 0
        if a[0] == 'null':
            va = 0
        if va is not None and vb is not None and not isinstance(va, str) and not isinstance(vb, str):
            x, y = va, vb
            return C(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred]))
        if va == 'nz' and vb == 0:
            if pred in ('eq', 'ne'):
                return C(int(pred == 'ne'))
        if vb == 'nz' and va == 0:
            if pred in ('eq', 'ne'):
                return C(int(pred == 'ne'))
        if isinstance(va, str) and va.startswith('not:') and vb is not None and str(vb) == va[4:] and pred in ('eq', 'ne'):
            return C(int(pred == 'ne'))
        o = self.oracle.order(pred, a, b)
        if o is not None:
            return C(int(o))
        if a[0] in ('lin', 'c') or b[0] in ('lin', 'c'):
            d = ladd(a, b, -1) if a[0] not in ('null', 'cf') and b[0] not in ('null', 'cf') else None
            if d is not None and d[0] == 'c' and a[0] != 'cf' and b[0] != 'cf':
                x = d[1]
                return C(int({'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[pred]))
        if repr(b) < repr(a):
            a, b, pred = b, a, FLIP[pred]
        return ('cmp', pred, a, b)

    def nullness(self, t):
        if t[0] == 'null':
            return 'null'
        if t[0] in ('alloca', 'str', 'glob', 'fn'):
            return 'nonnull'
        if t[0] == 'gep':
            if t[1][0] in ('alloca', 'str', 'glob'):
                return 'nonnull'
            if any(s[0] == '.' for s in t[2]):
                return 'nonnull'
            return self.nullness(t[1])
        if t[0] == 'call' and t[1] in NONNULL_ALLOCS:
            return 'nonnull'
        if t[0] == 'call' and t[1] in ('g_list_append', 'g_list_prepend', 'g_hash_table_new_full', 'g_hash_table_new', 'g_pattern_spec_new', 'g_string_chunk_new'):
            return 'nonnull'
        return None

    def resolve_val(self, t):
        """apply value oracle to non-constant scalar terms"""
        if t is not None and t[0] not in ('c', 'cf', 'null', 'undef', 'str', 'alloca', 'glob', 'fn'):
            v = self.oracle.val(t)
            if isinstance(v, int):
                return C(v)
        return t

    def eval(self, i, st):
        op = i.op
        if op == 'phi':
            fo = getattr(self.oracle, 'force', None)
            if fo and i.res in fo:
                return C(fo[i.res])         # analysed from an assumed state of the loop
            return self.phi_term(i)
        if op == 'alloca':
            return ('alloca', i.res)
        if op == 'load':
            a = self.t(i.ops[0])
            if a is None:
                return None
            if not isinstance(i.ty, tuple):
                a = self.inner(a)
            self.args[id(i)] = (a,)
            if i.ty and isinstance(i.ty, tuple) and i.ty[0] == 'vec':
                pass
            return self.resolve_val(self.mem_load(st, a, i))
        if op == 'gep':
            ts = [self.t(o) for o in i.ops]
            if any(x is None for x in ts):
                return None
            if i.x['sty'] == 'i8' and len(ts) == 2 and ts[1][0] == 'c':
                st = self.byte_steps(ts[0], ts[1][1])
                if st:
                    return gep(ts[0], st)
            return gep(ts[0], self.gepsteps(i.x['sty'], ts[1:]))
        if op in ('icmp', 'fcmp'):
            a, b = self.t(i.ops[0]), self.t(i.ops[1])
            if a is None or b is None:
                return None
            p = i.x['pred']
            if p == 'uno':
                if a == b or b[0] == 'cf':
                    return self.resolve_val(('isnan', a))
                return ('op', 'uno', a, b)
            if p == 'ord':
                if a == b or b[0] == 'cf':
                    return neg(self.resolve_val(('isnan', a)))
                return ('op', 'ord', a, b)
            if op == 'fcmp' and a == b:
                if p in ('une',):
                    return self.resolve_val(('isnan', a))
                if p in ('oeq',):
                    return neg(self.resolve_val(('isnan', a)))
            return self.evcmp(PRED[p], a, b)
        if op in ('add', 'sub', 'mul', 'shl'):
            a, b = self.t(i.ops[0]), self.t(i.ops[1])
            if a is None or b is None:
                return None
            if op == 'add':
                return ladd(a, b)
            if op == 'sub':
                return ladd(a, b, -1)
            if op == 'shl' and b[0] == 'c':
                return lmul(a, C(1 << b[1]))
            if op == 'mul':
                return lmul(a, b)
            return ('op', op, a, b)
        if op in ('and', 'or', 'xor'):
            a, b = self.t(i.ops[0]), self.t(i.ops[1])
            if a is None or b is None:
                return None
            if i.ty == 'i1' or (is_bool(a) and is_bool(b)):
                if op == 'xor':
                    if b == C(1):
                        return neg(a)
                    if a == C(1):
                        return neg(b)
                    if b == C(0):
                        return a
                if op == 'and':
                    if C(0) in (a, b):
                        return C(0)
                    if a == C(1):
                        return b
                    if b == C(1) or a == b:
                        return a
                    return ('band',) + tuple(sorted((a, b), key=repr))
                if op == 'or':
                    if C(1) in (a, b):
                        return C(1)
                    if a == C(0):
                        return b
                    if b == C(0) or a == b:
                        return a
                    return ('bor',) + tuple(sorted((a, b), key=repr))
            if a[0] == 'c' and b[0] == 'c':
                return C({'and': a[1] & b[1], 'or': a[1] | b[1], 'xor': a[1] ^ b[1]}[op])
            return ('op', op) + tuple(sorted((a, b), key=repr))
        if op in ('fadd', 'fmul'):
            a, b = self.t(i.ops[0]), self.t(i.ops[1])
            if a is None or b is None:
                return None
            return ('op', op) + tuple(sorted((a, b), key=repr))
        if op in ('fsub', 'fdiv', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'frem'):
            a, b = self.t(i.ops[0]), self.t(i.ops[1])
            if a is None or b is None:
                return None
            if op == 'fdiv' and a[0] == 'cf' and b[0] == 'cf':
                if b[1] == 0:
                    return ('nan',) if a[1] == 0 else ('op', op, a, b)
                return ('cf', a[1] / b[1])
            return ('op', op, a, b)
        if op == 'fneg':
            a = self.t(i.ops[0])
            return None if a is None else (('cf', -a[1]) if a[0] == 'cf' else ('op', 'fneg', a))
        if op == 'cast':
            a = self.t(i.ops[0])
            if a is None:
                return None
            k = i.x['kind']
            if k == 'trunc' and i.ty == 'i1' and not is_bool(a):
                return self.evcmp('ne', a, C(0))
            if k == 'trunc' and i.ty in ('i8', 'i16') and not is_bool(a):
                w = int(i.ty[1:])
                if a[0] == 'c':
                    return C((a[1] + (1 << w - 1)) % (1 << w) - (1 << w - 1))
                if self.bits(i.ops[0]) > w:
                    return ('op', 'narrow%d' % w, a)
            if k in ('sitofp', 'uitofp') and a[0] == 'c':
                return ('cf', float(a[1]))
            if k in ('fptosi', 'fptoui'):
                return ('op', 'toint', a)
            if k in ('sext', 'zext') and i.ty == 'i64' and i.x['fty'] == 'i32' and a[0] == 'arg' and i.ops[0][0] == 'v':
                d = self.F.defs.get(i.ops[0][1])
                if d is not None and d.op == 'cast' and d.x['kind'] == 'trunc' and self.bits(d.ops[0]) > 32:
                    return ('op', 'narrow32', a)
            if k == 'sext' and i.x['fty'] == 'i1':
                return ('op', 'sextbool', a)
            if k == 'fptrunc' and a[0] == 'cf':
                try:
                    return ('cf', _struct.unpack('f', _struct.pack('f', a[1]))[0])
                except OverflowError:
                    return a
            if k == 'fptrunc' and a[0] == 'ld' and last_field(a[1]):
                return ('op', 'float', a)          # an attribute cut to single precision
            if k == 'inttoptr' and a == C(0):
                return ('null',)
            return a
        if op == 'select':
            c, a, b = (self.t(o) for o in i.ops)
            if c is None:
                return None
            if c[0] == 'c':
                return a if c[1] else b
            if a is None or b is None:
                return None
            if a == b:
                return a
            if i.ty == 'i1':
                if a == C(1):
                    return ('bor',) + tuple(sorted((c, b), key=repr)) if b != C(0) else c
                if b == C(0):
                    return ('band',) + tuple(sorted((c, a), key=repr))
                if a == C(0) and b == C(1):
                    return neg(c)
            return ('sel', c, a, b)
        if op == 'call':
            return self.eval_call(i, st)
        if op == 'store':
            v, a = self.t(i.ops[0]), self.t(i.ops[1])
            if v is None or a is None:
                return None
            if not isinstance(i.ty, tuple):
                a = self.inner(a)
            self.args[id(i)] = (v, a)
            self.mem_store(st, a, v, 's:%s:%d' % (i.bb.name, i.idx))
            return None
        if op in ('insertvalue', 'extractvalue', 'insertelement', 'extractelement', 'shufflevector', 'va_arg'):
            ts = [self.t(o) for o in i.ops]
            if any(x is None for x in ts):
                return None
            return ('op', op) + tuple(ts)
        return ('undef',)

    def inner(self, a):
        """a global structure accessed at offset 0: its first member"""
        if a[0] == 'glob':
            ty = self.prog.global_type(a[1])
            while isinstance(ty, tuple) and ty[0] == 'named' and self.prog.types.get(ty[1]) and self.prog.types[ty[1]][1]:
                a = gep(a, [('.', self.prog.sname(ty), self.prog.fieldname(ty, 0))])
                ty = self.prog.types[ty[1]][1][0]
        return a

    def eval_call(self, i, st):
        args = [self.t(o) for o in i.ops]
        if any(a is None for a in args):
            return None
        if i.callee in STRARGS:
            args = [self.inner(a) for a in args]
        args = tuple(args)
        self.args[id(i)] = args
        f = i.callee
        if f is None:
            fp = self.t(i.x['fptr'])
            if fp is not None and fp[0] == 'fn':
                f = fp[1]
            self.args[id(i)] = args
        uid = i.res if i.res is not None else '%s.%d' % (i.bb.name, i.idx)
        tok = 'c:%s:%d' % (i.bb.name, i.idx)
        if f is not None and (f.startswith('llvm.memcpy') or f.startswith('llvm.memmove') or f in ('memcpy', 'memmove')):
            self.mem_copy(st, args[0], args[1], tok, args[2][1] if len(args) > 2 and args[2] is not None and args[2][0] == 'c' else None)
            return args[0]
        src = None
        if f in ('strcpy', 'g_strlcpy', 'strncpy', 'g_stpcpy', 'strlcpy', 'stpcpy'):
            src = args[1]
        elif f in ('snprintf', 'g_snprintf') and len(args) == 4 and args[2][0] == 'str' and args[2][2].rstrip(b'\0') == b'%s':
            src = args[3]
        if src is not None:
            self.mem_clobber(st, args[0], tok)
            self.mem_copy(st, args[0], src, tok)
            n = args[2] if f in ('g_strlcpy', 'strncpy', 'strlcpy') else args[1] if f in ('snprintf', 'g_snprintf') else None
            if n is not None and n[0] == 'c' and self.cuts(args[0], src, n[1] + (f == 'strncpy')):
                st[0][args[0]] = ('op', 'cut', ('ld', src))
            return self.resolve_val(('call', f, uid0(i)))
        if f is not None and f.startswith('llvm.fmuladd'):
            m = ('op', 'fmul') + tuple(sorted((args[0], args[1]), key=repr))
            return ('op', 'fadd') + tuple(sorted((m, args[2]), key=repr))
        if f in PURE:
            if f.startswith('llvm.is.constant'):
                return C(0)
            av = tuple(args)
            nm = f
            if f == 'isnan' or f == '__isnan' or f == '__isnanf':
                return self.resolve_val(('isnan', args[0]))
            if f in ('strcmp', 'g_strcmp0') and repr(av[1]) < repr(av[0]):
                av = (av[1], av[0])
            if f == 'g_pattern_spec_match_string':
                nm = 'g_pattern_match_string'
            if f.startswith('llvm.fabs') or f == 'fabsf':
                nm = 'fabs'
            if f == 'strlen' and av[0][0] == 'str':
                return C(len(av[0][2].split(b'\0')[0]))
            r = ('app', nm, av)
            if f in MEMPURE:
                eps = []
                for a in av:
                    e = get_ep(st[1], akey(a), a) or st[1].get((('obj', base_of(a)), None))
                    eps.append(e)
                if any(eps):
                    r = ('app', nm, av, tuple(eps))
            return self.resolve_val(r)
        # effects
        G = self.prog.resolve(f, i.origin[0]) if f else None
        if G is not None:
            keys, derefs = self.modsum(G)
            self.mem_clobber_keys(st, keys, tok)
            for k in derefs:
                if k < len(args):
                    self.mem_clobber(st, args[k], tok)
        elif f in WRITES:
            for k in WRITES[f]:
                if k < len(args) and args[k][0] not in ('null', 'c'):
                    a = args[k]
                    if f == 'ffgcv' and k == 7 and args[1] == C(16):
                        a = self.mem_load(st, a, None)      # array of char*: the strings are written, not the pointers
                    if a[0] not in ('null', 'c'):
                        self.mem_clobber(st, a, tok)
        elif f and f.startswith('llvm.memset'):
            self.mem_clobber(st, args[0], tok)
        elif f is not None and STATUS_LAST.match(f) and args:
            for a in args:
                if a[0] in ('alloca',) or (a[0] == 'gep' and a[1][0] == 'alloca') or a is args[-1]:
                    if a[0] not in ('null', 'c', 'cf', 'str'):
                        self.mem_clobber(st, a, tok)
        else:
            for a in args:
                if a[0] == 'alloca' or (a[0] == 'gep' and a[1][0] == 'alloca'):
                    if f not in ('printf', 'fprintf', 'free', 'g_hash_table_insert', 'g_list_append', 'strlen', 'puts', 'putchar',
                                 'g_string_append_printf', 'g_string_append', 'g_string_append_len', 'g_string_append_c', 'g_string_printf', 'g_string_assign', 'g_hash_table_destroy', 'g_list_free', 'fputs', 'g_free', 'g_print'):
                        self.mem_clobber(st, a, tok)
        r = ('call', f or '?', uid)
        return self.resolve_val(r)

    def modsum(self, G):
        return modsum(self.prog, G)

    def stale(self):
        """None when every executable edge is justified by the final values; else the merged values that
        decide the others (they were single-valued on the way)"""
        bad = False
        phis = set()
        for b in self.F.rpo:
            t = b.term
            if b.name in self.reach and t.op == 'condbr':
                c = self.brval.get(b.name)
                x, y = t.x['targets']
                if c is not None and x != y and (b.name, x) in self.exec_edges and (b.name, y) in self.exec_edges:
                    if c[0] == 'c' or self.decide_bool(c) is not None:
                        bad = True
                        work = [t.ops[0]]
                        n = 0
                        while work and n < 50:
                            n += 1
                            o = work.pop()
                            if o[0] != 'v':
                                continue
                            i = self.F.defs.get(o[1])
                            if i is None:
                                continue
                            if i.op == 'phi':
                                v = self.val.get(o[1])
                                if v is not None and v[0] == 'phi' and self.F.defs[v[1]].bb.name not in self.headers:
                                    phis.add(v[1])
                            elif i.op in ('icmp', 'fcmp', 'and', 'or', 'xor', 'cast', 'select', 'gep', 'load'):
                                work += i.ops
        return phis if bad else None

    def run(self, maxiter):
        F = self.F
        entry = F.blocks[F.entry]
        self.in_[F.entry] = ({}, {}, {})
        reach = {F.entry}
        dbg = []
        for it in range(maxiter):
            changed = False
            self.again = False
            self.oracle.begin()
            for b in F.rpo:
                bn = b.name
                if bn not in reach:
                    continue
                if bn != F.entry:
                    nms = [p.name for p in b.preds if (p.name, bn) in self.exec_edges and p.name in self.out]
                    ins = [self.out[n] for n in nms]
                    if not ins:
                        continue
                    body = F.loops.get(bn)
                    if body is not None:
                        # restart the loop optimistically when what enters it has changed
                        ent = [self.out[n] for n in nms if n not in body]
                        if ent:
                            ent = self.st_join(ent, bn)
                            if self.hentry.get(bn) != ent and self.hrestart.get(bn, 0) < 25:
                                self.hentry[bn] = ent
                                self.hrestart[bn] = self.hrestart.get(bn, 0) + 1
                                changed = True
                                for n in body:
                                    self.out.pop(n, None)
                                nms = [n for n in nms if n not in body]
                                ins = [self.out[n] for n in nms]
                    st = self.st_join(ins, bn, nms)
                else:
                    st = ({}, {}, {})
                self.in_[bn] = st
                st = self.st_copy(st)
                for i in b.insts[:-1]:
                    self._curmod = i.origin[0]
                    v = self.eval(i, st)
                    if i.res is not None:
                        old = self.val.get(i.res)
                        if v is not None and v != old:
                            if it > maxiter - 4:
                                dbg.append((it, i.res, old, v))
                            self.val[i.res] = v
                            changed = True
                t = b.term
                self._curmod = t.origin[0] if t.origin else self._curmod
                tg = []
                if t.op == 'br':
                    tg = t.x['targets']
                elif t.op == 'condbr':
                    c = self.t(t.ops[0])
                    c = self.resolve_val(c)
                    self.brval[bn] = c
                    if c is None:
                        tg = []
                    elif c[0] == 'c':
                        tg = [t.x['targets'][0 if c[1] else 1]]
                    else:
                        d = self.decide_bool(c)
                        if d is None:
                            d = self.known_cond(bn, c)
                        if d is None:
                            tg = t.x['targets']
                        else:
                            tg = [t.x['targets'][0 if d else 1]]
                elif t.op == 'switch':
                    c = self.resolve_val(self.t(t.ops[0]))
                    self.brval[bn] = c
                    if c is None:
                        tg = []
                    elif c[0] == 'c':
                        tg = [t.x['targets'][0]]
                        for k, d in zip(t.x['cases'], t.x['targets'][1:]):
                            if k == c[1]:
                                tg = [d]
                    else:
                        tg = t.x['targets']
                elif t.op == 'ret' and t.ops:
                    self.args[id(t)] = (self.t(t.ops[0]),)
                for x in tg:
                    e = (bn, x)
                    if e not in self.exec_edges:
                        self.exec_edges.add(e)
                        changed = True
                    reach.add(x)
                if self.out.get(bn) != st:
                    if it > maxiter - 4:
                        o = self.out.get(bn)
                        dbg.append((it, bn, [(k, o[0].get(k), v) for k, v in st[0].items() if o[0].get(k) != v][:2], [(k, o[1].get(k), v) for k, v in st[1].items() if o[1].get(k) != v][:2]))
                    self.out[bn] = st
                    changed = True
            if not changed and not self.again:
                break
        else:
            if os.environ.get('FADEBUG'):
                print('NOFIX', F.name, dbg)
            raise RuntimeError('no fixpoint in ' + F.name)
        self.reach = reach
        self.iters = it

    def mem_before(self, inst):
        """memory just before an instruction, once the analysis has finished"""
        st = self.st_copy(self.in_[inst.bb.name])
        for i in inst.bb.insts[:-1]:
            if i is inst:
                break
            self._curmod = i.origin[0]
            self.eval(i, st)
        return st

    def known_cond(self, bn, c):
        """outcome of condition c implied by branches already taken on the only way to block bn"""
        seen = set()
        while bn not in seen:
            seen.add(bn)
            ps = {p.name for p in self.F.blocks[bn].preds if (p.name, bn) in self.exec_edges}
            if len(ps) != 1:
                return None
            p = ps.pop()
            d = self.edge_fact(p, bn, bn, c)
            if d is not None:
                return d
            bn = p
        return None

    def edge_fact(self, p, bn, to, c, depth=0):
        """outcome of condition c implied by taking the edge p -> bn (on the way to block `to`)"""
        t = self.F.blocks[p].term
        k = self.brval.get(p)
        if t.op != 'condbr' or k is None or t.x['targets'][0] == t.x['targets'][1]:
            return None
        pol = t.x['targets'][0] == bn
        d = self.implied(k, pol, c)
        if d is None and p in self.F.loops and to not in self.F.loops[p]:
            d = self.exhausted(p, k if pol else neg(k), c)
        if d is not None or depth > 4:
            return d
        while k[0] == 'not':
            k, pol = k[1], not pol
        i = self.F.defs.get(k[1]) if k[0] == 'phi' else None
        if i is None or i.bb.name != p or p in self.headers:
            return None
        # `a && b` as a merge of constants and conditions: only the ways in with the value needed
        ds = []
        for q, o in zip(i.x['preds'], i.ops):
            if (q, p) in self.exec_edges:
                v = self.t(o)
                if v is None or v[0] == 'c' and bool(v[1]) != pol:
                    continue
                d = self.implied(v, pol, c)
                ds.append(self.edge_fact(q, p, to, c, depth + 1) if d is None else d)
        return ds[0] if ds and None not in ds and len(set(ds)) == 1 else None

    def exhausted(self, h, k, c):
        """a counting loop left by its header test `iter >= n` (0 <= n) has iter == n"""
        if k[0] != 'cmp':
            return None
        for x, y, p in ((k[2], k[3], k[1]), (k[3], k[2], FLIP.get(k[1]))):
            if x == ('iter', h) and p in ('ge', 'eq') and ('iter', h) not in subterms(y):
                if y[0] == 'c' and y[1] >= 0 or self.oracle.order('ge', y, C(0)):
                    return self.implied(('cmp', 'eq', x, y), True, c)
        return None

    def implied(self, k, pol, c):
        if k == c:
            return pol
        if k[0] == 'not':
            return self.implied(k[1], not pol, c)
        if c[0] == 'not':
            d = self.implied(k, pol, c[1])
            return None if d is None else not d
        if k[0] == 'band' and pol or k[0] == 'bor' and not pol:
            for x in k[1:]:
                d = self.implied(x, pol, c)
                if d is not None:
                    return d
        if k[0] == 'cmp' and c[0] == 'cmp' and k[1] in SAT and c[1] in SAT:
            S = set(SAT[k[1]]) if pol else {'<', '=', '>'} - set(SAT[k[1]])
            Q = set(SAT[c[1]])
            if (k[2], k[3]) == (c[3], c[2]) and (k[2], k[3]) != (c[2], c[3]):
                S = {{'<': '>', '>': '<', '=': '='}[x] for x in S}
            elif (k[2], k[3]) != (c[2], c[3]):
                return None
            if S <= Q:
                return True
            if not S & Q:
                return False
        return None

    def decide_bool(self, c):
        """three-valued evaluation of boolean structure with the oracle"""
        v = self.oracle.val(c)
        if isinstance(v, int):
            return bool(v)
        if v == 'nz':
            return True
        if c[0] == 'c':
            return bool(c[1])
        if c[0] == 'not':
            d = self.decide_bool(c[1])
            return None if d is None else not d
        if c[0] == 'band':
            ds = [self.decide_bool(x) for x in c[1:]]
            if False in ds:
                return False
            if all(d is True for d in ds):
                return True
            return None
        if c[0] == 'bor':
            ds = [self.decide_bool(x) for x in c[1:]]
            if True in ds:
                return True
            if all(d is False for d in ds):
                return False
            return None
        if c[0] == 'cmp':
            r = self.evcmp(c[1], c[2], c[3])
            if r[0] == 'c':
                return bool(r[1])
        return None

    # ---------- queries
    def reachable(self, inst):
        return inst.bb.name in self.reach

    def calls(self, *names):
        for b in self.F.rpo:
            if b.name in self.reach:
                for i in b.insts:
                    if i.op == 'call' and (not names or i.callee in names) and id(i) in self.args:
                        yield i, self.args[id(i)]

    def stores(self):
        for b in self.F.rpo:
            if b.name in self.reach:
                for i in b.insts:
                    if i.op == 'store' and id(i) in self.args:
                        yield i, self.args[id(i)]

    def succs(self, bn):
        return [x for x in self.F.blocks[bn].term.x['targets'] if (bn, x) in self.exec_edges]

    def must_pass(self, start, goals, ends):
        """Within executable edges: does every path from block `start` reach a block in goals before any in ends?
        Paths that end in abort/unreachable are ignored; returns offending block path or None."""
        seen = {start}
        st = [(start, (start,))]
        while st:
            n, path = st.pop()
            if n in goals:
                continue
            if n in ends:
                return path
            b = self.F.blocks[n]
            if b.term.op == 'ret':
                return path
            for s in self.succs(n):
                if s in goals:
                    continue
                if s in ends:
                    return path + (s,)
                if s not in seen:
                    seen.add(s)
                    st.append((s, path + (s,)))
        return None

    def bits(self, o, depth=0):
        """how many bits the value of operand o can need"""
        d = self.F.defs.get(o[1]) if o[0] == 'v' else None
        if d is None or depth > 8:
            return 1 if o[0] == 'i' else 64
        if d.op == 'cast' and d.x['kind'] in ('sext', 'zext') and d.x['fty'] in ('i1', 'i8', 'i16'):
            return int(d.x['fty'][1:])
        if d.op == 'phi':
            return max(self.bits(x, depth + 1) for x in d.ops)
        if d.op == 'select':
            return max(self.bits(x, depth + 1) for x in d.ops[1:])
        if d.ty in ('i1', 'i8', 'i16'):
            return int(d.ty[1:])
        return 64

    def loop_count(self, h):
        """(count term, exact) for loop header h: number of iterations if no break; None if unknown"""
        body = self.F.loops[h]
        res = []
        for n in body:
            b = self.F.blocks[n]
            t = b.term
            if t.op == 'condbr' and n in self.reach:
                inn = [x for x in t.x['targets'] if x in body]
                outn = [x for x in t.x['targets'] if x not in body]
                if inn and outn:
                    c = self.brval.get(n)
                    if c is None:
                        continue
                    pos = t.x['targets'][0] in body
                    parts = self._joint(c, b, pos, body) if c[0] == 'phi' else None
                    if parts:
                        for stay in parts:
                            res.append((n, self._count_from(stay, h), stay))
                        continue
                    stay = c if pos else neg(c)
                    r = self._count_from(stay, h)
                    res.append((n, r, stay))
        return res

    def _joint(self, c, b, pos, body):
        """the tests of `a && b` (all must hold to stay in the loop) when c is its merged outcome; None if it is not of that form"""
        i = self.F.defs.get(c[1])
        if i is None or i.op != 'phi' or i.bb is not b:
            return None
        out = []
        for p, o in zip(i.x['preds'], i.ops):
            if (p, b.name) not in self.exec_edges:
                continue
            v = self.t(o)
            if v is None or p not in body:
                return None
            if v[0] == 'c':
                if bool(v[1]) == pos:
                    return None
                q = self.F.blocks[p].term
                if q.op != 'condbr' or self.brval.get(p) is None:
                    return None
                x = self.brval[p]
                out.append(neg(x) if q.x['targets'][0] == b.name else x)
            else:
                out.append(v if pos else neg(v))
        return out or None

    def _count_from(self, c, h):
        if c[0] != 'cmp':
            return None
        it = ('iter', h)
        # list iteration: liter != NULL
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x[0] == 'liter' and x[2] == h and y[0] == 'null' and c[1] == 'ne':
                return ('listlen', x[1])
        # pointer walk: gep(base,[iter]) != gep(base,[n])
        a, b = c[2], c[3]
        pred = c[1]
        if a[0] == 'gep' or b[0] == 'gep':
            if base_of(a) == base_of(b):
                ia = steps_of(a)[-1][1] if steps_of(a) and steps_of(a)[-1][0] == '[' else C(0)
                ib = steps_of(b)[-1][1] if steps_of(b) and steps_of(b)[-1][0] == '[' else C(0)
                a, b = ia, ib
            else:
                return None
        if a[0] in ('null', 'cf') or b[0] in ('null', 'cf'):
            return None
        d = ladd(a, b, -1)      # a-b pred 0
        k, ts = tolin(d)
        co = ts.get(it)
        if co is None:
            return None
        rest = lin(k, {t: c2 for t, c2 in ts.items() if t != it})
        # co*iter + rest  pred 0
        if co < 0:
            co, rest, pred = -co, lmul(C(-1), rest), FLIP[pred]
        n = lmul(C(-1), rest)    # iter*co pred n
        if co != 1:
            return None
        if pred == 'lt' or pred == 'ne':
            return n
        if pred == 'le':
            return ladd(n, C(1))
        return None


_modsum = {}


def modsum(prog, G, stack=()):
    """flow-insensitive (alias keys written, indices of params written through directly)"""
    key = (prog, G)
    if key in _modsum:
        return _modsum[key]
    if G in stack:
        return (set(), set())
    keys = set()
    derefs = set()
    _modsum[key] = (keys, derefs)
    fa = FAlite(prog, G)
    for i in G.insts():
        if i.op == 'store':
            _addmod(fa.t(i.ops[1]), keys, derefs)
        elif i.op == 'call':
            f = i.callee
            args = [fa.t(o) for o in i.ops]
            if f and (f.startswith('llvm.mem') or f in ('memcpy', 'memmove')):
                _addmod(args[0], keys, derefs, whole=True, prog=prog)
                continue
            H = prog.resolve(f, G.module) if f else None
            if H is not None:
                k2, d2 = modsum(prog, H, stack + (G,))
                keys |= {k for k in k2 if k[0] != 'root' or k[1][0] == 'glob'}
                for d in d2:
                    if d < len(args):
                        _addmod(args[d], keys, derefs)
            elif f in WRITES:
                for d in WRITES[f]:
                    if d < len(args):
                        _addmod(args[d], keys, derefs)
            elif f and STATUS_LAST.match(f) and args:
                _addmod(args[-1], keys, derefs)
    return _modsum[key]


def _addmod(a, keys, derefs, whole=False, prog=None):
    b = base_of(a)
    if b[0] == 'alloca' or a[0] in ('null', 'c', 'undef'):
        return
    f = last_field(a)
    if f is None and b[0] == 'arg':
        derefs.add(b[1])
    keys.add(akey(a))


class FAlite:
    """flow-insensitive term evaluation without memory forwarding (for mod summaries)"""

    def __init__(self, prog, F):
        self.prog = prog
        self.F = F
        self.cache = {}
        self.params = {pn: ('arg', k, pn) for k, (pn, _, _) in enumerate(F.params)}
        self._curmod = F.module

    globterm = FA.globterm
    const = FA.const
    gepsteps = FA.gepsteps

    def t(self, o, depth=0):
        if o[0] != 'v':
            return self.const(o)
        n = o[1]
        if n in self.params:
            return self.params[n]
        if n in self.cache:
            return self.cache[n]
        i = self.F.defs.get(n)
        if i is None or depth > 60:
            return ('undef',)
        self.cache[n] = ('phi', n)
        if i.op == 'alloca':
            r = ('alloca', n)
        elif i.op == 'load':
            r = ('ld', self.t(i.ops[0], depth + 1))
        elif i.op == 'gep':
            ts = [self.t(x, depth + 1) for x in i.ops]
            r = gep(ts[0], self.gepsteps(i.x['sty'], ts[1:]))
        elif i.op == 'cast':
            r = self.t(i.ops[0], depth + 1)
        elif i.op == 'call':
            r = ('call', i.callee or '?', n)
        elif i.op == 'phi':
            vs = [self.t(x, depth + 1) for x in i.ops if x != ('v', n)]
            vs = [v for v in vs if v != ('phi', n)]
            r = vs[0] if vs and all(v == vs[0] for v in vs) else ('phi', n)
        elif i.op in ('add', 'sub'):
            r = ladd(self.t(i.ops[0], depth + 1), self.t(i.ops[1], depth + 1), 1 if i.op == 'add' else -1)
        else:
            r = ('phi', n)
        self.cache[n] = r
        return r
