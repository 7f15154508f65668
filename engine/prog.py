"""Build the analysed program from /repo's current tree: compile every unit to
IR, parse, resolve symbols across units, and inline callees on request."""
import os, subprocess, glob, re, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .ir import Inst, Block, Function

REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception):
    pass


def _cflags():
    out = subprocess.run(['pkg-config', '--cflags', 'cfitsio', 'glib-2.0'], capture_output=True, text=True)
    if out.returncode:
        raise BuildError('pkg-config failed: ' + out.stderr)
    return out.stdout.split()


def lib_sources():
    d = os.path.join(REPO, 'src/oifitslib')
    demo = {'oitable-demo.c'}
    fs = sorted(f for f in glob.glob(d + '/*.c') if os.path.basename(f) not in demo)
    return fs


def util_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/util/*.c')))


def compile_ir(src, flags):
    cmd = ['clang', '-O0', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-O0-optnone', '-g', '-gdwarf-4', '-fno-discard-value-names',
           '-std=gnu17', '-w', '-fno-builtin', '-ffp-contract=off'] + flags + ['-I' + os.path.join(REPO, 'src/oifitslib'),
                                            '-S', '-emit-llvm', src, '-o', '-']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('clang failed on %s: %s' % (src, p.stderr[-2000:]))
    q = subprocess.run(['opt', '-S', '-passes=mem2reg', '-'], input=p.stdout, capture_output=True, text=True)
    if q.returncode:
        raise BuildError('opt failed on %s: %s' % (src, q.stderr[-2000:]))
    return q.stdout


class Program:
    def __init__(self, sources):
        flags = _cflags()
        self.sources = sources
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: compile_ir(s, flags), sources))
        self.modules = [ir.parse_module(t, s) for t, s in zip(texts, sources)]
        self.di = {M: ir.DI(M) for M in self.modules}
        self.public = {}
        self.statics = {}
        self.structs = {}
        self.types = {}
        for M in self.modules:
            for n, F in M.funcs.items():
                if F.internal:
                    self.statics[(M, n)] = F
                else:
                    self.public[n] = F
            for n, fs in self.di[M].structs().items():
                self.structs.setdefault(n, (fs, self.di[M]))
            self.types.update(M.types)
            for F in M.funcs.values():
                for i in F.insts():
                    i.origin = (M, (F.name,))
                    if i.op == 'call' and i.callee and i.callee.startswith('g_') and i.callee.endswith('_inline') and i.callee in M.funcs:
                        i.x['callee'] = i.callee[:-7]            # a GLib header's inline version of one of its functions
        self._layout = {}
        self.address_taken = self._addr_taken()

    def _addr_taken(self):
        out = set()
        for M in self.modules:
            for F in M.funcs.values():
                for i in F.insts():
                    for o in i.ops:
                        if o[0] == 'g' and (o[1] in M.funcs or o[1] in self.public):
                            out.add(o[1])
        return out

    def resolve(self, name, M):
        if name is None:
            return None
        F = self.statics.get((M, name))
        if F is None:
            F = self.public.get(name)
        return F

    def func(self, name):
        F = self.public.get(name)
        if F is None:
            for (M, n), G in self.statics.items():
                if n == name:
                    return G
        return F

    def all_funcs(self):
        for M in self.modules:
            for F in M.funcs.values():
                yield F

    def loc(self, inst):
        if inst is None or inst.dbg is None or inst.origin is None or inst.origin[0] not in self.di:
            return '?'
        l = self.di[inst.origin[0]].loc(inst.dbg)
        if not l:
            return '?'
        f = l[0] or os.path.basename(inst.origin[0].path)
        f = os.path.relpath(f, REPO) if os.path.isabs(f) else f
        return '%s:%d (%s)' % (f, l[1], l[2])

    def global_type(self, name):
        for M in self.modules:
            g = M.globals.get(name)
            if g is not None and not g['ext']:
                return g['ty']
        return None

    # ---- layout
    def sizeof(self, ty):
        return self._sa(ty)[0]

    def _sa(self, ty):
        if isinstance(ty, str):
            m = re.match(r'i(\d+)$', ty)
            if m:
                b = max(1, (int(m.group(1)) + 7) // 8)
                return b, b
            return {'ptr': (8, 8), 'double': (8, 8), 'float': (4, 4), 'half': (2, 2), 'x86_fp80': (16, 16)}.get(ty, (8, 8))
        if ty[0] == 'arr':
            s, a = self._sa(ty[2])
            return s * ty[1], a
        if ty[0] == 'vec':
            s, a = self._sa(ty[2])
            return s * ty[1], s * ty[1]
        if ty[0] == 'named':
            t = self.types.get(ty[1])
            if t is None:
                return 0, 1
            return self._sa(t)
        if ty[0] == 'struct':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self._sa(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        return 8, 8

    def offsets(self, ty):
        t = self.types.get(ty[1]) if ty[0] == 'named' else ty
        out = []
        off = 0
        for e in t[1]:
            s, a = self._sa(e)
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        return out

    def sname(self, ty):
        n = ty[1]
        n = re.sub(r'^(struct|union)\.', '', n)
        return re.sub(r'\.\d+$', '', n)

    def fieldname(self, ty, idx):
        key = (ty[1], idx)
        if key in self._layout:
            return self._layout[key]
        n = self.sname(ty)
        off = self.offsets(ty)[idx]
        r = 'f%d' % idx
        if n in self.structs:
            for (fn, fo, _) in self.structs[n][0]:
                if fo == off:
                    r = fn
                    break
        self._layout[key] = r
        return r

    def struct_fields(self, name):
        """[(fieldname, llvm type, DI-type string)]"""
        ty = ('named', 'struct.' + name)
        t = self.types.get(ty[1])
        if t is None:
            return None
        out = []
        for i, e in enumerate(t[1]):
            out.append((self.fieldname(ty, i), e, self.ctype(name, self.fieldname(ty, i))))
        return out

    def field_type(self, sname, field):
        """LLVM type of a struct member"""
        for e in self.struct_fields(sname) or ():
            if e[0] == field:
                return e[1]
        return None

    def ctype(self, sname, field):
        fs, di = self.structs.get(sname, ([], None))
        for fn, off, b in fs:
            if fn == field:
                return di_str(di, b)
        return None


def di_str(di, b):
    if b is None or b == 'null':
        return 'void'
    d = di.ref(b)
    if d is None:
        return 'void'
    t = d.get('tag')
    if d['kind'] == 'DIBasicType':
        if 'complex' in (d.get('name') or '').lower():
            return 'float complex' if str(d.get('size')) == '64' else 'double complex'
        return d.get('name')
    if t == 'DW_TAG_typedef':
        # keep struct typedef names, resolve scalars
        inner = di.ref(d.get('baseType'))
        if inner is not None and inner.get('tag') == 'DW_TAG_structure_type':
            return d.get('name')
        return di_str(di, d.get('baseType'))
    if t in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
        return di_str(di, d.get('baseType'))
    if t == 'DW_TAG_pointer_type':
        return di_str(di, d.get('baseType')) + '*'
    if t == 'DW_TAG_array_type':
        n = []
        for e in di.ref(d['elements'])['elems']:
            n.append(di.node(e).get('count', '?'))
        return di_str(di, d.get('baseType')) + ''.join('[%s]' % x for x in n)
    if t == 'DW_TAG_structure_type':
        return d.get('name') or 'struct'
    if t == 'DW_TAG_enumeration_type':
        return 'enum'
    return t or '?'


# ------------------------------------------------------------------ inliner
_uid = [0]


def clone_inst(i, ren, lab, origin_prefix):
    j = Inst(i.op, None if i.res is None else ren(('v', i.res))[1], i.ty, [remap(o, ren) for o in i.ops])
    j.x = dict(i.x)
    if 'targets' in j.x:
        j.x['targets'] = [lab(t) for t in j.x['targets']]
    if 'preds' in j.x:
        j.x['preds'] = [lab(t) for t in j.x['preds']]
    if 'fptr' in j.x:
        j.x['fptr'] = remap(j.x['fptr'], ren)
    j.dbg = i.dbg
    j.origin = i.origin if not origin_prefix else (i.origin[0], origin_prefix + i.origin[1][-1:])
    return j


def remap(o, ren):
    if o[0] == 'v':
        return ren(o)
    if o[0] == 'agg':
        return ('agg', tuple((t, remap(v, ren)) for t, v in o[1]))
    return o


def inline(prog, F, policy, maxdepth=12):
    """Clone F with every call for which policy(callee Function) holds spliced in."""
    R = Function(F.name, F.params, F.rty, F.internal, F.module, F.dbg)
    R.varnames = {}
    cnt = [0]

    def emit(G, prefix, argmap, chain, stack):
        """emit body of G; return (entry label, [(ret label, ret value)])"""
        def ren(o):
            if o[1] in argmap:
                return argmap[o[1]]
            return ('v', prefix + o[1])

        def lab(t):
            return last.get(prefix + t, prefix + t) if False else prefix + t
        rets = []
        tail = {}      # original block label -> label of last piece (for phi preds)
        for bname, b in G.blocks.items():
            nb = Block(prefix + bname)
            R.blocks[nb.name] = nb
            for i in b.insts:
                if i.op == 'ret':
                    rets.append((nb.name, remap(i.ops[0], ren) if i.ops else None))
                    nb.insts.append(Inst('br', None, None, [], targets=[None]))
                    nb.insts[-1].dbg = i.dbg
                    nb.insts[-1].origin = (G.module, chain)
                    nb.insts[-1].x['isret'] = True
                    continue
                callee = None
                if i.op == 'call':
                    callee = prog.resolve(i.callee, G.module)
                    if callee is None and i.callee is None and i.x['fptr'][0] == 'v' and remap(i.x['fptr'], ren)[0] == 'g':
                        callee = prog.resolve(remap(i.x['fptr'], ren)[1], G.module)
                if callee is not None and not callee.varargs and callee.name not in stack and len(stack) < maxdepth \
                        and len(callee.params) == len(i.ops) and policy(callee):
                    cnt[0] += 1
                    p2 = '%s%d!' % ('', cnt[0])
                    amap = {}
                    for (pn, pty, pat), a in zip(callee.params, i.ops):
                        a2 = remap(a, ren)
                        if 'byval' in pat:
                            al = Inst('alloca', p2 + pn + '.byval', 'ptr', [], aty=pat['byval'], n=None, byval_of=a2)
                            al.dbg = i.dbg
                            al.origin = (G.module, chain)
                            cp = Inst('call', None, 'void',
                                      [('v', p2 + pn + '.byval'), a2, ('i', prog.sizeof(pat['byval'])), ('i', 0)],
                                      callee='llvm.memcpy.p0.p0.i64', byval={})
                            cp.dbg = i.dbg
                            cp.origin = (G.module, chain)
                            nb.insts += [al, cp]
                            a2 = ('v', p2 + pn + '.byval')
                        amap[pn] = a2
                    ent, irets = emit(callee, p2, amap, chain + (callee.name,), stack | {callee.name})
                    br = Inst('br', None, None, [], targets=[ent])
                    br.dbg = i.dbg
                    br.origin = (G.module, chain)
                    nb.insts.append(br)
                    cont = Block(p2 + 'cont')
                    R.blocks[cont.name] = cont
                    for rl, rv in irets:
                        R.blocks[rl].insts[-1].x['targets'] = [cont.name]
                    if i.res is not None and irets:
                        ph = Inst('phi', ren(('v', i.res))[1], i.ty, [rv for _, rv in irets], preds=[rl for rl, _ in irets])
                        ph.dbg = i.dbg
                        ph.origin = (G.module, chain)
                        cont.insts.append(ph)
                    nb = cont
                    continue
                j = clone_inst(i, ren, lab, None)
                j.origin = (G.module, chain)
                nb.insts.append(j)
            tail[prefix + bname] = nb.name
        # fix phi preds within this body
        for bname in G.blocks:
            for i in R.blocks[prefix + bname].insts:
                if i.op == 'phi' and 'fixed' not in i.x:
                    i.x['preds'] = [tail.get(p, p) for p in i.x['preds']]
                    i.x['fixed'] = 1
        # ret labels may be the tail piece already
        return prefix + G.entry, rets

    ent, rets = emit(F, '', {}, (F.name,), {F.name})
    R.entry = ent
    for rl, rv in rets:
        b = R.blocks[rl]
        d = b.insts[-1]
        r = Inst('ret', None, F.rty, [rv] if rv is not None else [], targets=[])
        r.dbg = d.dbg
        r.origin = d.origin
        b.insts[-1] = r
    # blocks whose inlined callee never returns: cont unreachable; terminate open brs
    for b in R.blocks.values():
        if not b.insts or 'targets' not in b.insts[-1].x:
            b.insts.append(Inst('unreachable', None, None, [], targets=[]))
        elif b.insts[-1].x['targets'] == [None]:
            b.insts[-1] = Inst('unreachable', None, None, [], targets=[])
    R.finish()
    return R
