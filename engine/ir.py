"""Textual LLVM-IR reader: modules, functions, CFG, dominators, loops, debug info.

Nothing is executed here.  clang turns /repo's current C sources into -O0 IR
(plus mem2reg); this file parses that IR into Python objects.
"""
import re, struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
  | %"[^"]*" | @"[^"]*"
  | [%@$][\w.$-]+
  | !\d+ | ![A-Za-z_][\w.]* | !
  | 0x[KMLHR]?[0-9A-Fa-f]+
  | -?\d+\.\d+(?:[eE][+-]?\d+)?
  | -?\d+
  | \.\.\.
  | [A-Za-z_][\w.]*
  | [(){}\[\]<>,=*:;#|]
''', re.X)

PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'writeonly',
               'noalias', 'returned', 'immarg', 'readnone', 'inreg', 'nofree', 'nest', 'swiftself',
               'writable', 'dead_on_unwind', 'allocptr', 'allocalign'}
CC_WORDS = {'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
            'afn', 'reassoc', 'fast'}


class IRError(Exception):
    pass


def tokenize(s):
    return TOK.findall(s)


class Cur:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))


def parse_type(c):
    t = c.next()
    if t == '[':
        n = int(c.next())
        c.expect('x')
        e = parse_type(c)
        c.expect(']')
        ty = ('arr', n, e)
    elif t == '<':
        if c.peek() == '{':
            c.next()
            ty = ('struct', tuple(parse_tylist(c, '}')))
            c.expect('>')
        else:
            n = int(c.next())
            c.expect('x')
            e = parse_type(c)
            c.expect('>')
            ty = ('vec', n, e)
    elif t == '{':
        ty = ('struct', tuple(parse_tylist(c, '}')))
    elif t.startswith('%'):
        ty = ('named', t[1:].strip('"'))
    else:
        ty = t
    # function type suffix
    while c.peek() == '(':
        save = c.i
        c.next()
        args = []
        ok = True
        try:
            while not c.accept(')'):
                if c.accept('...'):
                    args.append('...')
                else:
                    args.append(parse_type(c))
                c.accept(',')
        except Exception:
            ok = False
        if not ok:
            c.i = save
            break
        ty = ('fn', ty, tuple(args))
    return ty


def parse_tylist(c, end):
    out = []
    while not c.accept(end):
        out.append(parse_type(c))
        c.accept(',')
    return out


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast',
        'ptrtoint', 'inttoptr', 'addrspacecast'}


def parse_value(c, ty):
    """Value of known type -> tagged tuple."""
    t = c.next()
    if t.startswith('%'):
        return ('v', t[1:].strip('"'))
    if t.startswith('@'):
        return ('g', t[1:].strip('"'))
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'true':
        return ('i', 1)
    if t == 'false':
        return ('i', 0)
    if t == 'zeroinitializer':
        return ('zero',)
    if t.startswith('c"'):
        return ('bytes', unescape(t[2:-1]))
    if t.startswith('0x'):
        if ty in ('double', 'float'):
            return ('f', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
        return ('f', float('nan'))
    if t == '[' or t == '{' or (t == '<'):
        packed = False
        if t == '<' and c.peek() == '{':
            c.next()
            t = '{'
            packed = True
        end = {'[': ']', '{': '}', '<': '>'}[t]
        vals = []
        while not c.accept(end):
            ety = parse_type(c)
            vals.append((ety, parse_value(c, ety)))
            c.accept(',')
        if packed:
            c.expect('>')
        return ('agg', tuple(vals))
    if t == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        c.expect('(')
        sty = parse_type(c)
        c.expect(',')
        ops = []
        while True:
            c.accept('inrange')
            oty = parse_type(c)
            ops.append((oty, parse_value(c, oty)))
            if not c.accept(','):
                break
        c.expect(')')
        return ('cgep', sty, tuple(ops))
    if t in CAST:
        c.expect('(')
        fty = parse_type(c)
        v = parse_value(c, fty)
        c.expect('to')
        parse_type(c)
        c.expect(')')
        return v
    if t in BIN or t in ('icmp', 'select'):
        # rare constant expression
        depth = 0
        while True:
            x = c.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        return ('undef',)
    if re.match(r'-?\d+$', t):
        return ('i', int(t)) if ty not in ('float', 'double') else ('f', float(t))
    if re.match(r'-?\d', t):
        return ('f', float(t))
    if t == 'none':
        return ('undef',)
    raise IRError('value? %r in %s' % (t, ' '.join(c.t)))


def skip_attrs(c):
    """Skip parameter attributes; return dict of interesting ones."""
    out = {}
    while True:
        p = c.peek()
        if p in PARAM_ATTRS:
            c.next()
        elif p in ('byval', 'sret', 'elementtype', 'byref', 'inalloca', 'preallocated'):
            c.next()
            c.expect('(')
            out[p] = parse_type(c)
            c.expect(')')
        elif p in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'captures', 'range', 'initializes'):
            c.next()
            depth = 0
            while True:
                x = c.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
        elif p == 'align':
            c.next()
            if c.accept('('):
                c.next()
                c.expect(')')
            else:
                c.next()
        else:
            return out


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'bb', 'fn', 'idx', 'origin')

    def __init__(self, op, res=None, ty=None, ops=None, **x):
        self.op = op
        self.res = res
        self.ty = ty
        self.ops = ops or []
        self.x = x
        self.dbg = None
        self.bb = None
        self.fn = None
        self.idx = -1
        self.origin = None

    def __repr__(self):
        return '<%s %s %s %s>' % (self.res, self.op, self.ops, self.x)

    @property
    def callee(self):
        return self.x.get('callee')


def parse_inst(line):
    s = line.strip()
    m = re.search(r', !dbg !(\d+)', s)
    dbg = int(m.group(1)) if m else None
    # drop trailing metadata attachments
    s = re.sub(r'(, ![A-Za-z_.\d]+ !\d+)+\s*$', '', s)
    c = Cur(tokenize(s))
    res = None
    if c.peek(1) == '=' and c.peek().startswith('%'):
        res = c.next()[1:].strip('"')
        c.next()
    op = c.next()
    I = None
    while op in ('tail', 'musttail', 'notail'):
        op = c.next()
    if op == 'alloca':
        ty = parse_type(c)
        n = None
        if c.accept(','):
            if c.peek() != 'align':
                nty = parse_type(c)
                n = parse_value(c, nty)
        I = Inst('alloca', res, 'ptr', [], aty=ty, n=n)
    elif op == 'load':
        c.accept('volatile')
        ty = parse_type(c)
        c.expect(',')
        pty = parse_type(c)
        I = Inst('load', res, ty, [parse_value(c, pty)])
    elif op == 'store':
        c.accept('volatile')
        ty = parse_type(c)
        v = parse_value(c, ty)
        c.expect(',')
        pty = parse_type(c)
        p = parse_value(c, pty)
        I = Inst('store', None, ty, [v, p])
    elif op == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        sty = parse_type(c)
        c.expect(',')
        ops = []
        while True:
            oty = parse_type(c)
            ops.append(parse_value(c, oty))
            if not c.accept(','):
                break
        I = Inst('gep', res, 'ptr', ops, sty=sty)
    elif op == 'call':
        while c.peek() in CC_WORDS:
            c.next()
        skip_attrs(c)
        # return type; may be function type
        ty = parse_type(c)
        if isinstance(ty, tuple) and ty[0] == 'fn':
            rty = ty[1]
        else:
            rty = ty
        cal = parse_value(c, 'ptr')
        c.expect('(')
        args = []
        byval = {}
        while not c.accept(')'):
            if c.peek() == 'metadata':
                # skip until matching , or )
                depth = 0
                while True:
                    p = c.peek()
                    if depth == 0 and p in (',', ')'):
                        break
                    if p in '([{':
                        depth += 1
                    elif p in ')]}':
                        depth -= 1
                    c.next()
                args.append(('undef',))
                c.accept(',')
                continue
            aty = parse_type(c)
            at = skip_attrs(c)
            v = parse_value(c, aty)
            if 'byval' in at:
                byval[len(args)] = at['byval']
            args.append(v)
            c.accept(',')
        I = Inst('call', res, rty, args, byval=byval)
        if cal[0] == 'g':
            I.x['callee'] = cal[1]
        else:
            I.x['callee'] = None
            I.x['fptr'] = cal
    elif op == 'br':
        if c.accept('label'):
            I = Inst('br', None, None, [], targets=[c.next()[1:].strip('"')])
        else:
            ty = parse_type(c)
            v = parse_value(c, ty)
            c.expect(',')
            c.expect('label')
            a = c.next()[1:].strip('"')
            c.expect(',')
            c.expect('label')
            b = c.next()[1:].strip('"')
            I = Inst('condbr', None, None, [v], targets=[a, b])
    elif op == 'switch':
        ty = parse_type(c)
        v = parse_value(c, ty)
        c.expect(',')
        c.expect('label')
        d = c.next()[1:].strip('"')
        c.expect('[')
        cases = []
        while not c.accept(']'):
            cty = parse_type(c)
            cv = parse_value(c, cty)
            c.expect(',')
            c.expect('label')
            cases.append((cv[1], c.next()[1:].strip('"')))
        I = Inst('switch', None, None, [v], targets=[d] + [t for _, t in cases], cases=[k for k, _ in cases])
    elif op == 'ret':
        ty = parse_type(c)
        I = Inst('ret', None, ty, [] if ty == 'void' else [parse_value(c, ty)], targets=[])
    elif op == 'unreachable':
        I = Inst('unreachable', None, None, [], targets=[])
    elif op in ('icmp', 'fcmp'):
        while c.peek() in CC_WORDS:
            c.next()
        pred = c.next()
        ty = parse_type(c)
        a = parse_value(c, ty)
        c.expect(',')
        b = parse_value(c, ty)
        I = Inst(op, res, 'i1', [a, b], pred=pred, oty=ty)
    elif op in BIN:
        while c.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or c.peek() in CC_WORDS:
            c.next()
        ty = parse_type(c)
        a = parse_value(c, ty)
        c.expect(',')
        b = parse_value(c, ty)
        I = Inst(op, res, ty, [a, b])
    elif op == 'fneg':
        while c.peek() in CC_WORDS:
            c.next()
        ty = parse_type(c)
        I = Inst('fneg', res, ty, [parse_value(c, ty)])
    elif op in CAST:
        while c.peek() in ('nneg', 'nuw', 'nsw'):
            c.next()
        fty = parse_type(c)
        v = parse_value(c, fty)
        c.expect('to')
        ty = parse_type(c)
        I = Inst('cast', res, ty, [v], kind=op, fty=fty)
    elif op == 'freeze':
        ty = parse_type(c)
        I = Inst('cast', res, ty, [parse_value(c, ty)], kind='freeze', fty=ty)
    elif op == 'phi':
        while c.peek() in CC_WORDS:
            c.next()
        ty = parse_type(c)
        inc = []
        while c.accept('['):
            v = parse_value(c, ty)
            c.expect(',')
            b = c.next()[1:].strip('"')
            c.expect(']')
            inc.append((b, v))
            c.accept(',')
        I = Inst('phi', res, ty, [v for _, v in inc], preds=[b for b, _ in inc])
    elif op == 'select':
        while c.peek() in CC_WORDS:
            c.next()
        cty = parse_type(c)
        cv = parse_value(c, cty)
        c.expect(',')
        ty = parse_type(c)
        a = parse_value(c, ty)
        c.expect(',')
        ty2 = parse_type(c)
        b = parse_value(c, ty2)
        I = Inst('select', res, ty, [cv, a, b])
    elif op in ('extractvalue', 'insertvalue', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        ops = []
        try:
            while c.peek() is not None:
                if re.match(r'\d+$', c.peek()):
                    ops.append(('i', int(c.next())))
                else:
                    oty = parse_type(c)
                    if c.peek() in (None, ','):
                        pass
                    else:
                        ops.append(parse_value(c, oty))
                if not c.accept(','):
                    break
        except (IRError, IndexError):
            pass
        I = Inst(op, res, None, ops)
    else:
        raise IRError('unknown instruction %r' % line)
    I.dbg = dbg
    return I


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'fn')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return 'bb:' + self.name


NORETURN = {'abort', 'exit', '_exit', '__assert_fail', 'g_assertion_message_expr', 'g_assertion_message_cmpint',
            'g_assertion_message_cmpnum', 'g_assertion_message_cmpstr', 'g_assertion_message_error',
            'g_assertion_message', 'g_error', '__assert_perror_fail', 'longjmp', 'quick_exit'}
ABORTS = NORETURN - {'exit', '_exit', 'quick_exit', 'longjmp'}


class Function:
    def __init__(self, name, params, rty, internal, module, dbg=None):
        self.name = name
        self.params = params          # [(name, type, attrs)]
        self.rty = rty
        self.internal = internal
        self.module = module
        self.blocks = {}              # ordered name->Block
        self.entry = None
        self.dbg = dbg
        self.varargs = False

    def insts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i

    def calls(self, name=None):
        for i in self.insts():
            if i.op == 'call' and (name is None or i.callee == name):
                yield i

    def finish(self):
        """Compute CFG, prune unreachable blocks, index instructions."""
        for b in self.blocks.values():
            b.succs = []
            b.preds = []
            b.fn = self
        # truncate after noreturn calls
        for b in self.blocks.values():
            for k, i in enumerate(b.insts):
                if i.op == 'call' and i.callee in NORETURN:
                    if b.insts[k + 1].op != 'unreachable' if k + 1 < len(b.insts) else True:
                        u = Inst('unreachable', None, None, [], targets=[])
                        u.dbg = i.dbg
                        b.insts = b.insts[:k + 1] + [u]
                    break
        seen = set()
        st = [self.entry]
        order = []
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            order.append(n)
            for t in self.blocks[n].term.x['targets']:
                st.append(t)
        self.blocks = {n: b for n, b in self.blocks.items() if n in seen}
        for b in self.blocks.values():
            for t in b.term.x['targets']:
                s = self.blocks[t]
                b.succs.append(s)
                if b not in s.preds:
                    s.preds.append(b)
        for b in self.blocks.values():
            pn = {p.name for p in b.preds}
            for k, i in enumerate(b.insts):
                i.bb = b
                i.fn = self
                i.idx = k
                if i.op == 'phi':
                    keep = [(p, v) for p, v in zip(i.x['preds'], i.ops) if p in pn]
                    i.x['preds'] = [p for p, _ in keep]
                    i.ops = [v for _, v in keep]
        self.defs = {i.res: i for i in self.insts() if i.res is not None}
        self._rpo()
        self._dom()
        self._loops()

    def _rpo(self):
        post = []
        seen = set()
        stack = [(self.blocks[self.entry], iter(self.blocks[self.entry].succs))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s.name not in seen:
                    seen.add(s.name)
                    stack.append((s, iter(s.succs)))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.rpoi = {b.name: k for k, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in b.preds:
                    if p.name in idom:
                        if new is None:
                            new = p.name
                        else:
                            x, y = p.name, new
                            while x != y:
                                while self.rpoi[x] > self.rpoi[y]:
                                    x = idom[x]
                                while self.rpoi[y] > self.rpoi[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b.name) != new:
                    idom[b.name] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        """block names"""
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = self.idom[b]

    def inst_dominates(self, i, j):
        if i.bb is j.bb:
            return i.idx < j.idx
        return self.dominates(i.bb.name, j.bb.name)

    def _loops(self):
        self.loops = {}  # header -> set of block names
        for b in self.rpo:
            for s in b.succs:
                if self.dominates(s.name, b.name):
                    body = self.loops.setdefault(s.name, {s.name})
                    st = [b.name]
                    while st:
                        n = st.pop()
                        if n in body:
                            continue
                        body.add(n)
                        st.extend(p.name for p in self.blocks[n].preds)
        self.loop_of = {}
        for h in sorted(self.loops, key=lambda h: -len(self.loops[h])):
            for n in self.loops[h]:
                self.loop_of[n] = h    # innermost wins (smallest last)

    def enclosing_loops(self, bname):
        """headers of loops containing bname, innermost first"""
        hs = [h for h, body in self.loops.items() if bname in body]
        return sorted(hs, key=lambda h: len(self.loops[h]))


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.globals = {}       # name -> dict(ty, init, const, internal)
        self.types = {}
        self.md = {}            # id -> raw text
        self.decls = set()
        self._mdcache = {}


def parse_module(text, path):
    M = Module(path)
    lines = text.split('\n')
    n = len(lines)
    k = 0
    while k < n:
        l = lines[k]
        if l.startswith('define '):
            k = _parse_function(M, lines, k)
            continue
        if l.startswith('@'):
            _parse_global(M, l)
        elif l.startswith('%'):
            m = re.match(r'%("?[^"=]+"?) = type (.*)', l)
            if m:
                c = Cur(tokenize(m.group(2)))
                if m.group(2).strip() != 'opaque':
                    M.types[m.group(1).strip().strip('"')] = parse_type(c)
        elif l.startswith('!'):
            m = re.match(r'!(\d+) = (.*)', l)
            if m:
                M.md[int(m.group(1))] = m.group(2)
        elif l.startswith('declare'):
            m = re.search(r'@([\w.$]+)\(', l)
            if m:
                M.decls.add(m.group(1))
        k += 1
    return M


def _parse_global(M, l):
    m = re.match(r'@("?[^"=]+"?) = (.*)', l)
    if not m:
        return
    name = m.group(1).strip().strip('"')
    rest = re.sub(r', (align \d+|!dbg !\d+|section "[^"]*"|comdat)', '', m.group(2))
    toks = tokenize(rest)
    c = Cur(toks)
    internal = False
    const = False
    ext = False
    while True:
        p = c.peek()
        if p in ('private', 'internal'):
            internal = True
        elif p in ('external',):
            ext = True
        elif p in ('global', 'constant'):
            const = (p == 'constant')
            c.next()
            break
        elif p in ('unnamed_addr', 'local_unnamed_addr', 'dso_local', 'common', 'linkonce_odr', 'weak', 'thread_local',
                   'available_externally', 'hidden', 'protected', 'extern_weak', 'linkonce', 'weak_odr'):
            pass
        elif p == 'alias':
            return
        elif p is None:
            return
        c.next()
    ty = parse_type(c)
    init = None
    if not ext and c.peek() is not None:
        init = parse_value(c, ty)
    M.globals[name] = dict(name=name, ty=ty, init=init, const=const, internal=internal, ext=ext)


def _parse_function(M, lines, k):
    head = lines[k]
    # parameters
    m = re.match(r'define (.*?)@("?[\w.$]+"?)\((.*)\)(.*)\{', head)
    if not m:
        raise IRError('define? ' + head)
    pre, name, ps, post = m.groups()
    internal = ' internal ' in ' ' + pre or ' private ' in ' ' + pre
    c = Cur(tokenize(pre))
    while c.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'hidden', 'available_externally') or c.peek() in CC_WORDS:
        c.next()
    skip_attrs(c)
    rty = parse_type(c)
    dm = re.search(r'!dbg !(\d+)', post)
    # split params robustly
    c = Cur(tokenize(ps))
    params = []
    varargs = False
    while c.peek() is not None:
        if c.accept('...'):
            varargs = True
            break
        ty = parse_type(c)
        at = skip_attrs(c)
        nm = None
        if c.peek() and c.peek().startswith('%'):
            nm = c.next()[1:].strip('"')
        params.append((nm or str(len(params)), ty, at))
        c.accept(',')
    F = Function(name, params, rty, internal, M, int(dm.group(1)) if dm else None)
    F.varargs = varargs
    k += 1
    cur = None
    while True:
        l = lines[k]
        if l.startswith('}'):
            break
        if not l.strip() or l.lstrip().startswith(';'):
            k += 1
            continue
        m = re.match(r'^("?[\w.$-]+"?):', l)
        if m and not l.startswith(' '):
            cur = Block(m.group(1).strip('"'))
            F.blocks[cur.name] = cur
            if F.entry is None:
                F.entry = cur.name
            k += 1
            continue
        if cur is None:
            cur = Block('entry')
            F.blocks['entry'] = cur
            F.entry = 'entry'
        s = l
        if re.search(r'\bswitch\b.*\[\s*$', s):
            while not lines[k].strip().startswith(']'):
                k += 1
                s += ' ' + lines[k].strip()
        if 'llvm.dbg.' in s or 'llvm.lifetime' in s:
            dv = re.search(r'llvm\.dbg\.(?:declare|value)\(metadata \w+ (%[\w.$-]+|[^,]+), metadata !(\d+)', s)
            if dv:
                cur.insts.append(_dbg_inst(dv, s))
            k += 1
            continue
        cur.insts.append(parse_inst(s))
        k += 1
    # drop dbg pseudo instrs into side table
    F.varnames = {}
    for b in F.blocks.values():
        keep = []
        for i in b.insts:
            if i.op == 'dbg':
                F.varnames.setdefault(i.x['val'], i.x['var'])
            else:
                keep.append(i)
        b.insts = keep
    F.finish()
    M.funcs[name] = F
    return k + 1


def _dbg_inst(m, s):
    v = m.group(1)
    return Inst('dbg', None, None, [], val=v[1:] if v.startswith('%') else None, var=int(m.group(2)))


# ---------------------------------------------------------------- debug info
class DI:
    """Lazy access to debug-info metadata of one module."""

    def __init__(self, M):
        self.M = M
        self.c = {}

    def node(self, i):
        if i in self.c:
            return self.c[i]
        raw = self.M.md.get(i, '')
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)\s*$', raw)
        if m:
            d = {'kind': m.group(1)}
            for km in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[^,]+)', m.group(2)):
                v = km.group(2)
                if v.startswith('"'):
                    v = v[1:-1]
                elif v.startswith('!'):
                    v = ('!', int(v[1:]))
                d[km.group(1)] = v
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}', raw)
            d = {'kind': 'tuple', 'elems': [int(x) for x in re.findall(r'!(\d+)', m.group(1))] if m else []}
        self.c[i] = d
        return d

    def ref(self, v):
        return self.node(v[1]) if isinstance(v, tuple) else None

    def loc(self, dbg):
        """dbg id -> (file, line, function-name)"""
        if dbg is None:
            return None
        d = self.node(dbg)
        line = d.get('line')
        s = self.ref(d.get('scope'))
        fn = None
        f = None
        while s is not None:
            if f is None and 'file' in s:
                fd = self.ref(s['file'])
                if fd:
                    f = fd.get('filename')
            if s['kind'] == 'DISubprogram':
                fn = s.get('name')
                break
            s = self.ref(s.get('scope'))
        return (f, int(line) if line else 0, fn)

    def structs(self):
        """name -> [(field, offset_bytes, type-node-id)]"""
        out = {}
        for i, raw in self.M.md.items():
            name = None
            comp = None
            if 'DIDerivedType(tag: DW_TAG_typedef' in raw:
                d = self.node(i)
                name = d.get('name')
                b = d.get('baseType')
                if isinstance(b, tuple):
                    comp = self.node(b[1])
            elif 'DICompositeType(tag: DW_TAG_structure_type' in raw:
                comp = self.node(i)
                name = comp.get('name')
            if not name or not comp or comp.get('tag') != 'DW_TAG_structure_type' or 'elements' not in comp:
                continue
            fs = []
            for e in self.ref(comp['elements']).get('elems', []):
                d = self.node(e)
                if d.get('tag') == 'DW_TAG_member':
                    fs.append((d.get('name'), int(d.get('offset', 0)) // 8, d.get('baseType')))
            out.setdefault(name, fs)
            if comp.get('name'):
                out.setdefault(comp['name'], fs)
        return out

    def strip(self, tyref):
        """resolve typedef/const -> node"""
        d = self.ref(tyref)
        while d is not None and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            d = self.ref(d.get('baseType'))
        return d
