"""Textual LLVM-IR (LLVM 18, opaque pointers) -> Python source translator.

Every function of the module is translated lazily, on its first call, to one
Python function over the value domain of engine.py/sym.py.  Integers are
unsigned Python ints (or symbolic objects overloading the operators), pointers
are plain integers  object_id << 32 | offset.
"""
import re

TOK = re.compile(r'''\s*(?:
 (?P<cstr>c"(?:[^"\\]|\\.)*")
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
|(?P<meta>![\w.]*)
|(?P<attr>\#\d+)
|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
|(?P<dots>\.\.\.)
|(?P<word>[A-Za-z_$][\w.$]*)
|(?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            rest = s[i:].strip()
            if not rest:
                break
            raise SyntaxError('IR token: ' + rest[:60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class Ty:
    __slots__ = ('k', 'bits', 'elems', 'n', 'packed', '_size', '_align', '_offs', 'name')

    def __init__(self, k, bits=0, elems=None, n=0, packed=False):
        self.k = k
        self.bits = bits
        self.elems = elems
        self.n = n
        self.packed = packed
        self._size = None
        self._align = None
        self._offs = None
        self.name = None

    def layout(self):
        if self._size is not None:
            return
        k = self.k
        if k == 'i':
            b = (self.bits + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            self._align = a
            self._size = (b + a - 1) // a * a
        elif k == 'f':
            self._size = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[self.bits]
            self._align = self._size
        elif k == 'ptr':
            self._size = self._align = 8
        elif k in ('arr', 'vec'):
            e = self.elems[0]
            e.layout()
            self._size = e._size * self.n
            self._align = e._align if k == 'arr' else max(1, self._size)
        elif k == 'st':
            off = 0
            al = 1
            self._offs = []
            for e in self.elems:
                e.layout()
                a = 1 if self.packed else e._align
                off = (off + a - 1) // a * a
                self._offs.append(off)
                off += e._size
                al = max(al, a)
            self._size = (off + al - 1) // al * al
            self._align = al
        elif k in ('void', 'opaque', 'label', 'metadata', 'fn'):
            self._size = 0
            self._align = 1
        else:
            raise ValueError(k)

    @property
    def size(self):
        if self._size is None:
            self.layout()
        return self._size

    @property
    def offs(self):
        if self._size is None:
            self.layout()
        return self._offs


VOID = Ty('void')
PTR = Ty('ptr')
I64 = Ty('i', 64)
I32 = Ty('i', 32)
F64 = Ty('f', 64)
_INTS = {}


def ity(b):
    t = _INTS.get(b)
    if t is None:
        t = _INTS[b] = Ty('i', b)
    return t


FL = {'half': Ty('f', 16), 'float': Ty('f', 32), 'double': F64, 'x86_fp80': Ty('f', 80), 'fp128': Ty('f', 128)}

ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
         'writeonly', 'returned', 'nest', 'immarg', 'dead_on_unwind', 'writable', 'noreturn', 'nounwind', 'swiftself',
         'allocptr', 'allocalign', 'noext', 'nofree', 'speculatable', 'willreturn', 'mustprogress', 'nosync', 'builtin',
         'nobuiltin', 'cold', 'hot', 'strictfp', 'convergent'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated',
         'elementtype', 'memory', 'nofpclass', 'range', 'captures', 'allockind', 'allocsize', 'vscale_range', 'initializes'}
FASTF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg',
         'inbounds', 'volatile', 'samesign'}


class Parser:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:300]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p in ATTRP:
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                elif p == 'align':
                    self.i += 1
            elif p is not None and (p[0] == '#' or p[0] == '"'):
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.i += 1
                self.skip_parens()
        elif x == 'void':
            t = VOID
        elif x in FL:
            t = FL[x]
        elif x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x[0] == '%':
            t = self.m.named(x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', elems=[e], n=n)
        elif x == '<':
            if self.peek() == '{':
                t = self.type()
                t = Ty('st', elems=t.elems, packed=True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', elems=[e], n=n)
        elif x == '{':
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('st', elems=es)
        elif x == 'opaque':
            t = Ty('opaque')
        elif x in ('label', 'metadata'):
            t = Ty(x)
        else:
            raise SyntaxError('type %r in %s' % (x, ' '.join(self.t)[:200]))
        # function type suffix
        if self.peek() == '(' and t is not None and self._is_fn_type():
            self.skip_parens()
            t = Ty('fn', elems=[t])
        return t

    def _is_fn_type(self):
        # only called after a type: "(" starts a function type if followed by a type or ")" / "..."
        return True


class Const:
    """a constant in an initializer or operand"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k = k
        self.v = v
        self.ty = ty


def parse_const(p, ty):
    x = p.next()
    if x[0] == '@':
        return Const('g', x[1:].strip('"'), ty)
    if x in ('null', 'zeroinitializer'):
        return Const('zero', 0, ty)
    if x == 'none':
        return Const('zero', 0, ty)
    if x in ('undef', 'poison'):
        return Const('undef', None, ty)
    if x == 'true':
        return Const('i', 1, ty)
    if x == 'false':
        return Const('i', 0, ty)
    if x[0] == 'c' and x[1:2] == '"':
        return Const('bytes', cstr(x[1:]), ty)
    if x == '{':
        vs = []
        if not p.accept('}'):
            while True:
                t = p.type()
                vs.append(parse_const(p, t))
                if p.accept('}'):
                    break
                p.expect(',')
        return Const('agg', vs, ty)
    if x == '[':
        vs = []
        if not p.accept(']'):
            while True:
                t = p.type()
                vs.append(parse_const(p, t))
                if p.accept(']'):
                    break
                p.expect(',')
        return Const('agg', vs, ty)
    if x == '<':
        if p.peek() == '{':
            r = parse_const(p, ty)
            p.expect('>')
            return r
        vs = []
        while True:
            t = p.type()
            vs.append(parse_const(p, t))
            if p.accept('>'):
                break
            p.expect(',')
        return Const('agg', vs, ty)
    if x == 'getelementptr':
        while p.peek() in FASTF:
            p.next()
        if p.peek() == 'inrange':
            p.next()
            p.skip_parens()
        p.expect('(')
        bt = p.type()
        p.expect(',')
        p.type()
        base = parse_const(p, PTR)
        idx = []
        while p.accept(','):
            if p.peek() == 'inrange':
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            t = p.type()
            idx.append(parse_const(p, t))
        p.expect(')')
        return Const('gep', (bt, base, idx), ty)
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
        p.expect('(')
        t = p.type()
        c = parse_const(p, t)
        p.expect('to')
        p.type()
        p.expect(')')
        return Const(c.k, c.v, ty)
    if x in ('sub', 'add'):
        while p.peek() in FASTF:
            p.next()
        p.expect('(')
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        t = p.type()
        b = parse_const(p, t)
        p.expect(')')
        return Const(x, (a, b), ty)
    if ty.k == 'i':
        return Const('i', int(x) & ((1 << ty.bits) - 1), ty)
    if ty.k == 'f':
        return Const('f', fconst(x, ty), ty)
    raise SyntaxError('const %r' % x)


def fconst(x, ty):
    import struct
    if x.startswith('0x'):
        if x[2] in 'KLMHR':
            if x[2] == 'K':
                v = int(x[3:], 16)
                sign = -1.0 if v >> 79 else 1.0
                e = (v >> 64) & 0x7fff
                m = v & ((1 << 64) - 1)
                if m == 0:
                    return 0.0 * sign
                from fractions import Fraction
                fr = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
                return float(fr) * sign
            raise SyntaxError('fp const ' + x)
        return struct.unpack('>d', int(x[2:], 16).to_bytes(8, 'big'))[0]
    return float(x)


def cstr(s):
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('latin-1', 'replace')
            i += 1
    return bytes(out)


GLOB = re.compile(r'^@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*=\s*(.*)$')
NAMEDRE = re.compile(r'^%("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*=\s*type\s+(.*)$')
DEFRE = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*\(')
LINKAGE = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'common', 'external', 'extern_weak',
           'available_externally', 'dso_local', 'dso_preemptable', 'unnamed_addr', 'local_unnamed_addr', 'constant',
           'global', 'hidden', 'protected', 'default', 'externally_initialized', 'appending', 'thread_local'}


class Module:
    def __init__(self, path):
        self.types = {}
        self.typesrc = {}
        self.globals = {}   # name -> (tokens or None)
        self.aliases = {}
        self.funcs = {}     # name -> (header, [lines])
        self.decls = set()
        self._ginit = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = DEFRE.search(ln).group(1).strip('"')
                self.funcs[name] = (ln, i + 1, j)
                i = j
            elif ln.startswith('@'):
                m = GLOB.match(ln)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('%'):
                m = NAMEDRE.match(ln)
                if m:
                    self.typesrc['%' + m.group(1)] = m.group(2)
            elif ln.startswith('declare'):
                self.decls.add(DEFRE.search(ln).group(1).strip('"'))
            i += 1
        self.lines = lines

    def named(self, x):
        t = self.types.get(x)
        if t is None:
            src = self.typesrc[x]
            if src.strip() == 'opaque':
                t = Ty('opaque')
                self.types[x] = t
                return t
            ph = Ty('st')
            self.types[x] = ph
            r = Parser(tokenize(src), self).type()
            ph.k = r.k
            ph.elems = r.elems
            ph.packed = r.packed
            ph.n = r.n
            ph.name = x
            t = ph
        return t

    def ginit(self, name):
        """(ty, Const or None, is_const) of global variable; aliases give ('alias', name)"""
        r = self._ginit.get(name)
        if r is not None:
            return r
        src = self.globals[name]
        p = Parser(tokenize(src), self)
        external = False
        const = False
        while True:
            x = p.peek()
            if x == 'alias':
                p.next()
                p.type()
                p.expect(',')
                p.type()
                c = parse_const(p, PTR)
                r = ('alias', c, None)
                self._ginit[name] = r
                return r
            if x in LINKAGE:
                if x in ('external', 'extern_weak'):
                    external = True
                if x == 'constant':
                    const = True
                p.next()
                if x == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
                if x in ('constant', 'global'):
                    break
            else:
                raise SyntaxError('global ' + src[:100])
        ty = p.type()
        c = None
        if not external:
            c = parse_const(p, ty)
        r = (ty, c, const)
        self._ginit[name] = r
        return r


# ---------------------------------------------------------------- code generation
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
IBIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):')


class Block:
    __slots__ = ('name', 'ins', 'phis', 'npred', 'idx', 'preds')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.npred = 0
        self.idx = -1


class FnGen:
    def __init__(self, mod, name, env):
        """env: object providing const_expr(Const)->python expr, fn_ref(name)->python expr"""
        self.mod = mod
        self.name = name
        self.env = env
        self.vn = {}
        self.out = []
        self.nins = 0

    def v(self, x):
        r = self.vn.get(x)
        if r is None:
            r = self.vn[x] = 'v%d' % len(self.vn)
        return r

    def operand(self, p, ty):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return self.v(x)
        return self.env.const_expr(parse_const(p, ty))

    def tyop(self, p):
        t = p.type()
        p.attrs()
        return t, self.operand(p, t)

    def gen(self):
        hdr, a, b = self.mod.funcs[self.name]
        # parameters
        m = DEFRE.search(hdr)
        p = Parser(tokenize(hdr[m.end() - 1:].split(' personality ')[0] if False else hdr[m.end() - 1:]), self.mod)
        p.expect('(')
        params = []
        self.varargs = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.varargs = True
                else:
                    t = p.type()
                    byval = None
                    while True:
                        q = p.peek()
                        if q == 'byval':
                            p.next()
                            p.expect('(')
                            byval = p.type()
                            p.expect(')')
                        elif q in ATTRS or q in ATTRP or (q and q[0] in '#"'):
                            before = p.i
                            # consume one attribute
                            if q in ATTRS:
                                p.next()
                            elif q in ATTRP:
                                p.next()
                                if p.peek() == '(':
                                    p.skip_parens()
                                elif q == 'align':
                                    p.next()
                            else:
                                p.attrs()
                            assert p.i > before
                        else:
                            break
                    x = p.peek()
                    if x and x[0] == '%':
                        p.next()
                        params.append((self.v(x), byval))
                    else:
                        params.append((self.v('%%%d' % len(params)), byval))
                if p.accept(')'):
                    break
                p.expect(',')
        # blocks
        blocks = {}
        order = []
        cur = None
        lines = self.mod.lines
        nparams_unnamed = 0
        i = a
        while i < b:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            mm = LABEL.match(ln)
            if mm:
                nm = mm.group(1).strip('"')
                cur = blocks[nm] = Block(nm)
                order.append(cur)
                continue
            if cur is None:
                cur = Block('__entry')
                blocks['__entry'] = cur
                order.append(cur)
            # join continuation lines (invoke / landingpad / switch)
            if s.startswith('switch') or ' switch ' in s:
                while not s.rstrip().endswith(']') and ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            while i < b and (lines[i].lstrip().startswith('to label') or lines[i].lstrip().startswith('catch ') or
                             lines[i].lstrip().startswith('cleanup') or lines[i].lstrip().startswith('filter ')) and \
                    lines[i].startswith('         '):
                s += ' ' + lines[i].strip()
                i += 1
            # strip metadata
            k = s.find(', !')
            if k >= 0:
                s = s[:k]
            toks = tokenize(s)
            res = None
            if len(toks) > 2 and toks[0][0] == '%' and toks[1] == '=':
                res = toks[0]
                toks = toks[2:]
            cur.ins.append((res, toks))
        self.blocks = blocks
        # predecessor counts, phis
        for bl in order:
            bl.preds = []
        for bl in order:
            term = bl.ins[-1][1]
            for s in self.succs(term):
                blocks[s].npred += 1
        entry = order[0]
        entry.npred += 1
        lp = set()
        for bl in order:
            ph = []
            rest = []
            for res, t in bl.ins:
                if t[0] == 'phi':
                    ph.append(self.parse_phi(res, t))
                else:
                    rest.append((res, t))
            bl.phis = ph
            bl.ins = rest
            if rest and rest[0][1][0] == 'landingpad':
                lp.add(bl.name)
        self.lp = lp
        self.order = order
        # dispatch blocks: entry if it has back edges, merges, landing pads
        disp = []
        for bl in order:
            if bl is entry:
                if bl.npred > 1:
                    raise SyntaxError('branch to entry')
                continue
            if bl.npred != 1 or bl.name in lp:
                if bl.npred > 0:
                    disp.append(bl)
        self.disp_idx = {bl.name: k for k, bl in enumerate(disp)}
        self.allocas = any(t[0] == 'alloca' for bl in order for _, t in bl.ins)
        body = self.out
        self.pending = []
        ps = ', '.join(v for v, _ in params)
        if self.varargs:
            ps += ', *va' if ps else '*va'
        body.append('def F(%s):' % ps)
        ind = 1
        for v, bv in params:
            if bv is not None:
                body.append(' %s = BYVAL(%s, %d)' % (v, v, bv.size))
        if self.allocas:
            body.append(' fr = []')
            body.append(' try:')
            ind = 2
        # main
        looped = bool(disp)
        if looped:
            body.append(' ' * ind + 'bb = -1')
            body.append(' ' * ind + 'while True:')
            ind += 1
            body.append(' ' * ind + 'if bb < 0:')
            self.emit_block(entry, ind + 1, 0)
            self.emit_disp(disp, ind)
        else:
            self.emit_block(entry, ind, 0)
        if self.allocas:
            body.append(' finally:')
            body.append('  FREEFR(fr)')
        return '\n'.join(body)

    def emit_disp(self, disp, ind):
        # blocks forced to become dispatch blocks (depth cap) are appended while emitting
        k = 0
        disp = list(disp)
        while self.pending:
            disp.append(self.pending.pop(0))
        while k < len(disp):
            bl = disp[k]
            self.out.append(' ' * ind + 'elif bb == %d:' % self.disp_idx[bl.name])
            self.emit_block(bl, ind + 1, 0)
            k += 1
            while self.pending:
                b2 = self.pending.pop(0)
                disp.append(b2)
        # pending created by the entry block
    def succs(self, t):
        op = t[0]
        r = []
        if op in ('br', 'switch'):
            for i in range(len(t) - 1):
                if t[i] == 'label':
                    r.append(t[i + 1][1:].strip('"'))
        elif op == 'invoke':
            for i in range(len(t) - 1):
                if t[i] == 'label':
                    r.append(t[i + 1][1:].strip('"'))
        return r

    def parse_phi(self, res, t):
        p = Parser(t, self.mod)
        p.next()
        while p.peek() in FASTF:
            p.next()
        ty = p.type()
        inc = {}
        while True:
            p.expect('[')
            o = self.operand(p, ty)
            p.expect(',')
            l = p.next()[1:].strip('"')
            p.expect(']')
            inc[l] = o
            if not p.accept(','):
                break
        return (self.v(res), inc)

    def goto(self, frm, to, ind, depth):
        bl = self.blocks[to]
        pre = ' ' * ind
        if bl.phis:
            ds = [d for d, inc in bl.phis]
            ss = [inc[frm] for d, inc in bl.phis]
            self.out.append(pre + ', '.join(ds) + ' = ' + ', '.join(ss))
        if to in self.disp_idx:
            self.out.append(pre + 'bb = %d' % self.disp_idx[to])
            self.out.append(pre + 'continue')
        elif ind > 60 and self.disp_idx:
            k = max(self.disp_idx.values()) + 1
            self.disp_idx[to] = k
            self.pending.append(bl)
            self.out.append(pre + 'bb = %d' % k)
            self.out.append(pre + 'continue')
        else:
            self.emit_block(bl, ind, depth + 1)

    def emit_block(self, bl, ind, depth):
        pre = ' ' * ind
        o = self.out
        n = len(bl.ins) + len(bl.phis)
        self.nins += n
        if bl.name in self.disp_idx:
            o.append(pre + 'CT[0] += %d' % n)
            o.append(pre + 'if CT[0] > CT[1]: STEPLIM()')
        else:
            o.append(pre + 'CT[0] += %d' % n)
        for res, t in bl.ins:
            op = t[0]
            p = Parser(t, self.mod)
            if op == 'br':
                p.next()
                if p.peek() == 'label':
                    p.next()
                    self.goto(bl.name, p.next()[1:].strip('"'), ind, depth)
                else:
                    p.type()
                    c = self.operand(p, ity(1))
                    p.expect(',')
                    p.expect('label')
                    t1 = p.next()[1:].strip('"')
                    p.expect(',')
                    p.expect('label')
                    t2 = p.next()[1:].strip('"')
                    o.append(pre + 'if %s:' % c)
                    self.goto(bl.name, t1, ind + 1, depth)
                    o.append(pre + 'else:')
                    self.goto(bl.name, t2, ind + 1, depth)
                return
            if op == 'switch':
                p.next()
                ty, x = self.tyop(p)
                p.expect(',')
                p.expect('label')
                dflt = p.next()[1:].strip('"')
                p.expect('[')
                cases = []
                while not p.accept(']'):
                    t2, cv = self.tyop(p)
                    p.expect(',')
                    p.expect('label')
                    cases.append((cv, p.next()[1:].strip('"')))
                first = True
                for cv, lab in cases:
                    o.append(pre + ('if' if first else 'elif') + ' %s == %s:' % (x, cv))
                    first = False
                    self.goto(bl.name, lab, ind + 1, depth)
                if first:
                    self.goto(bl.name, dflt, ind, depth)
                else:
                    o.append(pre + 'else:')
                    self.goto(bl.name, dflt, ind + 1, depth)
                return
            if op == 'ret':
                p.next()
                t0 = p.type()
                if t0.k == 'void':
                    o.append(pre + 'return None')
                else:
                    o.append(pre + 'return %s' % self.operand(p, t0))
                return
            if op == 'unreachable':
                o.append(pre + 'UNREACH(%r)' % self.name)
                return
            if op == 'resume':
                o.append(pre + 'raise ex')
                return
            if op in ('invoke', 'call', 'tail', 'musttail', 'notail'):
                call, n1, n2 = self.parse_call(p)
                if op == 'invoke':
                    o.append(pre + 'try:')
                    if res:
                        o.append(pre + ' %s = %s' % (self.v(res), call))
                    else:
                        o.append(pre + ' ' + call)
                    o.append(pre + 'except CxxThrow as e_:')
                    o.append(pre + ' ex = e_')
                    self.goto(bl.name, n2, ind + 1, depth)
                    self.goto(bl.name, n1, ind, depth)
                    return
                if call is None:
                    continue
                if res:
                    o.append(pre + '%s = %s' % (self.v(res), call))
                else:
                    o.append(pre + call)
                continue
            self.emit_ins(res, op, p, pre)
        raise SyntaxError('block without terminator')

    def parse_call(self, p):
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        while p.peek() in FASTF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        rt = p.type()
        x = p.next()
        if x[0] == '@':
            callee = x[1:].strip('"')
        elif x[0] == '%':
            callee = None
            cv = self.v(x)
        elif x == 'asm':
            callee = '__inline_asm'
            while p.peek() != '(':
                p.next()
        else:
            raise SyntaxError('callee ' + x)
        p.expect('(')
        args = []
        byv = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t.k == 'metadata':
                    args.append('None')
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    p.attrs()
                    args.append(self.operand(p, t))
                if p.accept(')'):
                    break
                p.expect(',')
        n1 = n2 = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n1 = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            n2 = p.next()[1:].strip('"')
        if callee is None:
            return 'ICALL(%s)(%s)' % (cv, ', '.join(args)), n1, n2
        if callee.startswith('llvm.'):
            return self.intrinsic(callee, args, rt), n1, n2
        return '%s(%s)' % (self.env.fn_ref(callee), ', '.join(args)), n1, n2

    def intrinsic(self, name, a, rt):
        b = name.split('.')
        k = b[1]
        if k in ('dbg', 'lifetime', 'assume', 'donothing', 'invariant', 'experimental', 'stackrestore', 'prefetch',
                 'var'):
            if k == 'experimental' and b[2] != 'noalias':
                return 'UNSUP(%r)' % name
            return None
        if k == 'stacksave':
            return '0'
        if k in ('memcpy', 'memmove'):
            return 'MEMCPY(%s, %s, %s)' % (a[0], a[1], a[2])
        if k == 'memset':
            return 'MEMSET(%s, %s, %s)' % (a[0], a[1], a[2])
        if k == 'fabs':
            return 'FABS(%s)' % a[0]
        if k in ('fmuladd', 'fma'):
            return '((%s * %s) + %s)' % (a[0], a[1], a[2])
        if k == 'sqrt':
            return ('FPTRUNC(SQRT(%s), 32)' if rt.bits == 32 else 'SQRT(%s)') % a[0]
        if k == 'copysign':
            return 'COPYSIGN(%s, %s)' % (a[0], a[1])
        if k in ('maxnum', 'minnum', 'floor', 'ceil', 'trunc', 'pow', 'exp', 'log', 'sin', 'cos', 'exp2', 'log2',
                 'log10', 'round', 'rint', 'nearbyint', 'ldexp', 'powi'):
            return 'LIBM(%r, %s)' % (k, ', '.join(a))
        if k in ('umin', 'umax', 'smin', 'smax', 'abs', 'ctpop', 'ctlz', 'cttz', 'bswap'):
            return 'IINTR(%r, %d, %s)' % (k, rt.bits, ', '.join(a))
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and b[2] == 'with':
            return 'OVF(%r, %d, %s)' % (k, rt.elems[0].bits, ', '.join(a))
        if k == 'eh' and b[2] == 'typeid':
            return 'TYPEID(%s)' % a[0]
        if k == 'threadlocal':
            return a[0]
        if k == 'expect':
            return a[0]
        if k == 'objectsize':
            return '18446744073709551615'
        if k == 'is' and b[2] == 'constant':
            return '0'
        if k == 'is' and b[2] == 'fpclass':
            return 'FPCLASS(%s, %s)' % (a[0], a[1])
        if k == 'trap' or k == 'debugtrap' or k == 'ubsantrap':
            return 'TRAP()'
        if k == 'va_start' or k == 'va_end':
            return 'UNSUP(%r)' % name
        return 'UNSUP(%r)' % name

    def emit_ins(self, res, op, p, pre):
        o = self.out
        p.next()
        d = self.v(res) if res else None
        if op == 'alloca':
            if p.peek() == 'inalloca':
                p.next()
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    tt = p.type()
                    cnt = self.operand(p, tt)
            sz = str(t.size) if cnt is None else '%d * %s' % (t.size, cnt)
            o.append(pre + '%s = ALLOCA(%s, fr, %r)' % (d, sz, res))
            return
        if op == 'load':
            while p.peek() in FASTF or p.peek() == 'atomic':
                p.next()
            t = p.type()
            p.expect(',')
            t2, a = self.tyop(p)
            self.emit_load(d, t, a, pre)
            return
        if op == 'store':
            while p.peek() in FASTF or p.peek() == 'atomic':
                p.next()
            t, v = self.tyop(p)
            p.expect(',')
            t2, a = self.tyop(p)
            self.emit_store(t, v, a, pre)
            return
        if op == 'getelementptr':
            while p.peek() in FASTF:
                p.next()
            bt = p.type()
            p.expect(',')
            t, base = self.tyop(p)
            idx = []
            while p.accept(','):
                if p.peek() == 'inrange':
                    p.next()
                it = p.type()
                if p.peek()[0] == '%':
                    idx.append((it, self.v(p.next()), None))
                else:
                    c = parse_const(p, it)
                    cv = c.v if c.k == 'i' else 0
                    if cv >> (it.bits - 1):
                        cv -= 1 << it.bits
                    idx.append((it, None, cv))
            o.append(pre + '%s = %s' % (d, self.gep_expr(bt, base, idx)))
            return
        if op in IBIN:
            while p.peek() in FASTF:
                p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            if t.k == 'vec':
                o.append(pre + '%s = VECBIN(%r, %d, %s, %s)' % (d, op, t.elems[0].bits, a, b))
                return
            o.append(pre + '%s = %s' % (d, ibin(op, t.bits, a, b)))
            return
        if op in FBIN:
            while p.peek() in FASTF:
                p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            if t.k == 'vec':
                o.append(pre + '%s = VECBIN(%r, %d, %s, %s)' % (d, op, t.elems[0].bits, a, b))
                return
            o.append(pre + '%s = %s' % (d, fbin(op, t.bits, a, b)))
            return
        if op == 'fneg':
            while p.peek() in FASTF:
                p.next()
            t = p.type()
            a = self.operand(p, t)
            o.append(pre + '%s = FNEG(%s)' % (d, a))
            return
        if op == 'icmp':
            while p.peek() in FASTF:
                p.next()
            pr = p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            o.append(pre + '%s = %s' % (d, icmp(pr, 64 if t.k == 'ptr' else t.bits, a, b)))
            return
        if op == 'fcmp':
            while p.peek() in FASTF:
                p.next()
            pr = p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            o.append(pre + '%s = %s' % (d, fcmp(pr, a, b)))
            return
        if op in CASTS:
            while p.peek() in FASTF:
                p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect('to')
            t2 = p.type()
            o.append(pre + '%s = %s' % (d, cast(op, t, t2, a)))
            return
        if op == 'select':
            while p.peek() in FASTF:
                p.next()
            t, c = self.tyop(p)
            p.expect(',')
            t1, a = self.tyop(p)
            p.expect(',')
            t2, b = self.tyop(p)
            if t1.k == 'i' and t1.bits == 1:
                o.append(pre + '%s = SELB(%s, %s, %s)' % (d, c, a, b))
            else:
                o.append(pre + '%s = %s if %s else %s' % (d, a, c, b))
            return
        if op == 'extractvalue':
            t, a = self.tyop(p)
            e = a
            while p.accept(','):
                e = '%s[%s]' % (e, p.next())
            o.append(pre + '%s = %s' % (d, e))
            return
        if op == 'insertvalue':
            t, a = self.tyop(p)
            p.expect(',')
            t2, b = self.tyop(p)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            o.append(pre + '%s = INSV(%s, %s, %r, %d)' % (d, a, b, tuple(ix), len(t.elems) if t.k == 'st' else t.n))
            return
        if op == 'extractelement':
            t, a = self.tyop(p)
            p.expect(',')
            t2, b = self.tyop(p)
            o.append(pre + '%s = %s[%s]' % (d, a, b))
            return
        if op == 'insertelement':
            t, a = self.tyop(p)
            p.expect(',')
            t2, b = self.tyop(p)
            p.expect(',')
            t3, c = self.tyop(p)
            o.append(pre + '%s = INSV(%s, %s, (%s,), %d)' % (d, a, b, c, t.n))
            return
        if op == 'landingpad':
            p.type()
            cleanup = False
            cl = []
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    cleanup = True
                elif x == 'catch':
                    t = p.type()
                    cl.append(self.operand(p, t))
                elif x == 'filter':
                    p.type()
                    parse_const(p, PTR)
                    cl.append('-1')
            o.append(pre + '%s = LANDING(ex, %r, (%s))' % (d, cleanup, ''.join(c + ',' for c in cl)))
            return
        if op == 'freeze':
            t, a = self.tyop(p)
            o.append(pre + '%s = %s' % (d, a))
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            while p.peek() in FASTF:
                p.next()
            k = p.next()
            t, a = self.tyop(p)
            p.expect(',')
            t2, b = self.tyop(p)
            self.emit_load(d, t2, a, pre)
            if k in ('add', 'sub', 'and', 'or', 'xor'):
                o.append(pre + 'tmp_ = %s' % ibin(k, t2.bits, d, b))
                self.emit_store(t2, 'tmp_', a, pre)
            elif k == 'xchg':
                self.emit_store(t2, b, a, pre)
            else:
                o.append(pre + 'UNSUP("atomicrmw")')
            return
        o.append(pre + 'UNSUP(%r)' % op)
        if d:
            o.append(pre + '%s = None' % d)

    def emit_load(self, d, t, a, pre):
        o = self.out
        if t.k in ('i', 'ptr', 'f') and t.size in (1, 2, 4, 8):
            o.append(pre + '%s = M%d.get(%s)' % (d, t.size, a))
            o.append(pre + 'if %s is None: %s = LD(%s, %d)' % (d, d, a, t.size))
        elif t.k in ('st', 'arr', 'vec'):
            o.append(pre + '%s = LDAGG(%s, %s)' % (d, a, self.env.tyref(t)))
        else:
            o.append(pre + '%s = LDX(%s, %d, %r)' % (d, a, t.size, t.k))

    def emit_store(self, t, v, a, pre):
        o = self.out
        if t.k in ('i', 'ptr', 'f') and t.size in (1, 2, 4, 8):
            o.append(pre + 'if %s in M%d: M%d[%s] = %s' % (a, t.size, t.size, a, v))
            o.append(pre + 'else: ST(%s, %d, %s)' % (a, t.size, v))
        elif t.k in ('st', 'arr', 'vec'):
            o.append(pre + 'STAGG(%s, %s, %s)' % (a, v, self.env.tyref(t)))
        else:
            o.append(pre + 'STX(%s, %d, %s)' % (a, t.size, v))

    def gep_expr(self, bt, base, idx):
        off = 0
        terms = []
        t = bt
        first = True
        for it, var, c in idx:
            if first:
                sz = t.size
                first = False
            else:
                if t.k == 'st':
                    off += t.offs[c]
                    t = t.elems[c]
                    continue
                t = t.elems[0]
                sz = t.size
            if var is None:
                off += c * sz
            else:
                if it.bits == 64:
                    terms.append('%s * %d' % (var, sz) if sz != 1 else var)
                else:
                    terms.append('SX(%s, %d) * %d' % (var, it.bits, sz))
        if not terms:
            if off == 0:
                return base
            return '%s + %d' % (base, off) if off > 0 else '(%s - %d) & M64' % (base, -off)
        e = ' + '.join([base] + terms)
        if off:
            e += ' + %d' % off
        return '(%s) & M64' % e


def ibin(op, w, a, b):
    m = (1 << w) - 1
    if op == 'add':
        return '(%s + %s) & %d' % (a, b, m)
    if op == 'sub':
        return '(%s - %s) & %d' % (a, b, m)
    if op == 'mul':
        return '(%s * %s) & %d' % (a, b, m)
    if op == 'and':
        return '%s & %s' % (a, b)
    if op == 'or':
        return '%s | %s' % (a, b)
    if op == 'xor':
        if w == 1:
            return 'XOR1(%s, %s)' % (a, b)
        return 'XORN(%s, %s, %d)' % (a, b, w)
    if op == 'shl':
        return 'SHL(%s, %s, %d)' % (a, b, w)
    if op == 'lshr':
        return 'LSHR(%s, %s, %d)' % (a, b, w)
    return '%s(%s, %s, %d)' % (op.upper(), a, b, w)


def fbin(op, w, a, b):
    if op == 'fadd':
        return '%s + %s' % (a, b)
    if op == 'fsub':
        return '%s - %s' % (a, b)
    if op == 'fmul':
        return '%s * %s' % (a, b)
    if op == 'fdiv':
        return 'FDIV(%s, %s)' % (a, b)
    return 'FREM(%s, %s)' % (a, b)


def icmp(pr, w, a, b):
    if pr == 'eq':
        return '%s == %s' % (a, b)
    if pr == 'ne':
        return '%s != %s' % (a, b)
    if pr == 'ult':
        return '%s < %s' % (a, b) if w != 32 and w != 8 else 'ULT(%s, %s, %d)' % (a, b, w)
    if pr == 'ugt':
        return '%s > %s' % (a, b) if w != 32 and w != 8 else 'ULT(%s, %s, %d)' % (b, a, w)
    if pr == 'ule':
        return '%s <= %s' % (a, b) if w != 32 and w != 8 else 'ULE(%s, %s, %d)' % (a, b, w)
    if pr == 'uge':
        return '%s >= %s' % (a, b) if w != 32 and w != 8 else 'ULE(%s, %s, %d)' % (b, a, w)
    if pr == 'slt':
        return 'SLT(%s, %s, %d)' % (a, b, w)
    if pr == 'sgt':
        return 'SLT(%s, %s, %d)' % (b, a, w)
    if pr == 'sle':
        return 'SLE(%s, %s, %d)' % (a, b, w)
    if pr == 'sge':
        return 'SLE(%s, %s, %d)' % (b, a, w)
    raise SyntaxError(pr)


def fcmp(pr, a, b):
    s = {'oeq': '%s == %s', 'ogt': '%s > %s', 'oge': '%s >= %s', 'olt': '%s < %s', 'ole': '%s <= %s',
         'une': '%s != %s'}.get(pr)
    if s:
        return 'FCM(%s)' % (s % (a, b)) if False else s % (a, b)
    return 'FCMP(%r, %s, %s)' % (pr, a, b)


def cast(op, t, t2, a):
    if op == 'trunc':
        return 'TRUNC(%s, %d, %d)' % (a, t.bits, t2.bits)
    if op == 'zext':
        return 'ZEXT(%s, %d, %d)' % (a, t.bits, t2.bits)
    if op == 'sext':
        return 'SEXT(%s, %d, %d)' % (a, t.bits, t2.bits)
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
        return a
    if op == 'sitofp':
        return 'SITOFP(%s, %d, %d)' % (a, t.bits, t2.bits)
    if op == 'uitofp':
        return 'UITOFP(%s, %d, %d)' % (a, t.bits, t2.bits)
    if op in ('fptosi', 'fptoui'):
        return '%s(%s, %d)' % (op.upper(), a, t2.bits)
    if op in ('fpext', 'fptrunc'):
        return '%s(%s, %d)' % (op.upper(), a, t2.bits)
    if op == 'bitcast':
        if t.k == t2.k:
            return a
        if t.k == 'f' and t2.k == 'i':
            return 'TOBITS(%s, %d)' % (a, t.bits)
        if t.k == 'i' and t2.k == 'f':
            return 'FROMBITS(%s, %d)' % (a, t.bits)
    return 'UNSUP(%r)' % op
