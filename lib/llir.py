"""Parser for the textual LLVM IR that clang emits (LLVM 18, opaque pointers).

Produces Module -> Function -> Block -> Inst objects.  Only what the analyses
need is modelled; anything else is kept as an opaque instruction so that the
analyses can fail closed ("undecided") on it.
"""
import re

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"            |
   c"(?:[^"\\]|\\.)*"           |
   [%@](?:"[^"]*"|[-\w$.]+)     |
   \#\d+                        |
   !(?:[-\w$.]+|"[^"]*")?       |
   0x[0-9A-Fa-fKLMH]+           |
   -?\d+\.\d+(?:e[+-]?\d+)?     |
   -?\d+                        |
   [A-Za-z_$.][\w$.]*           |
   \.\.\.                       |
   [=,(){}\[\]<>*:|]
''', re.X)


def tokenize(s):
    # c"..." must win over identifier 'c'
    out = []
    i, n = 0, len(s)
    while i < n:
        ch = s[i]
        if ch in ' \t\n\r':
            i += 1
            continue
        if ch == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        if ch == 'c' and i + 1 < n and s[i + 1] == '"':
            j = s.index('"', i + 2)
            out.append(s[i:j + 1])
            i = j + 1
            continue
        m = TOK.match(s, i)
        if not m:
            out.append(ch)
            i += 1
            continue
        out.append(m.group(0))
        i = m.end()
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'bits', 'elems', 'n', 'el', 'packed', 'name')

    def __init__(self, k, bits=0, elems=None, n=0, el=None, packed=False, name=None):
        self.k, self.bits, self.elems, self.n, self.el, self.packed, self.name = \
            k, bits, elems, n, el, packed, name

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.elems))
        if self.k == 'named':
            return self.name
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
LABEL = Ty('label')
I1 = Ty('int', 1)

PARAM_ATTRS = {
    'noundef', 'nocapture', 'readonly', 'writeonly', 'readnone', 'nonnull', 'noalias',
    'zeroext', 'signext', 'inreg', 'returned', 'immarg', 'nofree', 'nest', 'swiftself',
    'writable', 'dead_on_unwind', 'captures', 'initializes', 'range', 'allocptr',
    'noext', 'noalias', 'inalloca', 'swiftasync', 'swifterror', 'allocalign',
}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                   'byref', 'elementtype', 'preallocated', 'nofpclass', 'memory'}
LINKAGE = {
    'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
    'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable',
    'default', 'hidden', 'protected', 'dllimport', 'dllexport', 'thread_local',
    'localdynamic', 'initialexec', 'localexec', 'unnamed_addr', 'local_unnamed_addr',
    'externally_initialized', 'ccc', 'fastcc', 'coldcc', 'cc', 'tail', 'musttail', 'notail',
}


class Inst:
    __slots__ = ('res', 'op', 'ty', 'args', 'x', 'line')

    def __init__(self, res, op, ty=None, args=None, x=None, line=''):
        self.res, self.op, self.ty, self.args, self.x, self.line = res, op, ty, args or [], x, line

    def __repr__(self):
        return self.line.strip()


class Block:
    __slots__ = ('name', 'insts')

    def __init__(self, name):
        self.name, self.insts = name, []


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'attrs', 'decl')

    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.entry = None
        self.attrs = ''
        self.decl = True


class Const:
    """Operand: ('int', v) ('local', name) ('global', name) ('null',) ('undef',)
    ('zero',) ('agg', [operands]) ('expr', op, ...)"""


class P:
    """Token-stream helper"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise SyntaxError('expected %r got %r in %s' % (s, v, ' '.join(self.t[:60])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        t = self.next()
        r = None
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == 'label':
            r = LABEL
        elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat'):
            r = Ty('float', {'float': 32, 'double': 64, 'half': 16, 'bfloat': 16, 'x86_fp80': 128, 'fp128': 128}[t])
        elif t in ('metadata', 'token', 'opaque', 'x86_mmx'):
            r = Ty(t)
        elif t[0] == 'i' and t[1:].isdigit():
            r = Ty('int', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            r = Ty('array', n=n, el=el)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                el = []
                while self.peek() != '}':
                    el.append(self.type())
                    self.accept(',')
                self.expect('}')
                self.expect('>')
                r = Ty('struct', elems=el, packed=True)
            else:
                n = self.next()
                if n == 'vscale':
                    raise SyntaxError('vscale')
                self.expect('x')
                el = self.type()
                self.expect('>')
                r = Ty('vector', n=int(n), el=el)
        elif t == '{':
            el = []
            while self.peek() != '}':
                el.append(self.type())
                self.accept(',')
            self.expect('}')
            r = Ty('struct', elems=el)
        elif t[0] == '%':
            r = Ty('named', name=t)
        else:
            raise SyntaxError('type? %r in %s' % (t, ' '.join(self.t[:60])))
        # function type  ret (args)
        if self.peek() == '(':
            self.skip_parens()
            r = Ty('func', el=r)
        return r

    def attrs(self):
        """skip parameter attributes"""
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
                if self.peek() == '(' and t in ('captures', 'initializes', 'range'):
                    self.skip_parens()
            elif t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif t and t[0] == '"' and self.peek(1) != ',':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('local', t)
        if t[0] == '@':
            return ('global', t)
        if t == 'null':
            return ('int', 0) if False else ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'none':
            return ('null',)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            s = t[2:-1]
            b = []
            i = 0
            while i < len(s):
                if s[i:i + 2] == '\\\\':
                    b.append(92)
                    i += 2
                elif s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('agg', [(Ty('int', 8), ('int', x)) for x in b])
        if t == '[' or t == '{':
            end = ']' if t == '[' else '}'
            el = []
            while self.peek() != end:
                ety = self.type()
                el.append((ety, self.value(ety)))
                self.accept(',')
            self.expect(end)
            return ('agg', el)
        if t == '<':
            packed = self.accept('{')
            end = '}' if packed else '>'
            el = []
            while self.peek() != end:
                ety = self.type()
                el.append((ety, self.value(ety)))
                self.accept(',')
            self.expect(end)
            if packed:
                self.expect('>')
            return ('agg', el)
        if re.fullmatch(r'-?\d+', t):
            if ty is not None and ty.k == 'float':
                return ('float', t)
            return ('int', int(t))
        if t.startswith('0x') or re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t):
            return ('float', t)
        if t == 'splat':
            self.expect('(')
            ety = self.type()
            v = self.value(ety)
            self.expect(')')
            return ('splat', ety, v)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                while self.peek() in ('inrange',):
                    self.next()
                ety = self.type()
                self.attrs()
                args.append((ety, self.value(ety)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', bt, args)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ety = self.type()
            v = self.value(ety)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('cast', t, ety, v, tt)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'icmp', 'select'):
            while self.peek() != '(':
                self.next()
            self.skip_parens()
            return ('undef',)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            if self.peek() == '(':
                self.skip_parens()
            else:
                self.next()
            return ('undef',)
        raise SyntaxError('value? %r in %s' % (t, ' '.join(self.t[:80])))

    def tv(self):
        ty = self.type()
        self.attrs()
        if ty.k == 'metadata':
            # skip to , or ) at depth 0
            d = 0
            while True:
                t = self.peek()
                if t is None or (d == 0 and t in (',', ')')):
                    break
                if t in '([{<':
                    d += 1
                if t in ')]}>':
                    d -= 1
                self.next()
            return (ty, ('undef',))
        return (ty, self.value(ty))


CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast',
         'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
          'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'inbounds', 'volatile', 'samesign', 'nusw'}


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}     # name -> (is_const, Ty, initializer operand or None)
        self.types = {}       # %name -> Ty
        self.aliases = {}
        self.attrgroups = {}
        self._sz = {}

    # ---- layout ----
    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types.get(ty.name) or Ty('opaque')
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            b = (ty.bits + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if ty.k == 'ptr':
            return 8
        if ty.k == 'float':
            return {32: 4, 64: 8, 16: 2, 128: 16}[ty.bits]
        if ty.k == 'array':
            return self.align(ty.el)
        if ty.k == 'vector':
            s = self.size(ty)
            a = 1
            while a < s:
                a *= 2
            return a
        if ty.k == 'struct':
            if ty.packed:
                return 1
            return max([self.align(e) for e in ty.elems] or [1])
        return 1

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            b = (ty.bits + 7) // 8
            a = self.align(ty)
            return (b + a - 1) // a * a
        if ty.k == 'ptr':
            return 8
        if ty.k == 'float':
            return {32: 4, 64: 8, 16: 2, 128: 16}[ty.bits]
        if ty.k == 'array':
            return ty.n * self.size(ty.el)
        if ty.k == 'vector':
            el = self.resolve(ty.el)
            if el.k == 'int':
                return (ty.n * el.bits + 7) // 8
            return ty.n * self.size(ty.el)
        if ty.k == 'struct':
            off = 0
            for e in ty.elems:
                if not ty.packed:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            if not ty.packed:
                a = self.align(ty)
                off = (off + a - 1) // a * a
            return off
        return 0

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        off = 0
        for i, e in enumerate(ty.elems):
            if not ty.packed:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if i == idx:
                return off
            off += self.size(e)
        raise IndexError(idx)


def _strip_md(toks):
    """drop trailing ', !tbaa !5' style metadata and attribute group refs"""
    for i, t in enumerate(toks):
        if t[0] == '!' and i > 0 and toks[i - 1] == ',':
            return toks[:i - 1]
    return toks


def parse_inst(line, mod):
    toks = tokenize(line)
    toks = _strip_md(toks)
    res = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        res = toks[0]
        toks = toks[2:]
    p = P(toks, mod)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    while p.peek() in FLAGS and op not in ('call', 'invoke'):
        p.next()
    if op in BINOPS:
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(res, op, ty, [a, b], None, line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(res, op, ty, [a, b], pred, line)
    if op in CASTS:
        ty, v = p.tv()
        p.expect('to')
        tt = p.type()
        return Inst(res, op, ty, [v], tt, line)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        _, v = p.tv()
        return Inst(res, op, ty, [v], None, line)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty, v = p.tv()
        p.expect(',')
        _, q = p.tv()
        return Inst(res, op, ty, [v, q], None, line)
    if op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        _, q = p.tv()
        p.expect(',')
        ty, v = p.tv()
        return Inst(res, op, ty, [q, v], k, line)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(',')
        base = p.tv()
        idx = []
        while p.accept(','):
            idx.append(p.tv())
        return Inst(res, op, bt, [base[1]], idx, line)
    if op == 'alloca':
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                n = p.tv()
        return Inst(res, op, ty, [], n, line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Inst(None, 'br', None, [], [p.next()], line)
        ty, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Inst(None, 'br', None, [c], [a, b], line)
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        return Inst(None, 'switch', ty, [v], (d, cases), line)
    if op == 'ret':
        if p.peek() == 'void':
            return Inst(None, 'ret', VOID, [], None, line)
        ty, v = p.tv()
        return Inst(None, 'ret', ty, [v], None, line)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        return Inst(res, 'phi', ty, [], inc, line)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        cty, c = p.tv()
        p.expect(',')
        ty, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Inst(res, 'select', ty, [c, a, b], cty, line)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in LINKAGE:
            p.next()
        p.attrs()
        ty = p.type()
        if ty.k == 'func':
            ty = ty.el
        callee = p.value(None)
        p.expect('(')
        args = []
        while p.peek() != ')':
            args.append(p.tv())
            p.accept(',')
        p.expect(')')
        x = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = p.next()
            p.expect('unwind')
            p.expect('label')
            u = p.next()
            x = (n, u)
        else:
            x = [t for t in toks[p.i:]]
        return Inst(res, op, ty, [callee] + args, x, line)
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst(res, op, ty, [v], idx, line)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        ety, e = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst(res, op, ty, [v, e], (idx, ety), line)
    if op == 'extractelement':
        ty, v = p.tv()
        p.expect(',')
        i = p.tv()
        return Inst(res, op, ty, [v, i[1]], i[0], line)
    if op == 'insertelement':
        ty, v = p.tv()
        p.expect(',')
        e = p.tv()
        p.expect(',')
        i = p.tv()
        return Inst(res, op, ty, [v, e[1], i[1]], (e[0], i[0]), line)
    if op == 'shufflevector':
        ty, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        p.expect(',')
        mty, m = p.tv()
        return Inst(res, op, ty, [a, b, m], mty, line)
    if op == 'freeze':
        ty, v = p.tv()
        return Inst(res, op, ty, [v], None, line)
    if op == 'unreachable':
        return Inst(None, op, None, [], None, line)
    if op == 'fneg':
        ty, v = p.tv()
        return Inst(res, op, ty, [v], None, line)
    # landingpad, resume, fence, cmpxchg, atomicrmw...
    return Inst(res, 'opaque:' + op, None, [], None, line)


def parse_function_header(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    kw = p.next()
    while True:
        t = p.peek()
        if t in LINKAGE:
            p.next()
        elif t in PARAM_ATTRS or t in PARAM_ATTRS_ARG:
            p.attrs()
        elif t == 'comdat':
            p.next()
        else:
            break
    ret = p.type_noparen() if hasattr(p, 'type_noparen') else None
    return p, ret


def _type_noparen(self):
    # type() would swallow '(' for function types; names follow here so safe
    return self.type()


P.type_noparen = _type_noparen


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ';' or ln.startswith(('source_filename', 'target ', '!', '^')):
            i += 1
            continue
        if ln[0] == '%':
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
            if m:
                if m.group(2).strip() == 'opaque':
                    mod.types[m.group(1)] = Ty('opaque')
                else:
                    mod.types[m.group(1)] = P(tokenize(m.group(2)), mod).type()
            i += 1
            continue
        if ln[0] == '@':
            p = P(_strip_md(tokenize(ln)), mod)
            name = p.next()
            p.expect('=')
            alias = False
            while True:
                t = p.peek()
                if t in LINKAGE:
                    p.next()
                    if p.peek() == '(':
                        p.skip_parens()
                elif t == 'addrspace':
                    p.next()
                    p.skip_parens()
                elif t in ('alias', 'ifunc'):
                    alias = True
                    p.next()
                    break
                else:
                    break
            try:
                if alias:
                    p.type()
                    p.expect(',')
                    _, v = p.tv()
                    if v[0] == 'global':
                        mod.aliases[name] = v[1]
                elif p.peek() in ('global', 'constant'):
                    isc = p.next() == 'constant'
                    ty = p.type()
                    init = None
                    if p.peek() is not None and p.peek() != ',':
                        init = p.value(ty)
                    mod.globals[name] = (isc, ty, init)
            except (SyntaxError, IndexError):
                pass
            i += 1
            continue
        if ln.startswith('declare') or ln.startswith('define'):
            p, ret = parse_function_header(ln, mod)
            name = p.next()
            f = Function(name)
            f.ret = ret
            f.decl = ln.startswith('declare')
            p.expect('(')
            k = 0
            while p.peek() != ')':
                if p.accept('...'):
                    continue
                ty = p.type()
                p.attrs()
                pn = None
                if p.peek() and p.peek()[0] == '%':
                    pn = p.next()
                f.params.append((ty, pn))
                p.accept(',')
            p.expect(')')
            f.attrs = ' '.join(p.t[p.i:])
            mod.funcs[name] = f
            i += 1
            if f.decl:
                continue
            cur = None
            while lines[i] != '}':
                l2 = lines[i]
                if l2.strip() == '' or l2.lstrip().startswith(';'):
                    i += 1
                    continue
                m = re.match(r'^("[^"]*"|[-\w$.]+):', l2)
                if m:
                    cur = Block('%' + m.group(1))
                    f.blocks[cur.name] = cur
                    if f.entry is None:
                        f.entry = cur.name
                    i += 1
                    continue
                if cur is None:
                    cur = Block('%entry.implicit')
                    f.blocks[cur.name] = cur
                    f.entry = cur.name
                s = l2
                if s.lstrip().startswith('switch') and '[' in s and ']' not in s:
                    while ']' not in lines[i]:
                        i += 1
                        s += ' ' + lines[i]
                elif 'invoke ' in s and 'unwind label' not in s:
                    i += 1
                    s += ' ' + lines[i]
                elif ' landingpad ' in s:
                    while i + 1 < n and lines[i + 1].strip().startswith(('cleanup', 'catch', 'filter')):
                        i += 1
                try:
                    cur.insts.append(parse_inst(s, mod))
                except (SyntaxError, IndexError) as e:
                    cur.insts.append(Inst(None, 'opaque:parse', None, [], str(e), s))
                    m2 = re.match(r'\s*(%[-\w$.]+) =', s)
                    if m2:
                        cur.insts[-1].res = m2.group(1)
                i += 1
            i += 1
            continue
        m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
        if m:
            mod.attrgroups[m.group(1)] = m.group(2)
        i += 1
    return mod


def preds_first_param_name(f):
    return [pn if pn else '%%%d' % i for i, (_, pn) in enumerate(f.params)]
