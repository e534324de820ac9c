"""Path-partitioned forward abstract interpreter over parsed LLVM IR.

The interpreter owns control flow, the memory model (objects x byte offsets)
and concrete machine integers; a Domain object interprets everything else
(what an external call denotes, arithmetic on non-concrete values, and whether
a condition is known under the current facts).  When a condition is not known
the state is partitioned by that condition (trace partitioning); there is no
solver: the domain decides by normalisation only.
"""
from llir import Ty, PTR


import struct

class _S:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


M64 = (1 << 64) - 1
TOP = _S('TOP')
UNDEF = _S('UNDEF')


class Part:
    """an integer of which only the bits of mask k are initialised"""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v & k

    @staticmethod
    def of(x, mask):
        return Part(mask, x) if isinstance(x, int) else x if isinstance(x, Part) else Part(0, 0)

    def out(self, mask):
        self.k &= mask
        self.v &= mask
        return self.v if self.k == mask else self if self.k else UNDEF


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))


class Swap:
    """an opaque value with its bytes reversed"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Swap) and self.v == o.v

    def __hash__(self):
        return hash(('swap', self.v))


class Bytes:
    """several bytes of different opaque values"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class Frag:
    """byte i of an opaque value of n bytes"""
    __slots__ = ('v', 'i', 'n')

    def __init__(self, v, i, n):
        self.v, self.i, self.n = v, i, n


def frag(v, b, n):
    """byte b of the n byte value v, None if unknown"""
    if isinstance(v, int):
        return (v >> (8 * b)) & 0xff
    if v is TOP or v is UNDEF:
        return None
    if isinstance(v, Frag):
        return v if n == 1 else None
    if isinstance(v, Bytes):
        return v.parts[b] if n == len(v.parts) else None
    return Frag(v, b, n)


class Bool:
    """0/1 valued formula: ('eq', poly) | ('not', f) | ('and', f, g) | ('or', f, g) | ('xor', f, g)
    | ('atom', key)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'Bool(%r)' % (self.f,)


def bnot(f):
    return f[1] if f[0] == 'not' else ('not', f)


class Undecided(Exception):
    """analysis cannot decide (not a violation)"""


class NeedDecide(Exception):
    def __init__(self, f):
        self.f = f


class PathAbort(Exception):
    """path ends in abort / noreturn / unreachable"""
    def __init__(self, why='abort'):
        self.why = why


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'ip', 'prev', 'res', 'cont')

    def __init__(self, fn, env):
        self.fn, self.env, self.blk, self.ip, self.prev, self.res, self.cont = fn, env, fn.entry, 0, None, None, None

    def copy(self):
        f = Frame(self.fn, dict(self.env))
        f.blk, f.ip, f.prev, f.res, f.cont = self.blk, self.ip, self.prev, self.res, self.cont
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}        # obj -> {off: (val, size)}
        self.own = set()     # objs whose dict is private to this state
        self.facts = None
        self.nalloc = 0
        self.trace = []      # branch decisions taken (blame info)
        self.sizes = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.facts = self.facts.copy() if self.facts is not None else None
        s.nalloc = self.nalloc
        s.trace = list(self.trace)
        s.sizes = dict(self.sizes)
        return s

    def wobj(self, o):
        if o not in self.own:
            self.mem[o] = dict(self.mem.get(o, {}))
            self.own.add(o)
        return self.mem[o]


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


class Interp:
    def __init__(self, mod, domain, max_paths=4000, max_steps=3000000):
        self.mod, self.dom = mod, domain
        self.max_paths, self.max_steps = max_paths, max_steps
        self.steps = 0
        self.paths = 0
        self.decisions = 0
        self.visited_funcs = set()
        domain.interp = self

    # ------------------------------------------------------------ running
    def run(self, fname, args, facts, prep=None):
        """yield (state, retval) for each partition reaching return"""
        fn = self.mod.funcs[fname]
        st = State()
        st.facts = facts
        if prep:
            prep(st)
        self.push(st, fn, args)
        work = [st]
        self.paths = 0
        while work:
            st = work.pop()
            try:
                r = self.exec(st, work)
            except PathAbort as e:
                yield st, e
                continue
            if r is not None:
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Undecided('too many partitions')
                yield st, r[0]

    def push(self, st, fn, args):
        self.visited_funcs.add(fn.name)
        env = {}
        k = 0
        for i, (ty, pn) in enumerate(fn.params):
            if pn is None:
                pn = '%' + str(k)
            if pn[1:].isdigit():
                k += 1
            env[pn] = args[i]
        if len(st.frames) > 200:
            raise Undecided('call depth')
        st.frames.append(Frame(fn, env))

    def exec(self, st, work):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided('step budget exhausted')
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            inst = blk.insts[fr.ip]
            try:
                r = self.step(st, fr, inst)
            except NeedDecide as nd:
                self.decisions += 1
                alts = self.dom.split(st, nd.f)
                # each alternative: facts object with nd.f (partially) decided
                if not alts:
                    raise PathAbort('infeasible')
                for facts, label in alts[1:]:
                    s2 = st.copy()
                    s2.facts = facts
                    s2.trace.append(label)
                    work.append(s2)
                    if len(work) > self.max_paths:
                        raise Undecided('too many partitions')
                st.own = set()
                st.facts = alts[0][0]
                st.trace.append(alts[0][1])
                continue
            if r is not None:
                return r

    # ------------------------------------------------------------ operands
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'local':
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Undecided('use of unset %s' % v[1])
        if k == 'int':
            t = self.mod.resolve(ty)
            return v[1] & ((1 << t.bits) - 1) if t.k == 'int' else v[1]
        if k == 'null':
            return 0
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t.k in ('struct', 'array', 'vector'):
                return self.fill(t, UNDEF)
            return UNDEF
        if k == 'zero':
            return self.fill(self.mod.resolve(ty), 0)
        if k == 'global':
            return Ptr(self.mod.aliases.get(v[1], v[1]), 0)
        if k == 'agg':
            return [self.val(st, fr, ety, e) for ety, e in v[1]]
        if k == 'splat':
            t = self.mod.resolve(ty)
            return [self.val(st, fr, v[1], v[2])] * t.n
        if k == 'gep':
            base = self.val(st, fr, v[2][0][0], v[2][0][1])
            return self.gep(st, fr, v[1], base, v[2][1:])
        if k == 'cast':
            x = self.val(st, fr, v[2], v[3])
            return x
        if k == 'float':
            try:
                if v[1].startswith('0x'):
                    if v[1][2:3] in 'KLMHR':
                        return TOP
                    return struct.unpack('>d', bytes.fromhex(v[1][2:].zfill(16)))[0]
                return float(v[1])
            except (ValueError, struct.error):
                return TOP
        raise Undecided('operand %r' % (v,))

    def floats(self, st, fr, inst, op):
        """concrete double precision only"""
        a = [self.val(st, fr, inst.ty, x) for x in inst.args]
        t = self.mod.resolve(inst.ty)
        if not all(isinstance(x, (int, float)) for x in a) or t.k == 'vector':
            return TOP
        try:
            if op == 'uitofp':
                return float(a[0])
            if op == 'sitofp':
                return float(sgn(a[0], t.bits))
            if op in ('fptoui', 'fptosi'):
                return int(a[0]) & ((1 << self.mod.resolve(inst.x).bits) - 1)
            if op == 'fpext':
                return a[0]
            if t.bits != 64:
                return TOP
            if op == 'fneg':
                return -a[0]
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                return {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y,
                        'fdiv': lambda x, y: x / y}[op](*a)
        except (ArithmeticError, TypeError, AttributeError):
            pass
        return TOP

    def fill(self, t, x):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            return [self.fill(e, x) for e in t.elems]
        if t.k in ('array', 'vector'):
            return [self.fill(t.el, x) for _ in range(t.n)]
        return x

    def gep(self, st, fr, bt, base, idx):
        if base is TOP or base is UNDEF:
            return TOP
        if not isinstance(base, Ptr):
            if isinstance(base, int):
                base = Ptr('null', base)
            else:
                return TOP
        off = base.off
        ty = bt
        for n, (ity, iv) in enumerate(idx):
            i = self.val(st, fr, ity, iv)
            if isinstance(i, Bool):
                i = self.force(st, i)
            if not isinstance(i, int):
                i = self.dom.index(st, i)
                if not isinstance(i, int):
                    raise Undecided('symbolic index')
            it = self.mod.resolve(ity)
            if it.k == 'int':
                i = sgn(i, it.bits)
            if n == 0:
                off += i * self.mod.size(ty)
            else:
                t = self.mod.resolve(ty)
                if t.k == 'struct':
                    off += self.mod.field_off(t, i)
                    ty = t.elems[i]
                else:
                    off += i * self.mod.size(t.el)
                    ty = t.el
        if base.obj == 'null':
            return off & ((1 << 64) - 1)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ memory
    def ensure(self, st, obj):
        if obj in st.mem:
            return
        if isinstance(obj, str) and obj in self.mod.globals:
            isc, ty, init = self.mod.globals[obj]
            st.mem[obj] = {}
            st.own.add(obj)
            if obj == '@__libc_single_threaded':
                # the analysed entry points create no threads
                st.mem[obj][0] = (1, 1)
                return
            if init is not None:
                ov = self.dom.global_init(obj)
                if ov is not None:
                    st.mem[obj] = ov
                    return
                self.store(st, Ptr(obj, 0), ty, self.val(st, None, ty, init))
            return
        st.mem[obj] = {}
        st.own.add(obj)

    def store(self, st, p, ty, v):
        t = self.mod.resolve(ty)
        if t.k == 'struct':
            if v is UNDEF or v is TOP:
                v = self.fill(t, v)
            for i, e in enumerate(t.elems):
                self.store(st, Ptr(p.obj, p.off + self.mod.field_off(t, i)), e, v[i])
            return
        if t.k in ('array', 'vector'):
            if v is UNDEF or v is TOP:
                v = self.fill(t, v)
            if t.k == 'vector' and self.mod.resolve(t.el).k == 'int' and self.mod.resolve(t.el).bits % 8:
                raise Undecided('bit-vector store')
            es = self.mod.size(t.el)
            for i in range(t.n):
                self.store(st, Ptr(p.obj, p.off + i * es), t.el, v[i])
            return
        self.ensure(st, p.obj)
        sz = self.mod.size(t)
        self.bounds(st, p, sz, 'writes')
        o = st.wobj(p.obj)
        self.clobber(o, p.off, sz)
        o[p.off] = (v, sz)

    def bounds(self, st, p, sz, what):
        n = st.sizes.get(p.obj)
        if isinstance(n, int) and isinstance(p.off, int) and not 0 <= p.off <= n - sz:
            raise PathAbort('%s %d bytes at %d of an object of %d bytes' % (what, sz, p.off, n))

    def clobber(self, o, off, sz):
        if off in o and o[off][1] == sz:
            return
        dead = [k for k, (v, s) in o.items() if k < off + sz and off < k + s]
        for k in dead:
            v, s = o.pop(k)
            # keep the non overlapped bytes
            for b in range(s):
                if not (off <= k + b < off + sz):
                    x = frag(v, b, s)
                    if x is not None:
                        o[k + b] = (x, 1)

    def load(self, st, p, ty):
        t = self.mod.resolve(ty)
        if t.k == 'struct':
            return [self.load(st, Ptr(p.obj, p.off + self.mod.field_off(t, i)), e) for i, e in enumerate(t.elems)]
        if t.k in ('array', 'vector'):
            es = self.mod.size(t.el)
            return [self.load(st, Ptr(p.obj, p.off + i * es), t.el) for i in range(t.n)]
        self.ensure(st, p.obj)
        sz = self.mod.size(t)
        self.bounds(st, p, sz, 'reads')
        o = st.mem[p.obj]
        e = o.get(p.off)
        if e is not None and e[1] == sz:
            return e[0]
        # reassemble from concrete pieces
        val = 0
        pos = p.off
        got = False
        while pos < p.off + sz:
            hit = None
            if pos in o:
                hit = (pos, o[pos])
            else:
                for k, (v, s) in o.items():
                    if k <= pos < k + s:
                        hit = (k, (v, s))
                        break
            if hit is None:
                return self.dom.unset(st, p, t)
            k, (v, s) = hit
            if not isinstance(v, int):
                if v is UNDEF:
                    return UNDEF
                return self.dom.partial_load(st, o, p.off, sz)
            b = (v >> (8 * (pos - k))) & 0xff
            val |= b << (8 * (pos - p.off))
            pos += 1
        return val

    def memcpy(self, st, d, s, n):
        self.ensure(st, d.obj)
        self.ensure(st, s.obj)
        src = st.mem[s.obj]
        items = []
        covered = 0
        for k, (v, z) in src.items():
            if k >= s.off and k + z <= s.off + n:
                items.append((k - s.off, v, z))
                covered += z
            elif k < s.off + n and s.off < k + z:
                for b in range(z):
                    if s.off <= k + b < s.off + n:
                        x = frag(v, b, z)
                        if x is None:
                            raise Undecided('memcpy splits a value')
                        items.append((k + b - s.off, x, 1))
        o = st.wobj(d.obj)
        # remove destination range
        dead = [k for k, (v, z) in o.items() if k < d.off + n and d.off < k + z]
        for k in dead:
            v, z = o.pop(k)
            for b in range(z):
                if not (d.off <= k + b < d.off + n):
                    x = frag(v, b, z)
                    if x is not None:
                        o[k + b] = (x, 1)
        for k, v, z in items:
            o[d.off + k] = (v, z)

    def alloc(self, st, size=None):
        st.nalloc += 1
        o = 'a%d' % st.nalloc
        st.mem[o] = {}
        st.own.add(o)
        st.sizes[o] = size
        return Ptr(o, 0)

    # ------------------------------------------------------------ control
    def force(self, st, b):
        """concrete 0/1 for Bool under facts, or partition"""
        if isinstance(b, int):
            return b & 1
        if isinstance(b, Bool):
            r = self.dom.decide(st.facts, b.f)
            if r is None:
                raise NeedDecide(b.f)
            return int(r)
        return None

    def jump(self, st, fr, target):
        fr.prev = fr.blk
        fr.blk = target
        blk = fr.fn.blocks[target]
        # evaluate phis simultaneously
        new = []
        i = 0
        for inst in blk.insts:
            if inst.op != 'phi':
                break
            for v, b in inst.x:
                if b == fr.prev or (fr.prev == '%entry.implicit' and b not in fr.fn.blocks):
                    new.append((inst.res, self.val(st, fr, inst.ty, v)))
                    break
            else:
                raise Undecided('phi without incoming')
            i += 1
        for r, v in new:
            fr.env[r] = v
        fr.ip = i

    PURE = ('load', 'store', 'getelementptr', 'phi', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp',
            'zext', 'sext', 'trunc', 'select', 'freeze')

    def arm(self, fr, b):
        """successor of a straight-line arm, or None"""
        blk = fr.fn.blocks.get(b)
        if blk is None:
            return None
        *body, last = blk.insts
        if last.op != 'br' or last.args or any(i.op not in self.PURE for i in body):
            return None
        return last.x[0]

    def merge(self, st, fr, c, t, f):
        """evaluate both arms of a diamond or triangle and select values and memory at the join"""
        jt, jf = self.arm(fr, t), self.arm(fr, f)
        if jt is not None and jt == jf:
            join, at, af = jt, t, f
        elif jt == f:
            join, at, af = f, t, None
        elif jf == t:
            join, at, af = t, None, f
        else:
            return False
        if any(i.op == 'phi' for a in (at, af) if a for i in fr.fn.blocks[a].insts):
            return False
        src = fr.blk
        outs = []
        for a in (at, af):
            s2 = st.copy()
            st.own = set()
            f2 = s2.frames[-1]
            if a is not None:
                f2.prev, f2.blk, f2.ip = src, a, 0
                for i in fr.fn.blocks[a].insts[:-1]:
                    self.step(s2, f2, i)
            outs.append((s2, f2, a or src))
        (s1, f1, p1), (s2, f2, p2) = outs
        new = []
        k = 0
        for i in fr.fn.blocks[join].insts:
            if i.op != 'phi':
                break
            k += 1
            vs = []
            for fx, px in ((f1, p1), (f2, p2)):
                for v, b in i.x:
                    if b == px or (px == '%entry.implicit' and b not in fr.fn.blocks):
                        vs.append(self.val(st, fx, i.ty, v))
                        break
                else:
                    return False
            same = vs[0] is vs[1] or (isinstance(vs[0], int) and isinstance(vs[1], int) and vs[0] == vs[1])
            new.append((i.res, vs[0] if same else self.select1(st, c, vs[0], vs[1], i.ty)))
        for o in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(o), s2.mem.get(o)
            if a is b:
                continue
            for off in set(a or {}) | set(b or {}):
                x, y = (a or {}).get(off), (b or {}).get(off)
                if x is not None and y is not None and (x[0] is y[0] or x == y):
                    continue
                sz = (x or y)[1]
                if x is not None and y is not None and x[1] != y[1]:
                    return False
                ty = Ty('int', 8 * sz)
                p = Ptr(o, off)
                va, vb = self.load(s1, p, ty), self.load(s2, p, ty)
                self.store(st, p, ty, self.select1(st, c, va, vb, ty))
        fr = st.frames[-1]
        fr.prev, fr.blk = p1, join
        for r, v in new:
            fr.env[r] = v
        fr.ip = k
        return True

    def step(self, st, fr, inst):
        op = inst.op
        dom = self.dom
        mod = self.mod
        if op == 'load':
            p = self.val(st, fr, PTR, inst.args[0])
            if not isinstance(p, Ptr):
                if isinstance(p, int) and p < 4096:
                    raise PathAbort('dereferences a null pointer')
                v = dom.bad_load(st, p, inst)
            else:
                v = self.load(st, p, inst.ty)
            fr.env[inst.res] = v
        elif op == 'store':
            v = self.val(st, fr, inst.ty, inst.args[0])
            p = self.val(st, fr, PTR, inst.args[1])
            if not isinstance(p, Ptr):
                raise Undecided('store through unknown pointer')
            self.store(st, p, inst.ty, v)
        elif op == 'atomicrmw' and inst.x in ('add', 'sub', 'and', 'or', 'xor', 'xchg'):
            # (one thread)
            p = self.val(st, fr, PTR, inst.args[0])
            if not isinstance(p, Ptr):
                raise Undecided('store through unknown pointer')
            v = self.val(st, fr, inst.ty, inst.args[1])
            old = self.load(st, p, inst.ty)
            self.store(st, p, inst.ty, v if inst.x == 'xchg' else self.binop(st, inst.x, mod.resolve(inst.ty).bits, old, v, inst))
            fr.env[inst.res] = old
        elif op == 'getelementptr':
            base = self.val(st, fr, PTR, inst.args[0])
            fr.env[inst.res] = self.gep(st, fr, inst.ty, base, inst.x)
        elif op == 'alloca':
            n = 1 if inst.x is None else self.val(st, fr, inst.x[0], inst.x[1])
            fr.env[inst.res] = self.alloc(st, mod.size(inst.ty) * n if isinstance(n, int) else None)
        elif op == 'br':
            if not inst.args:
                self.jump(st, fr, inst.x[0])
            else:
                c = self.val(st, fr, Ty('int', 1), inst.args[0])
                b = self.force(st, c)
                if b is None and dom.merge and self.merge(st, fr, c, inst.x[0], inst.x[1]):
                    return None
                if b is None:
                    b = dom.branch_unknown(st, c)
                self.jump(st, fr, inst.x[0] if b else inst.x[1])
            return None
        elif op == 'switch':
            v = self.val(st, fr, inst.ty, inst.args[0])
            if isinstance(v, Bool):
                v = self.force(st, v)
            if not isinstance(v, int):
                v = dom.switch_unknown(st, v, inst)
            t = inst.x[0]
            bits = mod.resolve(inst.ty).bits
            for cv, lab in inst.x[1]:
                if (cv[1] & ((1 << bits) - 1)) == v:
                    t = lab
                    break
            self.jump(st, fr, t)
            return None
        elif op == 'ret':
            v = self.val(st, fr, inst.ty, inst.args[0]) if inst.args else None
            st.frames.pop()
            if not st.frames:
                return (v,)
            caller = st.frames[-1]
            ci = caller.fn.blocks[caller.blk].insts[caller.ip]
            if ci.res:
                caller.env[ci.res] = v
            if ci.op == 'invoke':
                self.jump(st, caller, ci.x[0])
            else:
                caller.ip += 1
            return None
        elif op in ('call', 'invoke'):
            r = self.call(st, fr, inst)
            if r == 'pushed':
                return None
            if op == 'invoke':
                self.jump(st, fr, inst.x[0])
                return None
        elif op == 'select':
            cty = inst.x
            c = self.val(st, fr, cty, inst.args[0])
            if isinstance(c, list):
                a = self.val(st, fr, inst.ty, inst.args[1])
                b = self.val(st, fr, inst.ty, inst.args[2])
                out = []
                for i in range(len(c)):
                    out.append(self.select1(st, c[i], a[i], b[i]))
                fr.env[inst.res] = out
            else:
                a = self.val(st, fr, inst.ty, inst.args[1])
                b = self.val(st, fr, inst.ty, inst.args[2])
                fr.env[inst.res] = self.select1(st, c, a, b, inst.ty)
        elif op == 'icmp':
            t = mod.resolve(inst.ty)
            a = self.val(st, fr, inst.ty, inst.args[0])
            b = self.val(st, fr, inst.ty, inst.args[1])
            if isinstance(a, list):
                fr.env[inst.res] = [self.icmp(st, inst.x, mod.resolve(t.el), x, y) for x, y in zip(a, b)]
            else:
                fr.env[inst.res] = self.icmp(st, inst.x, t, a, b)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = mod.resolve(inst.ty)
            a = self.val(st, fr, inst.ty, inst.args[0])
            b = self.val(st, fr, inst.ty, inst.args[1])
            if t.k == 'vector':
                bits = mod.resolve(t.el).bits
                fr.env[inst.res] = [self.binop(st, op, bits, x, y, inst) for x, y in zip(a, b)]
            else:
                fr.env[inst.res] = self.binop(st, op, t.bits, a, b, inst)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = self.val(st, fr, inst.ty, inst.args[0])
            t = mod.resolve(inst.ty)
            if op in ('freeze', 'addrspacecast'):
                fr.env[inst.res] = v
            else:
                t2 = mod.resolve(inst.x)
                if t.k == 'vector' and t2.k == 'vector' and op != 'bitcast':
                    fr.env[inst.res] = [self.cast(st, op, mod.resolve(t.el), x, mod.resolve(t2.el)) for x in v]
                elif op == 'bitcast' and (t.k == 'vector' or t2.k == 'vector'):
                    q = self.alloc(st)
                    self.store(st, q, t, v)
                    fr.env[inst.res] = self.load(st, q, t2)
                else:
                    fr.env[inst.res] = self.cast(st, op, t, v, t2)
        elif op == 'extractvalue':
            v = self.val(st, fr, inst.ty, inst.args[0])
            for i in inst.x:
                if v is TOP or v is UNDEF:
                    break
                v = v[i]
            fr.env[inst.res] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, inst.ty, inst.args[0])
            idx, ety = inst.x
            e = self.val(st, fr, ety, inst.args[1])
            fr.env[inst.res] = self.insval(v, idx, e)
        elif op == 'extractelement':
            v = self.val(st, fr, inst.ty, inst.args[0])
            i = self.val(st, fr, inst.x, inst.args[1])
            fr.env[inst.res] = v[i]
        elif op == 'insertelement':
            v = list(self.val(st, fr, inst.ty, inst.args[0]))
            e = self.val(st, fr, inst.x[0], inst.args[1])
            i = self.val(st, fr, inst.x[1], inst.args[2])
            v[i] = e
            fr.env[inst.res] = v
        elif op == 'shufflevector':
            a = self.val(st, fr, inst.ty, inst.args[0])
            b = self.val(st, fr, inst.ty, inst.args[1])
            m = self.val(st, fr, inst.x, inst.args[2])
            al = list(a) + list(b)
            fr.env[inst.res] = [al[i] if isinstance(i, int) else UNDEF for i in m]
        elif op == 'unreachable':
            raise PathAbort('unreachable')
        elif op == 'phi':
            raise Undecided('stray phi')
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'fneg', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            fr.env[inst.res] = self.floats(st, fr, inst, op)
        else:
            v = dom.opaque(st, inst)
            if inst.res:
                fr.env[inst.res] = v
        fr.ip += 1
        return None

    def insval(self, v, idx, e):
        v = list(v) if isinstance(v, list) else v
        if v is UNDEF or v is TOP:
            raise Undecided('insertvalue into scalar undef')
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], e)
        return v

    def select1(self, st, c, a, b, ty=None):
        if a is b:
            return a
        if isinstance(c, int):
            return a if c & 1 else b
        if isinstance(c, Bool):
            # boolean connectives written as selects
            if isinstance(a, (int, Bool)) and isinstance(b, (int, Bool)) and ty is not None and ty.k == 'int' and ty.bits == 1:
                r = self.dom.decide(st.facts, c.f)
                if r is not None:
                    return a if r else b
                if a == 1 and isinstance(a, int):
                    return self.bool_bin('or', c, b)
                if isinstance(b, int) and b == 0:
                    return self.bool_bin('and', c, a)
                if isinstance(a, int) and a == 0:
                    return self.bool_bin('and', Bool(bnot(c.f)), b)
                if isinstance(b, int) and b == 1:
                    return self.bool_bin('or', Bool(bnot(c.f)), a)
            r = self.force(st, c)
            return a if r else b
        v = self.dom.select_unknown(st, c, a, b, ty)
        return v

    def bool_bin(self, op, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and':
                return a if b & 1 else 0
            if op == 'or':
                return 1 if b & 1 else a
            return Bool(bnot(a.f)) if b & 1 else a
        if not isinstance(a, Bool) or not isinstance(b, Bool):
            return TOP
        return Bool((op, a.f, b.f))

    def icmp(self, st, pred, t, a, b):
        if t.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    x, y = a.off, b.off
                    return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                                'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                return self.dom.ptr_order(st, pred, a, b)
            if isinstance(a, int) and isinstance(b, int):
                pass
            elif a == 0 or b == 0:
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne') if (isinstance(a, Ptr) or isinstance(b, Ptr)) else TOP
                return TOP
            else:
                return TOP
        if isinstance(a, Part) or isinstance(b, Part):
            x, y = Part.of(a, M64), Part.of(b, M64)
            if pred in ('eq', 'ne') and (x.v ^ y.v) & x.k & y.k:
                return int(pred == 'ne')
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                x, y = a, b
            else:
                bt = t.bits if t.k == 'int' else 64
                x, y = sgn(a, bt), sgn(b, bt)
            return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
        if isinstance(a, Bool) or isinstance(b, Bool):
            if isinstance(b, Bool) and not isinstance(a, Bool):
                a, b = b, a
                pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
                        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            if isinstance(b, int):
                if pred in ('eq', 'ne'):
                    if b > 1:
                        return int(pred == 'ne')
                    return a if (pred == 'eq') == (b == 1) else Bool(bnot(a.f))
                if pred == 'ult' and b == 1:
                    return Bool(bnot(a.f))
                if pred == 'ugt' and b == 0:
                    return a
                v = self.force(st, a)
                return self.icmp(st, pred, t, v, b)
            if isinstance(b, Bool) and pred in ('eq', 'ne'):
                x = Bool(('xor', a.f, b.f))
                return Bool(bnot(x.f)) if pred == 'eq' else x
            if isinstance(b, Bool):
                return self.icmp(st, pred, t, self.force(st, a), self.force(st, b))
        return self.dom.icmp(st, pred, t, a, b)

    def binop(self, st, op, bits, a, b, inst=None):
        mask = (1 << bits) - 1
        if op in ('and', 'mul') and (a is UNDEF or b is UNDEF or a is TOP or b is TOP) and (a is not TOP or b is not TOP):
            if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                return 0
        if op == 'or' and (isinstance(a, int) and a == mask or isinstance(b, int) and b == mask):
            return mask
        if (isinstance(a, Part) or isinstance(b, Part) or (a is UNDEF or b is UNDEF) and op in ('and', 'or') and getattr(self.dom, 'partial', False)) and all(
                x is UNDEF or isinstance(x, (int, Part)) for x in (a, b)):
            if op in ('and', 'or', 'xor'):
                x, y = Part.of(a, mask), Part.of(b, mask)
                k = x.k & y.k
                if op == 'and':
                    return Part(k | x.k & ~x.v | y.k & ~y.v, x.v & y.v).out(mask)
                if op == 'or':
                    return Part(k | x.v | y.v, x.v | y.v).out(mask)
                return Part(k, x.v ^ y.v).out(mask)
            if isinstance(b, int) and b < bits:
                if op == 'lshr':
                    return Part(a.k >> b | mask & ~(mask >> b), a.v >> b).out(mask)
                if op == 'shl':
                    return Part(a.k << b | (1 << b) - 1, a.v << b).out(mask)
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < bits else UNDEF
            if op == 'lshr':
                return a >> b if b < bits else UNDEF
            if op == 'ashr':
                return (sgn(a, bits) >> b) & mask if b < bits else UNDEF
            if op == 'udiv':
                return a // b if b else UNDEF
            if op == 'urem':
                return a % b if b else UNDEF
            if op in ('sdiv', 'srem'):
                if not b:
                    return UNDEF
                x, y = sgn(a, bits), sgn(b, bits)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & mask
        if isinstance(a, (Bool, int)) and isinstance(b, (Bool, int)) and (isinstance(a, Bool) or isinstance(b, Bool)):
            if op in ('and', 'or', 'xor') and (bits == 1 or all(isinstance(x, Bool) or x <= 1 for x in (a, b))):
                return self.bool_bin(op, a, b)
            if op == 'and' and isinstance(b, int) or op == 'and' and isinstance(a, int):
                q, c = (a, b) if isinstance(b, int) else (b, a)
                return q if c & 1 else 0
            if bits == 1 and op in ('add', 'sub'):
                return self.bool_bin('xor', a, b)
            if bits == 1 and op == 'mul':
                return self.bool_bin('and', a, b)
            a = self.force(st, a)
            b = self.force(st, b)
            return self.binop(st, op, bits, a, b)
        if isinstance(a, Ptr) and a.obj == 'null':
            return self.binop(st, op, bits, a.off & mask, b, inst)
        if isinstance(b, Ptr) and b.obj == 'null':
            return self.binop(st, op, bits, a, b.off & mask, inst)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return (a.off - b.off) & mask
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + sgn(b, bits))
            if op == 'add' and isinstance(b, Ptr) and isinstance(a, int):
                return Ptr(b.obj, b.off + sgn(a, bits))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off - sgn(b, bits))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
                return self.dom.ptr_and(st, a, b)
            return TOP
        return self.dom.binop(st, op, bits, a, b, inst)

    def cast(self, st, op, t, v, t2):
        if isinstance(v, int):
            if op == 'trunc':
                return v & ((1 << t2.bits) - 1)
            if op == 'sext':
                return sgn(v, t.bits) & ((1 << t2.bits) - 1)
            return v
        if isinstance(v, Bool):
            if op in ('zext', 'trunc', 'bitcast'):
                return v
            if op == 'sext':
                if t.bits > 1:
                    return v
                return ((1 << t2.bits) - 1) if self.force(st, v) else 0
        if isinstance(v, Ptr) or v is UNDEF or v is TOP:
            return v
        if isinstance(v, Part):
            if op == 'trunc':
                return Part(v.k, v.v).out((1 << t2.bits) - 1)
            if op == 'zext':
                return Part(v.k | ((1 << t2.bits) - 1) & ~((1 << t.bits) - 1), v.v)
            return UNDEF
        return self.dom.cast(st, op, t, v, t2)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, inst):
        cal = inst.args[0]
        args_tv = inst.args[1:]
        name = None
        if cal[0] == 'global':
            name = self.mod.aliases.get(cal[1], cal[1])
        elif cal[0] == 'local':
            v = fr.env.get(cal[1])
            if isinstance(v, Ptr) and v.off == 0:
                name = v.obj
        if name is None:
            raise Undecided('indirect call')
        n = name[1:].strip('"')
        if n.startswith('llvm.'):
            v = self.intrinsic(st, fr, n, inst, args_tv)
            if inst.res:
                fr.env[inst.res] = v
            return None
        args = [self.val(st, fr, ty, v) for ty, v in args_tv]
        h = self.dom.call(st, n, args, inst)
        if h is not NotImplemented:
            if inst.res:
                fr.env[inst.res] = h
            return None
        f = self.mod.funcs.get(name)
        if f is not None and not f.decl:
            self.push(st, f, args)
            return 'pushed'
        # external, unknown
        if f is not None and self.noreturn(f, inst):
            raise PathAbort('noreturn call %s' % n)
        v = self.dom.external(st, n, args, inst)
        if inst.res:
            fr.env[inst.res] = v
        return None

    def noreturn(self, f, inst):
        a = f.attrs
        for tok in a.split():
            if tok.startswith('#') and 'noreturn' in self.mod.attrgroups.get(tok, ''):
                return True
        if isinstance(inst.x, list):
            for tok in inst.x:
                if tok.startswith('#') and 'noreturn' in self.mod.attrgroups.get(tok, ''):
                    return True
        return 'noreturn' in a

    def intrinsic(self, st, fr, n, inst, tv):
        if n.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.donothing', 'llvm.invariant')):
            return None
        a = [self.val(st, fr, ty, v) for ty, v in tv]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and isinstance(a[2], int):
                self.memcpy(st, a[0], a[1], a[2])
                return None
            if a[2] == 0 and isinstance(a[2], int):
                return None
            raise Undecided('memcpy with unknown arguments')
        if n.startswith('llvm.memset'):
            if isinstance(a[0], Ptr) and isinstance(a[1], int) and isinstance(a[2], int):
                self.ensure(st, a[0].obj)
                o = st.wobj(a[0].obj)
                off, ln = a[0].off, a[2]
                dead = [k for k, (v, z) in o.items() if k < off + ln and off < k + z]
                for k in dead:
                    o.pop(k)
                p = off
                while ln >= 8 and p % 8 == 0:
                    o[p] = (int.from_bytes(bytes([a[1]]) * 8, 'little'), 8)
                    p += 8
                    ln -= 8
                while ln > 0:
                    o[p] = (a[1], 1)
                    p += 1
                    ln -= 1
                return None
            raise Undecided('memset with unknown arguments')
        if n.startswith(('llvm.trap', 'llvm.ubsantrap')):
            raise PathAbort('trap')
        if n.startswith('llvm.expect'):
            return a[0]
        if n.startswith('llvm.is.constant'):
            return 0
        if n.startswith('llvm.objectsize'):
            return (1 << 64) - 1
        t = self.mod.resolve(inst.ty)
        if t.k == 'vector':
            bits = self.mod.resolve(t.el).bits
            cols = [x if isinstance(x, list) else [x] * t.n for x in a]
            return [self.intr_scalar(st, n, bits, list(c), inst) for c in zip(*cols)]
        bits = t.bits if t.k == 'int' else 0
        if t.k == 'struct' and t.elems:
            b0 = self.mod.resolve(t.elems[0])
            bits = b0.bits
            if b0.k == 'vector':
                raise Undecided('vector overflow intrinsic')
        return self.intr_scalar(st, n, bits, a, inst)

    def intr_scalar(self, st, n, bits, a, inst):
        a = [self.force(st, x) if isinstance(x, Bool) else x for x in a]
        base = n.split('.')[1]
        if all(isinstance(x, int) for x in a):
            m = (1 << bits) - 1
            if base == 'umin':
                return min(a[0], a[1])
            if base == 'umax':
                return max(a[0], a[1])
            if base in ('smin', 'smax'):
                f = min if base == 'smin' else max
                return f(sgn(a[0], bits), sgn(a[1], bits)) & m
            if base == 'usub' and '.sat' in n:
                return max(0, a[0] - a[1])
            if base == 'uadd' and '.sat' in n:
                return min(m, a[0] + a[1])
            if base == 'ctpop':
                return bin(a[0]).count('1')
            if base == 'ctlz':
                return bits - a[0].bit_length()
            if base == 'cttz':
                return (a[0] & -a[0]).bit_length() - 1 if a[0] else bits
            if base == 'bswap':
                return int.from_bytes(a[0].to_bytes(bits // 8, 'little'), 'big')
            if base == 'bitreverse':
                return int(format(a[0], '0%db' % bits)[::-1], 2)
            if base == 'abs':
                return abs(sgn(a[0], bits)) & m
            if base in ('fshl', 'fshr'):
                s = a[2] % bits
                x = (a[0] << bits) | a[1]
                return ((x << s) >> bits if base == 'fshl' else x >> s) & m
            if base == 'uadd':
                s = a[0] + a[1]
                return [s & m, int(s > m)]
            if base == 'usub':
                s = a[0] - a[1]
                return [s & m, int(s < 0)]
            if base == 'umul':
                s = a[0] * a[1]
                return [s & m, int(s > m)]
            if base in ('sadd', 'ssub', 'smul') and '.sat' not in n:
                x, y = sgn(a[0], bits), sgn(a[1], bits)
                s = x + y if base == 'sadd' else x - y if base == 'ssub' else x * y
                return [s & m, int(not -(1 << bits - 1) <= s < 1 << bits - 1)]
        return self.dom.intrinsic(st, n, bits, a, inst)


class Domain:
    """defaults: everything unknown is TOP / Undecided"""
    interp = None
    merge = False

    def decide(self, facts, f):
        return None

    def split(self, st, f):
        raise Undecided('condition not decidable in this domain')

    def global_init(self, name):
        return None

    def unset(self, st, p, t):
        return UNDEF

    def partial_load(self, st, o, off, sz):
        """bytes of an opaque value, or an opaque value put together again"""
        parts = []
        for b in range(sz):
            x = None
            for k in ((off + b,) if (off + b) in o else o):
                v, z = o[k]
                if k <= off + b < k + z:
                    x = frag(v, off + b - k, z)
                    break
            if x is None:
                return TOP
            parts.append(x)
        f = parts[0]
        if all(isinstance(x, int) for x in parts):
            return int.from_bytes(bytes(parts), 'little')
        if sz == 1:
            return f
        if isinstance(f, Frag) and f.i == 0 and f.n == sz and all(
                isinstance(x, Frag) and (x.v is f.v or x.v == f.v) and x.n == f.n and x.i == i for i, x in enumerate(parts)):
            return f.v
        return Bytes(parts)

    def bad_load(self, st, p, inst):
        raise Undecided('load through unknown pointer')

    def branch_unknown(self, st, c):
        raise Undecided('branch on unknown value %r' % (c,))

    def switch_unknown(self, st, v, inst):
        raise Undecided('switch on unknown value')

    def index(self, st, i):
        return None

    def select_unknown(self, st, c, a, b, ty):
        raise Undecided('select on unknown value')

    def ptr_order(self, st, pred, a, b):
        return TOP

    def ptr_and(self, st, a, b):
        return TOP

    def icmp(self, st, pred, t, a, b):
        return TOP

    def binop(self, st, op, bits, a, b, inst=None):
        return TOP

    def cast(self, st, op, t, v, t2):
        return TOP

    def call(self, st, name, args, inst):
        return NotImplemented

    def external(self, st, name, args, inst):
        raise Undecided('call to unmodelled external %s' % name)

    def intrinsic(self, st, n, bits, a, inst):
        if '.bswap.' in n and a[0] is not TOP and a[0] is not UNDEF:
            return a[0].v if isinstance(a[0], Swap) else Swap(a[0])
        return TOP

    def opaque(self, st, inst):
        raise Undecided('unmodelled instruction %s' % inst.line.strip()[:80])
