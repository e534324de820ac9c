"""Algebraic specifications of instantiated templates: run an IR function on
handles that stand for arbitrary field elements and compare what it stores."""
import math
from absint import Interp, Ptr, PathAbort, Undecided, UNDEF, TOP
from llir import Ty
from alg import Alg, Facts, H, log_call

# prime with roots of unity of order 32 and 36 (and far more)
P = (1 << 61) // 2880 * 2880 + 1


def _prime(p):
    return all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7, 11, 13))


while not _prime(P):
    P += 2880


def root(n):
    """a primitive n-th root of unity modulo P"""
    fs = [f for f in (2, 3, 5) if n % f == 0]
    for a in range(2, 1000):
        w = pow(a, (P - 1) // n, P)
        if all(pow(w, n // f, P) != 1 for f in fs):
            return w
    raise AssertionError


class ModAlg(Alg):
    """coefficients modulo a large prime P: an identity over the cyclotomic
    integers holds modulo P, so a mismatch is a mismatch"""
    partial = True

    def __init__(self, gens, hints=(), char=P):
        Alg.__init__(self, gens, char=char)
        self.hints = list(hints)
        self.guards = {}

    def canon(self, f):
        return f.monic()

    def factors(self, p):
        r = self._fac.get(p)
        if r is not None:
            return r
        out = []
        q = p
        # monomial content
        mono = tuple(min(m[i] for m in q) for i in range(len(self.order)))
        for i, e in enumerate(mono):
            if e:
                out.append(self.R({tuple(int(i == j) for j in range(len(mono))): self.R.domain(1)}))
        if any(mono):
            q = self.R.from_dict({tuple(x - y for x, y in zip(m, mono)): c for m, c in q.items()})
        for h in self.hints:
            hit = False
            while not q.is_ground:
                d, rem = q.div(h)
                if rem != 0:
                    break
                q = d
                hit = True
            if hit:
                out.append(self.canon(h))
        if not q.is_ground:
            out.append(self.canon(q))
        self._fac[p] = out
        return out

    def mk(self, n, d):
        if d.is_ground:
            if d == 1:
                return H(n, d)
            return H(n * (self.R.domain(1) / d.LC), self.one)
        if n == 0:
            return H(n, self.one)
        for f in self.factors(d):
            while not d.is_ground:
                a, r = d.div(f)
                if r != 0:
                    break
                b, r = n.div(f)
                if r != 0:
                    break
                n, d = b, a
        if d.is_ground:
            return H(n * (self.R.domain(1) / d.LC), self.one)
        return H(n, d)

    def call(self, st, n, args, inst):
        r = std_call(self, st, n, args)
        if r is not NotImplemented:
            return r
        return Alg.call(self, st, n, args, inst)


def std_call(A, st, n, args):
    """library calls without effect on the analysed values"""
    if 'absl' in n and 'Mutex' in n:
        return 0
    if n in ('__cxa_guard_release', '__cxa_atexit', 'atexit'):
        return 0
    if n == '__cxa_guard_acquire':
        g = 'GUARD ' + repr(args[0])
        if g in st.mem:
            return 0
        st.wobj(g)
        A.interp.ensure(st, args[0].obj)
        st.wobj(args[0].obj)[args[0].off] = (1, 1)
        return 1
    if n.startswith('__gmpz_'):
        return gmp(A, st, n[7:], args)
    if n in ('log2', 'log') and isinstance(args[0], (int, float)) and args[0] > 0:
        return math.log2(args[0]) if n == 'log2' else math.log(args[0])
    if n == 'exp2' and isinstance(args[0], (int, float)):
        return 2.0 ** args[0]
    if n in ('ldexp', 'scalbn') and isinstance(args[0], (int, float)) and isinstance(args[1], int):
        return float(args[0]) * 2.0 ** args[1]
    if n in ('pow', '_ZSt3powmm') and all(isinstance(x, (int, float)) for x in args):
        return float(args[0]) ** float(args[1])
    if n in ('bcmp', 'memcmp') and isinstance(args[2], int):
        for i in range(args[2]):
            x, y = (A.interp.load(st, Ptr(p.obj, p.off + i), Ty('int', 8)) if isinstance(p, Ptr) else None for p in args[:2])
            if not isinstance(x, int) or not isinstance(y, int):
                raise Undecided('comparison of symbolic memory')
            if x != y:
                return 1 if x > y else 0xffffffff
        return 0
    if n == 'strlen' and isinstance(args[0], Ptr):
        for i in range(1 << 16):
            x = A.interp.load(st, Ptr(args[0].obj, args[0].off + i), Ty('int', 8))
            if not isinstance(x, int):
                raise Undecided('length of a symbolic string')
            if x == 0:
                return i
    if n in ('wmemcpy', 'wmemmove') and isinstance(args[2], int):
        if args[2]:
            A.interp.memcpy(st, args[0], args[1], 4 * args[2])
        return args[0]
    if n == 'wmemset' and isinstance(args[2], int):
        for i in range(args[2]):
            A.interp.store(st, Ptr(args[0].obj, args[0].off + 4 * i), Ty('int', 32), args[1])
        return args[0]
    if n == '_ZNSt8__detail15_List_node_base7_M_hookEPS0_':
        x, pos = args
        q = A.interp.load(st, Ptr(pos.obj, pos.off + 8), Ty('ptr'))
        for o, v in ((Ptr(x.obj, x.off), pos), (Ptr(x.obj, x.off + 8), q), (Ptr(q.obj, q.off), x), (Ptr(pos.obj, pos.off + 8), x)):
            A.interp.store(st, o, Ty('ptr'), v)
        return None
    if n == 'malloc':
        return A.interp.alloc(st, args[0] if isinstance(args[0], int) else None)
    if n == 'free':
        return None
    if n in ('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
        return A.interp.alloc(st, args[0] if isinstance(args[0], int) else None)
    if n.startswith('_ZNKSt') or n.startswith('_ZSt'):
        if n.startswith(('_ZSt20__throw', '_ZSt17__throw', '_ZSt24__throw', '_ZSt19__throw', '_ZSt28__throw', '_ZSt25__throw')):
            raise PathAbort('throws')
    return NotImplemented


class MPZ:
    """concrete GMP integer, kept in the limb pointer of its struct"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def gmp(A, st, n, a):
    it = A.interp

    def get(p):
        it.ensure(st, p.obj)
        e = st.mem[p.obj].get(p.off + 8)
        if e is None or not isinstance(e[0], MPZ):
            raise Undecided('unknown big number')
        # inlined negation and absolute value only touch the size
        z = st.mem[p.obj].get(p.off + 4)
        if z is None or not isinstance(z[0], int):
            raise Undecided('unknown sign of a big number')
        return -abs(e[0].v) if z[0] >> 31 else abs(e[0].v)

    def put(p, v):
        it.ensure(st, p.obj)
        o = st.wobj(p.obj)
        for k in [k for k in o if p.off <= k < p.off + 16]:
            del o[k]
        o[p.off] = (1, 4)
        n = -(-abs(v).bit_length() // 64)
        o[p.off + 4] = ((n if v >= 0 else -n) & 0xffffffff, 4)
        o[p.off + 8] = (MPZ(v), 8)

    def s64(x):
        return x - (1 << 64) if x >> 63 else x
    if any(not isinstance(x, (int, Ptr)) for x in a):
        raise Undecided('gmp call with unknown arguments')
    if n == 'init':
        put(a[0], 0)
    elif n in ('set_ui', 'init_set_ui'):
        put(a[0], a[1])
    elif n in ('set_si', 'init_set_si'):
        put(a[0], s64(a[1]))
    elif n in ('set', 'init_set'):
        put(a[0], get(a[1]))
    elif n == 'clear':
        pass
    elif n == 'swap':
        x, y = get(a[0]), get(a[1])
        put(a[0], y)
        put(a[1], x)
    elif n in ('cmp_ui', 'cmp_si', 'cmp'):
        x = get(a[0])
        y = get(a[1]) if n == 'cmp' else a[1] if n == 'cmp_ui' else s64(a[1])
        return ((x > y) - (x < y)) & 0xffffffff
    elif n in ('tdiv_q_ui', 'fdiv_q_ui', 'tdiv_r_ui', 'fdiv_r_ui', 'tdiv_ui', 'fdiv_ui', 'divexact_ui'):
        x = get(a[-2])
        if x < 0 or a[-1] == 0:
            raise Undecided('gmp division')
        q, r = divmod(x, a[-1])
        if n in ('tdiv_ui', 'fdiv_ui'):
            return r
        put(a[0], r if '_r_' in n else q)
        return r
    elif n in ('tdiv_q', 'tdiv_r', 'fdiv_q', 'fdiv_r'):
        x, y = get(a[1]), get(a[2])
        if y == 0:
            raise PathAbort('divides by zero')
        q = x // y
        if n[0] == 't' and q < 0 and q * y != x:
            q += 1
        put(a[0], x - q * y if n.endswith('r') else q)
    elif n in ('neg', 'abs'):
        put(a[0], -get(a[1]) if n == 'neg' else abs(get(a[1])))
    elif n in ('realloc2', 'init2'):
        put(a[0], 0 if n == 'init2' else get(a[0]))
    elif n == 'tstbit':
        return get(a[0]) >> a[1] & 1
    elif n == 'size':
        return -(-abs(get(a[0])).bit_length() // 64)
    elif n == 'sizeinbase' and a[1] == 2:
        return max(1, abs(get(a[0])).bit_length())
    elif n == 'limbs_write':
        o = it.alloc(st, 8 * a[1])
        it.ensure(st, a[0].obj)
        st.wobj(a[0].obj)[a[0].off + 8] = (o, 8)
        return o
    elif n == 'limbs_finish':
        o = st.mem[a[0].obj][a[0].off + 8][0]
        m = a[1] - (1 << 64) if a[1] >> 63 else a[1]
        v = 0
        for i in range(abs(m)):
            x = it.load(st, Ptr(o.obj, o.off + 8 * i), Ty('int', 64))
            if not isinstance(x, int):
                raise Undecided('symbolic limb')
            v |= x << 64 * i
        put(a[0], v if m >= 0 else -v)
    elif n in ('add', 'sub', 'mul'):
        x, y = get(a[1]), get(a[2])
        put(a[0], x + y if n == 'add' else x - y if n == 'sub' else x * y)
    elif n in ('add_ui', 'sub_ui', 'mul_ui'):
        x, y = get(a[1]), a[2]
        put(a[0], x + y if n == 'add_ui' else x - y if n == 'sub_ui' else x * y)
    elif n == 'get_ui':
        return abs(get(a[0])) & ((1 << 64) - 1)
    else:
        raise Undecided('gmp function ' + n)
    return None


def run(mod, A, fn, ins, extra, facts=None, steps=3000000, paths=4000):
    """-> (list of (facts, out accessor or PathAbort), visited functions)"""
    it = Interp(mod, A, max_paths=paths, max_steps=steps)
    f = facts if facts is not None else Facts(A)

    def prep(st):
        i = st.wobj('IN')
        for k, v in enumerate(ins):
            i[8 * k] = (v, 8)
        st.wobj('OUT')
    res = []
    for st, r in it.run(fn if fn.startswith('@') else '@' + fn, [Ptr('IN'), Ptr('OUT'), *extra], f, prep):
        if isinstance(r, PathAbort):
            res.append((st.facts, r))
        else:
            res.append((st.facts, Out(st.mem['OUT'])))
    return res, it.visited_funcs


class Out:
    def __init__(self, mem):
        self.mem = mem

    def __getitem__(self, k):
        e = self.mem.get(8 * k)
        return e[0] if e is not None else UNDEF

    def int(self, k):
        v = self[k]
        if not isinstance(v, int):
            raise Undecided('size or flag is %r' % (v,))
        return v

    def vec(self, at=0):
        n = self.int(at)
        if n > 4096:
            raise Undecided('implausible size %d' % n)
        return [self[at + 1 + i] for i in range(n)]


def same(A, f, a, b):
    """equal under the facts"""
    a, b = A.h(a), A.h(b)
    return A.norm(f, a.n * b.d - b.n * a.d) == 0


class _St:
    def __init__(self, f):
        self.facts = f


def cases(A, f, b):
    """[(facts, bool)] for a flag that may depend on undecided conditions"""
    if isinstance(b, int):
        return [(f, bool(b))]
    if not hasattr(b, 'f'):
        raise Undecided('flag is %r' % (b,))
    r = A.decide(f, b.f)
    if r is not None:
        return [(f, r)]
    out = []
    for q, _ in A.split(_St(f), b.f):
        out += cases(A, q, b)
    return out
