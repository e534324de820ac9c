"""Integer-limb domain: machine words as polynomials over the input limbs with
explicit quotient symbols for every truncation (lo = e - 2^n q), interval
bounds obtained by eliminating quotients newest first, and linear path facts.
No solver: every decision is a normalisation plus an interval evaluation."""
from fractions import Fraction
from absint import Domain, Bool, TOP, UNDEF, NeedDecide, Undecided


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


SC = 1 << (64 * 26)


class P:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def key(self):
        if self.h is None:
            self.h = frozenset(self.t.items())
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        return 'P(%s)' % ' + '.join('%s*%s' % (c, m) for m, c in sorted(self.t.items())[:6])


def mk(x):
    if isinstance(x, P):
        return x
    return P({(): x} if x else {})


def add(a, b, cb=1):
    a, b = mk(a), mk(b)
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c * cb
        if v:
            t[m] = norm(v)
        else:
            t.pop(m, None)
    return P(t)


def scale(a, c):
    if not c:
        return P({})
    return P({m: norm(x * c) for m, x in mk(a).t.items()})


def mul(a, b):
    a, b = mk(a), mk(b)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            v = t.get(k, 0) + c * d
            if v:
                t[k] = norm(v)
            else:
                t.pop(k, None)
    return P(t)


def simp(p):
    """plain int when constant"""
    c = p.const()
    return c if c is not None and isinstance(c, int) else p


class Sym:
    __slots__ = ('i', 'name', 'lo', 'hi', 'kind', 'e', 'd', 'exact', 'cong')

    def __init__(self, i, name, lo, hi, kind, e=None, d=None, exact=False):
        self.i, self.name, self.lo, self.hi, self.kind, self.e, self.d, self.exact = i, name, lo, hi, kind, e, d, exact


class Facts:
    def __init__(self):
        self.fs = []      # P >= 0
        self.b = {}       # sym -> (lo, hi)
        self.eq = {}      # (frozen keys) comparisons already taken
        self.raw = []
        self.memo = {}
        self.mcache = {}
        self.idx = None

    def copy(self):
        f = Facts()
        f.fs = list(self.fs)
        f.b = dict(self.b)
        f.eq = dict(self.eq)
        f.raw = list(self.raw)
        return f


class LimbDom(Domain):
    def __init__(self):
        self.syms = []
        self.cache = {}
        self.aggs = []     # (limb syms low->high, agg sym, radix)
        self.topagg = {}
        self.rmemo = {}
        self.uf = {}
        self.mcache = {}
        self.bitdefs = {}
        self.bitmode = False

    # ------------------------------------------------------------ symbols
    def sym(self, name, lo, hi, kind='in', e=None, d=None, exact=False):
        s = Sym(len(self.syms), name, lo, hi, kind, e, d, exact)
        self.syms.append(s)
        return s

    def v(self, s):
        return P({(s.i,): 1})

    def big(self, name, n, hi, bits=64):
        """n limb symbols whose weighted sum is at most hi"""
        ls = [self.sym('%s%d' % (name, i), 0, (1 << bits) - 1) for i in range(n)]
        top = hi >> (bits * (n - 1))
        ls[-1].hi = min(ls[-1].hi, top)
        ag = self.sym(name, 0, hi, 'agg')
        e = self.v(ag)
        for i in range(n - 1):
            e = add(e, self.v(ls[i]), -(1 << (bits * i)))
        if n > 1:
            self.topagg[ls[-1].i] = scale(e, Fraction(1, 1 << (bits * (n - 1))))
        return [self.v(s) for s in ls]

    def total(self, ls, bits=64):
        e = P({})
        for i, l in enumerate(ls):
            e = add(e, l, 1 << (bits * i))
        return e

    # ------------------------------------------------------------ intervals
    def sb(self, i, facts):
        s = self.syms[i]
        if facts is not None and i in facts.b:
            l, h = facts.b[i]
            return max(l, s.lo), min(h, s.hi)
        return s.lo, s.hi

    def mono(self, m, facts):
        c = self.mcache if facts is None else facts.mcache
        r = c.get(m)
        if r is None:
            lo = hi = None
            for i in m:
                l, h = self.sb(i, facts)
                if lo is None:
                    lo, hi = l, h
                elif lo >= 0 and l >= 0:
                    lo, hi = lo * l, hi * h
                else:
                    q = (lo * l, lo * h, hi * l, hi * h)
                    lo, hi = min(q), max(q)
            r = c[m] = (lo, hi) if m else (1, 1)
        return r

    def naive(self, p, facts, up):
        tot = 0
        mono = self.mono
        for m, c in p.t.items():
            lo, hi = mono(m, facts)
            tot += c * (hi if (c > 0) == up else lo)
        return tot

    def newest(self, p, below=None):
        best = -1
        for m in p.t:
            for i in m:
                if i > best and (below is None or i < below) and self.syms[i].kind in ('def', 'quot'):
                    best = i
        return best

    def subst(self, p, i, q):
        """replace symbol i by polynomial q (all occurrences)"""
        out = {}
        acc = None
        for m, c in p.t.items():
            if i in m:
                k = m.count(i)
                rest = P({tuple(x for x in m if x != i): c})
                for _ in range(k):
                    rest = mul(rest, q)
                acc = rest if acc is None else add(acc, rest)
            else:
                out[m] = c
        return add(P(out), acc) if acc is not None else p

    def elim(self, p, i, up, facts=None):
        """bound-preserving elimination of the newest symbol; None when it occurs non linearly"""
        s = self.syms[i]
        if facts is not None and i in facts.b:
            l, h = self.sb(i, facts)
            if l == h:
                return self.subst(p, i, mk(l))
        if s.kind == 'def':
            return self.subst(p, i, s.e)
        c = 0
        for m, x in p.t.items():
            if i in m:
                if len(m) != 1:
                    return None
                c = x
        r = P({m: x for m, x in p.t.items() if m != (i,)})
        if isinstance(c, int) and c % s.d == 0:
            x = c // s.d
        else:
            x = norm(Fraction(c) / s.d)
        r = add(r, s.e, x)
        if s.exact:
            return r
        if (c > 0) != up:
            # q >= (e - (d-1))/d ; q <= e/d
            r = add(r, mk(norm(-x * (s.d - 1))))
        return r

    def agg(self, p):
        for i, e in self.topagg.items():
            if any(i in m for m in p.t):
                p = self.subst(p, i, e)
        return p

    def greedy(self, p, facts, up):
        best = self.naive(p, facts, up)
        if facts is None or not facts.fs:
            return best
        if facts.idx is None:
            facts.idx = {}
            facts.sfs = [scale(f, SC) for f in facts.fs]
            for k, f in enumerate(facts.fs):
                for m in f.t:
                    if m:
                        facts.idx.setdefault(m, []).append(k)
        used = set()
        sgn = 1 if up else -1
        for _ in range(2 * len(facts.fs)):
            cand = []
            for m, c in p.t.items():
                if m in facts.idx and any(k not in used for k in facts.idx[m]):
                    lo, hi = self.mono(m, facts)
                    cand.append((-(c * (hi if (c > 0) == up else lo) * sgn), m, c))
            if not cand:
                break
            cand.sort(key=lambda x: x[0])
            done = False
            for w, m, c in cand:
                for k in facts.idx[m]:
                    if k in used:
                        continue
                    f = facts.sfs[k]
                    # p <= p + x f (x >= 0) when up ; p >= p - x f when down
                    fm = f.t[m]
                    if (c > 0) == (fm > 0) and up or (c > 0) != (fm > 0) and not up:
                        continue
                    if isinstance(c, int) and isinstance(fm, int) and c % fm == 0:
                        x = -(c // fm)
                    else:
                        x = norm(-Fraction(c) / fm)
                    p = add(p, f, x)
                    used.add(k)
                    nb = self.naive(p, facts, up)
                    best = min(best, nb) if up else max(best, nb)
                    done = True
                    break
                if done:
                    break
            if not done:
                break
        return best

    def bound(self, p, facts, up, need=None):
        """integer bound of p; stops early once the bound is at least as tight as need"""
        def fin(b):
            # bounds are carried scaled by SC; the quantity itself is an integer
            if isinstance(b, Fraction):
                b = b.numerator // b.denominator if up else -((-b.numerator) // b.denominator)
            return b // SC if up else -(-b // SC)

        def good(b):
            return need is not None and (b <= need if up else b >= need)
        if not p.t:
            return 0
        mk_ = (p.key(), up, need) if facts is None else None
        memo = self.rmemo if facts is None else facts.memo
        mk_ = (p.key(), up, need)
        if mk_ in memo:
            return memo[mk_]
        p = scale(p, SC)
        best = fin(self.naive(p, facts, up))
        if not good(best):
            b = fin(self.greedy(p, facts, up))
            best = min(b, best) if up else max(b, best)
            q = p
            last = None
            while not good(best):
                i = self.newest(q, last)
                if i < 0:
                    break
                q2 = self.elim(q, i, up, facts)
                if q2 is None:
                    last = i
                    continue
                q = q2
                b = fin(self.greedy(q, facts, up))
                best = min(b, best) if up else max(b, best)
            if not good(best):
                b = fin(self.greedy(self.agg(q), facts, up))
                best = min(b, best) if up else max(b, best)
        memo[mk_] = best
        return best

    def rng(self, p, facts, lo_need=None, hi_need=None):
        p = mk(p)
        return self.bound(p, facts, False, lo_need), self.bound(p, facts, True, hi_need)

    # ------------------------------------------------------------ congruence
    def cong0(self, e, d):
        """e == 0 (mod d) for every value, by substituting the definitions of wrapped products"""
        if d & (d - 1):
            return all(isinstance(c, int) and c % d == 0 for c in e.t.values())
        for _ in range(200):
            e = P({m: c % d for m, c in e.t.items() if c % d}) if all(isinstance(c, int) for c in e.t.values()) else None
            if e is None:
                return False
            if not e.t:
                return True
            best = -1
            for m in e.t:
                for i in m:
                    s = self.syms[i]
                    if i > best and (s.kind == 'wrap' and s.d % d == 0 or s.kind == 'def'):
                        best = i
            if best < 0:
                return False
            e = self.subst(e, best, self.syms[best].e)
        return False

    # ------------------------------------------------------------ division
    def quot(self, e, d, facts=None):
        """(floor(e/d), e mod d) as polynomials"""
        e = mk(e)
        if d == 1:
            return e, mk(0)
        if not all(isinstance(c, int) for c in e.t.values()):
            raise Undecided('fractional word')
        hi, lo = {}, {}
        for m, c in e.t.items():
            if m == ():
                q, r = divmod(c, d)
                if q:
                    hi[m] = q
                if r:
                    lo[m] = r
            elif c % d == 0:
                hi[m] = c // d
            else:
                lo[m] = c
        H, L = P(hi), P(lo)
        c = L.const()
        if c is not None:
            return H, L
        l, h = self.rng(L, facts, 0, d - 1)
        if l // d == h // d:
            k = l // d
            return add(H, k), add(L, -k * d)
        # negative coefficients could be shifted by multiples of d: normalise common sub-expressions
        z = self.low0(L)
        if z and d % (1 << z) == 0:
            q, r = self.quot(P({m: c >> z for m, c in L.t.items()}), d >> z, facts)
            return add(H, q), scale(r, 1 << z)
        if self.bitmode and d & (d - 1) == 0:
            # low words of a wider truncation: expand, the high part is a multiple of d
            for m, c in L.t.items():
                if len(m) == 1 and self.syms[m[0]].kind == 'def' and self.syms[m[0]].d * c % d == 0 and self.syms[m[0]].d * abs(c) > d \
                        and len(self.syms[m[0]].e.t) <= 3:
                    q, r = self.quot(self.subst(L, m[0], self.syms[m[0]].e), d, facts)
                    return add(H, q), r
            # x + 2^z y with 0 <= x < 2^z
            for z in sorted({(abs(c) & -abs(c)).bit_length() - 1 for c in L.t.values()}):
                if z == 0 or (1 << z) >= d:
                    continue
                x = P({m: c for m, c in L.t.items() if c % (1 << z)})
                l, h = self.rng(x, facts, 0, (1 << z) - 1)
                if 0 <= l and h < 1 << z:
                    q, r = self.quot(P({m: c >> z for m, c in L.t.items() if m not in x.t}), d >> z, facts)
                    return add(H, q), add(scale(r, 1 << z), x)
        k = (L.key(), d)
        if k in self.cache:
            q, lo_ = self.cache[k]
            return add(H, q), lo_
        if self.bitmode:
            X = L
            while True:
                i = max([i for m in X.t for i in m if self.syms[i].kind == 'def'], default=-1)
                if i < 0:
                    break
                X = self.subst(X, i, self.syms[i].e)
            if all(c % d == 0 for c in X.t.values()):
                return add(H, P({m: c // d for m, c in X.t.items()})), mk(0)
        if self.cong0(L, d):
            gl, gh = self.rng(L, None)
            s = self.sym('q', -((-gl) // d), gh // d, 'quot', L, d, True)
            r = (self.v(s), mk(0))
            self.cache[k] = r
            return add(H, r[0]), r[1]
        # floor(floor(b/x)/d) = floor(b/(x d))
        if len(L.t) == 1:
            (m, c), = L.t.items()
            if c == 1 and len(m) == 1:
                s = self.syms[m[0]]
                if s.kind == 'quot' and not s.exact:
                    q, _ = self.quot(s.e, s.d * d, None)
                    w = self.sym('lo', 0, d - 1, 'def', add(L, q, -d), d)
                    self.uf[w.i] = (L, d, q)
                    r = (q, self.v(w))
                    self.cache[k] = r
                    return add(H, q), r[1]
                if s.kind == 'def' and self.is_lo(s) is not None:
                    # lo of e mod D, then floor(lo/d) = floor(e/d) - (D/d) floor(e/D) when d | D
                    be, D, bq = self.is_lo(s)
                    if D % d == 0:
                        q0, l0 = self.quot(be, d, None)
                        q = add(q0, bq, -(D // d))
                        r = (q, l0)
                        self.cache[k] = r
                        return add(H, q), r[1]
        gl, gh = self.rng(L, None)
        s = self.sym('q', gl // d, gh // d, 'quot', L, d)
        e2 = add(L, self.v(s), -d)
        w = self.sym('lo', 0, d - 1, 'def', e2, d)
        self.uf[w.i] = (L, d, self.v(s))
        r = (self.v(s), self.v(w))
        self.cache[k] = r
        return add(H, r[0]), r[1]

    def is_lo(self, s):
        return self.uf.get(s.i)

    def wrap(self, e, bits, facts):
        e = mk(e)
        c = e.const()
        if c is not None:
            return c % (1 << bits)
        return simp(self.quot(e, 1 << bits, facts)[1])

    def sbit(self, a, bits, facts):
        return self.quot(a, 1 << (bits - 1), facts)[0]

    def signed(self, a, bits, facts):
        return add(mk(a), self.sbit(a, bits, facts), -(1 << bits))

    def fresh(self, key, lo, hi, name='u'):
        if key not in self.cache:
            self.cache[key] = self.v(self.sym(name, lo, hi, 'in'))
        return self.cache[key]

    # ------------------------------------------------------------ operations
    def binop(self, st, op, bits, a, b, inst=None):
        if not isinstance(a, (int, P, Bool)) or not isinstance(b, (int, P, Bool)):
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if bits == 1 and op == 'or' and (a == 1 or b == 1):
                return 1
            if op == 'mul' and (isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0):
                return 0
            return UNDEF if (a is UNDEF or b is UNDEF) else TOP
        if isinstance(a, Bool):
            if isinstance(b, int) and op in ('and', 'or', 'xor') and bits == 1:
                return self.interp.bool_bin(op, a, b)
            a = self.interp.force(st, a)
        if isinstance(b, Bool):
            b = self.interp.force(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.interp.binop(st, op, bits, a, b, inst)
        f = st.facts
        M = 1 << bits
        if op == 'add':
            if bits == 1:
                op = 'xor'
            else:
                return self.wrap(add(a, b), bits, f)
        if op == 'sub':
            if bits == 1:
                op = 'xor'
            else:
                return self.wrap(add(a, b, -1), bits, f)
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b > M // 2:
                # multiplication by a negative constant
                e = scale(a, b - M)
                lo, hi = self.rng(e, f)
                if (hi - lo) >> (bits + 40) == 0:
                    return self.wrap(e, bits, f)
            e = mul(a, b)
            lo, hi = self.rng(e, f, 0, M - 1)
            if 0 <= lo and hi < M:
                return simp(e)
            if hi >> (bits + 40) == 0 and lo >= 0 or isinstance(b, int) and b & (b - 1) == 0:
                return self.wrap(e, bits, f)
            k = ('wrap', e.key(), bits)
            if k not in self.cache:
                s = self.sym('k', 0, M - 1, 'wrap', e, M)
                self.cache[k] = self.v(s)
            return self.cache[k]
        if op == 'shl' and isinstance(b, int):
            if b >= bits:
                return UNDEF
            return self.wrap(scale(a, 1 << b), bits, f)
        if op == 'lshr' and isinstance(b, int):
            if b >= bits:
                return UNDEF
            return simp(self.quot(a, 1 << b, f)[0])
        if op == 'ashr' and isinstance(b, int):
            s = self.sbit(a, bits, f)
            return simp(add(self.quot(a, 1 << b, f)[0], s, M - (1 << (bits - b))))
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, P):
            b = self.concretize(st, b)
            return self.interp.binop(st, op, bits, a, b, inst)
        if op in ('udiv', 'urem') and isinstance(b, int) and b:
            q, r = self.quot(a, b, f)
            return simp(q if op == 'udiv' else r)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, bits, a, b, inst)
        return TOP

    def concretize(self, st, b):
        lo, hi = self.rng(b, st.facts)
        if lo == hi:
            return lo
        if hi - lo > 200:
            raise Undecided('value used as a shift amount is not bounded')
        mid = (lo + hi) // 2
        raise NeedDecide(('atom', ('ge0', add(b, -(mid + 1)))))

    def isbit(self, p, f):
        if isinstance(p, int):
            return p in (0, 1)
        lo, hi = self.rng(p, f, 0, 1)
        return lo >= 0 and hi <= 1

    def low0(self, p):
        """largest power of two dividing p"""
        p = mk(p)
        k = 200
        for c in p.t.values():
            if not isinstance(c, int):
                return 0
            z = 0
            c = abs(c)
            while c % 2 == 0 and z < 200:
                c //= 2
                z += 1
            k = min(k, z)
        return k

    def bitop(self, st, op, bits, a, b, inst):
        f = st.facts
        M = 1 << bits
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0 if op == 'and' else a
            if b == M - 1:
                return {'and': a, 'or': b}.get(op) if op != 'xor' else simp(add(M - 1, a, -1))
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if m and isinstance(c, int) and c > 1 and self.isbit(P({m: 1}), f) and op == 'and':
                    return simp(P({m: c & b})) if c & b else 0
            if op == 'and':
                out = mk(0)
                i = 0
                while i < bits:
                    if b >> i & 1:
                        j = i
                        while j < bits and b >> j & 1:
                            j += 1
                        hi = self.quot(a, 1 << j, f)[1] if j < bits else mk(a)
                        lo = self.quot(a, 1 << i, f)[1]
                        out = add(out, add(hi, lo, -1))
                        i = j
                    else:
                        i += 1
                return simp(out)
            if op == 'or':
                x = self.bitop(st, 'and', bits, a, M - 1 - b, inst)
                return simp(add(x, b))
            # xor with a constant: a + b - 2 (a and b)
            x = self.bitop(st, 'and', bits, a, b, inst)
            return simp(add(add(a, b), mk(x), -2))
        if a == b:
            return 0 if op == 'xor' else a
        if op in ('or', 'xor', 'and'):
            dis = op == 'or' and inst is not None and ' disjoint ' in getattr(inst, 'line', '')
            if not dis:
                for x, y in ((a, b), (b, a)):
                    z = self.low0(x)
                    if z and self.bound(y, f, True, (1 << z) - 1) < (1 << z):
                        dis = True
                        break
            if dis:
                return simp(add(a, b)) if op != 'and' else 0
        if self.isbit(a, f) and self.isbit(b, f):
            if self.bound(add(a, b), f, True, 1) <= 1:
                return simp(add(a, b)) if op != 'and' else 0
            ab = mul(a, b)
            ab = P({tuple(sorted(set(m))): c for m, c in ab.t.items()}) if len(ab.t) == 1 else ab
            return simp({'and': ab, 'or': add(add(a, b), ab, -1), 'xor': add(add(a, b), ab, -2)}[op])
        k1, k2 = sorted([a, b], key=lambda p: sorted(p.t.items()))
        x = self.fresh(('and', k1.key(), k2.key()), 0, min(M - 1, self.bound(a, None, True), self.bound(b, None, True)), 'and')
        (xm, _), = x.t.items()
        self.bitdefs[xm[0]] = (a, b)
        return simp({'and': x, 'or': add(add(a, b), x, -1), 'xor': add(add(a, b), x, -2)}[op])

    def icmp(self, st, pred, t, a, b):
        if not isinstance(a, (int, P)) or not isinstance(b, (int, P)):
            return TOP
        f = st.facts
        if pred[0] == 's':
            a, b = self.signed(a, t.bits, f), self.signed(b, t.bits, f)
            pred = 'u' + pred[1:]
        a, b = mk(a), mk(b)
        if pred in ('eq', 'ne'):
            d = add(a, b, -1)
            r = self.cmp_bit(d, f, eq=True)
            if r is not None:
                return r if pred == 'eq' else self.not_(r)
            x = Bool(('atom', ('eq0', d)))
            return x if pred == 'eq' else Bool(('not', x.f))
        # p >= 0 form
        d = {'ult': add(add(b, a, -1), -1), 'ule': add(b, a, -1), 'ugt': add(add(a, b, -1), -1), 'uge': add(a, b, -1)}[pred]
        r = self.cmp_bit(d, f)
        if r is not None:
            return r
        return Bool(('atom', ('ge0', d)))

    def not_(self, r):
        if isinstance(r, int):
            return 1 - r
        return simp(add(1, r, -1))

    def cmp_bit(self, d, f, eq=False):
        """constant or a carry bit when d >= 0 (d == 0) is determined"""
        d = self.known(d, f)
        r = self.dec(d, f, eq)
        if r is not None:
            return int(r)
        if eq and d.t:
            cs = [c for c in d.t.values()]
            if all(isinstance(c, int) for c in cs):
                from math import gcd
                from functools import reduce
                g = reduce(gcd, cs)
                u = P({m: c // g for m, c in d.t.items()})
                for u in (u, scale(u, -1)):
                    if self.bound(u, f, False, 0) >= 0 and self.bound(u, f, True, 1) <= 1:
                        return simp(add(1, u, -1))
        # one undetermined two-valued quotient decides the comparison
        cs = [i for m, c in d.t.items() if len(m) == 1 for i in m
              if self.syms[i].kind == 'quot' and abs(self.syms[i].hi - self.syms[i].lo) == 1]
        for i in sorted(cs, reverse=True)[:2]:
            s = self.syms[i]
            l = self.dec(self.subst(d, i, mk(s.lo)), f, eq)
            if l is None:
                continue
            h = self.dec(self.subst(d, i, mk(s.hi)), f, eq)
            if h is None:
                continue
            if l == h:
                return int(l)
            q = add(self.v(s), -s.lo)
            return simp(q if h else add(1, q, -1))
        # comparison of a wrapped word with one of its operands: expand the newest low word once
        return None

    def dec(self, d, f, eq=False):
        if eq:
            if d.const() is not None:
                return d.const() == 0
            if self.bound(d, f, False, 1) > 0 or self.bound(d, f, True, -1) < 0:
                return False
            if self.bound(d, f, False, 0) == 0 == self.bound(d, f, True, 0):
                return True
            return None
        if self.bound(d, f, False, 0) >= 0:
            return True
        if self.bound(d, f, True, -1) < 0:
            return False
        return None

    # ------------------------------------------------------------ conditions
    def decide(self, facts, f):
        k = f[0]
        if k == 'not':
            r = self.decide(facts, f[1])
            return None if r is None else not r
        if k in ('and', 'or', 'xor'):
            a = self.decide(facts, f[1])
            if k == 'and' and a is False or k == 'or' and a is True:
                return a
            b = self.decide(facts, f[2])
            if k == 'and' and b is False or k == 'or' and b is True:
                return b
            if a is None or b is None:
                return None
            return {'and': a and b, 'or': a or b, 'xor': a != b}[k]
        op, p = f[1]
        key = (op, p.key())
        if key in facts.eq:
            return facts.eq[key]
        if op == 'bit':
            lo, hi = self.rng(p, facts, 1, 0)
            if lo >= 1:
                return True
            if hi <= 0:
                return False
            return None
        return self.dec(p, facts, op == 'eq0')

    def assume(self, facts, p, ef=None):
        """facts + (p >= 0); None when contradictory"""
        g = facts.copy()
        fs = [p]
        q = p
        last = None
        while True:
            i = self.newest(q, last)
            if i < 0:
                break
            q2 = self.elim(q, i, True, ef or g)
            if q2 is None:
                last = i
                continue
            q = q2
        a = self.agg(q)
        for x in (q, a):
            if x.const() is None and x.key() not in [y.key() for y in fs]:
                fs.append(x)
        for x in fs:
            syms = [m for m in x.t if m]
            if len(syms) == 1 and len(syms[0]) == 1:
                i = syms[0][0]
                c = x.t[syms[0]]
                k = x.t.get((), 0)
                l, h = self.sb(i, g)
                bnd = Fraction(-k) / c
                if c > 0:
                    l = max(l, -((-bnd.numerator) // bnd.denominator))
                else:
                    h = min(h, bnd.numerator // bnd.denominator)
                if l > h:
                    return None
                g.b[i] = (l, h)
                g.mcache = {}
        if self.bound(p, facts, True, -1) < 0:
            return None
        g.fs = fs + g.fs
        g.raw.append(p)
        return g

    def fix(self, facts, i, v):
        """facts with symbol i equal to v, every earlier condition restated; None when contradictory"""
        g = Facts()
        g.eq = dict(facts.eq)
        g.b = dict(facts.b)
        s = self.v(self.syms[i])
        for p in (add(s, -v), add(v, s, -1)):
            g = self.assume(g, p, facts)
            if g is None:
                return None
        for p in facts.raw:
            g = self.assume(g, p)
            if g is None:
                return None
        return g

    def known(self, p, facts, quots=False):
        """p with every symbol fixed by the facts replaced by its value"""
        for i in sorted({i for m in p.t for i in m}):
            if quots and self.syms[i].kind != 'quot':
                continue
            l, h = self.sb(i, facts)
            if l == h:
                p = self.subst(p, i, mk(l))
        return p

    def tighten(self, facts):
        """facts with the interval of every quotient recomputed, oldest first"""
        g = facts.copy()
        for s in self.syms:
            if s.kind != 'quot':
                continue
            lo, hi = self.rng(s.e, g)
            l, h = self.sb(s.i, g)
            lo, hi = max(lo // s.d, l), min(hi // s.d, h)
            if lo > hi:
                return None
            if (lo, hi) != (l, h):
                g.b[s.i] = (lo, hi)
                g.mcache, g.memo = {}, {}
        return g

    def split(self, st, f):
        while f[0] in ('not', 'and', 'or', 'xor'):
            if f[0] == 'not':
                f = f[1]
            else:
                f = f[1] if self.decide(st.facts, f[1]) is None else f[2]
        op, p = f[1]
        out = []
        if op in ('bit',):
            alts = [(add(p, -1), True), (scale(p, -1), False)]
        elif op == 'ge0':
            alts = [(p, True), (add(scale(p, -1), -1), False)]
        else:
            g = self.assume(st.facts, p)
            g = self.assume(g, scale(p, -1)) if g is not None else None
            if g is not None:
                g.eq[(op, p.key())] = True
                out.append((g, '%r = 0' % p))
            alts = [(add(p, -1), False), (add(scale(p, -1), -1), False)]
        for q, val in alts:
            g = self.assume(st.facts, q)
            if g is not None:
                g.eq[(op, p.key())] = val
                out.append((g, '%r >= 0' % q))
        if not out:
            from absint import PathAbort
            raise PathAbort('infeasible')
        return out

    def branch_unknown(self, st, c):
        if isinstance(c, P):
            r = self.decide(st.facts, ('atom', ('bit', c)))
            if r is None:
                raise NeedDecide(('atom', ('bit', c)))
            return int(r)
        raise Undecided("branch on unknown value %r" % (c,))

    def switch_unknown(self, st, v, inst):
        if isinstance(v, P):
            return self.concretize(st, v)
        raise Undecided('switch on unknown value')

    def select_unknown(self, st, c, a, b, ty):
        if isinstance(c, P):
            if isinstance(a, int) and isinstance(b, int):
                return simp(add(b, scale(c, a - b)))
            if isinstance(a, P) and isinstance(b, int) and b == 0 and ty is not None and ty.k == 'int' and ty.bits == 1:
                return self.binop(st, 'and', 1, c, a)
            if self.bitmode and isinstance(a, (int, P)) and isinstance(b, (int, P)):
                d = add(mk(a), mk(b), -1)
                if d.const() is not None:
                    return simp(add(mk(b), scale(c, d.const())))
            r = self.decide(st.facts, ('atom', ('bit', c)))
            if r is None:
                raise NeedDecide(('atom', ('bit', c)))
            return a if r else b
        raise Undecided('select on unknown value')

    def index(self, st, i):
        if isinstance(i, P):
            return self.concretize(st, i)
        return None

    def cast(self, st, op, t, v, t2):
        if not isinstance(v, P):
            return TOP
        if op == 'zext':
            return v
        if op == 'trunc':
            return self.wrap(v, t2.bits, st.facts)
        if op == 'sext':
            s = v if t.bits == 1 else self.sbit(v, t.bits, st.facts)
            return simp(add(v, s, (1 << t2.bits) - (1 << t.bits)))
        return TOP

    def partial_load(self, st, o, off, sz):
        out = mk(0)
        pos = off
        while pos < off + sz:
            hit = None
            for k, (v, s) in o.items():
                if k <= pos < k + s:
                    hit = (k, v, s)
                    break
            if hit is None or not isinstance(hit[1], (int, P)):
                return TOP
            k, v, s = hit
            n = min(k + s, off + sz) - pos
            x = self.quot(v, 1 << (8 * (pos - k)), st.facts)[0]
            if pos - k + n < s:
                x = self.quot(x, 1 << (8 * n), st.facts)[1]
            out = add(out, scale(x, 1 << (8 * (pos - off))))
            pos += n
        return simp(out)

    def intrinsic(self, st, n, bits, a, inst):
        base = n.split('.')[1]
        f = st.facts
        if not all(isinstance(x, (int, P)) for x in a):
            return TOP
        if base in ('uadd', 'usub', 'umul') and '.with.' in n:
            e = add(a[0], a[1]) if base == 'uadd' else add(a[0], a[1], -1) if base == 'usub' else mul(a[0], a[1])
            q, lo = self.quot(e, 1 << bits, f)
            if base == 'usub':
                q = scale(q, -1)
            if base == 'umul':
                return TOP
            return [simp(lo), simp(q)]
        if base in ('umin', 'umax', 'smin', 'smax'):
            x, y = a
            if base[0] == 's':
                x, y = self.signed(x, bits, f), self.signed(y, bits, f)
            d = add(mk(x), mk(y), -1)
            r = self.decide(f, ('atom', ('ge0', d)))
            if r is None:
                raise NeedDecide(('atom', ('ge0', d)))
            return a[0] if r == (base[1:] == 'max') else a[1]
        if base == 'usub' and '.sat' in n:
            d = add(mk(a[0]), mk(a[1]), -1)
            r = self.decide(f, ('atom', ('ge0', d)))
            if r is None:
                raise NeedDecide(('atom', ('ge0', d)))
            return simp(d) if r else 0
        if base in ('fshl', 'fshr') and isinstance(a[2], int):
            s = a[2] % bits
            if base == 'fshr':
                s = bits - s
            if s == bits:
                return a[1]
            if s == 0:
                return a[0]
            x = self.wrap(scale(mk(a[0]), 1 << s), bits, f)
            y = self.quot(mk(a[1]), 1 << (bits - s), f)[0]
            return simp(add(mk(x), y))
        if base == 'x86' and ('addcarry' in n or 'subborrow' in n):
            c, x, y = a[0], a[1], a[2]
            w = 64 if n.endswith('64') else 32
            c = 0 if c == 0 and isinstance(c, int) else c
            if 'addcarry' in n:
                q, lo = self.quot(add(add(x, y), c), 1 << w, f)
            else:
                q, lo = self.quot(add(add(x, y, -1), c, -1), 1 << w, f)
                q = scale(q, -1)
            return [simp(q), simp(lo)]
        return TOP

    # ------------------------------------------------------------ final forms
    def canon(self, E, M, facts, known=False):
        """the integer value of the words written out: stages of exact elimination, top-word
        carries (multiples of M) stripped; returns (T, lo, hi) with T congruent to E mod M and
        the tightest interval known for it"""
        groups = {}
        q = mk(E)
        last = None
        prev = None
        while True:
            if known:
                q = self.known(q, facts, True)
            strip = {m: c for m, c in q.t.items() if len(m) <= 1 and m and isinstance(c, int) and c % M == 0
                     and self.syms[m[0]].kind in ('quot', 'wrap')}
            T = P({m: c for m, c in q.t.items() if m not in strip})
            k = frozenset(strip.items())
            if k in groups and last != -1:
                groups[k] = (T,) + groups[k][1:]
            elif k in groups:
                lo, hi = self.rng(T, facts)
                g = groups[k]
                groups[k] = (T, max(lo, g[1]), min(hi, g[2]))
            else:
                groups[k] = (T,) + self.rng(T, facts)
            if last == -1:
                break
            while True:
                i = self.newest(q, last)
                if i < 0:
                    last = -1
                    break
                s = self.syms[i]
                if s.kind == 'def' or s.exact:
                    q = self.elim(q, i, True)
                    break
                last = i
            if last == -1:
                q2 = self.agg(q)
                if q2.key() == q.key():
                    break
                q = q2
        return groups
