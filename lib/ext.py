"""Extension field templates: ring axioms, inverses, Frobenius maps and tables,
sparse and cyclotomic multiplications, decided on normal forms."""
import re
import subprocess
from fractions import Fraction
from absint import Interp, Ptr, TOP, UNDEF, Bool, Undecided, PathAbort, NeedDecide
from alg import Alg, Facts, H, Contradiction, Uninit


class Lvl:
    """deg-n extension base[x]/(x^n - nr); base None = leaf"""

    def __init__(self, name, n, base, nr, leafdeg=1):
        self.name, self.n, self.base, self.nr, self.leafdeg = name, n, base, nr, leafdeg
        self.flat = n * (base.flat if base else 1)
        self.pdeg = n * (base.pdeg if base else leafdeg)

    # arithmetic over nested lists of H ; leaf level = H
    def b(self, A):
        return Leaf(A) if self.base is None else Nest(A, self.base)


class Leaf:
    def __init__(self, A):
        self.A = A
        self.add, self.sub, self.mul, self.neg = A.add, A.sub, A.mul, A.neg

    def const(self, c):
        return self.A.const(c)

    def flat(self, x):
        return [x]

    def unflat(self, l):
        return l[0]


class Nest:
    def __init__(self, A, L):
        self.A, self.L = A, L
        self.B = L.b(A)
        self.nrv = L.nr(A, self.B)

    def const(self, c):
        return [self.B.const(c)] + [self.B.const(0)] * (self.L.n - 1)

    def add(self, x, y):
        return [self.B.add(a, b) for a, b in zip(x, y)]

    def sub(self, x, y):
        return [self.B.sub(a, b) for a, b in zip(x, y)]

    def neg(self, x):
        return [self.B.neg(a) for a in x]

    def mul(self, x, y):
        B, n = self.B, self.L.n
        r = [B.const(0) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                p = B.mul(x[i], y[j])
                k = i + j
                if k >= n:
                    k -= n
                    p = B.mul(p, self.nrv)
                r[k] = B.add(r[k], p)
        return r

    def scale(self, x, b):
        return [self.B.mul(a, b) for a in x]

    def flat(self, x):
        return [h for a in x for h in self.B.flat(a)]

    def unflat(self, l):
        k = len(l) // self.L.n
        return [self.B.unflat(l[i * k:(i + 1) * k]) for i in range(self.L.n)]


def param(i):
    return lambda A, B: A.var('q%d' % i)


def minus_one(A, B):
    return B.const(-1)


def gen(A, B):
    return [B.B.const(0), B.B.const(1)] + [B.B.const(0)] * (B.L.n - 2)


T = {}
T['T2'] = Lvl('T2', 2, None, param(10))
T['T2m'] = Lvl('T2m', 2, None, minus_one)
T['T3'] = Lvl('T3', 3, None, param(11))
T['T4q'] = Lvl('T4q', 4, None, param(12))
T['T4t'] = Lvl('T4t', 2, None, param(13), 2)
T['T6c'] = Lvl('T6c', 3, None, param(14), 2)
T['T6q'] = Lvl('T6q', 2, T['T3'], gen)
T['T12'] = Lvl('T12', 2, T['T6c'], gen)
T['T6o'] = Lvl('T6o', 2, None, param(15), 3)
T['T12o'] = Lvl('T12o', 2, None, param(16), 6)
DESC = {'T2': 'Fp2', 'T2m': 'Fp2<non-residue -1>', 'T3': 'Fp3', 'T4q': 'Fp4 (quartic)', 'T4t': 'Fp4 over Fp2',
        'T6c': 'Fp6 over Fp2', 'T6q': 'Fp6 over Fp3', 'T12': 'Fp12 over Fp6', 'T6o': 'Fp6 over opaque Fp3',
        'T12o': 'Fp12 over opaque Fp6'}
QS = {'T2': [10], 'T2m': [], 'T3': [11], 'T4q': [12], 'T4t': [13], 'T6c': [14], 'T6q': [11], 'T12': [14], 'T6o': [15],
      'T12o': [16]}
HIDE = ('T6o', 'T12o')


class ExtAlg(Alg):
    """Alg + Frobenius on the degree-2 leaf field + exponent bookkeeping"""

    def __init__(self, gens, leafdeg=1, **kw):
        self.leafdeg = leafdeg
        allg = list(gens)
        if leafdeg > 1:
            for k in range(1, leafdeg):
                allg += ['%s_f%d' % (g, k) for g in gens]
        super().__init__(allg, **kw)
        self.base_gens = list(gens)
        self.tables = {}
        self.mpz = {}
        self.pows = []
        self.strs = {}

    skip_pow = False   # Frobenius tables of lower levels are not needed

    def frob_poly(self, p, e):
        e %= self.leafdeg
        if e == 0 or not p:
            return p
        idx = {g: i for i, g in enumerate(self.order)}
        perm = list(range(len(self.order)))
        for g in self.base_gens:
            fam = [g] + ['%s_f%d' % (g, k) for k in range(1, self.leafdeg)]
            for k, x in enumerate(fam):
                perm[idx[x]] = idx[fam[(k + e) % self.leafdeg]]
        out = {}
        for m, c in p.items():
            mm = [0] * len(m)
            for i, v in enumerate(m):
                if v:
                    mm[perm[i]] = v
            out[tuple(mm)] = c
        return self.R.from_dict(out)

    def frobh(self, h, e):
        if self.leafdeg == 1:
            return h
        return self.mk(self.frob_poly(h.n, e), self.frob_poly(h.d, e))

    def global_init(self, name):
        for pat, d in self.tables.items():
            if name.strip('@"') == pat:
                return {8 * k: (v, 8) for k, v in d.items()}
        return None

    def opaque(self, st, inst):
        if 'CallOnceImpl' in st.frames[-1].fn.name:
            if inst.op == 'opaque:cmpxchg':
                return [0, 1]
            if inst.op == 'opaque:atomicrmw':
                return 0
        raise Undecided('unmodelled instruction %s' % inst.line.strip()[:80])

    def call(self, st, n, args, inst):
        if n == 'af_frob':
            if not isinstance(args[1], int):
                raise Undecided('symbolic frobenius exponent')
            return self.frobh(self.h(args[0]), args[1])
        if n == 'af_pow':
            return self.pow(st, args)
        if self.skip_pow and '5DoPowI' in n:
            return TOP
        r = Alg.call(self, st, n, args, inst)
        if r is not NotImplemented:
            return r
        r = self.gmp(st, n, args)
        return r

    # ---- exponents are polynomials in P with rational coefficients
    def pow(self, st, args):
        b = self.h(args[0])
        e = args[1]
        if isinstance(e, int):
            if e <= 64:
                return self.pw(b, e)
            raise Undecided('numeric exponent')
        if not isinstance(e, Exp):
            raise Undecided('unknown exponent')
        key = (repr(b), e.key())
        for i, k in enumerate(self.pows):
            if k == key:
                return self.var('w%d' % i)
        self.pows.append(key)
        return self.var('w%d' % (len(self.pows) - 1))

    def zget(self, p):
        v = self.mpz.get((p.obj, p.off))
        if v is None:
            raise Undecided('unset mpz')
        return v

    def zput(self, p, v):
        self.mpz[(p.obj, p.off)] = v

    def gmp(self, st, n, a):
        if 'gmp10WriteLimbs' in n:
            # the modulus of the base prime field
            if isinstance(a[0], Ptr) and 'kModulus' in a[0].obj:
                self.zput(a[2], Exp({1: Fraction(1)}))
                return None
            raise Undecided('WriteLimbs of unknown integer')
        if 'gmp9CopyLimbs' in n:
            st.wobj(a[1].obj)[a[1].off] = (self.zget(a[0]), 8)
            return None
        if n.startswith('__gmpz_'):
            k = n[7:]
            if k == 'init':
                self.zput(a[0], Exp({}))
                return None
            if k in ('clear', 'realloc2'):
                return None
            if k in ('init_set_ui', 'set_ui', 'init_set_si', 'set_si'):
                self.zput(a[0], Exp({0: Fraction(a[1])}))
                return None
            if k in ('init_set', 'set'):
                self.zput(a[0], self.zget(a[1]))
                return None
            if k in ('mul', 'add', 'sub', 'tdiv_q', 'fdiv_q', 'cdiv_q', 'divexact'):
                x, y = self.zget(a[1]), self.zget(a[2])
                self.zput(a[0], x.op(k, y))
                return None
            if k in ('mul_ui', 'add_ui', 'sub_ui', 'tdiv_q_ui', 'fdiv_q_ui', 'divexact_ui', 'mul_si'):
                x, y = self.zget(a[1]), Exp({0: Fraction(a[2])})
                self.zput(a[0], x.op(k[:-3], y))
                return None
            if k == 'pow_ui':
                x, r = self.zget(a[1]), Exp({0: Fraction(1)})
                for _ in range(a[2]):
                    r = r.op('mul', x)
                self.zput(a[0], r)
                return None
            if k in ('mul_2exp', 'tdiv_q_2exp', 'fdiv_q_2exp'):
                x, y = self.zget(a[1]), Exp({0: Fraction(2 ** a[2])})
                self.zput(a[0], x.op('mul' if k[0] == 'm' else 'tdiv_q', y))
                return None
            if k == 'swap':
                x, y = self.mpz.get((a[0].obj, a[0].off)), self.mpz.get((a[1].obj, a[1].off))
                self.mpz[(a[0].obj, a[0].off)], self.mpz[(a[1].obj, a[1].off)] = y, x
                return None
        return NotImplemented


class Exp:
    """element of Q[P] (the exact value of an integer expression in P)"""

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    def key(self):
        return tuple(sorted(self.d.items()))

    def op(self, k, y):
        if k == 'add' or k == 'sub':
            s = 1 if k == 'add' else -1
            r = dict(self.d)
            for i, v in y.d.items():
                r[i] = r.get(i, 0) + s * v
            return Exp(r)
        if k == 'mul':
            r = {}
            for i, v in self.d.items():
                for j, w in y.d.items():
                    r[i + j] = r.get(i + j, 0) + v * w
            return Exp(r)
        if 'div' in k:
            if set(y.d) - {0} or not y.d:
                # polynomial division that must be exact
                return self.pdiv(y)
            return Exp({i: v / y.d[0] for i, v in self.d.items()})
        raise Undecided('mpz op ' + k)

    def pdiv(self, y):
        r = dict(self.d)
        q = {}
        dy = max(y.d)
        while r and max(r) >= dy:
            t = max(r)
            c = r[t] / y.d[dy]
            q[t - dy] = c
            for j, w in y.d.items():
                r[j + t - dy] = r.get(j + t - dy, 0) - c * w
            r = {k: v for k, v in r.items() if v}
        if r:
            raise Undecided('inexact mpz division')
        return Exp(q)

    def __repr__(self):
        return ' + '.join('%s*P^%d' % (v, k) for k, v in sorted(self.d.items(), reverse=True)) or '0'


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(n.strip('@"') for n in names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


class ExtAnalysis:
    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.dem = demangle(list(mod.globals))

    def tabsym(self, lvl, which):
        """symbol of the kFrobeniusCoeffs<which> table of a level"""
        name = 'kFrobeniusCoeffs' + which
        q = {'T2': 'ECfg<verif::AFT<1>, 10,', 'T2m': 'ECfg<verif::AFT<1>, 10, 2, true', 'T3': 'ECfg<verif::AFT<1>, 11,',
             'T4q': 'ECfg<verif::AFT<1>, 12,', 'T4t': 'ECfg<verif::AFT<2>, 13,', 'T6c': 'ECfg<verif::AFT<2>, 14,',
             'T6q': 'XCfg<tachyon::math::Fp3', 'T12': 'XCfg<tachyon::math::Fp6'}[lvl]
        for s, d in self.dem.items():
            if d.startswith('verif::' + q) and d.endswith('::' + name):
                if lvl == 'T2' and ', true>' in d:
                    continue
                return s.strip('@"')
        return None

    def alg(self, t, extra=(), two=True, kw=None):
        L = T[t]
        leafdeg = L.base.leafdeg if L.base else L.leafdeg
        gens = ['q%d' % i for i in QS[t]] + list(extra)
        if two:
            gens += ['b%d' % i for i in range(L.flat)]
        gens += ['a%d' % i for i in range(L.flat)]
        A = ExtAlg(gens, leafdeg, **(kw or {}))
        for i in QS[t]:
            A.params[i] = A.var('q%d' % i)
        return A

    def facts(self, A, t):
        f = Facts(A)
        for i in QS[t]:
            A.assume_nonzero(f, A.var('q%d' % i))
        return f

    def paths(self, A, fn, ins, facts, nout):
        it = Interp(self.mod, A)

        def prep(st):
            i = st.wobj('IN')
            for k, v in ins.items():
                i[8 * k] = (v, 8)
            st.wobj('OUT')
            if self.quartic_init is not None:
                for k, v in self.quartic_init.items():
                    st.mem[k] = {0: (v(A), 8)}
                    st.own.add(k)
        for st, r in it.run('@' + fn, [Ptr('IN'), Ptr('OUT')], facts, prep):
            if isinstance(r, PathAbort):
                yield st, r, None
                continue
            o = st.mem['OUT']
            outs = []
            for k in range(nout):
                e = o.get(8 * k)
                outs.append(None if e is None else e[0])
            yield st, r, outs
        self.rep.functions |= {n for n in it.visited_funcs}

    quartic_init = None

    def load_quartic_init(self):
        """interpret QuarticExtensionField::Init and keep the constants it sets"""
        A = self.alg('T4q')
        it = Interp(self.mod, A)
        for st, r in it.run('@init_T4q', [], Facts(A)):
            if isinstance(r, PathAbort):
                self.rep.bad('QuarticExtensionField::Init', 'aborts')
                continue
            vals = {}
            for o, m in st.mem.items():
                if isinstance(o, str) and 'QuarticExtensionField' in o and 0 in m and isinstance(m[0][0], (H, int)) and '5kInv' in o or \
                        isinstance(o, str) and 'QuarticExtensionField' in o and re.search(r'\dk(Neg|Inv)', o) and 0 in m:
                    h = A.h(m[0][0])
                    if not (h.n.is_ground and h.d.is_ground):
                        raise Undecided('quartic constant %s' % o)
                    n, d = int(h.n.LC or 0) if h.n else 0, int(h.d.LC)
                    vals[o] = (lambda n, d: lambda A: A.mk(A.R.ground_new(A.R.domain(n)), A.R.ground_new(A.R.domain(d))))(n, d)
            self.quartic_init = vals
            self.rep.extra['quartic_constants'] = len(vals)
        self.rep.functions |= {n for n in it.visited_funcs}

    def vec(self, A, p, n):
        return [A.var('%s%d' % (p, i)) for i in range(n)]

    def same(self, A, st, outs, exp):
        for k, (o, e) in enumerate(zip(outs, exp)):
            if o is None:
                return 'coefficient %d is not written' % k
            d = A.sub(A.h(o), e)
            if A.norm(st.facts, d.n) != 0:
                s = str(A.normh(st.facts, A.h(o)))
                return 'coefficient %d is %s instead of %s' % (k, s[:160], str(A.normh(st.facts, e))[:160])
        return None

    def label(self, t, op):
        return '%s::%s' % (DESC[t], op)

    def check(self, fn, t, op, spec, two=True, extra=(), ins_extra=None, facts=None, ret=None, tables=None, kw=None,
              setup=None):
        """spec(A, S, a, b) -> expected flat list (S = Nest)"""
        rep = self.rep
        where = self.label(t, op)
        full = fn + '_' + t
        if '@' + full not in self.mod.funcs:
            rep.broken.append('harness function %s missing' % full)
            return
        L = T[t]
        try:
            A = self.alg(t, extra, two, kw)
            S = Nest(A, L)
            n = L.flat
            f = self.facts(A, t)
            if setup:
                setup(A, f)
            a = self.vec(A, 'a', n)
            ins = dict(enumerate(a))
            b = None
            if two:
                b = self.vec(A, 'b', n)
                ins.update({16 + i: v for i, v in enumerate(b)})
            if ins_extra:
                ins.update(ins_extra(A))
            exp = spec(A, S, S.unflat(a), S.unflat(b) if b else None)
            k = 0
            for st, r, outs in self.paths(A, full, ins, f, len(exp)):
                k += 1
                if isinstance(r, PathAbort):
                    rep.bad(where, 'aborts on %s' % '; '.join(st.trace[-4:]))
                    continue
                if ret is not None:
                    if isinstance(r, Bool):
                        r = A.decide(st.facts, r.f)
                    if r is None or r is TOP:
                        rep.unk(where, 'result not decided')
                        continue
                    if bool(r) != ret:
                        rep.bad(where, 'returns %s' % bool(r))
                        continue
                m = self.same(A, st, outs, exp)
                if m:
                    rep.bad(where, m)
                else:
                    rep.ok(where)
            if not k:
                rep.unk(where, 'no path')
        except Uninit as e:
            rep.bad(where, str(e))
        except (Undecided, Contradiction) as e:
            rep.unk(where, e)

    def check_pred(self, fn, t, op, two, truth):
        """boolean function: truth(A, st, a, b) decided on every partition"""
        rep = self.rep
        where = self.label(t, op)
        full = fn + '_' + t
        L = T[t]
        n = L.flat
        try:
            A = self.alg(t, (), two)
            f = self.facts(A, t)
            a = self.vec(A, 'a', n)
            ins = dict(enumerate(a))
            b = None
            if two:
                b = self.vec(A, 'b', n)
                ins.update({16 + i: v for i, v in enumerate(b)})
            target = [A.sub(x, y) for x, y in zip(a, truth(A, b))]
            work = [(f, 0)]
            # partition on every coefficient before running so that the result is decided
            cases = [(f, [])]
            for k, d in enumerate(target):
                nxt = []
                for q, s in cases:
                    q1 = q.copy()
                    A.assume_zero(q1, d.n)
                    nxt.append((q1, s + [True]))
                    q2 = q.copy()
                    A.assume_nonzero(q2, d.n)
                    nxt.append((q2, s + [False]))
                cases = nxt
                if len(cases) > 64:
                    # keep all-equal and single-difference cases
                    cases = [c for c in cases if c[1].count(False) <= 1 or c[1].count(True) == 0]
            for q, s in cases:
                want = all(s)
                for st, r, outs in self.paths(A, full, ins, q.copy(), 0):
                    if isinstance(r, PathAbort):
                        rep.bad(where, 'aborts')
                        continue
                    if isinstance(r, Bool):
                        r = A.decide(st.facts, r.f)
                    if r is None or r is TOP:
                        rep.unk(where, 'not decided')
                    elif bool(r) != (want if op not in ('operator!=',) else not want):
                        rep.bad(where, 'returns %s when the coefficient equalities are %s' % (bool(r), s))
                    else:
                        rep.ok(where)
        except (Undecided, Contradiction) as e:
            rep.unk(where, e)


def run_arith(mod, rep):
    X = ExtAnalysis(mod, rep)
    try:
        X.load_quartic_init()
    except (Undecided, Contradiction) as e:
        rep.unk('QuarticExtensionField::Init', e)
    for t, L in T.items():
        c = X.check
        fl = lambda f: (lambda A, S, a, b: S.flat(f(S, a, b)))
        c('add', t, 'operator+', fl(lambda S, a, b: S.add(a, b)))
        c('addi', t, 'operator+=', fl(lambda S, a, b: S.add(a, b)))
        c('sub', t, 'operator-', fl(lambda S, a, b: S.sub(a, b)))
        c('subi', t, 'operator-=', fl(lambda S, a, b: S.sub(a, b)))
        for fn, op in (('dbl', 'Double'), ('dbli', 'DoubleInPlace'), ('addiself', 'operator+= with itself')):
            c(fn, t, op, fl(lambda S, a, b: S.add(a, a)), two=False)
        c('subiself', t, 'operator-= with itself', fl(lambda S, a, b: S.sub(a, a)), two=False)
        for fn, op in (('neg', 'operator-()'), ('negi', 'NegateInPlace')):
            c(fn, t, op, fl(lambda S, a, b: S.neg(a)), two=False)
        for fn, op in (('mul', 'operator*'), ('muli', 'operator*=')):
            c(fn, t, op, fl(lambda S, a, b: S.mul(a, b)))
        for fn, op in (('mulself', 'operator* with itself'), ('muliself', 'operator*= with itself'), ('sq', 'Square'),
                       ('sqi', 'SquareInPlace')):
            c(fn, t, op, fl(lambda S, a, b: S.mul(a, a)), two=False)
        for fn, op in (('mulb', 'operator*(base field)'), ('mulbi', 'operator*=(base field)'), ('bmul', 'base field * element')):
            k = L.flat // L.n
            c(fn, t, op, lambda A, S, a, b: S.flat(S.scale(a, S.B.unflat([A.var('b%d' % i) for i in range(k)]))))
        for fn, op, v in (('zero', 'Zero', 0), ('one', 'One', 1), ('mone', 'MinusOne', -1)):
            c(fn, t, op, lambda A, S, a, b: S.flat(S.const(v)), two=False)
        c('twoinv', t, 'TwoInv', lambda A, S, a, b: [A.inv(A.const(2))] + [A.const(0)] * (L.flat - 1), two=False)
        for fn, op, v in (('iszero', 'IsZero', 0), ('isone', 'IsOne', 1), ('ismone', 'IsMinusOne', -1)):
            X.check_pred(fn, t, op, False, lambda A, b: [A.const(v)] + [A.const(0)] * (L.flat - 1))
        X.check_pred('eq', t, 'operator==', True, lambda A, b: b)
        X.check_pred('ne', t, 'operator!=', True, lambda A, b: b)
    for t in ('T2', 'T2m', 'T4t', 'T6q', 'T12', 'T6o', 'T12o'):
        L = T[t]

        def conj(A, S, a, b):
            return S.flat([a[0], S.B.neg(a[1])])
        X.check('conj', t, 'Conjugate', conj, two=False)
        X.check('conji', t, 'ConjugateInPlace', conj, two=False)
        X.check('norm', t, 'Norm', lambda A, S, a, b: S.B.flat(
            S.B.sub(S.B.mul(a[0], a[0]), S.B.mul(S.nrv, S.B.mul(a[1], a[1])))), two=False)
        for fn in ('cinv', 'cinvi'):
            run_cinv(X, fn, t)
    run_inverse(X)
    run_sparse(X)
    run_csq(X)


def run_cinv(X, fn, t):
    L = T[t]
    where = X.label(t, 'CyclotomicInverse' + ('InPlace' if fn[-1] == 'i' else ''))
    rep = X.rep
    try:
        A = X.alg(t, (), False)
        a = X.vec(A, 'a', L.flat)
        S = Nest(A, L)
        av = S.unflat(a)
        exp = S.flat([av[0], S.B.neg(av[1])])
        for st, r, outs in X.paths(A, fn + '_' + t, dict(enumerate(a)), X.facts(A, t), L.flat):
            if isinstance(r, PathAbort):
                rep.bad(where, 'aborts')
                continue
            if isinstance(r, Bool):
                r = A.decide(st.facts, r.f)
            allz = all(A.decide(st.facts, ('eq', x.n)) is True for x in a)
            if r is None or r is TOP:
                rep.unk(where, 'not decided')
            elif bool(r) == allz:
                rep.bad(where, 'returns %s for a %s element' % (bool(r), 'zero' if allz else 'nonzero'))
            elif not allz:
                m = X.same(A, st, outs, exp)
                if m:
                    rep.bad(where, m)
                else:
                    rep.ok(where)
            else:
                rep.ok(where)
    except (Undecided, Contradiction) as e:
        rep.unk(where, e)


def frob_tables(X, A, t, mode):
    """abstract contents of the kFrobeniusCoeffs tables.
    mode 'free': unconstrained symbols phi_k_i with phi_k_0 = 1
    mode 'root': powers of a primitive n-th root of unity (norm computations)"""
    L = T[t]
    tabs = {}
    lv = [(t, L)]
    while lv[-1][1].base:
        b = lv[-1][1].base
        lv.append((b.name, b))
    for nm, l in lv:
        for k in range(1, l.n):
            s = X.tabsym(nm, '' if k == 1 else str(k))
            if s is None:
                continue
            deg = l.pdeg
            d = {}
            for i in range(deg):
                if mode == 'free':
                    d[i] = A.const(1) if i == 0 else A.var('%s_%d_%d' % (nm, k, i))
                else:
                    step = l.pdeg // l.n
                    if i % step == 0:
                        d[i] = A.pw(A.var('w'), (i // step) * k)
            tabs[s] = d
    A.tables = tabs
    return tabs


def frob_syms(t):
    L = T[t]
    out = []
    while L:
        for k in range(1, L.n):
            for i in range(1, L.pdeg):
                out.append('%s_%d_%d' % (L.name, k, i))
        L = L.base
    return out


def spec_frob(A, S, L, x, e):
    """expected Frobenius image with table symbols"""
    out = []
    for k, c in enumerate(x):
        v = A.frobh(c, e) if L.base is None else spec_frob(A, S.B, L.base, c, e)
        if k:
            i = e % L.pdeg
            co = A.const(1) if i == 0 else A.var('%s_%d_%d' % (L.name, k, i))
            v = A.mul(v, co) if L.base is None else scale_leaf(S.B, v, co, A)
        out.append(v)
    return out


def scale_leaf(S, v, co, A):
    return S.unflat([A.mul(h, co) for h in S.flat(v)])


def run_frob(mod, rep):
    X = ExtAnalysis(mod, rep)
    try:
        X.load_quartic_init()
    except (Undecided, Contradiction) as e:
        rep.unk('QuarticExtensionField::Init', e)
    for t in ('T2', 'T3', 'T4q', 'T4t', 'T6c', 'T6q', 'T12'):
        L = T[t]
        for e in (0, 1, 2, 3, 5, 7, 11, 13):
            X.check('frob%d' % e, t, 'FrobeniusMapInPlace(%d)' % e,
                    lambda A, S, a, b: S.flat(spec_frob(A, S, L, a, e)), two=False, extra=frob_syms(t),
                    setup=lambda A, f: frob_tables(X, A, t, 'free'))
    for t in ('T3', 'T4q', 'T6c'):
        run_norm_roots(X, t)
    for t in ('T2', 'T3', 'T4q', 'T4t', 'T6c', 'T6q', 'T12'):
        run_dinit(X, t)


def root_setup(X, t):
    n = T[t].n

    def setup(A, f):
        frob_tables(X, A, t, 'root')
        w = A.g['w']
        f.rel = f.rel + [w ** 2 + w + 1 if n == 3 else w ** 2 + 1]
        f.nz.add(w)
    return setup


def norm_poly(A, S, L, a):
    """product of the conjugates for x^n = q in closed form"""
    q = S.nrv
    m, ad, sb, B = S.B.mul, S.B.add, S.B.sub, S.B
    if L.n == 2:
        return sb(m(a[0], a[0]), m(q, m(a[1], a[1])))
    if L.n == 3:
        a0, a1, a2 = a
        r = m(a0, m(a0, a0))
        r = ad(r, m(q, m(a1, m(a1, a1))))
        r = ad(r, m(m(q, q), m(a2, m(a2, a2))))
        return sb(r, m(B.const(3), m(q, m(a0, m(a1, a2)))))
    # n == 4: norm over the intermediate field x^2 = s, s^2 = q
    a0, a1, a2, a3 = a
    # (a0 + a2 s)^2 - s (a1 + a3 s)^2 = u + v s
    u = sb(ad(m(a0, a0), m(q, m(a2, a2))), m(B.const(2), m(q, m(a1, a3))))
    v = sb(m(B.const(2), m(a0, a2)), ad(m(a1, a1), m(q, m(a3, a3))))
    return sb(m(u, u), m(q, m(v, v)))


def run_norm_roots(X, t):
    L = T[t]
    X.check('norm', t, 'Norm', lambda A, S, a, b: S.B.flat(norm_poly(A, S, L, a)), two=False, extra=['w'],
            setup=root_setup(X, t))


def run_inverse(X):
    rep = X.rep
    for t in ('T2', 'T2m', 'T3', 'T4q', 'T4t', 'T6c', 'T6o', 'T12o'):
        L = T[t]
        for fn, op in (('inv', 'Inverse'), ('invi', 'InverseInPlace')):
            where = X.label(t, op)
            try:
                for zero in (True, False):
                    A = X.alg(t, ['w'], False)
                    S = Nest(A, L)
                    f = X.facts(A, t)
                    if t == 'T4q':
                        root_setup(X, t)(A, f)
                    a = X.vec(A, 'a', L.flat)
                    if zero:
                        a = [A.const(0)] * L.flat
                    else:
                        A.assume_nonzero(f, norm_poly(A, S, L, a))
                    for st, r, outs in X.paths(A, fn + '_' + t, dict(enumerate(a)), f, L.flat):
                        if isinstance(r, PathAbort):
                            rep.bad(where, 'aborts on %s' % '; '.join(st.trace[-4:]))
                            continue
                        if isinstance(r, Bool):
                            r = A.decide(st.facts, r.f)
                        if r is None or r is TOP:
                            rep.unk(where, 'not decided')
                            continue
                        if zero:
                            if r:
                                rep.bad(where, 'reports an inverse of zero')
                            else:
                                rep.ok(where)
                            continue
                        if not r:
                            rep.bad(where, 'fails on an invertible element (%s)' % '; '.join(st.trace[-4:]))
                            continue
                        o = [A.h(x) for x in outs]
                        p = S.mul(a, o)
                        m = X.same(A, st, S.flat(p), S.flat(S.const(1)))
                        if m:
                            rep.bad(where, 'x * x^-1: ' + m)
                        else:
                            rep.ok(where)
            except Uninit as e:
                rep.bad(where, str(e))
            except (Undecided, Contradiction) as e:
                rep.unk(where, e)


def run_sparse(X):
    def beta(A):
        return {16 + i: A.var('s%d' % i) for i in range(3)}

    def sp(pos):
        def spec(A, S, a, b):
            # element with the given flat positions set to s0, s1, s2
            n = S.L.flat
            l = [A.const(0)] * n
            for i, p in enumerate(pos):
                l[p] = A.var('s%d' % i)
            return S.flat(S.mul(a, S.unflat(l)))
        return spec
    for t, fn, pos in (('T6c', 'by1', [1]), ('T6c', 'by01', [0, 1]), ('T6q', 'by034', [0, 3, 4]), ('T6q', 'by014', [0, 1, 4]),
                       ('T12', 'by034', [0, 3, 4]), ('T12', 'by014', [0, 1, 4])):
        X.check(fn, t, 'MulInPlaceBy' + fn[2:], sp(pos), two=False, extra=['s0', 's1', 's2'], ins_extra=beta)


def run_csq(X):
    X.check('csq', 'T2', 'CyclotomicSquare', lambda A, S, a, b: S.flat(S.mul(a, a)), two=False)
    X.check('csqi', 'T2', 'CyclotomicSquareInPlace', lambda A, S, a, b: S.flat(S.mul(a, a)), two=False)
    rep = X.rep
    for fn, op in (('csq', 'CyclotomicSquare'), ('csqi', 'CyclotomicSquareInPlace')):
        where = X.label('T12', op)
        try:
            t = 'T12'
            L = T[t]
            A = X.alg(t, (), False)
            S = Nest(A, L)
            a = X.vec(A, 'a', 6)
            for st, r, outs in X.paths(A, fn + '_' + t, dict(enumerate(a)), X.facts(A, t), 6):
                if isinstance(r, PathAbort):
                    rep.bad(where, 'aborts')
                    continue
                sq = S.flat(S.mul(S.unflat(a), S.unflat(a)))
                bad = None
                for k in range(6):
                    if outs[k] is None:
                        bad = 'coefficient %d not written' % k
                        break
                    d = A.sub(A.h(outs[k]), sq[k])
                    if d.n != 0 and not in_cyclotomic_span(A, d.n):
                        bad = 'coefficient %d differs from the square on the cyclotomic subgroup' % k
                        break
                if bad:
                    rep.bad(where, bad)
                else:
                    rep.ok(where)
        except Uninit as e:
            rep.bad(where, str(e))
        except (Undecided, Contradiction) as e:
            rep.unk(where, e)


_cyc = {}


def cyc_relations(A):
    """alpha^(q^2) * alpha - alpha^q = 0 for alpha = sum a_k w^k, w^6 = xi, w^q = zeta w,
    zeta^2 = zeta - 1: twelve polynomials over Z (coefficients of 1 and zeta)"""
    # flat index -> power of w: c0 = (a0,a1,a2) at v^i = w^(2i); c1 = (a3,a4,a5) at w^(2i+1)
    pw = [0, 2, 4, 1, 3, 5]
    q = A.g['q14']
    R = A.R

    def zpow(k):  # zeta^k = x + y zeta
        x, y = 1, 0
        for _ in range(k % 6):
            x, y = -y, x + y
        return x, y
    rel = {}
    for i in range(6):
        for j in range(6):
            k = pw[i] + pw[j]
            x, y = zpow(2 * pw[i])
            p = A.g['a%d' % i] * A.g['a%d' % j]
            if k >= 6:
                k -= 6
                p = p * q
            r = rel.setdefault(k, [R.zero, R.zero])
            r[0] += p * x
            r[1] += p * y
    for i in range(6):
        k = pw[i]
        x, y = zpow(pw[i])
        rel[k][0] -= A.g['a%d' % i] * x
        rel[k][1] -= A.g['a%d' % i] * y
    return rel


class KQ:
    """Q(q)[zeta]/(zeta^2 - zeta + 1) as pairs of elements of a fraction field"""


def in_cyclotomic_span(A, d):
    """is d a K-linear combination of the relations (K = Q(xi)(zeta))?"""
    from sympy import QQ, FF
    from sympy.polys.fields import field
    Kf, xq = field('xq', QQ)
    gi = A.order.index('q14')

    def split(p):
        """{monomial without q: coefficient in Q(q)}"""
        out = {}
        for m, c in p.items():
            mm = list(m)
            e = mm[gi]
            mm[gi] = 0
            k = tuple(mm)
            out[k] = out.get(k, Kf.zero) + Kf(int(c)) * xq ** e
        return out

    def kmul(u, v):
        a, b = u
        c, e = v
        # (a + b z)(c + e z), z^2 = z - 1
        return (a * c - b * e, a * e + b * c + b * e)

    def kinv(u):
        a, b = u
        n = a * a + a * b + b * b
        # conj(a + b z) = a + b - b z
        return ((a + b) / n, -b / n)

    def ksub(u, v):
        return (u[0] - v[0], u[1] - v[1])
    rows = []
    for k, (p0, p1) in cyc_relations(A).items():
        s0, s1 = split(p0), split(p1)
        rows.append({m: (s0.get(m, Kf.zero), s1.get(m, Kf.zero)) for m in set(s0) | set(s1)})
    tgt = {m: (c, Kf.zero) for m, c in split(d).items()}
    # eliminate
    piv = []
    for r in rows:
        r = {m: c for m, c in r.items() if c[0] or c[1]}
        for pm, pr in piv:
            if pm in r:
                f = r[pm]
                for m, c in pr.items():
                    r[m] = ksub(r.get(m, (Kf.zero, Kf.zero)), kmul(f, c))
                r = {m: c for m, c in r.items() if c[0] or c[1]}
        if not r:
            continue
        pm = sorted(r)[0]
        iv = kinv(r[pm])
        piv.append((pm, {m: kmul(iv, c) for m, c in r.items()}))
    for pm, pr in piv:
        if pm in tgt:
            f = tgt[pm]
            for m, c in pr.items():
                tgt[m] = ksub(tgt.get(m, (Kf.zero, Kf.zero)), kmul(f, c))
            tgt = {m: c for m, c in tgt.items() if c[0] or c[1]}
    return not tgt


def run_dinit(X, t):
    """kFrobeniusCoeffs<k>[i] = q^(k (P^i - 1) / N)"""
    L = T[t]
    rep = X.rep
    A = ExtAlg(['q%d' % i for i in QS[t]] + ['w%d' % i for i in range(40)], 1)
    for i in QS[t]:
        A.params[i] = A.var('q%d' % i)
    where0 = DESC[t] + '::DoInit'
    # order of the generator: x^N = q
    N = {'T2': 2, 'T3': 3, 'T4q': 4, 'T4t': 2, 'T6c': 3, 'T6q': 6, 'T12': 6}[t]
    q = 'q%d' % QS[t][0]
    try:
        it = Interp(X.mod, A)
        for st, r in it.run('@dinit_' + t, [], Facts(A)):
            if isinstance(r, PathAbort):
                rep.bad(where0, 'aborts')
                continue
            for k in range(1, L.n):
                s = X.tabsym(t, '' if k == 1 else str(k))
                m = st.mem.get('@' + s) or st.mem.get('@"%s"' % s) or {}
                for i in range(L.pdeg):
                    where = '%s kFrobeniusCoeffs%s[%d]' % (where0, '' if k == 1 else k, i)
                    e = m.get(8 * i)
                    if e is None or e[0] is UNDEF:
                        rep.bad(where, 'never set')
                        continue
                    want = Exp({i: Fraction(k, N)}).op('sub', Exp({0: Fraction(k, N)}))
                    got = expo(A, A.h(e[0]), q)
                    if got is None:
                        h = A.h(e[0])
                        if t == 'T2' and i == 1 and h.d == 1 and h.n == -1:
                            rep.ok(where)   # q^((P-1)/2) = -1 for a quadratic non-residue
                            continue
                        rep.bad(where, 'is %s, expected %s^(%s)' % (h, q, want))
                        continue
                    if got.key() != want.key():
                        rep.bad(where, 'is q^(%s), expected q^(%s)' % (got, want))
                    else:
                        rep.ok(where, sample='%s = q^(%s)' % (where, want))
        rep.functions |= {n for n in it.visited_funcs}
    except Uninit as e:
        rep.bad(where0, str(e))
    except (Undecided, Contradiction) as e:
        rep.unk(where0, e)


def expo(A, h, q):
    """exponent of q in a monomial q^i w_j^... or None"""
    if h.d != 1 or len(h.n) != 1:
        return None
    (m, c), = h.n.items()
    if c != 1:
        return None
    tot = Exp({})
    for i, v in enumerate(m):
        if not v:
            continue
        g = A.order[i]
        if g == q:
            tot = tot.op('add', Exp({0: Fraction(v)}))
        elif g[0] == 'w' and g[1:].isdigit():
            b, e = A.pows[int(g[1:])]
            if b != repr(A.var(q)):
                return None
            tot = tot.op('add', Exp(dict(e)).op('mul', Exp({0: Fraction(v)})))
        else:
            return None
    return tot


CFGS = {'m31_fq2': (1, 'x'), 'm31_fq4': (2, None), 'bls12_381_fq2': (1, None), 'bls12_381_fq6': (2, None), 'bls12_381_fq12': (6, None),
        'bn254_fq2': (1, None), 'bn254_fq6': (2, None), 'bn254_fq12': (6, None), 'baby_bear4': (1, None), 'koala_bear4': (1, None),
        'goldilocks2': (1, None), 'gf7_2': (1, None), 'gf7_3': (1, None)}


def run_cfgs(mod, rep):
    """generated configurations: MulByNonResidue is multiplication by kNonResidue"""
    for nm, (n, _) in CFGS.items():
        where = nm + ' Config::MulByNonResidue'
        try:
            A = ExtAlg(['a%d' % i for i in range(n)], 1)
            A.skip_pow = True
            it = Interp(mod, A)

            def prep(st):
                i = st.wobj('IN')
                for k in range(n):
                    i[8 * k] = (A.var('a%d' % k), 8)
                st.wobj('OUT')
            for st, r in it.run('@cfg_' + nm, [Ptr('IN'), Ptr('OUT')], Facts(A), prep):
                if isinstance(r, PathAbort):
                    rep.bad(where, 'aborts')
                    continue
                o = st.mem['OUT']
                v = [A.h(o[8 * k][0]) for k in range(3 * n)]
                m = None
                for k in range(n):
                    d = A.sub(v[k], v[2 * n + k])
                    if d.n != 0:
                        m = 'coefficient %d is %s, kNonResidue * v is %s' % (k, v[k], v[2 * n + k])
                nr = v[n:2 * n]
                isneg = all(A.sub(x, A.const(-1 if k == 0 else 0)).n == 0 for k, x in enumerate(nr))
                if m:
                    rep.bad(where, m)
                else:
                    rep.ok(where, sample='%s: kNonResidue = %s' % (nm, nr))
                if bool(r) != isneg:
                    rep.bad(nm + ' kNonResidueIsMinusOne', 'is %s but kNonResidue is %s' % (bool(r), nr))
                else:
                    rep.ok(nm + ' kNonResidueIsMinusOne')
            rep.functions |= {x for x in it.visited_funcs}
        except Uninit as e:
            rep.bad(where, str(e))
        except (Undecided, Contradiction) as e:
            rep.unk(where, e)
