"""Field and curve parameters: the constants that the current source produces,
read from the IR, against number theory (exact integers)."""
import math
import re
from absint import Interp, Ptr, PathAbort, Undecided, TOP
from alg import Facts, Contradiction, Uninit
from ext import ExtAlg

MEM = ('kUseMontgomery kModulusBits kModulus kModulusMinusOneDivTwo kModulusPlusOneDivFour kTrace kTraceMinusOneDivTwo '
       'kModulusModFourIsThree kModulusModSixIsOne kModulusHasSpareBit kCanUseNoCarryMulOptimization kMontgomeryR kMontgomeryR2 '
       'kMontgomeryR3 kInverse64 kInverse32 kOne kMinusOne kTwoInv kHasTwoAdicRootOfUnity kHasLargeSubgroupRootOfUnity '
       'kSubgroupGenerator kTwoAdicity kTwoAdicRootOfUnity kSmallSubgroupBase kSmallSubgroupAdicity kLargeSubgroupRootOfUnity').split()

# The published moduli: the identity of the field, not a derived constant.
X_BN, X_BLS = 4965661367192848881, -0xd201000000010000
MODULI = {
    'bls12_381_fq': (X_BLS - 1) ** 2 * (X_BLS ** 4 - X_BLS ** 2 + 1) // 3 + X_BLS,
    'bls12_381_fr': X_BLS ** 4 - X_BLS ** 2 + 1,
    'bn254_fq': 36 * X_BN ** 4 + 36 * X_BN ** 3 + 24 * X_BN ** 2 + 6 * X_BN + 1,
    'bn254_fr': 36 * X_BN ** 4 + 36 * X_BN ** 3 + 18 * X_BN ** 2 + 6 * X_BN + 1,
    'bn384_fq': None, 'bn384_fr': None,
    'secp256k1_fq': 2 ** 256 - 2 ** 32 - 977,
    'secp256k1_fr': 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
    'pallas_fq': 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001,
    'pallas_fr': 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001,
    'vesta_fq': 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001,
    'vesta_fr': 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001,
    'm31_fr': 2 ** 31, 'm31_fr4': (2 ** 31 - 1) ** 4 - 1,
    'baby_bear': 15 * 2 ** 27 + 1, 'koala_bear': 127 * 2 ** 24 + 1, 'mersenne31': 2 ** 31 - 1,
    'goldilocks': 2 ** 64 - 2 ** 32 + 1, 'gf7': 7,
}


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def small_factors(n, lim=1 << 16):
    out = []
    q = 2
    while q < lim and q * q <= n:
        if n % q == 0:
            out.append(q)
            while n % q == 0:
                n //= q
        q += 1
    if n > 1 and is_prime(n):
        out.append(n)
        n = 1
    return out, n


def read(mod, fn, args=1, n=27 * 9, A=None, prep=None):
    A = A or ExtAlg(['x'], 1)
    A.skip_pow = True
    it = Interp(mod, A)

    def pr(st):
        st.wobj('OUT')
        if prep:
            prep(st)
    outs = list(it.run('@' + fn, [Ptr('IN')] * (args - 1) + [Ptr('OUT')], Facts(A), pr))
    st, r = outs[0]
    if isinstance(r, PathAbort):
        return None, None, it
    return st.mem['OUT'], r, it


def fields(mod, rep):
    """-> {name: dict}"""
    F = {}
    for nm in MODULI:
        try:
            o, _, it = read(mod, 'pf_' + nm)
            if o is None:
                rep.bad(nm + ' configuration', 'initialisation aborts')
                continue
            d = {}
            for i, m in enumerate(MEM):
                def g(k):
                    c = o.get(8 * (9 * i + k))
                    if c is None:
                        raise Uninit('unset')
                    if not isinstance(c[0], int):
                        raise Undecided('%s is not a constant' % m)
                    return c[0] & (2 ** 64 - 1)
                n = g(0)
                if n:
                    d[m] = (sum(g(1 + j) << (64 * j) for j in range(n)), n)
            F[nm] = d
            rep.functions |= {x for x in it.visited_funcs}
        except (Undecided, Contradiction, Uninit) as e:
            rep.unk(nm + ' configuration', e)
    return F


def check_fields(mod, rep):
    F = fields(mod, rep)
    for nm, d in F.items():
        m, limbs = d['kModulus']
        small = limbs == 1 and 'kMontgomeryR' not in d
        bits = 32 if small else 64 * limbs
        v = {k: x[0] for k, x in d.items()}
        mont = bool(v.get('kUseMontgomery', 1))
        R = (1 << bits) % m if mont else 1
        prime = is_prime(m)

        def want(k, exp, note=''):
            if k not in v:
                return
            if v[k] == exp:
                rep.ok('%s::%s' % (nm, k), sample='%s::%s = %d %s' % (nm, k, v[k], note))
            else:
                rep.bad('%s::%s' % (nm, k), 'is %d, must be %d %s' % (v[k], exp, note))

        def holds(k, ok, note):
            if ok:
                rep.ok('%s::%s' % (nm, k), sample='%s::%s: %s' % (nm, k, note))
            else:
                rep.bad('%s::%s' % (nm, k), 'value %s violates: %s' % (v.get(k), note))
        ref = MODULI[nm]
        if ref is not None:
            want('kModulus', ref, '(published modulus)')
        if not nm.startswith('m31_'):
            holds('kModulus', prime, 'is prime')
        tz = ((m - 1) & -(m - 1)).bit_length() - 1
        T = (m - 1) >> tz
        # non-prime moduli (orders of circle groups) only need the plain modulus data
        want('kModulusBits', m.bit_length())
        want('kModulusMinusOneDivTwo', (m - 1) // 2)
        want('kModulusModFourIsThree', int(m % 4 == 3))
        want('kModulusModSixIsOne', int(m % 6 == 1))
        if m & 1:
            if m % 4 == 3:
                want('kModulusPlusOneDivFour', (m + 1) // 4)
            want('kTrace', T)
            want('kTraceMinusOneDivTwo', (T - 1) // 2)
        spare = m < (1 << (bits - 1))
        if small:
            # the 64-bit limb always has one
            want("kModulusHasSpareBit", 1)
        else:
            want('kModulusHasSpareBit', int(spare))
        if 'kCanUseNoCarryMulOptimization' in v and not small:
            # may only be claimed when the top bit of the modulus is clear and
            # the modulus is not 0x7ff..ff in every limb
            top = m >> (64 * (limbs - 1))
            okc = spare and not (top == (1 << 63) - 1 and (m & ((1 << (64 * (limbs - 1))) - 1)) == (1 << (64 * (limbs - 1))) - 1)
            holds('kCanUseNoCarryMulOptimization', okc or not v['kCanUseNoCarryMulOptimization'], 'only set when the modulus leaves the top bit clear')
        if not (m & 1):
            want('kOne', 1)
            want('kMinusOne', m - 1)
            continue
        want('kMontgomeryR', (1 << bits) % m)
        want('kMontgomeryR2', pow(1 << bits, 2, m))
        want('kMontgomeryR3', pow(1 << bits, 3, m))
        if small:
            if mont:
                want('kInverse32', pow(m, -1, 1 << 32), '(m * kInverse32 = 1 mod 2^32)')
        else:
            want('kInverse64', (-pow(m, -1, 1 << 64)) % (1 << 64), '(m * kInverse64 = -1 mod 2^64)')
            want('kInverse32', (-pow(m, -1, 1 << 32)) % (1 << 32), '(m * kInverse32 = -1 mod 2^32)')
        want('kOne', R)
        want('kMinusOne', (m - R) % m)
        want('kTwoInv', pow(2, -1, m) * R % m)
        Ri = pow(R, -1, m)
        has = v.get('kHasTwoAdicRootOfUnity')
        if has:
            want('kTwoAdicity', tz)
            w = v['kTwoAdicRootOfUnity'] * Ri % m
            g = v['kSubgroupGenerator'] * Ri % m
            holds('kTwoAdicRootOfUnity', v['kTwoAdicRootOfUnity'] < m and pow(w, 1 << (tz - 1), m) == m - 1, 'is a primitive 2^%d-th root of unity' % tz)
            holds('kTwoAdicRootOfUnity', pow(g, T, m) == w, 'equals kSubgroupGenerator ^ kTrace')
            fs, rest = small_factors(m - 1)
            holds('kSubgroupGenerator', v['kSubgroupGenerator'] < m and g != 0 and all(pow(g, (m - 1) // q, m) != 1 for q in fs),
                  'generates the multiplicative group (checked at the known prime factors %s of the group order)' % fs)
        if v.get('kHasLargeSubgroupRootOfUnity'):
            b, a = v['kSmallSubgroupBase'], v['kSmallSubgroupAdicity']
            w = v['kLargeSubgroupRootOfUnity'] * Ri % m
            n = (1 << tz) * b ** a
            holds('kSmallSubgroupBase', (m - 1) % n == 0, '2^%d * %d^%d divides the group order' % (tz, b, a))
            fs = {2} | set(small_factors(b)[0])
            holds('kLargeSubgroupRootOfUnity', pow(w, n, m) == 1 and all(pow(w, n // q, m) != 1 for q in fs), 'is a primitive root of unity of order 2^%d * %d^%d' % (tz, b, a))
            if (m - 1) % n == 0:
                holds('kLargeSubgroupRootOfUnity', pow(g, (m - 1) // n, m) == w, 'is the matching power of kSubgroupGenerator')
                holds('kLargeSubgroupRootOfUnity', pow(w, b ** a, m) == v['kTwoAdicRootOfUnity'] * Ri % m, 'its kSmallSubgroupBase^kSmallSubgroupAdicity-th power is the two-adic root')
    return F


# ---------------------------------------------------------------- towers
class Fld:
    """F_p[x]/(x^n - q), recursively; elements are nested tuples"""

    def __init__(self, p, base=None, n=1, q=None):
        self.p, self.b, self.n, self.q = p, base, n, q
        self.deg = (base.deg if base else 1) * n
        self.size = p ** self.deg

    def make(self, c):
        if self.b is None:
            return c[0] % self.p
        k = self.b.deg
        return tuple(self.b.make(c[i * k:(i + 1) * k]) for i in range(self.n))

    def zero(self):
        return 0 if self.b is None else tuple(self.b.zero() for _ in range(self.n))

    def one(self):
        return 1 if self.b is None else (self.b.one(),) + tuple(self.b.zero() for _ in range(self.n - 1))

    def add(self, x, y):
        return (x + y) % self.p if self.b is None else tuple(self.b.add(a, b) for a, b in zip(x, y))

    def neg(self, x):
        return -x % self.p if self.b is None else tuple(self.b.neg(a) for a in x)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def mul(self, x, y):
        if self.b is None:
            return x * y % self.p
        B = self.b
        r = [B.zero()] * (2 * self.n - 1)
        for i in range(self.n):
            for j in range(self.n):
                r[i + j] = B.add(r[i + j], B.mul(x[i], y[j]))
        for k in range(2 * self.n - 2, self.n - 1, -1):
            r[k - self.n] = B.add(r[k - self.n], B.mul(r[k], self.q))
        return tuple(r[:self.n])

    def pow(self, x, e):
        r = self.one()
        while e:
            if e & 1:
                r = self.mul(r, x)
            x = self.mul(x, x)
            e >>= 1
        return r

    def inv(self, x):
        return self.pow(x, self.size - 2)

    def scal(self, k):
        return self.make([k] + [0] * (self.deg - 1))


def ec_add(F, a, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if F.add(P[1], Q[1]) == F.zero():
            return None
        x2 = F.mul(P[0], P[0])
        l = F.mul(F.add(F.add(x2, F.add(x2, x2)), a), F.inv(F.add(P[1], P[1])))
    else:
        l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
    x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
    return x, F.sub(F.mul(l, F.sub(P[0], x)), P[1])


def ec_mul(F, a, k, P):
    R = None
    while k:
        if k & 1:
            R = ec_add(F, a, R, P)
        P = ec_add(F, a, P, P)
        k >>= 1
    return R


CURVES = {  # name: (base prime field, scalar field, non-residue tower)
    'bls12_381_g1': ('bls12_381_fq', 'bls12_381_fr', 1), 'bls12_381_g2': ('bls12_381_fq', 'bls12_381_fr', 2),
    'bn254_g1': ('bn254_fq', 'bn254_fr', 1), 'bn254_g2': ('bn254_fq', 'bn254_fr', 2),
    'secp256k1': ('secp256k1_fq', 'secp256k1_fr', 1), 'pallas': ('pallas_fq', 'pallas_fr', 1), 'vesta': ('vesta_fq', 'vesta_fr', 1),
}


class Holder:
    def __init__(self, rep, nm):
        self.rep, self.nm = rep, nm

    def __call__(self, k, ok, note):
        if ok:
            self.rep.ok('%s::%s' % (self.nm, k), sample='%s::%s %s' % (self.nm, k, note))
        else:
            self.rep.bad('%s::%s' % (self.nm, k), 'violates: ' + note)


def const(A, h):
    h = A.h(h)
    n, d = h.n, h.d
    zero = (0,) * len(A.order)
    nn = dict(n).get(zero, 0) if n else 0
    dd = dict(d).get(zero, 0)
    if any(k != zero for k in dict(n)) or any(k != zero for k in dict(d)):
        raise Undecided('not a constant')
    nn, dd = int(nn), int(dd)
    if dd != 1:
        raise Undecided('fraction')
    return nn


def check_curves(mod, rep, F):
    for nm, (bf, sf, deg) in CURVES.items():
        h = Holder(rep, nm)
        if bf not in F or sf not in F:
            rep.unk(nm, 'its field configuration is unknown')
            continue
        p, r = F[bf]['kModulus'][0], F[sf]['kModulus'][0]
        try:
            A = ExtAlg(['v%d' % i for i in range(deg)], 1)

            def prep(st):
                for i in range(deg):
                    st.wobj('IN')[8 * i] = (A.var('v%d' % i), 8)
            o, ret, it = read(mod, 'cv_' + nm, 2, A=A, prep=prep)
            rep.functions |= {x for x in it.visited_funcs}
            if o is None:
                rep.bad(nm + ' configuration', 'initialisation aborts')
                continue

            def cell(k):
                if 8 * k not in o:
                    raise Uninit('constant %d of the configuration is never set' % k)
                return o[8 * k][0]
            base = Fld(p) if deg == 1 else Fld(p, Fld(p), 2, p - 1)   # both towers use u^2 = -1; C03 checks it
            E = [base.make([const(A, cell(deg * j + i)) for i in range(deg)]) for j in range(4)]
            a, b, x, y = E
            Gp = (x, y)
            h('kGenerator', base.mul(y, y) == base.add(base.add(base.mul(x, base.mul(x, x)), base.mul(a, x)), b), 'the generator lies on y^2 = x^3 + ax + b')
            h('kB', base.add(base.mul(base.scal(4), base.mul(a, base.mul(a, a))), base.mul(base.scal(27), base.mul(b, b))) != base.zero(), 'the curve is non-singular')
            h('kGenerator', ec_mul(base, a, r, Gp) is None, 'the generator has the order of the scalar field')
            h('kAIsZero', bool(ret & 1) == (a == base.zero()), 'kAIsZero says whether a = 0')
            # MulByA(v) == a * v for every v
            va = [A.h(cell(deg * 4 + i)) for i in range(deg)]
            ok = True
            for i in range(deg):
                ci = A.const(0)
                # coefficient i of a*v in F[u]/(u^2+1)
                ac = [const(A, cell(j)) for j in range(deg)]
                for j in range(deg):
                    for k in range(deg):
                        s = 1
                        t = j + k
                        if t >= deg and deg == 2:
                            t -= 2
                            s = -1
                        if t == i:
                            ci = A.add(ci, A.mul(A.const(s * ac[j]), A.var('v%d' % k)))
                if A.sub(ci, va[i]).n != 0:
                    ok = False
            h('MulByA', ok, 'MulByA(v) = a * v for every v')
            if ret & 2:
                k0 = 5 * deg
                beta = base.make([const(A, cell(k0 + i)) for i in range(deg)])
                lam = const(A, cell(k0 + deg)) % r
                g = [const(A, cell(k0 + deg + 1 + i)) for i in range(4)]
                h('kEndomorphismCoefficient', beta != base.one() and base.pow(beta, 3) == base.one(), 'is a primitive cube root of unity of the base field')
                h('kLambda', lam != 1 and pow(lam, 3, r) == 1, 'is a primitive cube root of unity of the scalar field')
                h('kLambda', ec_mul(base, a, lam, Gp) == (base.mul(beta, x), y), 'lambda * P = (beta * x, y)')
                for row in (0, 1):
                    h('kGLVCoeffs', (g[2 * row] + g[2 * row + 1] * lam) % r == 0, 'row %d of the GLV lattice lies in the kernel (a + b * lambda = 0 mod r)' % row)
                det = abs(g[0] * g[3] - g[1] * g[2])
                h('kGLVCoeffs', det == r, 'the two rows span the whole kernel lattice (determinant r)')
                h('kGLVCoeffs', max(abs(z) for z in g).bit_length() <= (r.bit_length() + 1) // 2 + 2, 'the basis is short (half the scalar bits)')
        except Uninit as e:
            rep.bad(nm + ' configuration', str(e))
        except (Undecided, Contradiction) as e:
            rep.unk(nm, e)


def check_circles(mod, rep, F):
    p = F['mersenne31']['kModulus'][0]
    for nm, K, sf in (('m31_g1', Fld(p), 'm31_fr'), ('m31_g4', None, 'm31_fr4')):
        h = Holder(rep, nm)
        try:
            A = ExtAlg(['v'], 1)
            o, ret, it = read(mod, 'ci_' + nm, 1, A=A)
            rep.functions |= {x for x in it.visited_funcs}
            if o is None:
                rep.bad(nm + ' configuration', 'initialisation aborts')
                continue
            if K is None:
                f2 = Fld(p, Fld(p), 2, p - 1)
                K = Fld(p, f2, 2, f2.make([2, 1]))
            d = K.deg
            c = [const(A, o[8 * k][0]) for k in range(2 * d)]
            x, y = K.make(c[:d]), K.make(c[d:])
            h('kGenerator', K.add(K.mul(x, x), K.mul(y, y)) == K.one(), 'lies on the circle x^2 + y^2 = 1')
            n = F[sf]['kModulus'][0]
            order = p ** d + 1 if (d % 2 == 1) else p ** d - 1
            h('kGenerator', n == order, 'the scalar modulus is the order of the circle group')

            def mul(k):
                R, P = (K.one(), K.zero()), (x, y)
                while k:
                    if k & 1:
                        R = (K.sub(K.mul(R[0], P[0]), K.mul(R[1], P[1])), K.add(K.mul(R[0], P[1]), K.mul(R[1], P[0])))
                    P = (K.sub(K.mul(P[0], P[0]), K.mul(P[1], P[1])), K.add(K.mul(P[0], P[1]), K.mul(P[0], P[1])))
                    k >>= 1
                return R
            one = (K.one(), K.zero())
            fs, rest = small_factors(order)
            h('kGenerator', mul(order) == one and all(mul(order // q) != one for q in fs), 'generates the circle group of order %d' % order)
        except (KeyError, Undecided, Contradiction, Uninit) as e:
            rep.unk(nm, e)


def irreducible(K, n, q):
    """x^n - q irreducible over K (n in 2,3,4): q is not an l-th power for l | n, and the 4 | n side condition"""
    for l in {2: (2,), 3: (3,), 4: (2,)}[n]:
        if (K.size - 1) % l:
            return False
        if K.pow(q, (K.size - 1) // l) == K.one():
            return False
    if n == 4:
        return K.size % 4 == 1
    return True


def check_towers(mod, rep, F):
    """generated extension fields are fields: the non-residue really is one"""
    T = {'m31_fq2': ('mersenne31', 2, []), 'm31_fq4': ('mersenne31', 2, ['m31_fq2']),
         'bls12_381_fq2': ('bls12_381_fq', 2, []), 'bls12_381_fq6': ('bls12_381_fq', 3, ['bls12_381_fq2']),
         'bls12_381_fq12': ('bls12_381_fq', 2, ['bls12_381_fq2', 'bls12_381_fq6']),
         'bn254_fq2': ('bn254_fq', 2, []), 'bn254_fq6': ('bn254_fq', 3, ['bn254_fq2']), 'bn254_fq12': ('bn254_fq', 2, ['bn254_fq2', 'bn254_fq6']),
         'baby_bear4': ('baby_bear', 4, []), 'koala_bear4': ('koala_bear', 4, []), 'goldilocks2': ('goldilocks', 2, []),
         'gf7_2': ('gf7', 2, []), 'gf7_3': ('gf7', 3, [])}
    NR = {}
    for nm, (bf, n, below) in T.items():
        h = Holder(rep, nm)
        try:
            p = F[bf]['kModulus'][0]
            K = Fld(p)
            for b in below:
                K = Fld(p, K, T[b][1], NR[b])
            A = ExtAlg(['a%d' % i for i in range(K.deg)], 1)

            def prep(st):
                for i in range(K.deg):
                    st.wobj('IN')[8 * i] = (A.var('a%d' % i), 8)
            o, ret, it = read(mod, 'cfg_' + nm, 2, A=A, prep=prep)
            rep.functions |= {x for x in it.visited_funcs}
            if o is None:
                rep.bad(nm, 'initialisation aborts')
                continue
            q = K.make([const(A, o[8 * (K.deg + i)][0]) for i in range(K.deg)])
            NR[nm] = q
            h('kNonResidue', irreducible(K, n, q), 'x^%d - kNonResidue is irreducible' % n)
        except KeyError as e:
            rep.unk(nm, 'needs %s' % e)
        except (Undecided, Contradiction, Uninit) as e:
            rep.unk(nm, e)
    return NR


def sg(v):
    v &= 2 ** 64 - 1
    return v - 2 ** 64 if v >> 63 else v


def check_pairing(mod, rep, F, NR):
    for nm, fam in (('bn254', 'bn'), ('bls12_381', 'bls')):
        h = Holder(rep, nm)
        try:
            A = ExtAlg(['v'], 1)
            o, ret, it = read(mod, 'pr_' + nm, 1, A=A)
            rep.functions |= {x for x in it.visited_funcs}
            if o is None:
                rep.bad(nm + ' configuration', 'initialisation aborts')
                continue

            def I(k):
                v = o[8 * k][0]
                if not isinstance(v, int):
                    raise Undecided('not an integer')
                return v
            x = (I(0) & (2 ** 64 - 1)) * (-1 if I(1) else 1)
            p, r = F[nm + '_fq']['kModulus'][0], F[nm + '_fr']['kModulus'][0]
            h('kX', I(3) == 1, 'the curve parameter is held in one limb')
            if fam == 'bn':
                h('kX', 36 * x ** 4 + 36 * x ** 3 + 24 * x ** 2 + 6 * x + 1 == p and 36 * x ** 4 + 36 * x ** 3 + 18 * x ** 2 + 6 * x + 1 == r,
                  'the BN polynomials at x give the base and scalar moduli')
                n = I(8)
                digits = [sg(I(9 + i)) for i in range(n)]
                h('kAteLoopCount', all(d in (-1, 0, 1) for d in digits) and sum(d << i for i, d in enumerate(digits)) == 6 * x + 2 and digits[-1] == 1,
                  'the signed digits sum to 6x + 2 with leading digit 1')
                f2 = Fld(p, Fld(p), 2, NR['bn254_fq2'])
                xi = NR['bn254_fq6']
                if not I(2):
                    xi = f2.inv(xi)
                tx = f2.make([const(A, o[8 * k][0]) for k in (4, 5)])
                ty = f2.make([const(A, o[8 * k][0]) for k in (6, 7)])
                h('kTwistMulByQX', tx == f2.pow(xi, (p - 1) // 3), 'is xi^((p-1)/3)')
                h('kTwistMulByQY', ty == f2.pow(xi, (p - 1) // 2), 'is xi^((p-1)/2)')
            else:
                h('kX', (x - 1) ** 2 * (x ** 4 - x ** 2 + 1) // 3 + x == p and x ** 4 - x ** 2 + 1 == r, 'the BLS12 polynomials at x give the base and scalar moduli')
            # the twist: b' = b / xi (D) or b * xi (M) over Fp2
        except KeyError as e:
            rep.unk(nm, 'needs %s' % e)
        except (Undecided, Contradiction, Uninit) as e:
            rep.unk(nm, e)
