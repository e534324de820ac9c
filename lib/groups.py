"""Powers, scalar multiples, batch inversion and multi-scalar multiplication
over opaque elements against the defining sums and products."""
import os
from absint import Undecided
from alg import Facts
from spec import ModAlg, same
from common import load_ir, VERIF
import jobs
from jobs import run_jobs
from poly import nonzero

Q = (1 << 521) - 1
SF = {0: (1, 7), 1: (1, 8), 2: (1, 9), 3: (1, 31), 4: (1, 64), 5: (4, 254), 6: (4, 255), 7: (4, 256), 8: (2, 126)}
KIND = ('', ' into another representation', ' without cheap negation')


def limbs(v, n):
    return [v >> 64 * i & (1 << 64) - 1 for i in range(n)]


def patterns(bits):
    """scalars of up to `bits` bits that exercise every window, carry and limb boundary"""
    m = (1 << bits) - 1
    s = {0, 1, 2, 3, 5, m, m - 1, m >> 1, (m >> 1) + 1, m // 3, m // 5, m // 7, m // 15, m // 3 * 2, m // 7 * 3, m // 7 * 4, m // 31 * 16,
         0x8182838485868788919293949596979899a0a1a2a3a4a5a6a7a8b1b2b3b4b5b6b7b8 & m,
         0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000000 & m}
    for k in (63, 64, 65, 127, 128, 191, 192, bits - 1, bits - 2, bits - 3):
        if 0 < k < bits:
            s |= {1 << k, (1 << k) - 1, (1 << k) + 1, m ^ ((1 << k) - 1)}
    return sorted(s)


def lin(A, p, s):
    r = A.const(0)
    for x, k in zip(p, s):
        r = A.add(r, A.mul(A.const(k), x))
    return r


OPS = ('ScalarMul of a scalar', 'ScalarMul of a big integer', 'ScalarMul of an unsigned integer', 'ScalarMul of an int', 'operator*')


def j_scal(J, mod, s, kind, op):
    n, bits = SF[s]
    vals = [v for v in patterns(min(bits, 31) if op == 3 else min(bits, 64) if op == 2 else bits)] if bits > 9 else range(1 << bits)
    for v in vals:
        A = ModAlg(['a'], char=Q)
        a = A.var('a')
        J.go(mod, A, '%s %#x%s' % (OPS[op], v, KIND[kind]), 'g_scal', [a] + limbs(v, n), [s, kind, op], Facts(A),
             lambda fc, o: None if same(A, fc, o[0], A.mul(A.const(v), a)) else 'is not that multiple')


def j_const(J, mod, kind):
    A = ModAlg(['a'], char=Q)
    a = A.var('a')

    def check(fc, o):
        for i, v in enumerate((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 100, 0x8000000000000001, (1 << 64) - 1)):
            if not same(A, fc, o[i], A.mul(A.const(v), a)):
                return 'is wrong for %#x' % v
    J.go(mod, A, 'ConstScalarMul' + KIND[kind], 'g_const', [a], [kind], Facts(A), check)


MULTI = ('pairwise', 'of one base', 'by one scalar')


def j_multi(J, mod, kind, op):
    for n, m, k in ((0, 0, 0), (1, 1, 1), (3, 3, 3), (2, 3, 3), (3, 2, 3), (3, 3, 2), (3, 3, 4), (3, 4, 3), (2, 3, 2)):
        A = ModAlg(['p%d' % i for i in range(4)], char=Q)
        sc = [(0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000000 >> 9 * i) + i for i in range(n)]
        P = [A.var('p%d' % i) for i in range(m)]
        if op == 1 and m != 1 and not (n and m) or op == 2 and not n:
            continue
        ins = P + [x for v in sc for x in limbs(v, 4)]
        ok = [n == m == k and n > 0, n == k and n > 0, m == k and m > 0][op]

        def check(fc, o):
            if bool(o.int(0)) != ok:
                return 'fails' if ok else 'accepts mismatched or empty arguments'
            if not ok:
                return
            g = o.vec(1)
            for i in range(k):
                if not same(A, fc, g[i], A.mul(A.const(sc[0 if op == 2 else i]), P[0 if op == 1 else i])):
                    return 'has a wrong multiple %d' % i
        J.go(mod, A, 'MultiScalarMul %s, %d scalars, %d bases, %d outputs%s' % (MULTI[op], n, m, k, KIND[kind]), 'g_multi', ins, [kind, op, n, m, k], Facts(A), check)


def j_succ(J, mod, kind, n):
    A = ModAlg(['a'], char=Q)
    a = A.var('a')

    def check(fc, o):
        g = o.vec(0)
        if len(g) != n or not all(same(A, fc, x, A.mul(A.const(i), a)) for i, x in enumerate(g)):
            return 'has a wrong multiple'
    J.go(mod, A, 'GetSuccessiveScalarMuls of %d' % n, 'g_succ', [a], [kind, n], Facts(A), check)


MSM = ('Pippenger', 'Pippenger, parallel windows', 'Pippenger with signed digits', 'Pippenger with signed digits, parallel windows', 'adapter, no strategy',
       'adapter, parallel windows', 'adapter, parallel terms', 'adapter, parallel windows and terms', 'VariableBaseMSM of containers', 'VariableBaseMSM of ranges',
       'Pippenger used twice')


def j_msm(J, mod, s, kind, op, sc, m=None):
    n = len(sc)
    m = n if m is None else m
    L, bits = SF[s]
    A = ModAlg(['p%d' % i for i in range(max(m, 1))], char=Q)
    P = [A.var('p%d' % i) for i in range(m)]
    ins = P + [x for v in sc for x in limbs(v, L)]

    def check(fc, o):
        k = 0
        if op == 10 and n == m:
            if not same(A, fc, o[0], lin(A, P[:m // 2], sc)):
                return 'is wrong the first time'
            k = 1
        if bool(o.int(k)) != (n == m):
            return 'fails' if n == m else 'accepts another number of bases than scalars'
        if n == m and not same(A, fc, o[k + 1], lin(A, P, sc)):
            return 'is not the sum of the scalar multiples'
    J.go(mod, A, '%s, %d bit scalars %s%s%s' % (MSM[op], bits, ' '.join('%x' % v for v in sc[:4]) + (' ... (%d)' % n if n > 4 else ''),
                                             '' if m == n else ' and %d bases' % m, KIND[kind]),
         'g_msm', ins, [s, kind, op, n, m], Facts(A), check, steps=30000000)


def j_msms(J, mod, s, kind, op, lists):
    for sc in lists:
        j_msm(J, mod, s, kind, op, sc)


FIXED = {0: 'Run', 1: 'RunSerial', 2: 'Run over lists', 3: 'ScalarMul', 8: 'Run after another Reset'}


def j_fixed(J, mod, s, kind, op, size, sc, k=None):
    n = len(sc)
    k = n if k is None else k
    L, bits = SF[s]
    A = ModAlg(['a'], char=Q)
    a = A.var('a')

    def check(fc, o):
        if op != 3 and bool(o.int(0)) != (n == k):
            return 'fails' if n == k else 'accepts another number of outputs than scalars'
        if n != k:
            return
        g = o.vec(1)
        for i in range(n):
            if not same(A, fc, g[i], A.mul(A.const(sc[i]), a)):
                return 'has a wrong multiple %#x' % sc[i]
    J.go(mod, A, 'FixedBaseMSM %s, table for %d, %d scalars of %d bits from %#x, %d outputs%s' % (FIXED[op], size, n, bits, sc[0] if sc else 0, k, KIND[kind]),
         'g_fixed', [a] + [x for v in sc for x in limbs(v, L)], [s, kind, op, size, n, k], Facts(A), check, steps=30000000)


# (limbs, order, eigenvalue, short basis of the lattice)
GLV = {
    'small': (1, 103, 46, (9, 11, -11, -2)),
    'bn254 G1': (4, 21888242871839275222246405745257275088548364400416034343698204186575808495617,
                 21888242871839275217838484774961031246154997185409878258781734729429964517155,
                 (-147946756881789319000765030803803410728, 9931322734385697763, -9931322734385697763, -147946756881789319010696353538189108491)),
    'bn254 G2': (4, 21888242871839275222246405745257275088548364400416034343698204186575808495617, 4407920970296243842393367215006156084916469457145843978461,
                 (-147946756881789319010696353538189108491, -9931322734385697763, 9931322734385697763, -147946756881789319000765030803803410728)),
}


def j_glv(J, mod, name, kind, ks):
    L, r, lam, N = GLV[name]
    for k in ks:
        A = ModAlg(['a'], char=r)
        A.params = {8: A.const(lam)}
        a = A.var('a')
        ins = [a] + limbs(k, L) + limbs(r, L)
        for v in N:
            ins += [int(v < 0)] + limbs(abs(v), L)
        J.go(mod, A, 'GLV multiplication by %#x (%s)%s' % (k, name, KIND[kind]), 'g_glv', ins, [L, kind], Facts(A),
             lambda fc, o: None if same(A, fc, o[0], A.mul(A.const(k), a)) else 'is not that multiple')


def glv_scalars(name):
    L, r, lam, N = GLV[name]
    if r < 1000:
        return list(range(r))
    s = {0, 1, 2, r - 1, r - 2, lam, r - lam, lam + 1, lam * lam % r, r // 2, r // 3, r // 7 * 3}
    for e in (1, 2, 63, 64, 65, 126):
        for x, y in ((1 << e, 0), (0, 1 << e), (1 << e, 1), (1, 1 << e), (-(1 << e), 1), (1, -(1 << e)), (1 << e, 1 << e), (-5, (1 << e) - 1)):
            s.add((x + y * lam) % r)
    return sorted(s)


def j_pow(J, mod, what, op, l, ins_, want):
    A = ModAlg(['a', 'c', 'b'] + ['v%d' % i for i in range(10)], char=Q)
    a = A.var('a')
    f = Facts(A)
    ins, w = want(A, a)

    def check(fc, o):
        for i, x in enumerate(w):
            y = o[i]
            if isinstance(x, tuple):
                if o.int(i) != x[0]:
                    return 'has %d elements instead of %d' % (o.int(i), x[0])
            elif not same(A, fc, y, x):
                return 'is wrong at %d' % i
    J.go(mod, A, what, 'g_pow', [a] + ins, [op, l], f, check)


def pw(A, a, e):
    R = A.R
    i = A.order.index(a) if a in A.order else list(A.order).index(a)
    return A.h(A.mul(A.const(1), _H(A, {tuple(e if j == i else 0 for j in range(len(A.order))): 1})))


def _H(A, d):
    from alg import H
    return H(A.R.from_dict({m: A.R.domain(c) for m, c in d.items()}), A.R(1))


def rev(i, n):
    k = n.bit_length() - 1
    return int(bin(i)[2:].zfill(k)[::-1], 2) if k else 0


def j_pows(J, mod, op):
    if op in (0, 1, 2):
        for l in ((1, 2, 4) if op == 0 else (4,) if op == 1 else (1,)):
            for e in patterns(64 * l):
                j_pow(J, mod, 'Pow(%#x)' % e, op, l, None, lambda A, a: (limbs(e, 4 if op == 1 else l), [pw(A, 'a', e)]))
    elif op == 3:
        j_pow(J, mod, 'ConstPow', 3, 0, None, lambda A, a: ([], [pw(A, 'a', e) for e in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 17, 254)]))
    elif op == 4:
        for l in (1, 2):
            for e in list(range(17)) + [0x155, 0x3ff, 0x200]:
                def want(A, a):
                    v = ['v%d' % i for i in range(10)]
                    p = A.const(1)
                    for i in range(10):
                        if e >> i & 1:
                            p = A.mul(p, A.var(v[i]))
                    return [10] + [A.var(x) for x in v] + limbs(e, l), [p]
                j_pow(J, mod, 'PowWithTable(%#x)' % e, 4, l, None, want)
    elif 5 <= op <= 10:
        for n in (list(range(1, 11)) + [16] if op < 7 else (1, 2, 4, 8, 16)):
            def want(A, a):
                c = A.var('c') if op in (6, 8, 10) else A.const(1)
                w = [None] * n
                for i in range(n):
                    w[rev(i, n) if op > 6 else i] = A.mul(c, pw(A, 'a', i))
                return [c], [(n,)] + w
            j_pow(J, mod, ('GetSuccessivePowers', 'GetBitRevIndexSuccessivePowers', 'GetBitRevIndexSuccessivePowersSerial')[(op - 5) // 2]
                  + ' of %d%s' % (n, '' if op % 2 else ' with a factor'), op, n, None, want)
    elif op == 11:
        for l in (0, 1, 2, 5, 64):
            j_pow(J, mod, 'ExpPowOfTwo(%d)' % l, 11, l, None, lambda A, a: ([], [pw(A, 'a', 1 << l)]))
    elif op in (12, 13):
        j_pow(J, mod, 'Square', op, 0, None, lambda A, a: ([], [pw(A, 'a', 2)] * (op - 11)))
    elif 14 <= op <= 16:
        for n in range(0 if op == 14 else 1, 6):
            def want(A, a):
                v = [A.var('v%d' % i) for i in range(n)]
                fw, bw = A.const(0), A.const(0)
                for i in range(n):
                    fw = A.add(fw, A.mul(v[i], pw(A, 'a', n - 1 - i)))
                    bw = A.add(bw, A.mul(v[i], pw(A, 'a', i)))
                return v, {14: [fw, bw], 15: [fw], 16: [bw]}[op]
            j_pow(J, mod, 'LinearCombination%s of %d' % ('' if op == 14 else 'InPlace ' + ('forward', 'backward')[op - 15], n), op, n, None, want)
    elif op in (17, 18):
        A = ModAlg(['a', 'b'], char=Q)
        a, b = A.var('a'), A.var('b')

        def check(fc, o):
            if not o.int(0):
                return None if same(A, fc, b, A.const(0)) else 'fails although the divisor is not zero'
            if not nonzero(A, fc, b):
                return 'succeeds although the divisor can be zero'
            if not all(same(A, fc, o[i], A.mul(a, A.inv(b))) for i in range(1, op - 15)):
                return 'is not the quotient'
        J.go(mod, A, ('a / b', 'a /= b')[op - 17], 'g_pow', [a, b], [op, 0], Facts(A), check)
    elif op == 19:
        def want(A, a):
            b = A.var('b')
            return [b], [A.add(a, a), A.add(a, a), A.sub(A.add(a, a), b), A.sub(A.add(a, a), b), A.sub(b, A.add(a, a))]
        j_pow(J, mod, 'Double, a - b, a -= b and -a', 19, 0, None, want)


INV = ('BatchInverse', 'BatchInverseSerial', 'BatchInverseInPlace', 'BatchInverseInPlaceSerial')


def j_inv(J, mod, op, n, m):
    A = ModAlg(['c'] + ['v%d' % i for i in range(n)], char=Q)
    v = [A.var('v%d' % i) for i in range(n)]
    c = A.var('c')

    def check(fc, o):
        if bool(o.int(0)) != (n == m):
            return 'fails' if n == m else 'accepts another number of outputs'
        if n != m:
            return
        g = o.vec(1)
        if len(g) != n:
            return 'has a wrong size'
        for i in range(n):
            if same(A, fc, v[i], A.const(0)):
                w = A.const(0)
            elif nonzero(A, fc, v[i]):
                w = A.mul(c, A.inv(v[i])) if op & 4 else A.inv(v[i])
            else:
                return 'does not look at element %d' % i
            if not same(A, fc, g[i], w):
                return 'has a wrong element %d' % i
    J.go(mod, A, '%s of %d%s%s' % (INV[op & 3], n, ' with a coefficient' if op & 4 else '', '' if n == m else ' into %d' % m), 'g_inv', [c] + v, [op, n, m], Facts(A), check)


def run_all(rep, thorough):
    src = os.path.join(VERIF, 'harness', 'groups.cc')
    M = {'groups': load_ir(src, extra=['-fno-access-control'], fresh=True),
         'groups3': load_ir(src, extra=['-fno-access-control', '-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness', 'omp')], fresh=True)}
    jobs.MODS.update(M)
    jobs.FUNCS.update({'scal': j_scal, 'const': j_const, 'multi': j_multi, 'succ': j_succ, 'msm': j_msm, 'msms': j_msms, 'fixed': j_fixed, 'glv': j_glv,
                       'pows': j_pows, 'inv': j_inv})
    run_jobs(rep, job_list(thorough), limit=600)


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def job_list(thorough):
    L = []
    for g in ('groups', 'groups3'):
        for kind in (0, 1):
            if g == 'groups':
                L += [('scal', (g, s, kind, op)) for s, op in ((1, 0), (1, 1), (4, 2), (4, 3), (4, 4), (5, 0), (5, 4), (7, 1), (8, 1))]
                L.append(('const', (g, kind)))
            L += [('multi', (g, kind, op)) for op in range(3)]
        L += [('succ', (g, 0, n)) for n in list(range(1, 9)) + [13]]
        L += [('pows', (g, op)) for op in range(20)]
        for op in range(8):
            L += [('inv', (g, op, n, n)) for n in range(1, 7)]
        L += [('inv', (g, op, 2, m)) for op in (0, 1, 4, 5) for m in (0, 1, 3)]
        # every scalar of the small fields, three terms at a time
        for s in (0, 1, 2):
            bits = SF[s][1]
            allv = list(range(1 << bits))
            groups = [[allv[i], allv[(5 * i + 3) % len(allv)], allv[-1 - i]] for i in range(len(allv))]
            for kind, op in ((0, 0), (1, 2), (0, 2), (1, 0)):
                if g == 'groups' or op == 0 and kind == 0 and s == 1:
                    for c in chunks(groups, 32):
                        L.append(('msms', (g, s, kind, op, c)))
        for s in (5, 6, 7, 3, 4, 8):
            pat = patterns(SF[s][1])
            for kind, op in ((0, 0), (1, 0), (0, 2), (1, 2), (2, 4), (1, 6), (1, 8)):
                if thorough or s in (5, 7) or op in (0, 2):
                    for c in chunks([x + [pat[-i]] for i, x in enumerate(chunks(pat, 3))], 6):
                        L.append(('msms', (g, s, kind, op, c)))
        for op in range(11):
            for kind in (0, 1, 2):
                for n in (1, 2, 4, 5, 7):
                    pat = patterns(254)
                    L.append(('msm', (g, 5, kind, op, [pat[-(7 * i + n) % len(pat)] for i in range(n)])))
                if op != 10:
                    L.append(('msm', (g, 5, kind, op, [])))
                    L += [('msm', (g, 1, kind, op, [5] * a, b)) for a, b in ((2, 3), (3, 2), (0, 1), (1, 0))]
        # larger windows
        for n in (31, 32, 33) + ((64,) if thorough else ()):
            for op in (0, 2, 7):
                for s in (2, 3):
                    m = (1 << SF[s][1]) - 1
                    L.append(('msm', (g, s, 1, op, [(m - i * 0x1357) & m for i in range(n)])))
        for kind in (0, 1):
            for s in (0, 1, 2):
                for size in (1, 40):
                    L += [('fixed', (g, s, kind, 0, size, c)) for c in chunks(range(1 << SF[s][1]), 128)]
            for s in (5, 6, 7, 3, 4):
                L.append(('fixed', (g, s, kind, 0, 1, patterns(SF[s][1]))))
            for op in (1, 2, 3, 8):
                L.append(('fixed', (g, 5, kind, op, 31, patterns(254))))
            for op in (0, 1, 2):
                L += [('fixed', (g, 1, kind, op, 1, [3] * a, b)) for a, b in ((0, 0), (1, 2), (2, 1), (0, 1), (1, 0))]
        if g == 'groups':
            for name in GLV:
                for c in chunks(glv_scalars(name), 20):
                    for kind in (0, 1) if GLV[name][0] == 4 else (0,):
                        L.append(('glv', (g, name, kind, c)))
    return L
