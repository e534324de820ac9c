"""Poseidon and Poseidon2 over an opaque S-box against the definitions of the
two permutations."""
import hashlib
import os
from absint import Undecided
from alg import Facts
from hashes import HAlg
from spec import ModAlg, same
from common import load_ir, VERIF
import jobs
from jobs import run_jobs



def lin(A, M, v):
    """matrix times vector"""
    out = []
    for row in M:
        s = A.const(0)
        for c, x in zip(row, v):
            s = A.add(s, A.mul(A.const(c) if isinstance(c, int) else c, x))
        out.append(s)
    return out


class PAlg(HAlg):
    def __init__(self, names, fresh=140, char=None):
        ModAlg.__init__(self, list(names) + ['y%d' % i for i in range(fresh)], **({'char': char} if char else {}))
        self.tab = {}
        self.used = 0
        self.ext = {'vh_fn': self.x_fn}

    def sbox(self, a, x):
        return self.fn(100 + a, [x], 1)[0]


def rounds(A, v, ark, RF, RP, alpha, full, part, first=False):
    """textbook permutation; full/part: the two linear layers; first: Poseidon2,
    which starts with the external layer and adds one constant per partial round"""
    if first:
        v = full(v)
    for i in range(RF + RP):
        partial = RF // 2 <= i < RF // 2 + RP
        v = [A.add(x, k) if not (first and partial and j) else x for j, (x, k) in enumerate(zip(v, ark[i]))]
        if partial:
            v = part([A.sbox(alpha, v[0])] + v[1:])
        else:
            v = full([A.sbox(alpha, x) for x in v])
    return v


def cfg_err(o, bits, w, rf, rp, skip, which):
    want = (0, bits, w, rf, rp, skip, which)
    got = tuple(o.int(i) & (1 if i == 0 else -1) for i in range(7))
    if got[:6] != want[:6]:
        return 'derives its constants from (inverse S-box, bits, width, full, partial, skipped) = %s, not %s' % (got[:6], want[:6])
    if not o.int(7) & 1:
        return 'creates a configuration it calls invalid'


def names(w, n):
    return ['s%d' % i for i in range(w)] + ['k%d_%d' % (i, j) for i in range(n) for j in range(w)]


def j_pos(J, mod, w, rf, rp, alpha, seed):
    fn = 'h_pos_%d_%d_%d' % (w, rf, rp)
    A = PAlg(names(w, rf + rp))
    p = A.char
    S = [A.var('s%d' % i) for i in range(w)]
    K = [[A.var('k%d_%d' % (i, j)) for j in range(w)] for i in range(rf + rp)]
    M = [[pow(seed * (i + 1) + 17 * (j + 1) * (j + 5) + w, -1, p) for j in range(w)] for i in range(w)]
    skip = 5

    def check(fc, o):
        e = cfg_err(o, 254, w, rf, rp, skip, 1)
        if e:
            return e
        want = rounds(A, S, K, rf, rp, alpha, lambda v: lin(A, M, v), lambda v: lin(A, M, v))
        for i, x in enumerate(want):
            if not same(A, fc, o[8 + i], x):
                return 'output %d is not that of the permutation' % i
    J.go(mod, A, 'Poseidon of width %d, %d full and %d partial rounds, matrix %d' % (w, rf, rp, seed), fn,
         S + sum(K, []) + [A.const(x) for r in M for x in r], [skip], Facts(A), check, steps=20000000)


def j_sparse(J, mod, n):
    nm = ['r%d' % i for i in range(n)] + ['c%d' % i for i in range(n - 1)] + ['v%d' % i for i in range(n)]
    A = PAlg(nm, 1)
    v = [A.var(x) for x in nm]
    R, C, V = v[:n], v[n:2 * n - 1], v[2 * n - 1:]
    M = [R] + [[C[i - 1]] + [A.const(int(i == j)) for j in range(1, n)] for i in range(1, n)]

    def check(fc, o):
        for i in range(n):
            for j in range(n):
                if not same(A, fc, o[n * i + j], M[i][j]):
                    return 'Construct: wrong entry (%d, %d)' % (i, j)
        if not o.int(n * n) & 1:
            return 'FromMDSMatrix(Construct()) differs from the matrix'
        for i, x in enumerate(lin(A, M, V)):
            if not same(A, fc, o[n * n + 1 + i], x):
                return 'Apply differs from the product with the constructed matrix at %d' % i
    J.go(mod, A, 'SparseMDSMatrix of size %d' % n, 'h_sparse', v, [n], Facts(A), check)


HZ4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]
P34 = [[2, 3, 1, 1], [1, 2, 3, 1], [1, 1, 2, 3], [3, 1, 1, 2]]


def external(kind, w):
    if w < 4:
        return [[2 if i == j else 1 for j in range(w)] for i in range(w)]
    m = HZ4 if kind == 'hz' else P34
    return [[m[i % 4][j % 4] * (2 if i // 4 == j // 4 and w > 4 else 1) for j in range(w)] for i in range(w)]


def j_ext(J, mod, kind, w):
    A = PAlg(['s%d' % i for i in range(w)], 1)
    S = [A.var('s%d' % i) for i in range(w)]
    M = external(kind, w)

    def check(fc, o):
        for i, x in enumerate(lin(A, M, S)):
            if not same(A, fc, o[i], x):
                return 'Apply is not the product with the external matrix at %d' % i
        if (o.int(w), o.int(w + 1)) != (w, w):
            return 'Construct: wrong shape'
        for i in range(w):
            for j in range(w):
                if not same(A, fc, o[w + 2 + w * i + j], A.const(M[i][j])):
                    return 'Construct: wrong entry (%d, %d)' % (i, j)
    J.go(mod, A, '%s external matrix of width %d' % ({'hz': 'Horizen', 'p3': 'Plonky3'}[kind], w), 'h_ext_%s_%d' % (kind, w), S, [], Facts(A), check)


def j_pos2(J, mod, kind, w, rf, rp, alpha, shifts=None, suffix=''):
    fn = 'h_pos2_%s_%d%s' % ('sh' if shifts else kind, w, suffix)
    nm = names(w, rf + rp) + (['d%d' % i for i in range(w)] if not shifts else [])
    A = PAlg(nm, char=2013265921 if shifts else None)
    S = [A.var('s%d' % i) for i in range(w)]
    K = [[A.var('k%d_%d' % (i, j)) for j in range(w)] for i in range(rf + rp)]
    if shifts:
        D = [A.const(-2)] + [A.const(1 << s) for s in shifts]
    else:
        D = [A.var('d%d' % i) for i in range(w)]
    ins = S + sum(K, []) + ([] if shifts else D)
    arg = sum(s << 8 * i for i, s in enumerate(shifts)) if shifts else 0
    E = external(kind, w)
    scale = A.const(pow(1 << 32, -1, 2013265921)) if shifts else None
    if shifts:
        A.params = {9: scale}

    def part(v):
        s = A.const(0)
        for x in v:
            s = A.add(s, x)
        r = [A.add(A.mul(d, x), s) for d, x in zip(D, v)]
        return [A.mul(scale, x) for x in r] if shifts else r

    def check(fc, o):
        e = cfg_err(o, 31 if shifts else 254, w, rf, rp, 0, 16)
        if e:
            return e
        want = rounds(A, S, K, rf, rp, alpha, lambda v: lin(A, E, v), part, True)
        for i, x in enumerate(want):
            if not same(A, fc, o[8 + i], x):
                return 'output %d is not that of the permutation' % i
    J.go(mod, A, 'Poseidon2 of width %d (%s%s), %d full and %d partial rounds' % (w, kind, ', packed shifts %s' % (shifts,) if shifts else '', rf, rp), fn, ins, [arg], Facts(A), check, steps=20000000)


def j_p3(J, mod, fld, sh, k):
    """one word of the Plonky3 internal matrix on machine words"""
    from words import Run, add, scale, check_field_op

    class Rep:
        functions = J.fn

        def ok(self, w):
            J.ok(w)

        def bad(self, w, x):
            J.bad(w, x)

        def unk(self, w, x):
            J.unk(w, x)
    p = PRIME[fld]
    R = Run(jobs.MODS[mod], Rep(), 'Plonky3 internal matrix over %s, shifts %s, element %d' % (fld, sh, k))
    c = pow(1 << 32, -1, p) if fld != 'mersenne31' else 1

    def tgt(*v):
        s = v[0]
        for x in v[1:]:
            s = add(s, x)
        return scale(add(s, scale(v[k], -2 if k == 0 else 1 << sh[k - 1])), c)
    check_field_op(R, 'h_p3i_%s_%d_%d_%d_%d' % ((fld,) + sh + (k,)), list('ABCD'), 1, 32, p, tgt, what='(1 + diag(-2, 2^s)) v')


def words_of(mod, fn):
    """the constant words a function stores"""
    from words import Dom
    from limb import Facts as LF
    from absint import Interp, Ptr
    dom = Dom()
    for st, ret in Interp(mod, dom).run('@' + fn, [Ptr('R')], LF(), lambda st: (st.mem.__setitem__('R', {}), st.own.add('R'))):
        out, m = [], st.mem['R']
        for o in sorted(m):
            v, n = m[o]
            if not isinstance(v, int):
                raise Undecided('constant not folded')
            out += [v >> 32 * i & 0xffffffff for i in range(max(1, n // 4))]
        return out


def j_diag(J, mod, fld, w):
    """a parameter set's internal matrix: published values, irreducible
    characteristic polynomial (so invertible, no invariant subspace)"""
    from irred import irred, charpoly
    what = 'Poseidon2 internal matrix of width %d over %s' % (w, fld)
    p, n = MOD[fld]
    try:
        l = words_of(jobs.MODS[mod], 'h_diag_%s_%d' % (fld, w))
    except Undecided as e:
        J.unk(what, e)
        return
    v = [sum(x << 32 * k for k, x in enumerate(l[i:i + n])) for i in range(0, len(l), n)]
    d = [x * pow(v[0], -1, p) % p for x in v[1:]]
    matrix(J, what, d, p, w, DIAG[fld, w])


def matrix(J, what, d, p, w, want):
    from irred import irred, charpoly
    if len(d) != w:
        J.bad(what, 'has %d entries' % len(d))
        return
    c = charpoly(d, p)
    if c[0] == 0:
        J.bad(what, 'is singular')
    elif w > 3 and not irred(c, p):
        J.bad(what, 'has a reducible characteristic polynomial')
    elif digest(d) != want:
        J.bad(what, 'differs from the published parameters: %s' % [hex(x) for x in d])
    else:
        J.ok(what)


def digest(d):
    return hashlib.sha256(repr(list(d)).encode()).hexdigest()[:16]


def j_shift(J, mod, fld, w):
    what = 'Poseidon2 shifts of width %d over %s' % (w, fld)
    try:
        s = words_of(jobs.MODS[mod], 'h_shift_%s_%d' % (fld, w))
    except Undecided as e:
        J.unk(what, e)
        return
    p = PRIME[fld]
    if len(s) != w - 1 or max(s) > 23:
        J.bad(what, 'wrong number or size of shifts %s' % s)
    elif w * p + (p << max(s)) >= p << 32 or w * p + (p << max(s)) >= 1 << 62:
        J.bad(what, 'the sums overflow')
    else:
        matrix(J, what, [p - 2] + [1 << x for x in s], p, w, SHIFT[fld, w])


def j_rounds(J, mod, bits, w):
    what = 'Poseidon2 partial rounds for %d bits, width %d' % (bits, w)
    try:
        s = words_of(jobs.MODS[mod], 'h_rounds_%d_%d' % (bits, w))
    except Undecided as e:
        J.unk(what, e)
        return
    if s != ROUNDS[bits, w]:
        J.bad(what, 'for exponents 3, 5, 7, 9, 11: %s' % s)
    else:
        J.ok(what)


ROUNDS = {(31, 16): [20, 14, 13, 13, 13], (31, 24): [23, 22, 21, 21, 21], (64, 8): [41, 27, 22, 19, 17], (64, 16): [42, 27, 22, 20, 18],
          (64, 24): [47, 27, 22, 20, 18], (254, 3): [56] * 5}


class Grain:
    """the Grain LFSR of the Poseidon reference"""

    def __init__(self, inv, bits, w, rf, rp):
        f = lambda v, n: [v >> (n - 1 - i) & 1 for i in range(n)]
        # field type GF(p), S-box type, n, t, R_F, R_P, ones
        self.s = f(1, 2) + f(inv, 4) + f(bits, 12) + f(w, 12) + f(rf, 10) + f(rp, 10) + [1] * 30
        self.n = bits
        for _ in range(160):
            self.bit()

    def bit(self):
        s = self.s
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
        self.s = s[1:] + [b]
        return b

    def num(self):
        v = 0
        for _ in range(self.n):
            while not self.bit():
                self.bit()
            v = v << 1 | self.bit()
        return v

    def reject(self, p, n):
        out = []
        while len(out) < n:
            v = self.num()
            if v < p:
                out.append(v)
        return out

    def modp(self, p, n):
        return [self.num() % p for _ in range(n)]


def j_lfsr(J, mod, inv, w, rf, rp, n, m):
    A = PAlg(['x'], 1, 1099511627791)
    g = Grain(inv, 41, w, rf, rp)
    want = g.reject(A.char, n), g.modp(A.char, m), g.reject(A.char, n)

    def check(fc, o):
        k = 0
        for l in want:
            if (o.int(k), o.int(k + 1)) != (len(l), 1):
                return 'wrong number of elements'
            for i, x in enumerate(l):
                if not same(A, fc, o[k + 2 + i], A.const(x)):
                    return 'element %d differs from the reference generator' % i
            k += 2 + len(l)
    J.go(mod, A, 'Grain LFSR for S-box %d, width %d, rounds %d + %d' % (inv, w, rf, rp), 'h_lfsr', [], [inv, w, rf, rp, n, m], Facts(A), check, steps=20000000)


def j_find(J, mod, w, rf, rp, skip):
    A = PAlg(['x'], 1, 1099511627791)
    p = A.char
    g = Grain(0, 41, w, rf, rp)
    ark = [g.reject(p, w) for _ in range(rf + rp)]
    for _ in range(skip):
        g.modp(p, 2 * w)
    xs, ys = g.modp(p, w), g.modp(p, w)
    mds = [[pow(x + y, -1, p) for y in ys] for x in xs]
    g = Grain(0, 41, w, rf, rp)
    ark2 = [g.reject(p, 1) + [0] * (w - 1) if rf // 2 <= i < rf // 2 + rp else g.reject(p, w) for i in range(rf + rp)]

    def check(fc, o):
        k = 0
        for nm, M in (('round constants', ark), ('MDS matrix', mds), ('Poseidon2 round constants', ark2)):
            if (o.int(k), o.int(k + 1)) != (len(M), w):
                return 'wrong shape of the ' + nm
            for i in range(len(M)):
                for j in range(w):
                    x = o[k + 2 + w * i + j]
                    if not same(A, fc, x, A.const(M[i][j])):
                        return 'wrong entry (%d, %d) of the %s' % (i, j, nm)
            k += 2 + w * len(M)
    J.go(mod, A, 'Poseidon constants for width %d, rounds %d + %d, %d matrices skipped' % (w, rf, rp, skip), 'h_find', [], [w, rf, rp, skip], Facts(A), check, steps=20000000)


MOD = {'baby_bear': (2013265921, 1), 'goldilocks': (2**64 - 2**32 + 1, 2),
       'bn254': (21888242871839275222246405745257275088548364400416034343698204186575808495617, 8),
       'vesta': (28948022309329048855892746252171976963363056481941560715954676764349967630337, 8)}
# digests of the published internal diagonals
DIAG = {('baby_bear', 16): '3959492b81deb58a',
 ('baby_bear', 24): '7371d985bcb2dc72',
 ('bn254', 3): '4c21f3cb28b4800c',
 ('goldilocks', 8): 'e92b66febf2655aa',
 ('goldilocks', 12): '7e778ebff5f9e01a',
 ('goldilocks', 16): '9ead4a4eabcfa63b',
 ('goldilocks', 20): 'fce47dd7b15d5a41',
 ('vesta', 3): '4c21f3cb28b4800c'}
SHIFT = {('baby_bear', 16): 'a39ba89434bc28f5',
 ('baby_bear', 24): 'ea2df61eff3e878e',
 ('koala_bear', 16): '13902d0e90398939',
 ('koala_bear', 24): '6bf3ec19fc44494b',
 ('mersenne31', 16): '46c6c6015559989b',
 ('mersenne31', 24): 'ae8eee6d6e94cbb1'}
PRIME = {'baby_bear': 2013265921, 'koala_bear': 2130706433, 'mersenne31': 2147483647}
FN = {'j_p3': j_p3, 'j_diag': j_diag, 'j_shift': j_shift, 'j_rounds': j_rounds, 'j_lfsr': j_lfsr, 'j_find': j_find, 'j_pos': j_pos, 'j_sparse': j_sparse, 'j_ext': j_ext, 'j_pos2': j_pos2}


def job_list(thorough):
    l = []
    for w, rf, rp, a in ((2, 4, 2, 5), (2, 2, 1, 5), (2, 6, 3, 3), (2, 10, 2, 5), (2, 2, 23, 3), (3, 2, 2, 7), (3, 4, 3, 5)) + (((3, 8, 5, 5),) if thorough else ()):
        for seed in (1, 29) if w < 3 or thorough or rp < 3 else (29,):
            l.append(('j_pos', w, rf, rp, a, seed))
    for c in ((0, 3, 8, 22), (0, 0xaaa, 0x155, 0x2aa), (1, 0x555, 0x2aa, 0x155), (1, 24, 2, 1), (0, 0xfff, 0x3ff, 0x3ff)):
        l.append(('j_lfsr', *c, 2, 2))
    l += [('j_find', *c) for c in ((2, 2, 1, 0), (3, 4, 2, 1), (3, 2, 3, 3))]
    l += [('j_sparse', n) for n in (2, 3, 4, 7)]
    l += [('j_ext', k, w) for k in ('hz', 'p3') for w in (2, 3, 4, 8, 12, 16, 20, 24)]
    for k, w, rf, rp, a in (('hz', 2, 4, 2, 5), ('p3', 2, 4, 3, 5), ('hz', 3, 4, 3, 5), ('p3', 3, 2, 1, 3), ('hz', 4, 4, 2, 5), ('p3', 4, 4, 2, 7),
                            ('hz', 8, 4, 2, 5), ('p3', 8, 2, 2, 7), ('hz', 16, 2, 2, 7), ('p3', 16, 2, 2, 7)):
        l.append(('j_pos2', k, w, rf, rp, a))
    l += [('j_pos2', k, 2, rf, rp, a, None, x) for k, rf, rp, a, x in (('hz', 12, 1, 5, '_12'), ('hz', 2, 23, 3, '_p'), ('p3', 12, 2, 5, '_12'))]
    l += [('j_pos2', 'p3', 4, 4, 2, 7, (0, 1, 15)), ('j_pos2', 'p3', 4, 4, 2, 7, (23, 8, 3)), ('j_pos2', 'hz', 8, 2, 2, 7, (0, 1, 2, 3, 4, 5, 23))]
    return l


def run_all(rep, thorough):
    jobs.MODS['p'] = load_ir(os.path.join(VERIF, 'harness/poseidon.cc'), extra=['-DEIGEN_NO_CPUID'], fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['p' + k] = f
    jobs.MODS['pw'] = load_ir(os.path.join(VERIF, 'harness/poseidon_words.cc'), fresh=True)
    l = [('pj_p3', ('pw', f, sh, k)) for f in PRIME for sh in ((0, 1, 15), (23, 8, 2)) for k in range(4)]
    l += [('pj_diag', ('pw', f, w)) for f, w in DIAG] + [('pj_shift', ('pw', f, w)) for f, w in SHIFT] + [('pj_rounds', ('pw', b, w)) for b, w in ROUNDS]
    run_jobs(rep, l + [('p' + k, ('p', *a)) for k, *a in job_list(thorough)], limit=1500 if thorough else 300)
