"""Merkle trees, sponges and challengers over opaque hash functions and
permutations against their definitions."""
import hashlib
import itertools
import os
from absint import Ptr, Undecided
from alg import Facts
from llir import Ty
from spec import ModAlg, same, cases
from common import load_ir, VERIF
import jobs
from jobs import run_jobs
from poly import nonzero

I64, I32 = Ty('int', 64), Ty('int', 32)
P32 = {0: (15 * (1 << 27) + 1, 1 << 32), 1: ((1 << 31) - 1, 1)}
PBIG = sum(l << 64 * i for i, l in enumerate((4891460686036598785, 2896914383306846353, 13281191951274694749, 3486998266802970665)))


def mode3(mod):
    return mod.endswith('3')


class HAlg(ModAlg):
    """adds an opaque function: equal arguments give equal results, anything
    else is unrelated"""

    def __init__(self, names, fresh=140):
        ModAlg.__init__(self, list(names) + ['y%d' % i for i in range(fresh)])
        self.tab = {}
        self.used = 0
        self.ext = {'vh_fn': self.x_fn, 'vh_perm32': self.x_perm32, 'vh_permbig': self.x_permbig}

    def fn(self, tag, args, m):
        k = (tag, m, tuple((h.n, h.d) for h in map(self.h, args)))
        if k not in self.tab:
            # the same arguments written with other denominators
            for t, v in self.tab.items():
                if t[0] == tag and t[1] == m and len(t[2]) == len(k[2]) and all(a == b or a[0] * b[1] == b[0] * a[1] for a, b in zip(t[2], k[2])):
                    self.tab[k] = v
                    return v
            self.tab[k] = [self.var('y%d' % (self.used + i)) for i in range(m)]
            self.used += m
        return self.tab[k]

    def x_fn(self, st, a, inst):
        tag, p, n, q, m = a
        if not all(isinstance(x, int) for x in (tag, n, m)) or n > 64:
            raise Undecided('opaque function of an unknown number of arguments')
        args = [self.interp.load(st, Ptr(p.obj, p.off + 8 * i), I64) for i in range(n)]
        for i, v in enumerate(self.fn(tag, args, m)):
            self.interp.store(st, Ptr(q.obj, q.off + 8 * i), I64, v)

    def words(self, st, p, n, ty, size):
        r = [self.interp.load(st, Ptr(p.obj, p.off + size * i), ty) for i in range(n)]
        if any(not isinstance(x, int) for x in r):
            raise Undecided('permutation of unknown values')
        return r

    def x_perm32(self, st, a, inst):
        p, n, mont = a
        m, r = P32[0 if mont else 1]
        v = [x * pow(r, -1, m) % m for x in self.words(st, p, n, I32, 4)]
        for i, x in enumerate(perm32(v, m)):
            self.interp.store(st, Ptr(p.obj, p.off + 4 * i), I32, x * r % m)

    def x_permbig(self, st, a, inst):
        p, n = a
        v = self.words(st, p, 4 * n, I64, 8)
        for i, x in enumerate(permbig([sum(v[4 * k + j] << 64 * j for j in range(4)) for k in range(n)])):
            for j in range(4):
                self.interp.store(st, Ptr(p.obj, p.off + 32 * i + 8 * j), I64, x >> 64 * j & (1 << 64) - 1)


def rnd(tag, v, i, m):
    return int.from_bytes(hashlib.sha512(repr((tag, v, i)).encode()).digest(), 'big') % m


def perm32(v, m):
    return [rnd('p32', v, i, m) for i in range(len(v))]


def permbig(v):
    return [rnd('big', v, i, PBIG) for i in range(len(v))]


def clog(n):
    return (n - 1).bit_length()


def equal_iff(A, want, got):
    """flag is true exactly when the two lists agree"""
    def f(fc, flag):
        for q, b in cases(A, fc, flag):
            eq = [same(A, q, x, y) for x, y in zip(want, got)]
            if b and not all(eq):
                return 'accepts a wrong proof'
            if not b and not any(nonzero(A, q, A.sub(x, y)) for x, y in zip(want, got)):
                return 'rejects a right proof'
    return f


# --- binary Merkle tree

def tree(A, leaves):
    """node values in heap order"""
    l = [A.fn(1, [x], 1)[0] for x in leaves]
    out = l
    while len(l) > 1:
        l = [A.fn(2, [l[i], l[i + 1]], 1)[0] for i in range(0, len(l), 2)]
        out = l + out
    return out


def j_bin(J, mod, n, thr, idx):
    A = HAlg(['l%d' % i for i in range(n)])
    L = [A.var('l%d' % i) for i in range(n)]
    ok = n > 0 and n & (n - 1) == 0 and n <= 16
    T = tree(A, L) if ok else None

    def check(fc, o):
        if bool(o.int(0)) != ok:
            return 'refuses the leaves' if ok else 'accepts a number of leaves that is not a power of two or is too large'
        if not ok:
            return
        if not same(A, fc, o[1], T[0]):
            return 'commits to a wrong root'
        t = o.vec(2)
        if len(t) != 2 * n - 1 or not all(same(A, fc, x, y) for x, y in zip(t, T)):
            return 'stores a wrong node'
        k = 3 + len(t)
        if not o.int(k):
            return 'cannot open'
        d, k = o.int(k + 1), k + 2
        if d != clog(n):
            return 'opens with a path of length %d' % d
        i = n - 1 + idx
        for j in range(d):
            s = (i - 1 ^ 1) + 1 if i else 0
            if bool(o.int(k) & 1) != (i % 2 == 0) or not same(A, fc, o[k + 1], T[s]):
                return 'opens with a wrong sibling at level %d' % j
            i, k = (i - 1) // 2, k + 2
        if not o.int(k) & 1:
            return 'does not accept its own proof'
    J.go(mod, A, 'BinaryMerkleTree of %d leaves, threshold %s, opened at %d' % (n, thr or 'default', idx), 'h_bin', L, [n, thr, idx], Facts(A), check)


def j_binv(J, mod, n):
    for bits in range(1 << n):
        A = HAlg(['root', 'leaf'] + ['s%d' % i for i in range(n)])
        root, leaf = A.var('root'), A.var('leaf')
        S = [A.var('s%d' % i) for i in range(n)]
        h = leaf
        for i in range(n):
            h = A.fn(2, [S[i], h] if bits >> i & 1 else [h, S[i]], 1)[0]
        e = equal_iff(A, [root], [h])
        J.go(mod, A, 'BinaryMerkleTree verification of a path of %d, sides %s' % (n, bin(bits)), 'h_binv', [root, leaf] + S, [n, bits], Facts(A),
             lambda fc, o: e(fc, o[0]))


# --- mixed matrices

class Mats:
    def __init__(self, shapes, ext):
        self.shapes, self.deg = shapes, 2 if ext else 1
        self.names = ['m%d_%d_%d_%d' % (k, i, j, c) for k, (r, w) in enumerate(shapes) for i in range(r) for j in range(w) for c in range(self.deg)]

    def fill(self, A):
        it = iter([A.var(n) for n in self.names])
        self.m = [[[next(it) for _ in range(w * self.deg)] for _ in range(r)] for r, w in self.shapes]
        self.ins = [len(self.shapes)] + [x for s in self.shapes for x in s] + [x for m in self.m for r in m for x in r]

    def layers(self, A):
        """digest layers of the tree, leaves first"""
        order = sorted(range(len(self.shapes)), key=lambda k: -self.shapes[k][0])
        top = self.shapes[order[0]][0]
        zero = [A.const(0)] * 2
        L = [[A.fn(3, sum((self.m[k][i] for k in order if self.shapes[k][0] == top), []), 2) if i < top else zero for i in range(1 << clog(top))]]
        while len(L[-1]) > 1:
            p = L[-1]
            l = [A.fn(4, p[2 * i] + p[2 * i + 1], 2) for i in range(len(p) // 2)]
            inj = [k for k in order if self.shapes[k][0] < top and 1 << clog(self.shapes[k][0]) == len(l)]
            if inj:
                rows = self.shapes[inj[0]][0]
                l = [A.fn(4, x + (A.fn(3, sum((self.m[k][i] for k in inj), []), 2) if i < rows else zero), 2) for i, x in enumerate(l)]
            L.append(l)
        return L


def j_commit(J, mod, shapes, ext, mode, idx):
    M = Mats(shapes, ext)
    A = HAlg(M.names)
    M.fill(A)
    L = M.layers(A)
    top = max(r for r, _ in shapes)
    lg = clog(top)

    def check(fc, o):
        if not o.int(0) & 1:
            return 'cannot commit'
        if not all(same(A, fc, o[1 + i], L[-1][0][i]) for i in range(2)):
            return 'commits to a wrong root'
        if not o.int(3) & 1:
            return 'cannot open'
        if o.int(4) != top:
            return 'reports %d rows' % o.int(4)
        if o.int(5) != len(shapes):
            return 'opens %d matrices' % o.int(5)
        k = 6
        for q, (r, w) in enumerate(shapes):
            row = M.m[q][idx >> lg - clog(r)]
            if o.int(k) != w:
                return 'opens %d columns of matrix %d' % (o.int(k), q)
            k += 1
            for x in row:
                if not same(A, fc, o[k], x):
                    return 'opens a wrong row of matrix %d' % q
                k += 1
        if o.int(k) != lg:
            return 'opens with a path of length %d' % o.int(k)
        k += 1
        for i in range(lg):
            for j in range(2):
                if not same(A, fc, o[k], L[i][idx >> i ^ 1][j]):
                    return 'opens with a wrong sibling at level %d' % i
                k += 1
        if not o.int(k) & 1:
            return 'does not accept its own proof'
    J.go(mod, A, 'MMCS%s commits%s to %s and opens row %d' % ((' over an extension field', ' (extension wrapper)')[ext - 1] if ext else '', ' (owned)' if mode else '', name(shapes), idx),
         'h_commit', M.ins, [ext, mode, idx], Facts(A), check)


def name(shapes):
    return ', '.join('%dx%d' % s for s in shapes)


def j_verify(J, mod, shapes, ext, idx, more=0):
    deg = 2 if ext else 1
    top = max(r for r, _ in shapes)
    lg = clog(top) + more
    names = ['o%d_%d' % (k, i) for k, (_, w) in enumerate(shapes) for i in range(w * deg)] + ['c0', 'c1'] + ['s%d_%d' % (i, j) for i in range(lg) for j in range(2)]
    A = HAlg(names)
    O = [[A.var('o%d_%d' % (k, i)) for i in range(w * deg)] for k, (_, w) in enumerate(shapes)]
    C = [A.var('c0'), A.var('c1')]
    S = [[A.var('s%d_%d' % (i, j)) for j in range(2)] for i in range(lg)]
    order = sorted(range(len(shapes)), key=lambda k: -shapes[k][0])

    def at(h):
        return sum((O[k] for k in order if 1 << clog(shapes[k][0]) == h), [])
    r = A.fn(3, at(1 << lg), 2)
    i, h = idx, 1 << lg
    for s in S:
        r = A.fn(4, s + r if i & 1 else r + s, 2)
        i, h = i >> 1, h >> 1
        if at(h):
            r = A.fn(4, r + A.fn(3, at(h), 2), 2)
    ins = [len(shapes)] + [x for s in shapes for x in s] + [x for o in O for x in o] + C + [lg] + [x for s in S for x in s]
    if more:
        # the path has a wrong length: refused whatever it holds
        return J.go(mod, A, 'MMCS%s refuses a path of %d siblings for row %d of %s' % ((' over an extension field', ' (extension wrapper)')[ext - 1] if ext else '', lg, idx, name(shapes)),
                    'h_verify', ins, [ext, idx], Facts(A), lambda fc, o: 'a path of a wrong length is accepted' if o.int(0) & 1 else None, may_abort=lambda fc, o: True)
    e = equal_iff(A, C, r)
    J.go(mod, A, 'MMCS%s verifies an arbitrary proof for row %d of %s' % ((' over an extension field', ' (extension wrapper)')[ext - 1] if ext else '', idx, name(shapes)),
         'h_verify', ins, [ext, idx], Facts(A), lambda fc, o: e(fc, o[0]))


def j_commit1(J, mod, how, n):
    M = Mats([(n, 1)], 0)
    A = HAlg(M.names)
    M.fill(A)
    r = M.layers(A)[-1][0]
    J.go(mod, A, 'MMCS commits to %s of %d' % (('a vector', 'an owned vector', 'one matrix', 'one owned matrix')[how], n), 'h_commit1', [x[0] for x in M.m[0]], [how, n], Facts(A),
         lambda fc, o: None if o.int(0) & 1 and same(A, fc, o[1], r[0]) and same(A, fc, o[2], r[1]) else 'commits to a wrong root')


# --- sponges

SP = {0: (2, 1), 1: (3, 1)}


def go_ops(J, mod, A, w, fn, ins, ops, extra, check):
    """the operation codes follow the inputs in the same block"""
    k = len(ins)
    J.go(mod, A, w, fn, list(ins) + list(ops), [Ptr('IN', 8 * k), len(ops), *extra], Facts(A), check)


def j_sponge(J, mod, which, seqs):
    rate, cap = SP[which]
    for seq in seqs:
        nin = sum(c for op, c in seq if op == 0)
        A = HAlg(['t%d' % i for i in range(rate + cap)] + ['x%d' % i for i in range(nin)])
        st = [A.var('t%d' % i) for i in range(rate + cap)]
        S = list(st)
        X = iter([A.var('x%d' % i) for i in range(nin)])
        ins = list(st)
        want = []
        mode, i = 'a', 0
        num = 7
        for op, c in seq:
            if op in (0, 2):
                want.append(1)
                if mode == 's':
                    S = A.fn(5, S, rate + cap)
                    mode, i = 'a', 0
                S = list(S)
                for _ in range(c):
                    if i == rate:
                        S, i = list(A.fn(5, S, rate + cap)), 0
                    if op == 0:
                        x = next(X)
                        ins.append(x)
                    else:
                        ins.append(num)
                        x = A.const(num)
                        num = num * 5 + 1
                    S[cap + i] = A.add(S[cap + i], x)
                    i += 1
            else:
                want.append(c)
                if mode == 'a':
                    S = A.fn(5, S, rate + cap)
                    mode, i = 's', 0
                for _ in range(c):
                    if i == rate:
                        S, i = A.fn(5, S, rate + cap), 0
                    want.append(S[cap + i])
                    i += 1
        want += list(S)

        def check(fc, o):
            for k, x in enumerate(want):
                if isinstance(x, int):
                    if (o.int(k) & 0xff) != x:
                        return 'fails or has a wrong number of results'
                elif not same(A, fc, o[k], x):
                    return 'has a wrong element %d' % k
        go_ops(J, mod, A, 'sponge of rate %d: %s' % (rate, ', '.join('%s %d' % (('absorb', 'squeeze', 'absorb integers', 'squeeze field elements')[op], c) for op, c in seq)),
               'h_sponge', ins, [x for s in seq for x in s], [which], check)


PFS = {0: (2, 3, 2), 1: (3, 4, 1), 2: (2, 4, 4)}
TP = {3: (4, 2, 2), 4: (4, 1, 3), 5: (3, 1, 2)}


def j_pfs(J, mod, which, n):
    A = HAlg(['x%d' % i for i in range(max(n, 1))])
    X = [A.var('x%d' % i) for i in range(n)]
    if which in PFS:
        rate, width, out = PFS[which]
        S = [A.const(0)] * width
        for i in range(0, n, rate):
            S = list(S)
            S[:len(X[i:i + rate])] = X[i:i + rate]
            S = A.fn(5, S, width)
        w = 'PaddingFreeSponge of rate %d, %d outputs, %d inputs' % (rate, out, n)
    else:
        width, out, k = TP[which]
        S = A.fn(5, X + [A.const(0)] * (width - n), width)
        w = 'TruncatedPermutation of %d chunks of %d' % (k, out)
    J.go(mod, A, w, 'h_pfs', X, [n, which], Facts(A), lambda fc, o: None if all(same(A, fc, o[i], S[i]) for i in range(out)) else 'has a wrong digest')


# --- challengers

DU = {0: (2, 3), 1: (3, 4), 2: (2, 4)}


class Duplex:
    def __init__(self, rate, perm, zero):
        self.rate, self.perm = rate, perm
        self.S, self.inp, self.out = zero, [], []

    def observe(self, x):
        self.out = []
        self.inp.append(x)
        if len(self.inp) == self.rate:
            self.duplex()

    def sample(self):
        if self.inp or not self.out:
            self.duplex()
        return self.out.pop()

    def duplex(self):
        self.S = self.perm(self.inp + list(self.S[len(self.inp):]))
        self.inp, self.out = [], list(self.S)


class MultiField:
    """packs elements of a 31-bit field into a big field"""

    def __init__(self, p):
        self.p = p
        self.S, self.inp, self.out = [0, 0], [], []

    def observe(self, x):
        self.out = []
        self.inp.append(x)
        if len(self.inp) == 6:
            self.duplex()

    def sample(self):
        if self.inp or not self.out:
            self.duplex()
        return self.out.pop()

    def duplex(self):
        for i in range(0, len(self.inp), 3):
            self.S[i // 3] = sum(v << 32 * j for j, v in enumerate(self.inp[i:i + 3])) % PBIG
        self.S = permbig(self.S)
        self.inp = []
        self.out = [(s >> 64 * j & (1 << 64) - 1) % self.p for s in self.S for j in range(3)]


class HashC:
    def __init__(self, A, init):
        self.A, self.inp, self.out = A, list(init), []

    def observe(self, x):
        self.out = []
        self.inp.append(x)

    def sample(self):
        if not self.out:
            self.out = list(self.A.fn(6, self.inp, 3))
            self.inp = list(self.out)
        return self.out.pop()


NOBS = {0: 1, 2: 2, 3: 3}
NSAM = {1: 1, 4: 2, 5: 2}
OPN = ('observe', 'sample', 'observe container', 'observe nested container', 'sample array', 'sample extension element')


def j_chal(J, mod, which, seqs, init=None):
    for seq in seqs:
        n = sum(NOBS.get(op, 0) for op in seq)
        A = HAlg(['x%d' % i for i in range(n)] + ['i%d' % i for i in range(init or 0)])
        X = [A.var('x%d' % i) for i in range(n)]
        I = [A.var('i%d' % i) for i in range(init or 0)]
        if which in DU:
            rate, width = DU[which]
            c = Duplex(rate, lambda s: A.fn(5, s, width), [A.const(0)] * width)
        else:
            c = HashC(A, I)
        want, k = [], 0
        for op in seq:
            for _ in range(NOBS.get(op, 0)):
                c.observe(X[k])
                k += 1
            want += [c.sample() for _ in range(NSAM.get(op, 0))]

        def check(fc, o):
            for k, x in enumerate(want):
                if not same(A, fc, o[k], x):
                    return 'sample %d is wrong' % k
        kind = 'DuplexChallenger of rate %d, width %d' % DU[which] if which in DU else 'HashChallenger'
        if init is None:
            go_ops(J, mod, A, '%s: %s' % (kind, ', '.join(OPN[op] for op in seq)), 'h_duplex', X, seq, [which], check)
        else:
            k = len(I) + len(X)
            go_ops(J, mod, A, '%s with %d initial inputs: %s' % (kind, init, ', '.join(OPN[op] for op in seq)), 'h_hashc', I + X, seq, [init], check)


def j_c32(J, mod, which, prog):
    """prog: list of (op, args)"""
    p = P32[which & 1][0]
    A = HAlg(['x'])
    mk = {0: lambda: Duplex(2, lambda s: perm32(s, p), [0] * 4), 1: lambda: Duplex(3, lambda s: perm32(s, p), [0] * 4)}.get(which, lambda: MultiField(p))
    c = mk()
    import copy
    want, ins = [], []

    def wit(c, bits, w):
        c.observe(w)
        return c.sample() & (1 << bits) - 1 == 0
    for op, *a in prog:
        ins += [op] + a
        if op == 0:
            c.observe(a[0] % p)
        elif op == 1:
            want.append([c.sample()])
        elif op == 2:
            want.append([c.sample() & (1 << a[0]) - 1])
        elif op == 3:
            want.append([int(wit(c, a[0], a[1] % p))])
        elif op == 4:
            good = [w for w in range(a[1], a[2]) if wit(copy.deepcopy(c), a[0], w)]
            want.append(good)
            if not good:
                break
            # the first good witness: one thread searches in order
            wit(c, a[0], good[0])
            want[-1] = good[:1]
        elif op == 5:
            good = wit(copy.deepcopy(c), a[0], a[3]) and any(wit(copy.deepcopy(c), a[0], w) for w in range(a[1], a[2]))
            want.append([1] if good else [])
            if not good:
                break
            wit(c, a[0], a[3])
    fails = bool(want) and not want[-1]

    def check(fc, o):
        if fails:
            return 'accepts a bad witness'
        for k, w in enumerate(want):
            x = o.int(k)
            if prog and w == [1] and x & 1:
                continue
            if x not in w and not (w == [0] and x & 0xff == 0):
                return 'result %d is %d' % (k, x)
    w = '%s over %s: %s' % (('DuplexChallenger', 'DuplexChallenger', 'MultiField32Challenger', 'MultiField32Challenger')[which], ('BabyBear', 'Mersenne31')[which & 1],
                            ' '.join('.'.join(map(str, x)) for x in prog))
    if mode3(mod):
        w += ' (three chunks)'
    J.go(mod, A, w, 'h_c32', ins, [len(prog), which], Facts(A), check, may_abort=lambda fc, r: fails and 'CHECK' in r.why)


FN = {f.__name__: f for f in (j_bin, j_binv, j_commit, j_verify, j_commit1, j_sponge, j_pfs, j_chal, j_c32)}


def chunk(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


SHAPES = ([(1, 1)], [(1, 2)], [(2, 1)], [(3, 2)], [(4, 1)], [(5, 1)], [(8, 1)], [(2, 1), (2, 2)], [(4, 1), (2, 2)], [(2, 2), (4, 1)], [(4, 1), (1, 1)], [(1, 2), (4, 1)],
          [(4, 1), (2, 1), (1, 1)], [(1, 1), (4, 1), (2, 1), (4, 2), (2, 2), (1, 2)], [(8, 1), (3, 1)], [(5, 1), (3, 1)], [(8, 1), (2, 1)], [(7, 1), (4, 1), (1, 1)],
          [(2, 1), (8, 1), (2, 2)], [(8, 1), (4, 1), (2, 1), (1, 1)])


def rows(shapes):
    """rows that exist in every matrix"""
    top = max(r for r, _ in shapes)
    lg = clog(top)
    return [i for i in range(top) if all(i >> lg - clog(r) < r for r, _ in shapes)]


def job_list(thorough):
    out = []
    for n in (1, 2, 4, 8, 16):
        for thr in (0, 1, 2, 4, 8):
            if thr < n or not thr:
                for i in range(n) if (n <= 8 or thorough) and thr in (0, 2) else (0, n - 1):
                    out.append(('j_bin', n, thr, i))
    out += [('j_bin', n, 0, 0) for n in (0, 3, 5, 6, 7, 12, 17, 32)]
    out += [('j_binv', n) for n in range(5)]
    for s in SHAPES:
        for ext in (0, 1, 2):
            if ext and sum(r * c for r, c in s) > 12:
                continue
            for mode in (0, 1):
                R = rows(s)
                for i in R if mode == 0 else R[-1:]:
                    out.append(('j_commit', list(s), ext, mode, i))
            for i in rows(s) if thorough or not ext else rows(s)[-2:]:
                out.append(('j_verify', list(s), ext, i))
            for m in (-2, -1, 1, 2):
                if clog(max(r for r, _ in s)) + m >= 0:
                    for i in rows(s)[:1] + rows(s)[-1:] if m < 2 else rows(s)[:1]:
                        out.append(('j_verify', list(s), ext, i, m))
    out += [('j_commit1', how, n) for how in range(4) for n in (1, 3, 4)]
    for which, m in ((0, 5), (1, 7)):
        seqs = []
        for k in (1, 2, 3):
            for s in itertools.product((0, 1), repeat=k):
                for c in itertools.product(range(1, m + 1) if k < 3 or which == 0 and thorough else range(1, SP[which][0] + 2), repeat=k):
                    seqs.append(list(zip(s, c)))
        for k in (4, 5):
            for s in itertools.product((0, 1), repeat=k):
                for c in itertools.product((1, 2) if which == 0 else (1, 3), repeat=k):
                    if which == 0 or k == 4:
                        seqs.append(list(zip(s, c)))
        seqs += [[(2, 1)], [(2, 3), (1, 2)], [(0, 1), (2, 2), (3, 3)], [(1, 1), (2, 4), (3, 1), (3, 2)]]
        out += [('j_sponge', which, s) for s in chunk(seqs, 40)]
    out += [('j_pfs', w, n) for w in PFS for n in range(0, 8)] + [('j_pfs', w, TP[w][1] * TP[w][2]) for w in TP]
    for which in (0, 1, 2, 3):
        for k in range(1, 10 if thorough else 8):
            seqs = [s for s in itertools.product((0, 1), repeat=k) if s[-1] == 1]
            out += [('j_chal', which, s) for s in chunk(seqs, 40)]
        seqs = [s for k in (1, 2, 3) for s in itertools.product((0, 2, 3, 4, 5), repeat=k) if s[-1] in NSAM]
        out += [('j_chal', which, s) for s in chunk(seqs, 40)]
    for init in (0, 1, 3):
        seqs = [s for k in range(1, 5) for s in itertools.product((0, 1), repeat=k) if s[-1] == 1]
        out.append(('j_chal', 3, seqs, init))
    for which in range(4):
        base = [[0, 5], [0, 1 << 30], [1], [2, 5], [0, 3], [2, 1], [2, 30], [1], [1], [1], [1], [1], [1], [1], [2, 0], [2, 27]]
        out.append(('j_c32', which, base))
        # enough samples to use every digit, and a partial block
        out.append(('j_c32', which, [[0, 11 * i + 2] for i in range(7)] + [[1]] * 13))
        for k in (*range(1, 8), 10, 11, 13, 16):
            out.append(('j_c32', which, [[0, (i * 0x12345677 + 99) % 0x78000001] for i in range(k)] + [[1], [0, 2], [1], [1]]))
        for w in range(8):
            out.append(('j_c32', which, [[0, 7], [3, 1, w], [1]]))
        for b in (1, 2, 3):
            out.append(('j_c32', which, [[0, 9], [4, b, 0, 60], [1]]))
            out.append(('j_c32', which, [[0, 9], [0, 8], [4, b, 3, 50], [1], [3, 1, 4]]))
            for w in range(6):
                out.append(('j_c32', which, [[0, 9], [5, b, 0, 60, w], [1]]))
        out.append(('j_c32', which, [[0, 9], [4, 20, 0, 3], [1]]))
    return out


TREES = ('j_bin', 'j_binv', 'j_commit', 'j_verify', 'j_commit1')


def run_all(rep, thorough, trees):
    jobs.MODS['h'] = load_ir(os.path.join(VERIF, 'harness/hash.cc'), fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['h' + k] = f
    l = [('h' + k, ('h', *a)) for k, *a in job_list(thorough) if (k in TREES) == trees]
    if not trees:
        jobs.MODS['h3'] = load_ir(os.path.join(VERIF, 'harness/hash.cc'), extra=['-DTACHYON_HAS_OPENMP', '-I', os.path.join(VERIF, 'harness/omp')], fresh=True)
        l += [('hj_c32', ('h3', *a)) for k, *a in job_list(thorough) if k == 'j_c32' and any(x[0] in (4, 5) for x in a[1])]
    run_jobs(rep, l, limit=250)
