"""Evaluation domains and fast Fourier transforms against their definitions."""
from multiprocessing import Pool
from absint import PathAbort, Undecided, UNDEF, Ptr
from alg import Facts, H
from spec import ModAlg, P, root, run, same
from common import load_ir, VERIF
import os

NMAX = {'r2': 16, 'mix': 18}
GEN = {'r2': (32, 0), 'mix': (36, 1)}
MOD = None
M64 = 1 << 64


def gens(n):
    return ['h', 't'] + ['a%d' % i for i in range(n)]


def mkalg(kind, n):
    """-> algebra, generator of order n"""
    o, slot = GEN[kind]
    w = root(o)
    A = ModAlg(gens(max(n, 2)))
    A.params = {slot: A.const(w)}
    if kind == 'mix':
        A.params[0] = A.const(pow(w, 9, P))
    return A, pow(w, o // n, P) if o % n == 0 else None


def base_ins(A, coset, tau=None):
    return [A.var('h') if coset else A.const(1), tau if tau is not None else A.var('t')]


def fac(A, coset):
    f = Facts(A)
    A.assume_nonzero(f, A.var('h'))
    return f


def off(A, coset):
    return A.var('h') if coset else A.const(1)


class Job:
    def __init__(self):
        self.out = []
        self.fn = set()

    def ok(self, w):
        self.out.append(('ok', w, ''))

    def bad(self, w, x):
        self.out.append(('bad', w, x))

    def unk(self, w, x):
        self.out.append(('unk', w, str(x)))


def size_of(kind, n):
    if kind == 'r2':
        s = 1
        while s < n:
            s *= 2
        return s
    return min(s for s in (2 ** a * 3 ** b for a in range(3) for b in range(3)) if s >= n)


def job(spec):
    J = Job()
    try:
        globals()['j_' + spec[0]](J, *spec[1:])
    except (Undecided, KeyError) as e:
        J.unk(' '.join(map(str, spec)), e)
    except RecursionError as e:
        J.unk(' '.join(map(str, spec)), 'recursion')
    return J.out, J.fn


def evalp(A, cs, x):
    r = A.const(0)
    for c in reversed(cs):
        r = A.add(A.mul(r, x), c)
    return r


def go(J, A, w, fn, ins, extra, f, check, steps=3000000):
    res, vf = run(MOD, A, fn, ins, extra, f, steps=steps)
    J.fn |= vf
    if not res:
        J.unk(w, 'no path')
    for fc, o in res:
        if isinstance(o, PathAbort):
            J.bad(w, 'aborts: %s' % o.why)
            return
        try:
            r = check(fc, o)
        except Undecided as e:
            if 'uninitialised' in str(e):
                J.bad(w, 'reads or returns uninitialised data')
                return
            raise
        if r:
            J.bad(w, r)
            return
    J.ok(w)


NAME = {'r2': 'Radix2EvaluationDomain', 'mix': 'MixedRadixEvaluationDomain'}


def cs(coset):
    return 'coset' if coset else 'subgroup'


def j_fft(J, kind, n, coset, ln, mv):
    N = size_of(kind, n)
    A, g = mkalg(kind, N) if True else None
    A, g = mkalg(kind, max(N, 1))
    w = '%s::FFT of %d coefficients over a %s of size %d%s' % (NAME[kind], ln, cs(coset), N, ' (moved)' if mv else '')
    a = [A.var('a%d' % i) for i in range(ln)]
    f = fac(A, coset)
    if ln:
        A.assume_nonzero(f, a[-1])

    def check(fc, o):
        v = o.vec()
        if ln == 0:
            return None if len(v) in (0, N) and all(same(A, fc, x, A.const(0)) for x in v) else 'evaluations of the zero polynomial are not zero'
        if len(v) != N:
            return 'has %d evaluations instead of %d' % (len(v), N)
        for i in range(N):
            x = A.mul(off(A, coset), A.const(pow(g, i, P)))
            if not same(A, fc, v[i], evalp(A, a, x)):
                return 'evaluation %d is not the value of the polynomial at element %d of the domain' % (i, i)
    go(J, A, w, 'fft_' + kind, base_ins(A, coset) + a, [n, int(coset), ln, mv], f, check)


def j_ifft(J, kind, n, coset, ln, mv):
    N = size_of(kind, n)
    A, g = mkalg(kind, max(N, 1))
    w = '%s::IFFT of %d evaluations over a %s of size %d%s' % (NAME[kind], ln, cs(coset), N, ' (moved)' if mv else '')
    # evaluations of the arbitrary polynomial sum b_i x^i
    b = [A.var('a%d' % i) for i in range(N)]
    ev = [evalp(A, b, A.mul(off(A, coset), A.const(pow(g, i, P)))) for i in range(N)]

    def check(fc, o):
        v = o.vec()
        if len(v) > N:
            return 'has %d coefficients' % len(v)
        if v and same(A, fc, v[-1], A.const(0)):
            return 'leading coefficient is zero'
        for i in range(N):
            if not same(A, fc, v[i] if i < len(v) else A.const(0), b[i]):
                return 'coefficient %d is not that of the interpolating polynomial' % i
    go(J, A, w, 'ifft_' + kind, base_ins(A, coset) + ev, [n, int(coset), N, mv], fac(A, coset), check)


def j_info(J, kind, n, coset):
    N = size_of(kind, n)
    A, g = mkalg(kind, N)
    w = '%s of %d coefficients (%s)' % (NAME[kind], n, cs(coset))

    def check(fc, o):
        if o.int(0) != N:
            return 'has size %d instead of %d' % (o.int(0), N)
        h = off(A, coset)
        for k, nm, v in ((2, 'size_as_field_element', A.const(N)), (3, 'size_inv', A.inv(A.const(N))), (4, 'group_gen', A.const(g)),
                         (5, 'group_gen_inv', A.const(pow(g, P - 2, P))), (6, 'offset', h), (7, 'offset_inv', A.inv(h)),
                         (8, 'offset_pow_size', A.pw(h, N))):
            if not same(A, fc, o[k], v):
                return '%s is wrong' % nm
    go(J, A, w, 'info_' + kind, base_ins(A, coset), [n, int(coset)], fac(A, coset), check)

    def check2(fc, o):
        v = o.vec()
        if len(v) != N:
            return 'has %d elements' % len(v)
        for i in range(N):
            if not same(A, fc, v[i], A.mul(off(A, coset), A.const(pow(g, i, P)))):
                return 'element %d is not offset * g^%d' % (i, i)
    go(J, A, w + ': GetElements', 'elements_' + kind, base_ins(A, coset), [n, int(coset)], fac(A, coset), check2)
    for i in (0, 1, 2, N - 1, N, N + 1, -1, -2, -N):
        def check3(fc, o):
            if not same(A, fc, o[0], A.mul(off(A, coset), A.const(pow(g, i % N, P)))):
                return 'is not offset * g^%d' % i
        go(J, A, w + ': GetElement(%d)' % i, 'element_' + kind, base_ins(A, coset), [n, int(coset), i % M64], fac(A, coset), check3)


def hints(A, t, g, N):
    out = []
    for h in (A.var('h'), A.const(1)):
        out += [A.canon(A.sub(t, A.mul(h, A.const(pow(g, i, P)))).n) for i in range(N)]
    return out


def lagr(A, g, N, coset, i, tau):
    """L_i(tau) for tau outside of the domain"""
    h = off(A, coset)
    x = A.mul(h, A.const(pow(g, i, P)))
    z = A.sub(A.pw(tau, N), A.pw(h, N))
    # z / (tau - x) * x / (N h^N)
    return A.mul(A.mul(z, x), A.inv(A.mul(A.mul(A.sub(tau, x), A.const(N)), A.pw(h, N))))


def j_lagr(J, kind, n, coset, frm, to, al):
    N = size_of(kind, n)
    A, g = mkalg(kind, N)
    w = '%s: Lagrange coefficients %s, %s of size %d' % (NAME[kind], 'all' if al else '[%d, %d)' % (frm, to), cs(coset), N)
    h, t = off(A, coset), A.var('t')
    pts = [A.mul(h, A.const(pow(g, i, P))) for i in range(N)]
    A.hints = hints(A, t, g, N)
    rng = range(N) if al else range(frm, to)
    f = fac(A, coset)
    for p in A.hints:
        f.nz.add(p)

    def check(fc, o):
        v = o.vec()
        if len(v) != len(rng):
            return 'gives %d coefficients' % len(v)
        for k, i in enumerate(rng):
            if not same(A, fc, v[k], lagr(A, g, N, coset, i, t)):
                return 'coefficient %d is not the Lagrange basis polynomial at a point outside of the domain' % i
    go(J, A, w, 'lagr_' + kind, base_ins(A, coset), [n, int(coset), frm, to, int(al)], f, check)
    for j in range(N):
        def check2(fc, o):
            v = o.vec()
            if len(v) != len(rng):
                return 'gives %d coefficients' % len(v)
            for k, i in enumerate(rng):
                if not same(A, fc, v[k], A.const(int(i == j))):
                    return 'coefficient %d at domain element %d is not %d' % (i, j, i == j)
        go(J, A, w + ' at domain element %d' % j, 'lagr_' + kind, base_ins(A, coset, pts[j]), [n, int(coset), frm, to, int(al)], fac(A, coset), check2)


def j_vanish(J, kind, n, coset):
    N = size_of(kind, n)
    A, g = mkalg(kind, N)
    h, t = off(A, coset), A.var('t')
    w = '%s: vanishing polynomial, %s of size %d' % (NAME[kind], cs(coset), N)

    def check(fc, o):
        if not same(A, fc, o[0], A.sub(A.pw(t, N), A.pw(h, N))):
            return 'EvaluateVanishingPolynomial is not tau^n - offset^n'
        if o.int(1) != 2 or o.int(2) != 0 or o.int(4) != N or not same(A, fc, o[3], A.neg(A.pw(h, N))) or not same(A, fc, o[5], A.const(1)):
            return 'GetVanishingPolynomial is not x^n - offset^n'
    go(J, A, w, 'vanish_' + kind, base_ins(A, coset), [n, int(coset)], fac(A, coset), check)


def j_filter(J, kind, n, m, coset):
    N, M = size_of(kind, n), size_of(kind, m)
    A, g = mkalg(kind, N)
    h, t = off(A, coset), A.var('t')
    gm = pow(g, N // M, P)
    # value 1 on the subdomain and 0 on the rest of the domain, degree N - M
    w = '%s: filter polynomial of a subdomain of size %d, %s of size %d' % (NAME[kind], M, cs(coset), N)
    A.hints = hints(A, t, g, N)
    want = []
    for i in range(N - M + 1):
        want.append(A.const(0))
    # M/N * (x^N - h^N)/(x^M - h^M) * h^(M-N)
    c = A.mul(A.const(M * pow(N, P - 2, P)), A.inv(A.pw(h, N - M)))
    for k in range(N // M):
        want[k * M] = A.mul(c, A.pw(h, N - M - k * M))

    def check(fc, o):
        v = o.vec()
        for i in range(max(len(v), len(want))):
            a = v[i] if i < len(v) else A.const(0)
            b = want[i] if i < len(want) else A.const(0)
            if not same(A, fc, a, b):
                return 'is not the polynomial that is 1 on the subdomain and 0 on the rest of the domain'
    go(J, A, w, 'filter_' + kind, base_ins(A, coset), [n, m, int(coset), 0], fac(A, coset), check)
    f = fac(A, coset)
    for p in A.hints:
        f.nz.add(p)

    def check2(fc, o):
        if o.int(0) != 0:
            return 'fails'
        if not same(A, fc, o[1], evalp(A, want, t)):
            return 'is not the value of the filter polynomial'
    go(J, A, w + ', evaluated outside of the domain', 'filter_' + kind, base_ins(A, coset), [n, m, int(coset), 1], f, check2)
    for j in range(N):
        def check3(fc, o):
            if o.int(0) != 0:
                return 'fails'
            if not same(A, fc, o[1], A.const(int(j % (N // M) == 0))):
                return 'is not %d' % (j % (N // M) == 0)
        go(J, A, w + ', evaluated at domain element %d' % j, 'filter_' + kind, base_ins(A, coset, A.mul(h, A.const(pow(g, j, P)))),
           [n, m, int(coset), 1], fac(A, coset), check3)


def matcheck(A, want, N, cols):
    def check(fc, o):
        if o.int(0) != N or o.int(1) != cols:
            return 'has shape %dx%d' % (o.int(0), o.int(1))
        for i in range(N):
            for c in range(cols):
                if not same(A, fc, o[2 + i * cols + c], want(i, c)):
                    return 'entry (%d, %d) is wrong' % (i, c)
    return check


def bitrev(i, k):
    return int(format(i, '0%db' % k)[::-1], 2) if k else 0


def j_batch(J, n, cols, inv):
    A, g = mkalg('r2', n)
    A = ModAlg(['h', 't'] + ['a%d' % i for i in range(n * cols)])
    A.params = {0: A.const(root(32))}
    w = 'Radix2EvaluationDomain::%sFFTBatch of %dx%d' % ('I' if inv else '', n, cols)
    a = [A.var('a%d' % i) for i in range(n * cols)]
    gg = pow(g, P - 2, P) if inv else g

    def want(i, c):
        v = evalp(A, [a[r * cols + c] for r in range(n)], A.const(pow(gg, i, P)))
        return A.mul(v, A.const(pow(n, P - 2, P))) if inv else v
    go(J, A, w, 'fftbatch', base_ins(A, False) + a, [n, cols, int(inv)], fac(A, False), matcheck(A, want, n, cols))


def j_lde(J, n, cols, added, how):
    A, g = mkalg('r2', n << added)
    A = ModAlg(['h', 't'] + ['a%d' % i for i in range(n * cols)])
    A.params = {0: A.const(root(32))}
    N = n << added
    k = N.bit_length() - 1
    w = 'Radix2EvaluationDomain::CosetLDEBatch (%s overload, %s) of %dx%d by %d bits' % (
        'lvalue' if how & 1 else 'rvalue', 'bit reversed output' if how & 2 else 'natural order', n, cols, added)
    b = [A.var('a%d' % i) for i in range(n * cols)]
    gn = pow(g, 1 << added, P)
    ev = [evalp(A, [b[r * cols + c] for r in range(n)], A.const(pow(gn, i, P))) for i in range(n) for c in range(cols)]

    def want(i, c):
        if how & 2:
            i = bitrev(i, k)
        return evalp(A, [b[r * cols + c] for r in range(n)], A.mul(A.var('h'), A.const(pow(g, i, P))))
    go(J, A, w, 'lde', base_ins(A, True) + ev, [n, cols, added, how], fac(A, True), matcheck(A, want, N, cols))


def j_hist(J, n):
    A, g = mkalg('r2', 2 * n)
    A = ModAlg(['h', 't'] + ['a%d' % i for i in range(2 * n)])
    A.params = {0: A.const(root(32))}
    w = 'Radix2EvaluationDomain of size %d created after CosetLDEBatch cached packed-only twiddles: FFT' % (2 * n)
    a = [A.var('a%d' % i) for i in range(2 * n)]
    f = fac(A, True)
    A.assume_nonzero(f, a[-1])

    def check(fc, o):
        v = o.vec()
        if len(v) != 2 * n:
            return 'has %d evaluations' % len(v)
        for i in range(2 * n):
            if not same(A, fc, v[i], evalp(A, a, A.const(pow(g, i, P)))):
                return 'evaluation %d is wrong' % i
    go(J, A, w, 'fft_after_lde', base_ins(A, True) + a, [n], f, check)


def jobs(thorough):
    out = []
    for kind, ns in (('r2', (1, 2, 3, 4, 8, 16) + ((32,) if thorough else ())), ('mix', (2, 3, 4, 5, 6, 9, 11, 18) + ((36,) if thorough else ()))):
        for n in ns:
            N = size_of(kind, n)
            for coset in (False, True):
                out.append(('info', kind, n, coset))
                if n != N:
                    continue
                lens = range(N + 1) if N <= 9 else (0, 1, 2, 3, 4, 5, 7, 8, 9, N - 1, N)
                for ln in lens:
                    out.append(('fft', kind, n, coset, ln, ln % 2))
                out.append(('fft', kind, n, coset, N, 1 - N % 2))
                out.append(('ifft', kind, n, coset, N, 0))
                out.append(('ifft', kind, n, coset, N, 1))
                if N <= 9:
                    out.append(('lagr', kind, n, coset, 0, N, True))
                    for fr, to in ((1, N), (0, N - 1), (2, 3), (1, N - 1)):
                        if 0 <= fr < to <= N:
                            out.append(('lagr', kind, n, coset, fr, to, False))
                out.append(('vanish', kind, n, coset))
                if N <= 9:
                    for m in range(1, N):
                        if N % m == 0 and size_of(kind, m) == m:
                            out.append(('filter', kind, n, m, coset))
    for n in (2, 4, 8, 16):
        for inv in (False, True):
            out.append(('batch', n, 2 if n < 16 else 1, inv))
    for n in (2, 4, 8):
        for added in (0, 1, 2):
            for how in range(4):
                out.append(('lde', n, 2 if n < 8 else 1, added, how))
    out.append(('hist', 4))
    return out


def run_all(rep, thorough):
    global MOD
    MOD = load_ir(os.path.join(VERIF, 'harness/domains.cc'), extra=['-fno-access-control'])
    js = jobs(thorough)
    js.sort(key=lambda j: -sum(x for x in j if isinstance(x, int)))
    with Pool(8) as p:
        for out, fn in p.imap_unordered(job, js, 1):
            rep.functions |= fn
            for k, w, x in out:
                getattr(rep, k)(*((w,) if k == 'ok' else (w, x)))
