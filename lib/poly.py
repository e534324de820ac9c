"""Univariate polynomials (dense, sparse, evaluation form) and interpolation
against coefficient arithmetic over an arbitrary field."""
import os
from absint import Undecided
from alg import Facts
from spec import ModAlg, cases, same
from common import load_ir, VERIF
import jobs
from jobs import run_jobs

KMAX = 31
NAME = {'D': 'dense', 'S': 'sparse', 'E': 'evaluation form'}


def degs(kind, m):
    return [i for i in range(KMAX + 1) if m >> i & 1] if kind == 'S' else list(range(m))


class P:
    """operand: coefficient list (index -> handle)"""

    def __init__(self, A, kind, m, pre):
        self.kind, self.m = kind, m
        d = degs(kind, m)
        self.vars = [A.var(pre + str(i)) for i in range(len(d))]
        n = (d[-1] + 1) if d else 0
        self.c = [A.const(0)] * n
        for x, v in zip(d, self.vars):
            self.c[x] = v

    def nz(self, A, f):
        if self.kind == 'D' and self.vars:
            A.assume_nonzero(f, self.vars[-1])
        if self.kind == 'S':
            for v in self.vars:
                A.assume_nonzero(f, v)

    def __str__(self):
        if self.kind == 'S':
            return 'sparse polynomial with degrees %s' % degs('S', self.m)
        return '%s polynomial of %d %s' % (NAME[self.kind], self.m, 'values' if self.kind == 'E' else 'coefficients')


def read(o, at):
    """-> (kind, [(degree, handle)], next)"""
    k, n = o.int(at), o.int(at + 1)
    if n > 200:
        raise Undecided('implausible size')
    at += 2
    if k == 1:
        return 'S', [(o.int(at + 2 * i), o[at + 2 * i + 1]) for i in range(n)], at + 2 * n
    return ('D' if k == 0 else 'E'), [(i, o[at + i]) for i in range(n)], at + n


def nonzero(A, f, x):
    return A.decide(f, ('eq', A.h(x).n)) is False


def cmp(A, f, got, want, what='result'):
    """got: (kind, terms); want: coefficient list"""
    kind, t = got
    if kind == 'S':
        if any(t[i][0] >= t[i + 1][0] for i in range(len(t) - 1)):
            return '%s has unsorted or repeated terms' % what
        for d, c in t:
            if not nonzero(A, f, c):
                return '%s keeps a term of degree %d that can be zero' % (what, d)
    elif kind == 'D':
        if t and not nonzero(A, f, t[-1][1]):
            return '%s keeps a leading coefficient that can be zero' % what
    d = dict(t)
    if kind == 'E':
        if len(t) != len(want) and not all(same(A, f, w, A.const(0)) for w in want):
            return '%s has %d values instead of %d' % (what, len(t), len(want))
        if len(t) != len(want):
            return None if all(same(A, f, x, A.const(0)) for _, x in t) else '%s is not zero' % what
    for i in range(max(len(want), max(d, default=-1) + 1)):
        if not same(A, f, d.get(i, A.const(0)), want[i] if i < len(want) else A.const(0)):
            return '%s has a wrong %s %d' % (what, 'value' if kind == 'E' else 'coefficient', i)


def padd(A, a, b, sg=1):
    n = max(len(a), len(b))
    z = A.const(0)
    g = lambda x, i: x[i] if i < len(x) else z
    return [A.add(g(a, i), g(b, i)) if sg > 0 else A.sub(g(a, i), g(b, i)) for i in range(n)]


def pmul(A, a, b):
    if not a or not b:
        return []
    r = [A.const(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x.n == 0:
            continue
        for j, y in enumerate(b):
            r[i + j] = A.add(r[i + j], A.mul(x, y))
    return r


def pdivmod(A, a, b, linv):
    """long division by b whose last coefficient has inverse linv"""
    r = list(a)
    q = [A.const(0)] * max(len(a) - len(b) + 1, 0)
    for k in range(len(q) - 1, -1, -1):
        c = A.mul(r[k + len(b) - 1], linv)
        q[k] = c
        for i, y in enumerate(b):
            r[k + i] = A.sub(r[k + i], A.mul(c, y))
    return q, r[:len(b) - 1]


def ev(A, c, x):
    r = A.const(0)
    for v in reversed(c):
        r = A.add(A.mul(r, x), v)
    return r


BIN = {0: 'a + b', 1: 'a += b', 2: 'a - b', 3: 'a -= b', 4: 'a * b', 5: 'a *= b', 6: 'a / b', 7: 'a /= b', 8: 'a % b', 9: 'a.ModInPlace(b)',
       10: 'a.DivMod(b)', 12: 'a == b', 20: 'a + a', 21: 'a += a', 22: 'a - a', 23: 'a -= a', 24: 'a * a', 25: 'a *= a', 26: 'a / a', 27: 'a /= a',
       29: 'a.ModInPlace(a)'}


def j_bin(J, mod, ka, kb, op, ma, mb):
    A = ModAlg(['a%d' % i for i in range(5)] + ['b%d' % i for i in range(5)])
    a = P(A, ka, ma, 'a')
    b = P(A, kb, mb, 'b')
    self_ = op >= 20
    f = Facts(A)
    a.nz(A, f)
    b.nz(A, f)
    x, y = a.c, (a.c if self_ else b.c)
    w = '%s, a: %s%s' % (BIN[op], a, '' if self_ else ', b: %s' % b)
    o = op % 20
    zero_b = not y if ka != 'E' else False

    def check(fc, out):
        if o == 12:
            e = padd(A, x, y, -1)
            eq = all(same(A, fc, v, A.const(0)) for v in e)
            if ka == 'E' and x and y and len(x) != len(y):
                return None if not out.int(0) else 'compares equal with another size'
            if bool(out.int(0)) != eq or bool(out.int(1)) == eq:
                return 'is wrong'
            if not eq and not any(nonzero(A, fc, v) for v in e):
                return 'decides inequality although all coefficients can agree'
            return None
        at = 0
        if o in (6, 7, 8, 9, 10):
            ok = out.int(0)
            at = 1
            if ka == 'E':
                bad = not y or any(not nonzero(A, fc, v) for v in y)
                mism = x and y and len(x) != len(y)
                if not x and y:
                    return None if not ok or all(same(A, fc, t[1], A.const(0)) for t in read(out, 1)[1]) else 'is not zero'
                if mism:
                    return None if not ok else 'accepts operands of different sizes'
                if not ok:
                    return None if not y or any(same(A, fc, v, A.const(0)) for v in y) else 'fails although no divisor value is zero'
                if bad:
                    return 'succeeds although a divisor value can be zero'
                want = [A.mul(u, A.inv(v)) for u, v in zip(x, y)]
                return cmp(A, fc, read(out, 1)[:2], want)
            if not y:
                return None if not ok else 'division by the zero polynomial is not reported'
            if not ok:
                return 'division by a nonzero polynomial fails'
            q, r = pdivmod(A, x, y, A.inv(y[-1]))
            if not x and o >= 8:
                # the remainder of zero by b is b in the current tree
                k, t, nx = read(out, at)
                if o == 10 and not cmp(A, fc, (k, t), q):
                    k, t, nx = read(out, nx)
                if cmp(A, fc, (k, t), r) and not cmp(A, fc, (k, t), y):
                    return 'UnivariatePolynomialOp remainder of the zero polynomial', 'is the divisor instead of zero'
            if o in (6, 7):
                return cmp(A, fc, read(out, at)[:2], q, 'quotient')
            if o in (8, 9):
                return cmp(A, fc, read(out, at)[:2], r, 'remainder')
            k, t, nx = read(out, at)
            e = cmp(A, fc, (k, t), q, 'quotient')
            return e or cmp(A, fc, read(out, nx)[:2], r, 'remainder')
        if ka == 'E':
            if not x or not y:
                want = [] if o in (4, 5) else (x if not y else (y if o < 2 else [A.neg(v) for v in y]))
                k, t, _ = read(out, 0)
                if o in (4, 5):
                    return None if all(same(A, fc, c, A.const(0)) for _, c in t) else 'is not zero'
            else:
                fn = {0: A.add, 1: A.sub, 2: A.mul}[o // 2]
                want = [fn(u, v) for u, v in zip(x, y)]
        else:
            want = padd(A, x, y) if o < 2 else padd(A, x, y, -1) if o < 4 else pmul(A, x, y)
        return cmp(A, fc, read(out, 0)[:2], want)
    ma_ = None
    if ka == 'E' and ma != mb and ma and mb and not self_:
        ma_ = lambda fc, o_: True
    J.go(mod, A, w, 'bin_%s%s' % (ka, kb), a.vars + b.vars, [op, ma, mb], f, check, may_abort=ma_)


UN = {0: '-a', 1: 'a.NegateInPlace()', 2: 'a * s', 3: 'a *= s', 4: 'a / s', 5: 'a /= s', 6: 'IsZero/IsOne/Degree/NumElements', 7: 'a[i]', 8: 'Evaluate',
      9: 'Fold', 10: 'ToDense', 11: 'ToSparse', 12: 'GetLeadingCoefficient', 13: 'Evaluate at zero', 15: 'a.at(i) const', 16: 'a.at(i) = s'}


def j_un(J, mod, ka, op, ma, k):
    A = ModAlg(['s'] + ['a%d' % i for i in range(9)])
    a = P(A, ka, ma, 'a')
    f = Facts(A)
    a.nz(A, f)
    s = A.var('s')
    x = a.c
    w = '%s%s, a: %s' % (UN[op], ' with i = %d' % k if op in (7, 15, 16) else '', a)
    z = A.const(0)

    def check(fc, out):
        if op in (0, 1):
            return cmp(A, fc, read(out, 0)[:2], [A.neg(v) for v in x])
        if op in (2, 3):
            return cmp(A, fc, read(out, 0)[:2], [A.mul(v, s) for v in x])
        if op in (4, 5):
            if not out.int(0):
                return None if same(A, fc, s, z) else 'division by a nonzero scalar fails'
            if not nonzero(A, fc, s):
                return 'division by a zero scalar succeeds'
            return cmp(A, fc, read(out, 1)[:2], [A.mul(v, A.inv(s)) for v in x])
        if op == 6:
            for q, g0 in cases(A, fc, out[0]):
                for q2, g1 in cases(A, q, out[1]):
                    if ka == 'E':
                        iz = [same(A, q2, v, z) or None if not nonzero(A, q2, v) else False for v in x]
                        io = [same(A, q2, v, A.const(1)) or None if not nonzero(A, q2, A.sub(v, A.const(1))) else False for v in x] or [False]
                    else:
                        iz = [not x]
                        io = [same(A, q2, x[0], A.const(1)) or None if not nonzero(A, q2, A.sub(x[0], A.const(1))) else False] if len(x) == 1 else [False]
                    for nm, g, v in (('IsZero', g0, iz), ('IsOne', g1, io)):
                        if g and not all(v) or not g and False not in v:
                            return '%s is wrong' % nm
            for nm, g, v in (('Degree', out.int(2), max(len(x) - 1, 0)), ('NumElements', out.int(3), len(a.vars))):
                if g != v:
                    return '%s is %d' % (nm, g)
            return None
        if op in (7, 15):
            return None if same(A, fc, out[0], x[k] if k < len(x) else z) else 'is wrong'
        if op == 16:
            c = list(x)
            c[k] = s
            kd, t, _ = read(out, 0)
            return None if all(same(A, fc, dict(t).get(i, z), c[i]) for i in range(len(c))) else 'writes another coefficient'
        if op in (8, 13):
            return None if same(A, fc, out[0], ev(A, x, s if op == 8 else z)) else 'is not the value of the polynomial'
        if op == 9:
            g = lambda i: x[i] if i < len(x) else z
            return cmp(A, fc, read(out, 0)[:2], [A.add(g(2 * i), A.mul(s, g(2 * i + 1))) for i in range((len(x) + 1) // 2)])
        if op in (10, 11):
            g = read(out, 0)
            if g[0] != {10: 'D', 11: 'S'}[op]:
                return 'has the wrong representation'
            return cmp(A, fc, g[:2], x)
        if op == 12:
            return None if same(A, fc, out[0], x[-1] if x else z) else 'is wrong'
    J.go(mod, A, w, 'un_' + ka, a.vars + [s], [op, ma, k], f, check)


def j_misc(J, mod, what, *p):
    gens = ['x'] + ['a%d' % i for i in range(8)] + ['b%d' % i for i in range(8)]
    A = ModAlg(gens)
    f = Facts(A)
    a = lambda n: [A.var('a%d' % i) for i in range(n)]
    if what == 'clean':
        kind, m, mv = p
        d = degs(kind, m)
        v = a(len(d))
        c = [A.const(0)] * (d[-1] + 1 if d else 0)
        for i, x in zip(d, v):
            c[i] = x
        J.go(mod, A, '%s constructor with cleanup of degrees %s%s' % (NAME[kind], d, ' (moved)' if mv else ''), 'clean_' + kind, v, [m, mv], f,
             lambda fc, o: cmp(A, fc, read(o, 0)[:2], c))
    elif what == 'roots':
        n, sp = p
        v = a(n)
        c = [A.const(1)]
        for r in v:
            c = pmul(A, c, [A.neg(r), A.const(1)])
        J.go(mod, A, 'FromRoots of %d roots (%s)' % (n, 'sparse' if sp else 'dense'), 'from_roots', v, [n, sp], f, lambda fc, o: cmp(A, fc, read(o, 0)[:2], c))
    elif what == 'vanish':
        n, ser = p
        v = a(n)
        x = A.var('x')
        r = A.const(1)
        for y in v:
            r = A.mul(r, A.sub(x, y))
        J.go(mod, A, 'EvaluateVanishingPolyByRoots%s of %d roots' % ('Serial' if ser else '', n), 'vanishing', v + [x], [n, ser], f,
             lambda fc, o: None if same(A, fc, o[0], r) else 'is not the product of (point - root)')
    elif what == 'interp':
        n, m = p
        v = a(n)
        # values of an arbitrary polynomial of degree below n
        b = [A.var('b%d' % i) for i in range(max(n, m))]
        y = [ev(A, b[:n], x) for x in v] + b[n:]
        for i in range(n):
            for j in range(i):
                A.assume_nonzero(f, A.sub(v[i], v[j]))
        A.hints = [A.canon(A.sub(v[i], v[j]).n) for i in range(n) for j in range(i)]

        def check(fc, o):
            ok = o.int(0)
            if n != m:
                return None if not ok else 'accepts different numbers of points and values'
            if not ok:
                return 'fails for distinct points'
            return cmp(A, fc, read(o, 1)[:2], b[:n], 'interpolated polynomial')
        J.go(mod, A, 'LagrangeInterpolate of %d points, %d values' % (n, m), 'interpolate', v + y[:m], [n, m], f, check)
    elif what == 'consts':
        n, = p
        want = [('D', 0), ('D', 1), ('S', 0), ('S', 1), ('E', 0), ('E', 1), ('E', 0)]

        def check(fc, o):
            at = 0
            for i, (k, v) in enumerate(want):
                g, t, at = read(o, at)
                c = [A.const(v)] * (n + 1 if k == 'E' and i > 4 else 1) if v or i == 6 else []
                if i == 6 and len(t) != n + 1:
                    return 'Zero(degree) has %d values' % len(t)
                e = cmp(A, fc, (g, t), c)
                if e:
                    return ('Zero' if not v else 'One') + ': ' + e
        J.go(mod, A, 'Zero() and One() polynomials (degree %d)' % n, 'consts', [], [n], f, check)
    elif what == 'rev':
        n, = p
        v = a(8)[:n]
        lg = n.bit_length() - 1
        rv = lambda i: int(format(i, '0%db' % lg)[::-1], 2) if lg else 0
        J.go(mod, A, 'SwapBitRevElementsInPlace of %d elements' % n, 'bitrev', v, [n], f, lambda fc, o: cmp(A, fc, read(o, 0)[:2], [v[rv(i)] for i in range(n)]))


jobs.FUNCS.update({'bin': j_bin, 'un': j_un, 'misc': j_misc})
SP = [0, 1, 2, 4, 8, 3, 5, 6, 9, 10, 7, 11, 18, 0b100011]


def all_jobs(mod, thorough):
    out = []
    dl = range(5)
    for op in BIN:
        o = op % 20
        if op >= 20:
            for n in dl:
                out.append(('bin', (mod, 'D', 'D', op, n, 0)))
                if op != 22 or True:
                    out.append(('bin', (mod, 'E', 'E', op, n, 0))) if o < 8 else None
            for m in SP:
                if o not in (7, 9):
                    out.append(('bin', (mod, 'S', 'S', op, m, 0)))
            continue
        for x in dl:
            for y in dl:
                if y <= 3 or o < 6 or o == 12:
                    out.append(('bin', (mod, 'D', 'D', op, x, y)))
                if o < 8 or o == 12:
                    if o in (0, 1, 2, 3, 4, 5) and x and y and x != y:
                        continue
                    out.append(('bin', (mod, 'E', 'E', op, x, y)))
        if op == 12:
            for x in SP:
                for y in SP:
                    out.append(('bin', (mod, 'S', 'S', op, x, y)))
            continue
        sps = SP if thorough else [0, 1, 2, 8, 5, 3, 6, 18]
        for n in dl:
            for m in sps:
                if o < 6 or m < 16:
                    out.append(('bin', (mod, 'D', 'S', op, n, m)))
                if o in (0, 2, 4, 6, 8, 10) and not (o >= 6 and m >= 16):
                    out.append(('bin', (mod, 'S', 'D', op, m, n)))
        for x in sps:
            for y in sps:
                if o in (0, 1, 2, 3, 4, 5) or (o in (6, 8, 10) and x < 32 and y < 16):
                    out.append(('bin', (mod, 'S', 'S', op, x, y)))
    for op in UN:
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8) if op in (8, 9, 13) else (0, 1, 2, 3, 4, 5):
            for k in (range(n + 2) if op in (7, 15) else range(n) if op == 16 else (0,)):
                out.append(('un', (mod, 'D', op, n, k)))
                if op not in (8, 9, 10, 11, 12, 13):
                    out.append(('un', (mod, 'E', op, n, k)))
        for m in SP + [1 << 12 | 5, 1 << 31 | 1 << 16 | 1]:
            ds = degs('S', m)
            for k in (sorted(set(ds + [d + 1 for d in ds] + [0])) if op in (7, 15) else ds if op == 16 else (0,)):
                out.append(('un', (mod, 'S', op, m, k)))
    for mv in (0, 1):
        for n in range(6):
            out.append(('misc', (mod, 'clean', 'D', n, mv)))
        for m in SP:
            out.append(('misc', (mod, 'clean', 'S', m, mv)))
    for n in range(6):
        for k in (0, 1):
            out.append(('misc', (mod, 'roots', n, k)))
            out.append(('misc', (mod, 'vanish', n + 2 * k, k)))
    for n in range(1, 6 if thorough else 5):
        out.append(('misc', (mod, 'interp', n, n)))
    for n, m in ((1, 2), (2, 1), (3, 2), (0, 1), (2, 3)):
        out.append(('misc', (mod, 'interp', n, m)))
    for n in (0, 1, 3):
        out.append(('misc', (mod, 'consts', n)))
    for n in (1, 2, 4, 8):
        out.append(('misc', (mod, 'rev', n)))
    return out


def run_all(rep, thorough):
    src = os.path.join(VERIF, 'harness/poly.cc')
    jobs.MODS['poly'] = load_ir(src, extra=['-fno-access-control'])
    jobs.MODS['poly3'] = load_ir(src, extra=['-fno-access-control', '-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness/omp')])
    js = all_jobs('poly', thorough)
    # several chunks: everything that does not only depend on coefficients
    js3 = [(t, ('poly3',) + s[1:]) for t, s in js if t == 'misc' or (t == 'un' and s[2] in (1, 3, 8, 9)) or (t == 'bin' and s[3] in (1, 3, 5, 7, 10) and s[1] != 'S')]
    run_jobs(rep, js + js3)
