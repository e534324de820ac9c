"""Dense and sparse matrices, packings, rational numbers and circle points
against their definitions."""
import os
from absint import Undecided
from alg import Facts
from spec import same
from common import load_ir, VERIF
import jobs
from hashes import HAlg, equal_iff, nonzero
from spec import cases
from fri import Rd, rev
from domains import evalp


def vec(p, n):
    return [p + str(i) for i in range(n)]


def grid(p, r, c):
    return ['%s%d_%d' % (p, i, j) for i in range(r) for j in range(c)]


def eqv(A, fc, got, want):
    return len(got) == len(want) and all(same(A, fc, x, y) for x, y in zip(got, want))


def dot(A, x, y):
    s = A.const(0)
    for a, b in zip(x, y):
        s = A.add(s, A.mul(a, b))
    return s


def mat(rd):
    r, c = rd.int(), rd.int()
    return r, c, [rd.val() for _ in range(r * c)]


def j_dot(J, mod, lanes, rows, cols):
    nm = ['b0', 'b1'] + grid('m', rows, cols) + ['nr']
    A = HAlg(nm, 2)
    A.params = {2: A.var('nr')}
    v = [A.var(x) for x in nm[:-1]]

    def check(fc, o):
        if o.int(0) != rows:
            return 'wrong number of rows'
        for i in range(rows):
            s = [A.const(0), A.const(0)]
            p = [A.const(1), A.const(0)]
            for j in range(cols):
                x = v[2 + i * cols + j]
                s = [A.add(s[t], A.mul(p[t], x)) for t in range(2)]
                p = [A.add(A.mul(p[0], v[0]), A.mul(A.var('nr'), A.mul(p[1], v[1]))), A.add(A.mul(p[0], v[1]), A.mul(p[1], v[0]))]
            for t in range(2):
                if not same(A, fc, o[1 + 2 * i + t], s[t]):
                    return 'row %d is not the combination of the columns with the powers of the base' % i
    J.go(mod, A, 'DotExtPowers of %d rows, %d columns, %d lanes' % (rows, cols, lanes), 'h_dot%d' % lanes, v, [rows, cols], Facts(A), check)


def j_pack(J, mod, lanes, rows, cols, row, mode):
    k = 2 if mode == 2 else 1
    nm = grid('m', rows, cols * k)
    A = HAlg(nm, 2)
    v = [A.var(x) for x in nm]
    what = ('PackRowHorizontallyPadded', 'PackRowVertically', 'PackRowVertically of extension elements')[mode]
    w = cols * k
    if mode == 0:
        n = -(-cols // lanes)
        want = [v[row * w + i] if i < cols else A.const(0) for i in range(n * lanes)]
    else:
        n = w
        want = [v[(row + l) % rows * w + j] for j in range(w) for l in range(lanes)]

    def check(fc, o):
        if o.int(0) != n:
            return '%d packed elements instead of %d' % (o.int(0), n)
        if not eqv(A, fc, [o[1 + i] for i in range(n * lanes)], want):
            return 'the lanes do not hold the elements in order'
    J.go(mod, A, '%s, %d lanes, row %d of %dx%d' % (what, lanes, row, rows, cols), 'h_pack%d' % lanes, v, [rows, cols, row, mode], Facts(A), check)


MV = ('MulMatVec', 'MulMatVecSerial', 'MulMatVec by a row vector', 'MulMatVecSerial by a row vector', 'MulMatVec by a column', 'MulMatVecSerial by a column', 'MulMatVec by a row', 'MulMatVecSerial by a row')


def j_mv(J, mod, r, c, mode):
    nm = grid('m', r, c) + vec('v', c * (2 if mode > 3 else 1))
    A = HAlg(nm, 2)
    v = [A.var(x) for x in nm]
    m, x = v[:r * c], v[r * c:]
    x = x[1::2] if mode in (4, 5) else x[c:] if mode > 5 else x

    def check(fc, o):
        if o.int(0) != r:
            return 'the product has %d entries instead of %d' % (o.int(0), r)
        for i in range(r):
            if not same(A, fc, o[1 + i], dot(A, m[i * c:i * c + c], x)):
                return 'entry %d is wrong' % i
    J.go(mod, A, '%s, %dx%d' % (MV[mode], r, c), 'h_mv', v, [r, c, mode], Facts(A), check)


def j_mm(J, mod, r, k, k2, c, mode):
    nm = grid('m', r, k) + grid('n', k2, c)
    A = HAlg(nm, 2)
    v = [A.var(x) for x in nm]
    m, n = v[:r * k], v[r * k:]

    def check(fc, o):
        if k != k2:
            return 'multiplies matrices of mismatched sizes'
        a, b, e = mat(Rd(o))
        if (a, b) != (r, c):
            return 'wrong shape'
        if not eqv(A, fc, e, [dot(A, m[i * k:i * k + k], n[j::c]) for i in range(r) for j in range(c)]):
            return 'wrong product'
    J.go(mod, A, '%s of %dx%d and %dx%d' % ('MulMatMat' if mode else 'MulMatMatSerial', r, k, k2, c), 'h_mm', v, [r, k, k2, c, mode], Facts(A), check, may_abort=(lambda fc, o: k != k2))


def j_rows(J, mod, fn, r, c, *x):
    if fn == 'circ':
        nm = vec('v', r)
    else:
        nm = grid('m', r, c) + (['q'] if fn == 'map' else [])
    A = HAlg(nm, 2)
    v = [A.var(y) for y in nm]
    row = lambda i: v[i * c:i * c + c]

    def check(fc, o):
        rd = Rd(o)
        if fn == 'circ':
            want = [(r, r, [v[(i - j) % r] for i in range(r) for j in range(r)])]
        elif fn == 'rev':
            k = r.bit_length() - 1
            want = [(r, c, sum((row(rev(i, k)) for i in range(r)), []))]
        elif fn == 'map':
            n = sum((row(i) for i in range(r - 1)), []) + [v[-1]] + row(r - 1)[1:]
            want = [(r, c, v[:-1]), (r, c, n), (r, c, n)]
        else:
            n = x[0]
            if n > r:
                return 'splits %d rows into %d' % (r, n)
            if rd.int() != n:
                return 'wrong number of blocks'
            want = [(r - n + 1, c, sum((row(i + t) for t in range(r - n + 1)), [])) for i in range(n)]
        for i, (a, b, e) in enumerate(want):
            p, q, g = mat(rd)
            if (p, q) != (a, b):
                return 'matrix %d has the wrong shape' % i
            if not eqv(A, fc, g, e):
                return 'matrix %d has wrong entries' % i
    bad = (lambda fc, o: True) if fn == 'rev' and r & (r - 1) or fn == 'split' and x[0] > r else None
    nmx = {'circ': 'MakeCirculant', 'rev': 'ReverseMatrixIndexBits', 'map': 'Map', 'split': 'SplitMat'}[fn]
    J.go(mod, A, '%s, %dx%d%s' % (nmx, r, c, ', %s' % (x,) if x else ''), 'h_' + fn, v, ([r] if fn == 'circ' else [r, c]) + list(x), Facts(A), check, may_abort=bad)


# --- sparse matrices: rows are lists of columns in the order given

def ell(rd):
    rows = [[(rd.int(), rd.val()) for _ in range(rd.int())] for _ in range(rd.int())]
    return rows, rd.int(), rd.int(), rd.int()


def csr(rd):
    e = [(rd.int(), rd.val()) for _ in range(rd.int())]
    p = [rd.int() for _ in range(rd.int())]
    return e, p, rd.int(), rd.int(), rd.int()


def shape(rows):
    return len(rows), max((c + 1 for r in rows for c, _ in r), default=0), sum(map(len, rows))


def ckell(A, fc, rd, rows, what):
    g, *s = ell(rd)
    if [[c for c, _ in r] for r in g] != [[c for c, _ in r] for r in rows]:
        return '%s has other positions' % what
    if not eqv(A, fc, [x for r in g for _, x in r], [x for r in rows for _, x in r]):
        return '%s has other values' % what
    if tuple(s) != shape(rows):
        return '%s reports %d rows, %d columns, %d entries' % ((what,) + tuple(s))


def ckcsr(A, fc, rd, rows, what):
    e, p, *s = csr(rd)
    if [c for c, _ in e] != [c for r in rows for c, _ in r] or not eqv(A, fc, [x for _, x in e], [x for r in rows for _, x in r]):
        return '%s has other entries' % what
    q = [0]
    for r in rows:
        q.append(q[-1] + len(r))
    if p != q:
        return '%s has other row pointers' % what
    if tuple(s) != shape(rows):
        return '%s reports %d rows, %d columns, %d entries' % ((what,) + tuple(s))


def ckeig(A, fc, rd, rows, what):
    a, b, n = rd.int(), rd.int(), rd.int()
    r, c, k = shape(rows)
    if (a, b, n) != (r, c, k):
        return '%s has %d rows, %d columns, %d entries' % (what, a, b, n)
    g = {}
    for _ in range(n):
        i, j = rd.int(), rd.int()
        g[i, j] = rd.val()
    w = {(i, j): x for i, r in enumerate(rows) for j, x in r}
    if set(g) != set(w) or not all(same(A, fc, g[t], w[t]) for t in w):
        return '%s has other entries' % what


def lay(A, rows, p='x'):
    n = 0
    out = []
    for r in rows:
        out.append([])
        for c in r:
            out[-1].append((c, A.var(p + str(n))))
            n += 1
    return out


def flat(rows):
    return [len(rows)] + sum(([len(r)] + [y for t in r for y in t] for r in rows), [])


def j_sparse(J, mod, which, rows):
    A = HAlg(vec('x', sum(map(len, rows))), 2)
    L = lay(A, rows)
    S = [sorted(r, key=lambda t: t[0]) for r in L]
    srt = all(list(r) == sorted(r) for r in rows)

    def check(fc, o):
        rd = Rd(o)
        if rd.int() & 1 != int(srt):
            return 'IsSorted is wrong'
        if not rd.int() & 1:
            return 'not sorted after Sort'
        f = [ckell, ckcsr, ckell, ckeig, ckeig] if which == 'ell' else [ckcsr, ckell, ckcsr]
        nm = ['the matrix', 'ToCSR', 'the matrix converted back', 'ToEigenSparseMatrix', 'ToEigenSparseMatrix (CSR)'] if which == 'ell' else ['the matrix', 'ToELL', 'the matrix converted back']
        for g, w in zip(f, nm):
            x = g(A, fc, rd, S, w)
            if x:
                return x
    J.go(mod, A, '%s matrix with columns %s' % (which.upper(), rows), 'h_' + which, flat(L), [], Facts(A), check, steps=10000000)


def j_eigen(J, mod, rm, rows, order, cols):
    A = HAlg(vec('x', sum(map(len, rows))), 2)
    L = lay(A, rows)
    t = [(i, c, x) for i, r in enumerate(L) for c, x in r]
    t = [t[i] for i in order]
    S = [sorted(r, key=lambda t: t[0]) for r in L]

    def check(fc, o):
        rd = Rd(o)
        return ckell(A, fc, rd, S, 'ELL') or ckcsr(A, fc, rd, S, 'CSR')
    J.go(mod, A, 'FromEigenSparseMatrix (%s major) with columns %s' % ('row' if rm else 'column', rows), 'h_eigen', [len(t)] + [y for z in t for y in z], [rm, len(rows), cols], Facts(A), check, steps=10000000)


def j_speq(J, mod, r1, r2):
    n1 = sum(map(len, r1))
    A = HAlg(vec('x', n1) + vec('y', sum(map(len, r2))), 2)
    L, M = lay(A, r1), lay(A, r2, 'y')
    eq = equal_iff(A, [x for r in L for _, x in r], [x for r in M for _, x in r])

    def check(fc, o):
        for i in range(4):
            b = o[i]
            for q, t in cases(A, fc, b):
                if r1 != r2:
                    if t == (i % 2 == 0):
                        return 'matrices of different shape compare equal'
                    continue
                x = eq(q, 1 if t == (i % 2 == 0) else 0)
                if x:
                    return ('operator== of %s is true for different values' if 'wrong' in x else 'operator== of %s is false for equal values') % ('ELL', 'CSR')[i // 2]
    J.go(mod, A, 'comparison of sparse matrices with columns %s and %s' % (r1, r2), 'h_elleq', flat(L) + flat(M), [], Facts(A), check)


# --- rational numbers

RAT = ('sum', 'difference', 'product', 'quotient', 'Double', 'Square', 'Negate', 'Inverse', 'IsZero', 'IsOne', 'IsMinusOne', 'operator==', 'operator!=', 'Evaluate', 'constants', '', 'operations on itself')


def j_rat(J, mod, op):
    nm = ['a', 'b', 'c', 'd']
    A = HAlg(nm, 2)
    a, b, c, d = v = [A.var(x) for x in nm]
    F = Facts(A)
    A.assume_nonzero(F, b)
    A.assume_nonzero(F, d)
    m, add, sub = [lambda x, y, g=g: g(A.h(x), A.h(y)) for g in (A.mul, A.add, A.sub)]
    name = 'RationalField %s' % RAT[op]
    two = A.const(2)

    def eqr(fc, x, want, what):
        """x = n/d equals want and d is not zero"""
        n, e = x
        if not nonzero(A, fc, e):
            return '%s has a denominator that can be zero' % what
        if not same(A, fc, m(n, want[1]), m(want[0], e)):
            return '%s is wrong' % what

    def check(fc, o):
        rd = Rd(o)
        val = lambda: (rd.val(), rd.val())
        if op in (0, 1, 2, 4, 5, 6):
            want = {0: lambda: (add(m(a, d), m(c, b)), m(b, d)), 1: lambda: (sub(m(a, d), m(c, b)), m(b, d)), 2: lambda: (m(a, c), m(b, d)),
                    4: lambda: (m(two, a), b), 5: lambda: (m(a, a), m(b, b)), 6: lambda: (sub(A.const(0), a), b)}[op]()
            for w in ('the result', 'the result in place', 'the operand after the operation in place'):
                x = eqr(fc, val(), want, w)
                if x:
                    return x
        elif op in (3, 7):
            z = c if op == 3 else a
            want = (m(a, d), m(b, c)) if op == 3 else (b, a)
            for w in ('the result', 'the result in place'):
                i = rd.i
                rd.i += 1
                for q, t in cases(A, fc, o[i]):
                    if t and not nonzero(A, q, z):
                        return '%s exists for zero' % w
                    if not t and not same(A, q, z, A.const(0)):
                        return '%s is missing for a nonzero operand' % w
                if not t:
                    continue
                x = eqr(q, val(), want, w)
                if x:
                    return x
            if t and eqr(q, val(), want, 'operand'):
                return 'the operand after the operation in place is wrong'
        elif op in (8, 9, 10, 11, 12):
            l, r = {8: lambda: (a, A.const(0)), 9: lambda: (a, b), 10: lambda: (add(a, b), A.const(0)), 11: lambda: (m(a, d), m(c, b)), 12: lambda: (m(a, d), m(c, b))}[op]()
            for q, t in cases(A, fc, o[0]):
                t ^= op == 12
                if t and not same(A, q, l, r):
                    return 'is true for other values'
                if not t and not nonzero(A, q, sub(l, r)):
                    return 'is false for equal values'
        elif op == 13:
            if not same(A, fc, m(o[0], b), a):
                return 'is not numerator / denominator'
        elif op == 16:
            for n, e in (('f += f', (m(two, a), b)), ('f -= f', (A.const(0), b)), ('f *= f', (m(a, a), m(b, b)))):
                x = eqr(fc, val(), e, n)
                if x:
                    return x
        else:
            for n, e in (('Zero', (A.const(0), A.const(1))), ('One', (A.const(1), A.const(1))), ('MinusOne', (A.const(-1), A.const(1))), ('TwoInv', (A.const(1), two)), ('RationalField(x)', (a, A.const(1))), ('RationalField()', (A.const(0), A.const(1)))):
                x = eqr(fc, val(), e, n)
                if x:
                    return x
    J.go(mod, A, name, 'h_rat', v, [op], F, check)


def j_batch(J, mod, n, m, coeff, zero=()):
    nm = [x for i in range(n) for x in ('a%d' % i, 'b%d' % i)] + ['c']
    A = HAlg(nm, 2)
    v = [A.var(x) for x in nm]
    F = Facts(A)
    for i in range(n):
        A.assume_nonzero(F, v[2 * i + 1])
    A.hints = [A.h(v[2 * i + 1]).n for i in range(n)]
    ins = [A.const(0) if i in zero else x for i, x in enumerate(v)]

    def check(fc, o):
        if (o.int(0) & 1) != (n == m):
            return 'reports the wrong success'
        if n == m:
            for i in range(n):
                e = A.mul(ins[2 * i], A.inv(v[2 * i + 1]))
                if coeff:
                    e = A.mul(e, v[-1])
                if not same(A, fc, o[1 + i], e):
                    return 'value %d is not numerator / denominator%s' % (i, ' times the coefficient' if coeff else '')
    J.go(mod, A, 'RationalField BatchEvaluate of %d into %d%s%s' % (n, m, ', coefficient' if coeff else '', ', zero numerators' if zero else ''), 'h_ratbatch', ins, [n, m, coeff], F, check)


# --- circle points: ((1-t^2)/(1+t^2), 2t/(1+t^2)) is every point but (-1, 0)

def j_circle(J, mod, op, special):
    nm = ['s', 't', 'x', 'y', 'z', 'w']
    A = HAlg(nm, 2)
    F = Facts(A)
    one = A.const(1)
    m, add, sub = A.mul, A.add, A.sub

    def pt(n, sp):
        if sp:
            return [A.const(-1), A.const(0)]
        t = A.var(n)
        q = add(one, m(t, t))
        A.assume_nonzero(F, q)
        i = A.inv(q)
        return [m(sub(one, m(t, t)), i), m(m(A.const(2), t), i)]
    free = op in (4, 5, 6, 8)
    p = [A.var('x'), A.var('y')] if free else pt('s', special & 1)
    q = [A.var('z'), A.var('w')] if free else pt('t', special & 2)
    mul = lambda a, b: [sub(m(a[0], b[0]), m(a[1], b[1])), add(m(a[0], b[1]), m(a[1], b[0]))]
    neg = lambda a: [a[0], sub(A.const(0), a[1])]
    name = 'circle ' + ('sum', 'difference', 'doubling', 'negation', 'IsZero', 'comparison', 'IsOnCircle', 'zero', 'CreateChecked', 'operation on itself')[op] + (', special %d' % special if special else '')
    on = (add(m(p[0], p[0]), m(p[1], p[1])), one)

    def check(fc, o):
        rd = Rd(o)
        if op in (4, 5, 6):
            w, g = {4: ([one, A.const(0)], p), 5: (p, q), 6: ([on[0]], [on[1]])}[op]
            for f in range(2 if op == 5 else 1):
                for r, b in cases(A, fc, o[f]):
                    x = equal_iff(A, w, g)(r, int(b ^ (f == 1)))
                    if x:
                        return 'is true for other points' if 'wrong' in x else 'is false for such points'
            return
        want = {0: lambda: [mul(p, q)] * 3, 1: lambda: [mul(p, neg(q))] * 3, 2: lambda: [mul(p, p)] * 3,
                3: lambda: [neg(p)] * 4 + [[sub(A.const(0), x) for x in p]], 7: lambda: [[one, A.const(0)]] * 2, 8: lambda: [p], 9: lambda: [mul(p, p), [one, A.const(0)]]}[op]()
        if op == 8 and not same(A, fc, *on):
            return 'accepts a point off the circle'
        for i, e in enumerate(want):
            if not eqv(A, fc, [rd.val(), rd.val()], e):
                return 'result %d is not the point of the definition' % i
    J.go(mod, A, name, 'h_circle', p + q, [op], F, check, may_abort=(lambda fc, o: op == 8 and nonzero(A, fc, sub(*on))))


SP = ([[0, 2], [], [1, 2, 3], [0, 3]], [[3], [5, 4], [1, 0], [2]], [[], [1]], [[2], []], [[], []], [[0]], [[2, 0, 1], [], [], [3, 1, 2, 0]], [[7, 5, 3, 1, 6, 4, 2, 0], [4]], [])


def job_list(thorough):
    l = [('j_dot', n, r, c) for n in (1, 2, 4) for r, c in ((1, 1), (2, 2), (1, 3), (2, 4), (1, 5), (2, 7), (1, 8), (3, 2), (0, 3))]
    l += [('j_pack', n, r, c, i, k) for n in (1, 2, 4) for r, c, i, k in ((2, 1, 1, 0), (1, 4, 0, 0), (2, 5, 1, 0), (2, 7, 0, 0), (1, 0, 0, 0), (4, 2, 0, 1), (4, 3, 2, 1), (3, 2, 2, 1), (1, 2, 0, 1), (5, 1, 3, 1), (4, 2, 1, 2), (3, 2, 2, 2), (2, 1, 0, 2))]
    l += [('j_mv', r, c, k) for r, c in ((1, 1), (2, 2), (3, 2), (2, 3), (1, 4), (4, 1), (5, 3), (3, 5)) for k in range(8)]
    l += [('j_mm', *s, k) for s in ((1, 1, 1, 1), (2, 3, 3, 2), (3, 2, 2, 5), (5, 2, 2, 3), (1, 4, 4, 3), (4, 1, 1, 4), (2, 2, 3, 2), (2, 3, 2, 2)) for k in (0, 1)]
    l += [('j_rows', 'rev', r, c) for r, c in ((1, 2), (2, 1), (4, 3), (8, 2), (16, 1), (3, 2), (6, 1), (0, 2))]
    l += [('j_rows', 'circ', n, n) for n in (1, 2, 3, 5)]
    l += [('j_rows', 'map', 2, 3), ('j_rows', 'map', 3, 1)] + [('j_rows', 'split', r, c, n) for r, c, n in ((4, 2, 1), (4, 2, 2), (5, 1, 3), (3, 2, 3), (2, 2, 3))]
    l += [('j_sparse', w, s) for w in ('ell', 'csr') for s in SP]
    l += [('j_eigen', rm, s, tuple(o), max(shape([[(c, 0) for c in r] for r in s])[1], 1)) for rm in (0, 1) for s in SP if s for o in (range(sum(map(len, s))), range(sum(map(len, s)))[::-1])]
    l += [('j_speq', [[0, 2], [1]], [[0, 2], [1]]), ('j_speq', [[0, 2], [1]], [[0], [2, 1]]), ('j_speq', [[0, 2], [1]], [[0, 1], [1]]), ('j_speq', [[0], [1]], [[0], [1], []]), ('j_speq', [[], [1]], [[1], []]), ('j_speq', [[0, 1]], [[0]])]
    l += [('j_rat', i) for i in range(len(RAT)) if RAT[i]]
    l += [('j_batch', n, m, k) for k in (0, 1) for n, m in ((0, 0), (1, 1), (2, 2), (3, 3), (5, 5), (2, 3), (3, 2), (0, 1))] + [('j_batch', 4, 4, 1, (2, 4))]
    l += [('j_circle', op, s) for op in range(10) for s in ((0, 1, 2, 3) if op < 2 else (0, 1) if op in (2, 3, 9) else (0,))]
    return l


FN = {k: f for k, f in globals().items() if k.startswith('j_')}


def run_all(rep, thorough):
    src = os.path.join(VERIF, 'harness/matrices.cc')
    jobs.MODS['x'] = load_ir(src, fresh=True)
    jobs.MODS['x3'] = load_ir(src, extra=['-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness/omp')], fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['x' + k] = f
    l = job_list(thorough)
    jobs.run_jobs(rep, [('x' + k, ('x', *a)) for k, *a in l] + [('x' + k, ('x3', *a)) for k, *a in l if k in ('j_dot', 'j_mv', 'j_mm', 'j_batch') or k == 'j_rows' and a[0] == 'rev'], limit=900 if thorough else 200)
