"""FRI: folding, two-adic cosets and the two-adic FRI commitment scheme
against their definitions."""
import os
from absint import Undecided
from alg import Facts
from spec import P, root, same
from common import load_ir, VERIF
import jobs
from hashes import HAlg
from domains import evalp

W = root(32)


def gen(log_n):
    return pow(W, 32 >> log_n, P)


def rev(i, n):
    return int(format(i, '0%db' % n)[::-1], 2) if n else 0


def alg(names, g=None, fresh=90):
    A = HAlg(list(names) + ['u', 'g'], fresh)
    A.params = {0: A.const(W), 1: A.const(g) if g else A.var('g'), 8: A.var('u')}
    return A


class Rd:
    def __init__(self, o, i=0):
        self.o, self.i = o, i

    def int(self):
        self.i += 1
        return self.o.int(self.i - 1)

    def val(self):
        self.i += 1
        return self.o[self.i - 1]

    def vec(self):
        return [self.val() for _ in range(self.int())]


def fold2(A, lo, hi, beta, x):
    """p_even(x^2) + beta p_odd(x^2) from p(x), p(-x)"""
    h = A.inv(A.const(2))
    e = A.mul(h, A.add(lo, hi))
    o = A.mul(h, A.mul(A.sub(lo, hi), A.inv(x)))
    return A.add(e, A.mul(beta, o))


def j_fold(J, mod, log_n):
    n = 1 << log_n
    nm = ['b'] + ['v%d' % i for i in range(2 * n)]
    A = alg(nm)
    v = [A.var(x) for x in nm]

    def check(fc, o):
        if o.int(0) != n:
            return 'FoldMatrix: %s values' % o.int(0)
        for i in range(n):
            x = A.const(pow(gen(log_n + 1), rev(i, log_n), P))
            want = fold2(A, v[1 + 2 * i], v[2 + 2 * i], v[0], x)
            if not same(A, fc, o[1 + i], want):
                return 'FoldMatrix: value %d is not the even part plus beta times the odd part' % i
            if not same(A, fc, o[1 + n + i], want):
                return 'FoldRow: value %d is not the even part plus beta times the odd part' % i
    J.go(mod, A, 'folding of %d rows' % n, 'h_fold', v, [n], Facts(A), check)


def power(A, x, n):
    r = A.const(1)
    for _ in range(n):
        r = A.mul(r, x)
    return r


def j_coset(J, mod, log_n, mn, chunks):
    A = alg(['s', 'x'])
    s, x = A.var('s'), A.var('x')
    n = 1 << log_n
    one = A.const(1)
    fc = Facts(A)
    xs = A.mul(x, A.inv(s))
    zh = A.sub(power(A, xs, n), one)
    for k in range(n):
        A.assume_nonzero(fc, A.sub(x, A.mul(s, A.const(pow(gen(log_n), k, P)))))
    for v in (s, A.var('g'), zh):
        A.assume_nonzero(fc, v)

    def dom(fc, r, log, shift, what):
        if (r.int(), r.int()) != (1 << log, log):
            return what + ': wrong size'
        for v, w, nm in zip((r.val(), r.val(), r.val()), (shift, A.inv(shift), A.const(gen(log))), ('offset', 'offset inverse', 'generator')):
            if not same(A, fc, v, w):
                return '%s: wrong %s' % (what, nm)

    def check(fc, o):
        r = Rd(o)
        e = dom(fc, r, log_n, s, 'coset')
        if e:
            return e
        if not same(A, fc, r.val(), A.mul(x, A.const(gen(log_n)))):
            return 'GetNextPoint is not the point times the generator'
        if not same(A, fc, r.val(), zh):
            return 'GetZpAtPoint is not the vanishing polynomial'
        e = dom(fc, r, max(mn - 1, 0).bit_length(), A.mul(s, A.var('g')), 'disjoint domain')
        if e:
            return e
        if r.int() != chunks:
            return 'SplitDomains: wrong number'
        lc = chunks.bit_length() - 1
        for i in range(chunks):
            e = dom(fc, r, log_n - lc, A.mul(s, A.const(pow(gen(log_n), i, P))), 'SplitDomains %d' % i)
            if e:
                return e
        t = A.sub(xs, A.const(pow(gen(log_n), -1, P)))
        for nm, want in (('first row', A.mul(zh, A.inv(A.sub(xs, one)))), ('last row', A.mul(zh, A.inv(t))), ('transition', t), ('inverse vanishing', A.inv(zh))):
            if not same(A, fc, r.val(), want):
                return 'GetSelectorsAtPoint: wrong %s selector' % nm
    J.go(mod, A, 'coset of size %d, min size %d, %d chunks' % (n, mn, chunks), 'h_coset', [s, x], [log_n, mn, chunks], fc, check)


def j_sel(J, mod, log_n, log_c):
    A = alg(['s'])
    s = A.var('s')
    one = A.const(1)
    n, c = 1 << log_n, 1 << log_c
    xs = [A.mul(s, A.const(pow(gen(log_c), i, P))) for i in range(c)]
    z = [A.sub(power(A, x, n), one) for x in xs]
    A.hints = [A.sub(x, A.const(pow(gen(log_n), k, P))).n for x in xs for k in range(n)]
    fc = Facts(A)
    A.assume_nonzero(fc, s)
    for v in z:
        A.assume_nonzero(fc, v)
    for x in xs:
        for k in range(n):
            A.assume_nonzero(fc, A.sub(x, A.const(pow(gen(log_n), k, P))))
    wi = A.const(pow(gen(log_n), -1, P))

    def check(fc, o):
        r = Rd(o)
        for nm, f in (('first row', lambda x, z: A.mul(z, A.inv(A.sub(x, one)))), ('last row', lambda x, z: A.mul(z, A.inv(A.sub(x, wi)))),
                      ('transition', lambda x, z: A.sub(x, wi)), ('inverse vanishing', lambda x, z: A.inv(z))):
            if r.int() != c:
                return '%s selector: wrong length' % nm
            for i in range(c):
                if not same(A, fc, r.val(), f(xs[i], z[i])):
                    return '%s selector: wrong value at element %d of the coset' % (nm, i)
    J.go(mod, A, 'selectors of the domain of size %d on a coset of size %d%s' % (n, c, ', three chunks' if mod.endswith('3') else ''), 'h_selectors', [s], [log_n, log_c], fc, check)


def interp(A, log_n, shift, ys):
    """coefficients of the polynomial with values ys on shift <w>"""
    n = 1 << log_n
    w = gen(log_n)
    ni, si = pow(n, -1, P), A.inv(shift)
    out = []
    sp = A.const(1)
    for k in range(n):
        c = A.const(0)
        for j in range(n):
            c = A.add(c, A.mul(A.const(ni * pow(w, -j * k, P)), ys[j]))
        out.append(A.mul(c, sp))
        sp = A.mul(sp, si)
    return out


def shape_ins(A, sh, shifts, points):
    lb, nq, pw, rounds = sh
    ins = [lb, nq, pw, len(rounds)]
    for r in rounds:
        ins.append(len(r))
        for m in r:
            ins += list(m[:3])
    for k, r in enumerate(rounds):
        for m in range(len(r)):
            ins.append(shifts[k][m])
            ins += points[k][m]
    return ins


def j_open(J, mod, sh, idx, g, zs, shifted=False, cst=False):
    """the scheme on arbitrary matrices: what is committed, opened, and that
    the proof is accepted. zs: the points' names or values"""
    lb, nq, pw, rounds = sh
    nm = []
    for k, r in enumerate(rounds):
        for m, (l, c, *_) in enumerate(r):
            nm += ['a%d_%d_%d_%d' % (k, m, i, j) for i in range(1 << l) for j in range(c)]
    total = max(l for r in rounds for l, *_ in r)
    A = alg(nm + ['s', 'al', 'pw'] + ['b%d' % i for i in range(total)] + sorted({z for z in zs if isinstance(z, str)}), g)
    fc = Facts(A)
    G = A.params[1]
    Z = [A.var(z) if isinstance(z, str) else A.const(z) for z in zs]
    shift = A.var('s') if shifted else A.const(1)
    if shifted:
        A.assume_nonzero(fc, shift)
    A.assume_nonzero(fc, G)
    A.hints = [A.sub(z, A.mul(G, A.const(pow(gen(total + lb), i, P)))).n for z, zn in zip(Z, zs) if isinstance(zn, str) or not g for i in range(1 << total + lb)]
    A.hints += [A.sub(z, A.const(pow(gen(total + lb), i, P))).n for z, zn in zip(Z, zs) if isinstance(zn, str) for i in range(1 << total + lb)]
    for z in Z:
        for i in range(1 << total + lb):
            A.assume_nonzero(fc, A.sub(z, A.mul(G, A.const(pow(gen(total + lb), i, P)))))
            A.assume_nonzero(fc, A.sub(A.mul(G, A.const(pow(gen(total + lb), i, P))), z))
    pts = [[[Z[i] for i in m[3]] for m in r] for r in rounds]
    val = [[[[A.var('a%d_%d_%d_%d' % (k, m, i, j)) for j in range(x[1])] for i in range(1 << x[0])] for m, x in enumerate(r)] for k, r in enumerate(rounds)]
    ch = [A.var('al')] + [A.var('b%d' % i) if not cst else A.const(12345 + 77 * i) for i in range(total)]
    if cst:
        ch[0] = A.const(987654)
    ins = shape_ins(A, sh, [[shift] * len(r) for r in rounds], pts) + [A.var('pw')]
    for r in val:
        for m in r:
            for row in m:
                ins += row
    ins += [len(ch)] + ch + list(idx)

    def check(fc, o):
        r = Rd(o)
        polys = []
        for k, rd in enumerate(rounds):
            if r.int() != 1:
                return 'Commit fails'
            polys.append([])
            for m, (l, c, *_) in enumerate(rd):
                if (r.int(), r.int()) != (1 << l + lb, c):
                    return 'Commit: extension %d of round %d has the wrong shape' % (m, k)
                ps = [interp(A, l, shift, [val[k][m][i][j] for i in range(1 << l)]) for j in range(c)]
                # the committed polynomial q(X) = p(X s / g ...) keeps p's coefficients in the coset's own coordinate
                polys[-1].append(ps)
                for i in range(1 << l + lb):
                    x = A.mul(G, A.const(pow(gen(l + lb), rev(i, l + lb), P)))
                    for j in range(c):
                        if not same(A, fc, r.val(), evalp(A, ps[j], x)):
                            return 'Commit: row %d, column %d of matrix %d, round %d is not the polynomial at the point of that row' % (i, j, m, k)
        n = r.int()
        ev = [r.val() for _ in range(n)]
        if r.int() != 1:
            return 'CreateOpeningProof fails'
        if r.int() != len(rounds):
            return 'opened values: wrong number of rounds'
        for k, rd in enumerate(rounds):
            if r.int() != len(rd):
                return 'opened values: wrong number of matrices'
            for m, x in enumerate(rd):
                if r.int() != len(x[3]):
                    return 'opened values: wrong number of points'
                for z in pts[k][m]:
                    if r.int() != x[1]:
                        return 'opened values: wrong number of columns'
                    for j in range(x[1]):
                        if not same(A, fc, r.val(), evalp(A, polys[k][m][j], z)):
                            return 'opened value of column %d is not the polynomial at the point' % j
        n2 = r.int()
        ev2 = [r.val() for _ in range(n2)]
        if r.int() != 1:
            return 'the verifier rejects an honest proof'
        if n != n2 or any(a != b and (isinstance(a, int) and isinstance(b, int) or not same(A, fc, a, b)) for a, b in zip(ev, ev2)):
            return 'prover and verifier use different transcripts'
    J.go(mod, A, 'honest opening, blow-up 2^%d, %d queries %s, rounds %s%s' % (lb, nq, list(idx), rounds, ', shifted' if shifted else ''), 'h_open', ins, [], fc, check, steps=30000000)


def j_verify(J, mod, sh, idx, ncom, pw=1, nq2=None, total=None):
    """an arbitrary proof: which openings are checked, and when it is accepted"""
    lb, nq, bits, rounds = sh
    nq2 = nq if nq2 is None else nq2
    nz = 1 + max([i for r in rounds for m in r for i in m[3]] + [0])
    nm = ['al', 'fin', 'pw'] + ['b%d' % i for i in range(ncom)] + ['k%d' % i for i in range(ncom)] + ['c%d' % i for i in range(len(rounds))] + ['z%d' % i for i in range(nz)]
    for k, r in enumerate(rounds):
        for m, (l, c, _, ps) in enumerate(r):
            nm += ['p%d_%d_%d_%d' % (k, m, i, j) for i in range(len(ps)) for j in range(c)]
            nm += ['o%d_%d_%d_%d' % (q, k, m, j) for q in range(nq2) for j in range(c)]
    nm += ['s%d_%d' % (q, i) for q in range(nq2) for i in range(ncom)]
    A = alg(nm, 7, fresh=2)
    V = A.var
    fc = Facts(A)
    total = ncom + lb
    Z = [V('z%d' % i) for i in range(nz)]
    A.hints = [A.sub(z, A.mul(A.params[1], A.const(pow(gen(total), i, P)))).n for z in Z for i in range(1 << total)]
    for z in Z:
        for i in range(1 << total):
            A.assume_nonzero(fc, A.sub(A.mul(A.params[1], A.const(pow(gen(total), i, P))), z))
    pts = [[[Z[i] for i in m[3]] for m in r] for r in rounds]
    ins = shape_ins(A, sh, [[A.const(1)] * len(r) for r in rounds], pts) + [pw, V('pw')] + [V('c%d' % i) for i in range(len(rounds))]
    ins += [V('p%d_%d_%d_%d' % (k, m, i, j)) for k, r in enumerate(rounds) for m, x in enumerate(r) for i in range(len(x[3])) for j in range(x[1])]
    ins += [ncom] + [V('k%d' % i) for i in range(ncom)] + [V('fin'), nq2]
    for q in range(nq2):
        ins += [V('o%d_%d_%d_%d' % (q, k, m, j)) for k, r in enumerate(rounds) for m, x in enumerate(r) for j in range(x[1])]
        ins += [V('s%d_%d' % (q, i)) for i in range(ncom)]
    ins += [1 + ncom, V('al')] + [V('b%d' % i) for i in range(ncom)] + list(idx)
    name = 'arbitrary proof with %d commitments, blow-up 2^%d, queries %s, rounds %s%s' % (ncom, lb, list(idx), rounds, '' if pw else ', bad proof of work')

    def query(q):
        """-> expected openings of the query, its final value"""
        x = idx[q]
        ev = [4, total]
        red = {}
        for k, r in enumerate(rounds):
            mx = max(l for l, *_ in r) + lb
            ev += [10, V('c%d' % k), x >> total - mx, len(r)] + [1 << l + lb for l, *_ in r] + [len(r)]
            for m, (l, c, *_) in enumerate(r):
                ev += [c] + [V('o%d_%d_%d_%d' % (q, k, m, j)) for j in range(c)]
            for m, (l, c, _, ps) in enumerate(r):
                pt = A.mul(A.params[1], A.const(pow(gen(l + lb), rev(x >> total - l - lb, l + lb), P)))
                s, pa = red.get(l + lb, (A.const(0), A.const(1)))
                for i, zi in enumerate(ps):
                    d = A.inv(A.sub(pt, Z[zi]))
                    for j in range(c):
                        s = A.add(s, A.mul(pa, A.mul(d, A.sub(V('o%d_%d_%d_%d' % (q, k, m, j)), V('p%d_%d_%d_%d' % (k, m, i, j))))))
                        pa = A.mul(pa, V('al'))
                red[l + lb] = (s, pa)
        f = A.const(0)
        for i in range(ncom):
            l = total - i
            if l in red:
                f = A.add(f, red[l][0])
            sib = V('s%d_%d' % (q, i))
            lo, hi = (sib, f) if x & 1 else (f, sib)
            x >>= 1
            ev += [10, V('k%d' % i), x, 1, 1 << l - 1, 1, 2, lo, hi]
            f = fold2(A, lo, hi, V('b%d' % i), A.const(pow(gen(l), rev(x, l - 1), P)))
        return ev, f

    odd = max(l for r in rounds for l, *_ in r) != ncom

    def check(fc, o):
        r = Rd(o)
        n = r.int()
        ev = [r.val() for _ in range(n)]
        ok = r.int() & 1
        if odd:
            return 'a proof with %d layers instead of %d is accepted' % (ncom, max(l for r in rounds for l, *_ in r)) if ok else None
        want = [3]
        for i in range(ncom):
            want += [1, V('k%d' % i), 3]
        want += [2, V('fin')]
        exp = True
        if nq2 != nq:
            exp = False
        else:
            want += [5, bits, V('pw')]
            exp = bool(pw)
        if exp:
            for q in range(nq):
                e, f = query(q)
                want += e
                if not same(A, fc, f, V('fin')):
                    exp = False
                    break
        for i, (a, b) in enumerate(zip(ev, want)):
            if isinstance(b, int):
                if a != b:
                    return 'step %d of the verification is %s, not %s' % (i, a, b)
            elif not same(A, fc, a, b):
                return 'step %d of the verification works on another value' % i
        if len(ev) != len(want):
            return 'the verification has %d steps, not %d' % (len(ev), len(want))
        if bool(ok) != exp:
            return '%s although %s' % ('accepted' if ok else 'rejected', 'the final value, proof of work or number of queries is wrong' if ok else 'everything matches')
    J.go(mod, A, name, 'h_verify', ins, [], fc, check, steps=30000000, may_abort=(lambda fc, o: True) if odd else None)


def tree(A, leaves):
    """-> levels, root last"""
    l = [list(leaves)]
    while len(l[-1]) > 1:
        l.append([A.fn(3, [l[-1][i], l[-1][i + 1]], 1)[0] for i in range(0, len(l[-1]), 2)])
    return l


def path(levels, i):
    r = []
    for l in levels[:-1]:
        r.append((i & 1, l[i ^ 1]))
        i >>= 1
    return r


def salg(names):
    A = HAlg(names, 110)
    A.params = {0: A.const(W), 2: A.const(pow(W, 11, P))}
    return A


def fold_coeffs(A, c, beta):
    r = []
    for i in range(0, len(c), 2):
        r.append(A.add(c[i], A.mul(beta, c[i + 1])) if i + 1 < len(c) else c[i])
    return r


def j_sopen(J, mod, k, ln, index, z=()):
    nm = ['c%d' % i for i in range(ln)] + ['b%d' % i for i in range(k)]
    A = salg(nm)
    c = [A.var('c%d' % i) for i in range(ln)]
    b = [A.var('b%d' % i) for i in range(k)]

    def check(fc, o):
        r = Rd(o)
        want = []
        trees, cur = [], c
        for i in range(k):
            n = k - i
            cur = [A.const(0) if same(A, fc, x, A.const(0)) else x for x in cur]
            trees.append(tree(A, [evalp(A, cur, A.const(pow(gen(n), j, P))) for j in range(1 << n)]))
            want += [2, trees[-1][-1][0], 3, 1]
            cur = fold_coeffs(A, cur, b[i])
        want += [2, cur[0] if cur else A.const(0), 3]
        n = r.int()
        ev = [r.val() for _ in range(n)]
        if n != len(want):
            return 'Commit: %d transcript steps, not %d' % (n, len(want))
        for i, (x, y) in enumerate(zip(ev, want)):
            if x != y if isinstance(y, int) else not same(A, fc, x, y):
                return 'Commit: transcript step %d is wrong' % i
        if (r.int(), r.int()) != (1, 1):
            return 'Commit or CreateOpeningProof fails'
        if [r.int() for _ in range(4)] != [k] * 4:
            return 'the proof does not have one opening per layer'
        for i in range(k):
            n = 1 << k - i
            js = (index % n, (index + n // 2) % n)
            for j in js:
                p = path(trees[i], j)
                if r.int() != len(p):
                    return 'path of layer %d has the wrong length' % i
                for d, h in p:
                    if r.int() & 1 != d or not same(A, fc, r.val(), h):
                        return 'path of layer %d is not that of leaf %d' % (i, j)
            for j in js:
                if not same(A, fc, r.val(), trees[i][0][j]):
                    return 'layer %d does not open the value at leaf %d' % (i, j)
    J.go(mod, A, 'SimpleFRI commitment and opening, domain 2^%d, %d coefficients, index %d' % (k, ln, index), 'h_sfri_open', c + b, [k, ln, index], Facts(A), check, steps=10000000)


def j_sverify(J, mod, k, index, wrong=None, layers=None, depth=None):
    """openings of arbitrary committed layers; wrong = (layer, which, leaf)
    opens another leaf, depth = (layer, which) adds a level to the path"""
    layers = k if layers is None else layers
    nm = ['l%d_%d' % (i, j) for i in range(k) for j in range(1 << k - i)] + ['b%d' % i for i in range(k)] + ['f', 'q']
    A = salg(nm)
    T = [tree(A, [A.var('l%d_%d' % (i, j)) for j in range(1 << k - i)]) for i in range(k)]
    b = [A.var('b%d' % i) for i in range(k)]
    roots = [t[-1][0] for t in T]
    ins, vals = [], []
    for i in range(layers):
        t = T[min(i, k - 1)]
        n = len(t[0])
        js = [index % n, (index + n // 2) % n]
        if wrong and wrong[0] == i:
            js[wrong[1]] = wrong[2]
        vals.append([t[0][j] for j in js])
        ins += vals[-1]
        for w, j in enumerate(js):
            p = path(t, j)
            if depth == (i, w):
                p = p + [(0, A.var('q'))]
                roots[i] = A.fn(3, [t[-1][0], A.var('q')], 1)[0]
            ins.append(len(p))
            for d, h in p:
                ins += [d, h]
    ins += b + roots + [A.var('f')]

    def check(fc, o):
        r = Rd(o)
        n = r.int()
        ev = [r.val() for _ in range(n)]
        ok = r.int() & 1
        want = []
        for i in range(k):
            want += [3, 2, roots[i], 1]
        want += [3, 2, A.var('f')]
        for x, y in zip(ev, want):
            if x != y if isinstance(y, int) else not same(A, fc, x, y):
                return 'the verifier reads the transcript in another order'
        exp = not wrong and not depth and layers == k
        if exp:
            e = None
            for i in range(k):
                if e is not None and not same(A, fc, e, vals[i][0]):
                    exp = False
                x = A.const(pow(gen(k - i), index % (1 << k - i), P))
                e = fold2(A, vals[i][0], vals[i][1], b[i], x)
            if not same(A, fc, e, A.var('f')):
                exp = False
        if bool(ok) != exp:
            return 'accepts a proof that %s' % ('opens another leaf' if wrong or depth else 'does not fold to the next layer' if layers == k else 'has %d layers' % layers) if ok else 'rejects a valid proof'
    J.go(mod, A, 'SimpleFRI verification, domain 2^%d, index %d%s%s%s' % (k, index, ', leaf %s of layer %s instead' % (wrong[2], wrong[0]) if wrong else '', ', %d layers' % layers if layers != k else '',
                                                                       ', longer path' if depth else ''), 'h_sfri_verify', ins, [k, index, layers], Facts(A), check, steps=10000000)


def sjobs(thorough):
    l = [('j_sopen', k, n, i) for k, n, i in ((1, 2, 1), (1, 1, 0), (2, 4, 1), (2, 4, 2), (2, 3, 7), (3, 8, 5), (3, 6, 3), (3, 5, 14))]
    l += [('j_sverify', k, i) for k, i in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 3), (2, 6), (3, 5), (3, 6), (3, 11))]
    l += [('j_sverify', 1, 0, (0, 0, 1)), ('j_sverify', 1, 1, (0, 1, 1)), ('j_sverify', 2, 1, (0, 0, 3)), ('j_sverify', 2, 2, (0, 1, 2)), ('j_sverify', 2, 3, (1, 0, 0)), ('j_sverify', 3, 5, (1, 1, 1)),
          ('j_sverify', 3, 2, (2, 1, 0)), ('j_sverify', 2, 1, None, 1), ('j_sverify', 2, 1, None, 3), ('j_sverify', 1, 0, None, None, (0, 0)), ('j_sverify', 2, 3, None, None, (1, 1))]
    return l


def job_list(thorough):
    l = [('j_fold', k) for k in range(0, 5 if thorough else 4)]
    l += [('j_coset', k, mn, 1 << c) for k, mn, c in ((1, 1, 0), (1, 2, 1), (2, 3, 1), (2, 5, 2), (3, 8, 2), (3, 9, 3))]
    l += [('j_sel', n, c) for n, c in ((0, 0), (1, 1), (1, 2), (2, 2), (0, 2), (2, 3), (1, 3), (2, 4))]
    z = ('z',)
    for lb, rounds, idx, g, zs, sft in (
            (1, [[(1, 1, 1, (0,))]], (2,), None, ('z',), False),
            (1, [[(1, 2, 1, (0,))]], (1, 3), 7, ('z',), True),
            (1, [[(2, 1, 1, (0,))]], (5,), 7, (12345,), False),
            (2, [[(1, 1, 2, (0, 1))]], (6,), 7, (12345, 777), False),
            (1, [[(1, 1, 1, (0,)), (1, 2, 1, (1,))]], (1,), 7, (12345, 777), False),
            (1, [[(2, 1, 1, (0,)), (1, 1, 1, (0,))]], (3,), 7, (12345,), False),
            (1, [[(2, 1, 1, (0,))], [(1, 2, 2, (0, 1))]], (6,), 7, (12345, 777), False),
            (1, [[(1, 1, 1, (0,))], [(2, 1, 1, (0,))]], (4,), 7, (12345,), False),
            (2, [[(2, 2, 1, (0,)), (1, 1, 2, (0, 1))], [(2, 1, 1, (1,))]], (9, 14), 7, (12345, 777), False),
            (1, [[(3, 1, 1, (0,)), (1, 1, 1, (0,))], [(2, 1, 1, (0,))]], (13,), 7, (12345,), False)):
        l.append(('j_open', (lb, len(idx), 3, rounds), idx, g, zs, sft))
    for lb, rounds, idx, ncom in (
            (1, [[(1, 1, 1, (0,))]], (0,), 1), (1, [[(1, 1, 1, (0,))]], (1,), 1), (1, [[(1, 2, 1, (0,))]], (2, 3), 1),
            (1, [[(2, 1, 1, (0,))]], (5,), 2), (2, [[(1, 1, 2, (0, 1))]], (6,), 1),
            (1, [[(2, 2, 2, (0, 1)), (1, 1, 1, (0,))]], (6,), 2), (1, [[(1, 1, 1, (0,))], [(2, 1, 1, (1,))]], (3,), 2),
            (1, [[(3, 1, 1, (0,)), (1, 1, 1, (0,))], [(2, 1, 1, (0,)), (3, 1, 1, (0,))]], (11,), 3)):
        l.append(('j_verify', (lb, len(idx), 3, rounds), idx, ncom))
    s = (1, 2, 3, [[(1, 1, 1, (0,))]])
    l += [('j_verify', (1, 1, 3, [[(1, 1, 1, (0,))]]), (i,), k) for i, k in ((0, 0), (1, 0), (2, 2), (5, 2), (6, 3))]
    l += [('j_verify', (1, 1, 3, [[(2, 1, 1, (0,))]]), (i,), k) for i, k in ((0, 0), (1, 1), (3, 1), (9, 3))] + [('j_verify', (2, 1, 3, [[(2, 1, 1, (0,))], [(1, 1, 1, (0,))]]), (5,), 1), ('j_verify', (1, 1, 3, [[(1, 1, 1, (0,)), (3, 1, 1, (0,))]]), (5,), 2)]
    l += [('j_verify', s, (2, 1), 1, 0), ('j_verify', s, (2,), 1, 1, 1), ('j_verify', s, (2, 1, 3), 1, 1, 3)]
    return l


FN = {k: f for k, f in globals().items() if k.startswith('j_')}


def run_all(rep, thorough):
    jobs.MODS['f'] = load_ir(os.path.join(VERIF, 'harness/fri.cc'), fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['f' + k] = f
    jobs.MODS['s'] = load_ir(os.path.join(VERIF, 'harness/simple_fri.cc'), fresh=True)
    jobs.MODS['f3'] = load_ir(os.path.join(VERIF, 'harness/fri.cc'), extra=['-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness/omp')], fresh=True)
    from jobs import run_jobs
    l = [('f' + k, ('s', *a)) for k, *a in sjobs(thorough)]
    jl = job_list(thorough)
    l += [('f' + k, ('f3', *a)) for i, (k, *a) in enumerate(jl) if k in ('j_fold', 'j_sel') or k == 'j_open' and (thorough or a[3] is not None and i % 2)]
    run_jobs(rep, l + [('f' + k, ('f', *a)) for k, *a in jl], limit=1500 if thorough else 300)
