"""KZG, GWC, SHPlonk and Pedersen: commitments and openings as identities of
the exponents, against the definitions of the schemes."""
import os
from absint import Undecided
from alg import Facts
from spec import P, root, same, cases
from common import load_ir, VERIF
import jobs
from hashes import HAlg, nonzero, equal_iff
from fri import Rd

W = root(32)


class CAlg(HAlg):
    """points are totally ordered by their rank"""

    def __init__(self, names, fresh=4):
        HAlg.__init__(self, names, fresh)
        self.rank = {}

    def af(self, st, n, a):
        if n == 'lt':
            x, y = ((h.n, h.d) for h in (self.normh(st.facts, self.h(v)) for v in a))
            if x in self.rank and y in self.rank:
                return int(self.rank[x] < self.rank[y])
        return HAlg.af(self, st, n, a)


def sm(A, l):
    r = A.const(0)
    for x in l:
        r = A.add(r, x)
    return r


def pr(A, l):
    r = A.const(1)
    for x in l:
        r = A.mul(r, x)
    return r


def pw(A, x, n):
    return pr(A, [x] * n)


def ev(A, c, x):
    r = A.const(0)
    for y in reversed(c):
        r = A.add(A.mul(r, x), y)
    return r


def lag(A, xs, ys, u):
    """value at u of the polynomial through the points"""
    return sm(A, [A.mul(y, pr(A, [A.mul(A.sub(u, b), A.inv(A.sub(a, b))) for j, b in enumerate(xs) if j != i])) for i, (a, y) in enumerate(zip(xs, ys))])


def alg(names, tau='t'):
    A = CAlg(names)
    A.params = {0: A.const(W), 2: A.const(root(96))}
    return A


def facts(A, pairs):
    f = Facts(A)
    for a, b in pairs:
        d = A.sub(a, b)
        A.assume_nonzero(f, d)
        A.hints.append(A.canon(d.n))
    return f


def dom(n):
    w = pow(W, 32 // n, P)
    return [pow(w, i, P) for i in range(n)]


def lcoef(A, n, t):
    """values at t of the Lagrange polynomials of the domain of size n"""
    D = dom(n)
    return [pr(A, [A.mul(A.sub(t, A.const(b)), A.inv(A.sub(A.const(a), A.const(b)))) for b in D if b != a]) for a in D]


NM = ('PointXYZZ', 'affine', 'Jacobian')


def j_kzg(J, mod, how, n, down, ln, batch):
    nm = ['t'] + ['v%d_%d' % (i, j) for i in range(batch or 1) for j in range(ln)]
    A = alg(nm)
    t = A.var('t')
    A.hints = [A.canon(A.sub(t, A.const(w)).n) for w in dom(n)]
    V = [[A.var('v%d_%d' % (i, j)) for j in range(ln)] for i in range(batch or 1)]
    m = down or n
    w = 'KZG setup of size %d%s, %s of %d %s commitments' % (n, ', downsized to %d' % down if down else '', 'batch of %d' % batch if batch else 'commitment', ln, NM[how])

    def check(fc, o):
        r = Rd(o)
        if not r.int() & 1:
            return 'the setup fails'
        if down:
            ok = r.int() & 1
            if bool(ok) != (down < n):
                return 'Downsize reports %d' % ok
        k = m if down < n else n
        if (r.int(), r.int()) != (k, k):
            return 'holds another number of powers'
        for i in range(k):
            if not same(A, fc, r.val(), pw(A, t, i)):
                return 'power %d of tau is wrong' % i
        L = lcoef(A, k, t)
        F, found = lcoef(A, n, t), None
        for i in range(k):
            b = r.val()
            if not same(A, fc, b, L[i]):
                if k < n and same(A, fc, b, F[i]):
                    found = ('KZG::Downsize', 'Lagrange basis: point %d is not the Lagrange polynomial of the smaller domain' % i)
                    L = F[:k]
                    continue
                return 'Lagrange basis: point %d is not the Lagrange polynomial at tau' % i
        B = [[pw(A, t, i) for i in range(k)], L]
        for l in range(2):
            want = [sm(A, [A.mul(x, b) for x, b in zip(v, B[l])]) for v in V]
            name = ('Commit', 'CommitLagrange')[l]
            if not batch:
                ok = r.int() & 1
                c = r.val()
                if bool(ok) != (ln <= k):
                    return '%s %s' % (name, 'accepts more values than the setup has powers' if ok else 'fails')
                if ok and not same(A, fc, c, want[0]):
                    return '%s is not the value at tau' % name
            else:
                for i in range(batch):
                    if bool(r.int() & 1) != (ln <= k):
                        return 'batch %s reports the wrong outcome' % name
                if r.int() != batch:
                    return 'another number of batch commitments'
                for i in range(batch):
                    if not same(A, fc, r.val(), want[i]):
                        return 'batch %s: commitment %d is not the value at tau' % (name, i)
                if r.int() & 1 or r.int():
                    return 'the batch state is not reset'
        return found
    J.go(mod, A, w, 'h_kzg', [t] + [x for v in V for x in v], [how, n, down, ln, batch], Facts(A), check, steps=10000000)


SC = ('GWC', 'SHPlonk')


def j_scheme(J, mod, which, n, ln, batch):
    nm = ['t'] + ['v%d_%d' % (i, j) for i in range(batch) for j in range(ln)]
    A = alg(nm)
    t = A.var('t')
    f = facts(A, [(t, A.const(w)) for w in dom(n)])
    V = [[A.var('v%d_%d' % (i, j)) for j in range(ln)] for i in range(batch)]

    def check(fc, o):
        r = Rd(o)
        if not r.int() & 1:
            return 'the setup fails'
        if (r.int(), r.int(), r.int()) != (n, n.bit_length() - 1, n - 1):
            return 'wrong N, K or D'
        if not same(A, fc, r.val(), t):
            return 'the point of G2 is not tau times the generator'
        B = [[pw(A, t, i) for i in range(n)], lcoef(A, n, t)]
        want = [[sm(A, [A.mul(x, b) for x, b in zip(v, B[l])]) for v in V] for l in range(2)]
        for l in range(2):
            if not r.int() & 1 or not same(A, fc, r.val(), want[l][0]):
                return ('Commit', 'CommitLagrange')[l] + ' is not the value at tau'
        for l in range(2):
            name = 'batch ' + ('Commit', 'CommitLagrange')[l]
            if not r.int() & 1:
                return 'batch mode is not entered'
            for i in range(batch):
                if not r.int() & 1:
                    return name + ' fails'
            if r.int() != batch:
                return 'another number of batch commitments'
            for i in range(batch):
                if not same(A, fc, r.val(), want[l][i]):
                    return '%s: commitment %d is not the value at tau' % (name, i)
            if r.int() & 1:
                return 'batch mode is not left'
    J.go(mod, A, '%s setup of size %d, polynomials of %d values, batch of %d' % (SC[which], n, ln, batch), 'h_scheme', [t] + [x for v in V for x in v], [which, n, ln, batch], f, check, steps=10000000)


def j_ped(J, mod, how, n, ln, batch):
    k = batch or 1
    nm = ['h'] + ['g%d' % i for i in range(n)] + ['b%d' % i for i in range(k)] + ['v%d_%d' % (i, j) for i in range(k) for j in range(ln)]
    A = alg(nm)
    G = [A.var('g%d' % i) for i in range(n)]
    B = [A.var('b%d' % i) for i in range(k)]
    V = [[A.var('v%d_%d' % (i, j)) for j in range(ln)] for i in range(k)]
    h = A.var('h')

    def check(fc, o):
        r = Rd(o)
        want = [A.add(A.mul(h, b), sm(A, [A.mul(x, y) for x, y in zip(G, v)])) for b, v in zip(B, V)]
        if not batch:
            ok, c = r.int() & 1, r.val()
            if bool(ok) != (ln == n):
                return 'accepts %d values for %d generators' % (ln, n) if ok else 'fails'
            return None if not ok or same(A, fc, c, want[0]) else 'the commitment is not h r + <g, v>'
        for i in range(k):
            if bool(r.int() & 1) != (ln == n):
                return 'batch commitment reports the wrong outcome'
        if r.int() != k:
            return 'another number of batch commitments'
        found = None
        for i in range(k):
            c = r.val()
            if ln == n and not same(A, fc, c, want[i]):
                if same(A, fc, c, sm(A, [A.mul(x, y) for x, y in zip(G, V[i])])):
                    found = ('Pedersen batch commitment', 'leaves out the blinding factor')
                    continue
                return 'batch commitment %d is not h r + <g, v>' % i
        if r.int() & 1:
            return 'batch mode is not left'
        return found
    J.go(mod, A, 'Pedersen (%s), %d generators, %d values%s' % (NM[how], n, ln, ', batch of %d' % batch if batch else ''), 'h_ped', [h] + G + [x for b, v in zip(B, V) for x in [b] + v], [how, n, ln, batch], Facts(A), check)


def j_pedsetup(J, mod, n):
    A = alg(['q'] + ['r%d' % i for i in range(n + 1)])

    def check(fc, o):
        r = Rd(o)
        if not r.int() & 1 or r.int() != n:
            return 'the setup fails or has another number of generators'
        v = [r.val() for _ in range(n + 1)]
        if any(same(A, fc, x, y) for i, x in enumerate(v) for y in v[:i]):
            return 'generators are not drawn independently'
    J.go(mod, A, 'Pedersen setup of %d generators' % n, 'h_pedsetup', [A.var('q')], [n], Facts(A), check)


def group(A, fc, which, opens, ident, X):
    """groups of the scheme: [(points, [(oracle, values)])], ident(i, j): same oracle"""
    if which == 0:
        g = []
        for p, x, v in opens:
            for h in g:
                if h[0] == [x]:
                    h[1].append((p, [v]))
                    break
            else:
                g.append(([x], [(p, [v])]))
        return g
    byp = []
    for p, x, v in opens:
        for h in byp:
            if ident(h[0], p):
                if x not in h[1]:
                    h[1][x] = v
                break
        else:
            byp.append((p, {x: v}))
    g = []
    for p, d in byp:
        xs = sorted(d)
        for h in g:
            if h[0] == xs:
                h[1].append((p, [d[x] for x in xs]))
                break
        else:
            g.append((xs, [(p, [d[x] for x in xs])]))
    return g


def j_open(J, mod, which, degs, npts, opens, left=9):
    """degs: number of coefficients per polynomial; opens: (polynomial, point)"""
    nm = ['t', 'u', 'v', 'y'] + ['x%d' % i for i in range(npts)] + ['c%d_%d' % (i, j) for i, n in enumerate(degs) for j in range(n)]
    A = alg(nm)
    t, u, v, y = (A.var(x) for x in 'tuvy')
    X = [A.var('x%d' % i) for i in range(npts)]
    A.rank = {(x.n, x.d): i for i, x in enumerate(X)}
    # any polynomial, given by its coefficients in the Newton basis of its
    # points: conditions on its values are conditions on variables
    C = []
    for i, n in enumerate(degs):
        pts = sorted({x for p, x in opens if p == i})
        c = []
        for j in reversed(range(n)):
            z = X[pts[j]] if j < len(pts) else A.const(0)
            c = [A.sub(A.const(0) if k == 0 else c[k - 1], A.mul(z, c[k]) if k < len(c) else A.const(0)) for k in range(len(c) + 1)] if c else [A.const(0)]
            c[0] = A.add(c[0], A.var('c%d_%d' % (i, j)))
        C.append(c)
    n = 4 if max(degs + (1,)) <= 4 else 8
    f = facts(A, [(X[i], X[j]) for i in range(npts) for j in range(i)] + [(u, x) for x in X] + [(t, x) for x in X] + [(t, u)] + [(t, A.const(w)) for w in dom(n)])
    for c in C:
        if c:
            A.assume_nonzero(f, c[-1])
    ins = [t]
    for c in C:
        ins += [len(c)] + c
    ins += X
    for p, x in opens:
        ins += [p, x, ev(A, C[p], X[x])]
    ins += [v] if which == 0 else [y, v, u]

    def check(fc, o):
        r = Rd(o)
        k = r.int()
        e = [r.val() for _ in range(k)]
        ok, bm = r.int() & 1, r.int() & 1

        def ident(i, j):
            return i == j or len(C[i]) == len(C[j]) and all(same(A, fc, a, b) for a, b in zip(C[i], C[j]))
        g = group(A, fc, which, [(p, x, ev(A, C[p], X[x])) for p, x in opens], ident, X)
        at = [ev(A, c, t) for c in C]
        if which == 0:
            ws = [A.mul(sm(A, [A.mul(pw(A, v, j), A.sub(at[p], o[0])) for j, (p, o) in enumerate(l)]), A.inv(A.sub(t, X[x[0]]))) for x, l in g]
            want = [1]
            for i, w in enumerate(ws):
                want += [2, w, 3, w]
                if i == left:
                    break
            done = len(ws) <= left
        else:
            H = sm(A, [A.mul(pw(A, v, i), A.mul(sm(A, [A.mul(pw(A, y, j), A.sub(at[p], lag(A, [X[a] for a in x], o, t))) for j, (p, o) in enumerate(l)]),
                                                A.inv(pr(A, [A.sub(t, X[a]) for a in x])))) for i, (x, l) in enumerate(g)])
            sup = sorted({x for _, x in opens})
            zd = [pr(A, [A.sub(u, X[a]) for a in sup if a not in x]) for x, _ in g]
            L = sm(A, [A.mul(pw(A, v, i), A.mul(zd[i], sm(A, [A.mul(pw(A, y, j), A.sub(at[p], lag(A, [X[a] for a in x], o, u))) for j, (p, o) in enumerate(l)]))) for i, (x, l) in enumerate(g)])
            Q = A.mul(A.sub(L, A.mul(pr(A, [A.sub(u, X[a]) for a in sup]), H)), A.inv(A.mul(A.sub(t, u), zd[0])))
            want = [1, 1, 2, H, 3, H, 1, 2, Q, 3, Q]
            if left == 0:
                want = want[:6]
            elif left == 1:
                pass
            done = left > 1
        for i, (a, b) in enumerate(zip(e, want)):
            if a != b if isinstance(b, int) else not same(A, fc, a, b):
                return 'event %d of the transcript is not that of the scheme' % i
        if len(e) != len(want):
            return '%d transcript events instead of %d' % (len(e), len(want))
        if bool(ok) != done:
            return 'reports %s' % bool(ok)
        if bm:
            return 'stays in batch mode'
    J.go(mod, A, '%s opening of polynomials with %s coefficients at %s%s' % (SC[which], list(degs), list(opens), ', writing fails after %d' % left if left < 9 else ''), 'h_open', ins, [which, n, len(degs), npts, len(opens), left], f, check,
         steps=20000000)


def j_verify(J, mod, which, how, ncom, npts, opens, left=9):
    """opens: (commitment, point, value); values are names (equal names: equal values)"""
    names = sorted({v for _, _, v in opens})
    m = 9
    nm = ['t', 'u', 'v', 'y'] + ['x%d' % i for i in range(npts)] + ['c%d' % i for i in range(ncom)] + ['o' + s for s in names] + ['w%d' % i for i in range(m)]
    A = alg(nm)
    t, u, v, y = (A.var(x) for x in 'tuvy')
    X = [A.var('x%d' % i) for i in range(npts)]
    A.rank = {(x.n, x.d): i for i, x in enumerate(X)}
    C = [A.var('c%d' % i) for i in range(ncom)]
    w = [A.var('w%d' % i) for i in range(m)]
    f = facts(A, [(X[i], X[j]) for i in range(npts) for j in range(i)] + [(u, x) for x in X] + [(t, A.const(z)) for z in dom(2)])
    ch = [v, u] if which == 0 else [y, v, u]
    O = [(p, x, A.var('o' + s)) for p, x, s in opens]
    ins = [t] + C + X + [z for p, x, s in O for z in (p, x, s)] + ch + w

    def check(fc, o):
        r = Rd(o)
        e = [r.val() for _ in range(r.int())]
        g = group(A, fc, which, O, lambda i, j: same(A, fc, C[i], C[j]), X)
        need = len(g) if which == 0 else 2
        got = min(left, need)
        if which == 0:
            want = [1] + [z for i in range(got) for z in (2, w[i])] + [1] * (got == need)
        else:
            want = [1, 1] + ([2, w[0], 1] if got else []) + ([2, w[1]] if got == 2 else [])
        if len(e) != len(want) or any(a != b if isinstance(b, int) else not same(A, fc, a, b) for a, b in zip(e, want)):
            return 'the verifier reads the transcript in another order'
        fl = r.val()
        if got < need:
            return 'accepts a truncated proof' if not isinstance(fl, int) or fl & 1 else None
        if which == 0:
            D = sm(A, [A.mul(pw(A, u, i), A.sub(A.mul(A.sub(t, X[x[0]]), w[i]), sm(A, [A.mul(pw(A, v, j), A.sub(C[p], q[0])) for j, (p, q) in enumerate(l)]))) for i, (x, l) in enumerate(g)])
        else:
            clash = [(a, b) for i, a in enumerate(O) for b in O[:i] if a[1] == b[1] and same(A, fc, C[a[0]], C[b[0]]) and not same(A, fc, a[2], b[2])]
            sup = sorted({x for _, x, _ in opens})
            zd = [pr(A, [A.sub(u, X[a]) for a in sup if a not in x]) for x, _ in g]
            L = sm(A, [A.mul(pw(A, v, i), A.mul(A.mul(zd[i], A.inv(zd[0])), sm(A, [A.mul(pw(A, y, j), A.sub(C[p], lag(A, [X[a] for a in x], q, u))) for j, (p, q) in enumerate(l)]))) for i, (x, l) in enumerate(g)])
            D = A.sub(A.sub(L, A.mul(pr(A, [A.sub(u, X[a]) for a in g[0][0]]), w[0])), A.mul(w[1], A.sub(t, u)))
            if clash:
                for q, b in cases(A, fc, fl):
                    if b and any(not same(A, q, a[2], c[2]) for a, c in clash):
                        return 'accepts two different values for the same commitment at one point'
                return
        return equal_iff(A, [D], [A.const(0)])(fc, fl)
    J.go(mod, A, '%s verification (%s) of openings %s%s' % (SC[which], ('set up', 'from its serialized parts')[how], list(opens), ', %d elements in the proof' % left if left < 9 else ''), 'h_verify', ins,
         [which, how, ncom, npts, len(opens), len(ch), left], f, check, steps=20000000)


FN = {k: f for k, f in globals().items() if k.startswith('j_')}

OPENS = (
    ((3,), 1, ((0, 0),)),
    ((1,), 1, ((0, 0),)),
    ((0, 2), 1, ((0, 0), (1, 0))),
    ((4,), 2, ((0, 0), (0, 1))),
    ((2,), 3, ((0, 2), (0, 0), (0, 1))),
    ((2, 3), 1, ((0, 0), (1, 0))),
    ((2, 3), 2, ((0, 1), (1, 0))),
    ((2, 3), 2, ((0, 0), (1, 0), (1, 1))),
    ((2, 2), 1, ((0, 0), (1, 0))),
    ((2, 2, 3), 2, ((0, 0), (1, 0), (2, 1), (2, 0), (0, 1))),
    ((2, 3, 1), 3, ((0, 0), (0, 2), (1, 1), (2, 2), (2, 0))),
    ((2, 3), 2, ((0, 0), (1, 1), (0, 0))),
    ((1, 2, 3), 2, ((0, 0), (1, 0), (2, 1))),
)
VER = (
    (1, 1, ((0, 0, 'a'),)),
    (1, 2, ((0, 0, 'a'), (0, 1, 'b'))),
    (1, 3, ((0, 2, 'a'), (0, 0, 'b'), (0, 1, 'c'))),
    (2, 1, ((0, 0, 'a'), (1, 0, 'b'))),
    (2, 2, ((0, 0, 'a'), (1, 1, 'b'))),
    (2, 2, ((0, 1, 'a'), (1, 0, 'b'), (0, 0, 'c'))),
    (2, 2, ((0, 0, 'a'), (1, 0, 'b'), (1, 1, 'c'), (0, 1, 'd'))),
    (3, 2, ((0, 0, 'a'), (1, 0, 'b'), (2, 1, 'c'))),
    (3, 3, ((0, 0, 'a'), (0, 2, 'b'), (1, 1, 'c'), (2, 2, 'd'), (2, 0, 'e'))),
    (3, 1, ((2, 0, 'a'), (0, 0, 'b'), (1, 0, 'c'))),
    (1, 1, ((0, 0, 'a'), (0, 0, 'b'))),
    (1, 1, ((0, 0, 'a'), (0, 0, 'a'))),
    (2, 2, ((0, 0, 'a'), (1, 1, 'b'), (0, 1, 'c'), (1, 1, 'd'))),
    (4, 2, ((0, 0, 'a'), (1, 1, 'b'), (2, 0, 'c'), (3, 1, 'd'))),
)


def pairs(npts):
    """two commitments at every pair of sets of points, in varying order"""
    out = []
    for a in range(1, 1 << npts):
        for b in range(1, 1 << npts):
            l = [(0, i) for i in range(npts) if a >> i & 1] + [(1, i) for i in range(npts) if b >> i & 1]
            k = (5 * a + 3 * b) % len(l)
            l = l[k:] + l[:k]
            if (a + b) % 3 == 0:
                l.reverse()
            out.append((2, npts, tuple((c, x, 'abcdefgh'[i]) for i, (c, x) in enumerate(l))))
    return out


def job_list(thorough):
    l = []
    l += [('j_verify', 1, 0, *x) for x in pairs(3)]
    l += [('j_verify', 1, 0, 2, 4, tuple((c, x, 'abcdef'[i]) for i, (c, x) in enumerate(y))) for y in (
        ((0, 0), (0, 1), (0, 3), (1, 0), (1, 2), (1, 3)), ((0, 0), (1, 1), (0, 2), (1, 3), (1, 2), (0, 3)), ((0, 3), (0, 1), (1, 2), (1, 0)))]
    for how in range(3):
        for n, ln in ((1, 1), (2, 2), (4, 4), (4, 1), (4, 3), (8, 8), (4, 5), (2, 0)):
            l.append(('j_kzg', how, n, 0, ln, 0))
        for n, ln, b in ((2, 2, 1), (4, 3, 2), (4, 4, 3)):
            if how < 2:
                l.append(('j_kzg', how, n, 0, ln, b))
    l += [('j_kzg', 1, 4, 2, 2, 0), ('j_kzg', 1, 4, 4, 4, 0), ('j_kzg', 0, 4, 5, 4, 0), ('j_kzg', 1, 8, 4, 4, 0)]
    for which in range(2):
        l += [('j_scheme', which, n, ln, b) for n, ln, b in ((1, 1, 1), (2, 2, 2), (4, 3, 2), (4, 4, 3), (8, 8, 1))]
        l += [('j_open', which, *x) for x in OPENS]
        l += [('j_open', which, *OPENS[i], k) for i in (3, 7) for k in (0, 1)]
        for how in range(2):
            l += [('j_verify', which, how, *x) for x in VER]
        l += [('j_verify', which, 0, *VER[i], k) for i in (1, 3, 5) for k in (0, 1)]
    for how in range(2):
        l += [('j_ped', how, n, ln, b) for n, ln, b in ((1, 1, 0), (3, 3, 0), (5, 5, 0), (3, 2, 0), (2, 3, 0), (2, 2, 1), (3, 3, 2), (2, 2, 3))]
    l += [('j_pedsetup', n) for n in (1, 3, 7)]
    return l


def run_all(rep, thorough):
    jobs.MODS['k'] = load_ir(os.path.join(VERIF, 'harness/commitments.cc'), fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['k' + k] = f
    from jobs import run_jobs
    run_jobs(rep, [('k' + k, ('k', *a)) for k, *a in job_list(thorough)], limit=1500 if thorough else 300)
