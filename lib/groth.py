"""R1CS constraint systems, quadratic arithmetic programs and Groth16:
synthesized systems, keys, proofs and verification as identities of opaque
scalars, against the definitions."""
import os
from absint import Undecided
from alg import Facts
from spec import P, same, cases
from common import load_ir, VERIF
import jobs
from hashes import nonzero, equal_iff
from fri import Rd
from commit import alg, facts, dom, lcoef, sm, pr, pw, ev

OFF = 11    # stands for the generator of the multiplicative group
Z, ONE, I, W, S = range(5)


def L(*t):
    """terms (kind, index, coefficient); coefficients are numbers or names"""
    return tuple(t)


def i(n, c=1):
    return (I, n, c)


def w(n, c=1):
    return (W, n, c)


def s(n, c=1):
    return (S, n, c)


def o(c=1):
    return (ONE, 0, c)


class Circ:
    """inst, wit: numbers of variables; lcs: symbolic linear combinations;
    cons: (a, b, c); solve: {witness: constraint whose c it makes hold}"""

    def __init__(self, inst, wit, lcs, cons, solve=None):
        self.inst, self.wit, self.lcs, self.cons, self.solve = inst, wit, lcs, cons, solve or {}
        all_ = list(lcs) + [x for c in cons for x in c]
        self.coefs = sorted({t[2] for l in all_ for t in l if isinstance(t[2], str)})
        self.names = ['i%d' % k for k in range(1, inst + 1)] + ['w%d' % k for k in range(wit)] + self.coefs

    def bind(self, A, weight_new=()):
        self.A = A
        self.one = A.const(1)
        self.vi = [self.one] + [A.var('i%d' % k) for k in range(1, self.inst + 1)]
        self.vw = [A.var('w%d' % k) for k in range(self.wit)]
        for k, c in self.solve.items():
            a, b, cc = self.cons[c]
            assert cc == ((W, k, 1),)
            self.vw[k] = A.mul(self.value(a), self.value(b))
        return self

    def c(self, x):
        return self.A.var(x) if isinstance(x, str) else self.A.const(x % P)

    def value(self, l):
        A = self.A
        r = []
        for k, n, c in l:
            v = [lambda: A.const(0), lambda: self.one, lambda: self.vi[n], lambda: self.vw[n], lambda: self.value(self.lcs[n])][k]()
            r.append(A.mul(self.c(c), v))
        return sm(A, r)

    def row(self, l):
        """{column: coefficient} with every symbolic combination substituted"""
        A, r = self.A, {}
        for k, n, c in l:
            if k == Z:
                continue
            if k == S:
                for q, x in self.row(self.lcs[n]).items():
                    r[q] = A.add(r.get(q, A.const(0)), A.mul(self.c(c), x))
                continue
            q = {ONE: 0, I: n, W: self.inst + 1 + n}[k]
            r[q] = A.add(r.get(q, A.const(0)), self.c(c))
        return r

    def ins(self):
        def lc(l):
            return [len(l)] + [y for k, n, c in l for y in (k, n, self.c(c))]
        r = self.vi[1:] + self.vw
        for l in self.lcs:
            r += lc(l)
        for c in self.cons:
            for l in c:
                r += lc(l)
        return r

    def extra(self):
        return [self.inst, self.wit, len(self.lcs), len(self.cons)]


def val(A, xs, row):
    return sm(A, [A.mul(xs[k], c) for k, c in row.items()])


# --- circuits

CIRCS = {
    # x * x = y
    'square': Circ(1, 1, (), ((L(w(0)), L(w(0)), L(i(1))),)),
    'solved': Circ(1, 2, (), ((L(w(0)), L(i(1)), L(w(1))),), {1: 0}),
    'chain': Circ(2, 4, (), ((L(w(0), o(3)), L(i(1)), L(w(1))), (L(w(1), i(2, 2)), L(w(0), o(-1)), L(w(2))), (L(w(2), w(1, 5)), L(w(2), i(1)), L(w(3)))), {1: 0, 2: 1, 3: 2}),
    'names': Circ(1, 2, (), ((L(w(0, 'p'), o('q')), L(i(1, 'p')), L(w(1))),), {1: 0}),
    'none': Circ(2, 1, (), ()),
    'zeros': Circ(1, 2, (), ((L(), L(w(0)), L()), (L(w(0)), L(), L()), (L((Z, 0, 5), w(0)), L(o(2), (Z, 0, 1)), L(w(1)))), {1: 2}),
    'noinst': Circ(0, 2, (), ((L(w(0)), L(w(0)), L(w(1))),), {1: 0}),
    'empty': Circ(0, 0, (), ()),
    'unused': Circ(3, 4, (), ((L(w(2)), L(i(3)), L(w(3))),), {3: 0}),
    'eight': Circ(1, 6, (), tuple((L(w(k), w(k - 1, k) if k else o(2)), L(w(k), o(k)), L(w(k + 1))) for k in range(5)), {k + 1: k for k in range(5)}),
    'six': Circ(1, 6, (), tuple((L(w(k), i(1)), L(w(k), o(k + 1)), L(w(k + 1))) for k in range(5)), {k + 1: k for k in range(5)}),
    # repeated variables, unordered terms, cancelling coefficients
    'dup': Circ(2, 2, (), ((L(w(0, 2), i(1, 3), w(0, 5), o(1), i(1, 'p'), i(2)), L(w(1), w(1, -1), i(2)), L(o(1), o(4), w(0, 0)),),)),
    # symbolic combinations, nested and shared
    'sym': Circ(1, 3, (L(w(0), i(1, 2)), L(s(0, 3), w(1)), L(s(1), s(0, 'p'), o(7))),
                ((L(s(2)), L(s(1, 2)), L(w(2))), (L(s(0), s(1)), L(s(2), o()), L(s(0))))),
    'twice': Circ(1, 2, (L(w(0), w(1, 2)), L(s(0), s(0, 3), i(1))), ((L(s(1)), L(s(1), s(0)), L(w(0))),)),
    'alone': Circ(1, 2, (L(w(0), w(1, 2)), L(i(1)), L(s(0))), ((L(w(0)), L(s(2)), L(w(1))),)),
    'wide': Circ(1, 5, (L(w(0), w(1, 2), w(2, 3), w(3, 4)), L(s(0), i(1, 6), w(1)), L(s(1, 2), w(2), o(3))),
                 ((L(s(0)), L(s(1)), L(w(4))), (L(s(0), w(1)), L(s(2)), L(s(0, 9))), (L(s(1)), L(s(2), s(1)), L(o())), (L(s(2)), L(s(0)), L(s(2))))),
    'same': Circ(1, 4, (L(w(0), w(1, 2), w(2, 3), w(3, 4)), L(w(0), w(1, 2), w(2, 3), w(3, 4)), L(s(0), s(1))),
                 ((L(s(0)), L(s(1)), L(s(0))), (L(s(1), o()), L(s(0), w(1)), L(s(1))), (L(s(2)), L(s(0)), L(s(1))))),
    'zsym': Circ(1, 1, (L(w(0), (Z, 0, 4)), L(s(0), (Z, 0, 1), o(2))), ((L(s(1)), L((Z, 0, 1)), L(s(0))),)),
}


BIG = ('chain', 'eight', 'six', 'sym')


def j_cs(J, mod, name, mode, weight, times):
    C = CIRCS[name]
    A = alg(C.names)
    C.bind(A)
    f = Facts(A)
    for x in C.coefs:
        A.assume_nonzero(f, A.var(x))
    what = 'constraint system %s, %s, %s' % (name, ('setup', 'proving')[mode], ('inlined', 'outlined')[weight]) + (', finalized %d times' % times if times != 1 else '')
    a, b, c = ([x[k] for x in C.cons] for k in range(3))
    lhs = [A.mul(C.value(x), C.value(y)) for x, y in zip(a, b)]
    rhs = [C.value(x) for x in c]

    def sat(fc, flag, when):
        if not mode:
            return 'a system without assignments is satisfied' if flag & 1 else None
        r = equal_iff(A, lhs, rhs)(fc, flag)
        return r and '%s: IsSatisfied %s' % (when, r)

    def check(fc, out):
        r = Rd(out)
        x = sat(fc, r.val(), 'before Finalize')
        if x:
            return x
        if mode:
            for k, l in enumerate(C.lcs):
                if not same(A, fc, r.val(), C.value(l)):
                    return 'value of linear combination %d is wrong' % k
        x = sat(fc, r.val(), 'after Finalize')
        if x:
            return x
        ni, nw, nc = r.int(), r.int(), r.int()
        if ni != C.inst + 1:
            return '%d instance variables' % ni
        iv, wv = ([A.h(x) for x in r.vec()] for _ in range(2))
        new = nw - C.wit
        if new < 0 or nc != len(C.cons) + new:
            return '%d witnesses and %d constraints' % (nw, nc)
        if not weight and new:
            return 'inlining creates variables'
        if not mode:
            if len(iv) > 1 or wv:
                return 'a system without assignments has assignments'
        else:
            if len(iv) != ni or len(wv) != nw:
                return 'another number of assignments'
            for p, q in zip(list(iv) + list(wv), C.vi + C.vw):
                if not same(A, fc, p, q):
                    return 'an assignment is wrong'
        if not r.int() & 1:
            return 'no matrices'
        if (r.int(), r.int(), r.int()) != (ni, nw, nc):
            return 'the sizes of the matrices are wrong'
        cnt = [r.int() for _ in range(3)]
        M = []
        for m in range(3):
            rows = []
            tot = 0
            for k in range(nc):
                n = r.int()
                tot += n
                row = {}
                for _ in range(n):
                    q = r.int()
                    v = A.h(r.val())
                    if q >= ni + nw:
                        return 'matrix %s, row %d: column %d' % ('abc'[m], k, q)
                    if not nonzero(A, fc, v):
                        return 'matrix %s, row %d: a zero cell' % ('abc'[m], k)
                    row[q] = A.add(row.get(q, A.const(0)), v)
                rows.append(row)
            if tot != cnt[m]:
                return 'matrix %s counts %d of %d cells' % ('abc'[m], cnt[m], tot)
            M.append(rows)
        # a new variable stands for the combination of its own constraint
        defs = {}
        n0 = len(C.cons)
        for k in range(n0, nc):
            col = ni + C.wit + (k - n0)
            if not (set(M[1][k]) == {0} and same(A, fc, M[1][k][0], C.one)):
                return 'constraint %d does not multiply by one' % k
            q = [x for x in M[2][k] if x >= ni + C.wit]
            if len(M[2][k]) != 1 or len(q) != 1 or q[0] in defs or not same(A, fc, M[2][k][q[0]], C.one):
                return 'constraint %d does not define a new variable' % k
            if any(x >= q[0] for x in M[0][k]):
                return 'constraint %d defines a variable by a later one' % k
            defs[q[0]] = M[0][k]

        def inl(row, d=0):
            if d > 40:
                raise Undecided('nesting')
            t = {}
            for q, v in row.items():
                for p, u in (inl(defs[q], d + 1) if q in defs else {q: A.const(1)}).items():
                    t[p] = A.add(t.get(p, A.const(0)), A.mul(u, v))
            return t
        for m, lcs in enumerate((a, b, c)):
            for k in range(n0):
                g, want = inl(M[m][k]), C.row(lcs[k])
                for q in set(g) | set(want):
                    if not same(A, fc, g.get(q, A.const(0)), want.get(q, A.const(0))):
                        return 'matrix %s, row %d, column %d is wrong' % ('abc'[m], k, q)
        if mode:
            xs = C.vi + C.vw
            for q, d in sorted(defs.items()):
                if not same(A, fc, wv[q - ni], val(A, list(iv) + list(wv), d)):
                    return 'the assignment of a new variable is not its combination'
    J.go(mod, A, what, 'h_cs', C.ins(), [mode, weight] + C.extra() + [times], f, check, steps=10000000)


OPS = ('+', '-', '+=', '-=', 'negation', '*', '*=', 'Deduplicate', 'CreateDeduplicated', '+= term', '- term', '-= term', 'AppendTerms', 'NegateInPlace', '+ variable', '-= variable')


def j_lc(J, mod, op, ka, kb):
    """keys of the variables of the two combinations, in order"""
    nm = ['s'] + ['a%d' % k for k in range(len(ka))] + ['b%d' % k for k in range(len(kb))]
    A = alg(nm)
    av, bv = [A.var('a%d' % k) for k in range(len(ka))], [A.var('b%d' % k) for k in range(len(kb))]
    S_ = A.var('s')
    srt = lambda k: list(k) == sorted(k)

    def lc(ks, vs):
        return [len(ks)] + [y for k, v in zip(ks, vs) for y in (k[0], k[1], v)]

    def coll(ts):
        d = {}
        for k, v in ts:
            d[k] = A.add(d.get(k, A.const(0)), v)
        return d
    ta, tb = list(zip(ka, av)), list(zip(kb, bv))
    ng = lambda t: [(k, A.sub(A.const(0), v)) for k, v in t]
    on = lambda t: [(k, A.const(1)) for k, v in t]
    want = coll({0: ta + tb, 1: ta + ng(tb), 2: ta + tb, 3: ta + ng(tb), 4: ng(ta), 5: [(k, A.mul(v, S_)) for k, v in ta], 6: [(k, A.mul(v, S_)) for k, v in ta], 7: ta, 8: ta, 9: ta + tb,
                 10: ta + ng(tb), 11: ta + ng(tb), 12: ta + tb, 13: ng(ta), 14: ta + on(tb), 15: ta + ng(on(tb))}[op])

    def check(fc, out):
        r = Rd(out)
        if bool(r.int() & 1) != srt(ka):
            return 'IsSorted is wrong'
        n = r.int()
        got, order = [], []
        for _ in range(n):
            k = (r.int() & 0xffffffff, r.int())
            got.append((k, A.h(r.val())))
            order.append(k)
        g = coll(got)
        for k in set(g) | set(want):
            if not same(A, fc, g.get(k, A.const(0)), want.get(k, A.const(0))):
                return 'coefficient of variable %s is wrong' % (k,)
        if op in (7, 8) and (not srt(order) or len(set(order)) != n):
            return 'the result has unordered or repeated variables'
        if op not in (4, 5, 6, 12, 13) and srt(ka) and len(set(ka)) == len(ka) and (op > 3 or srt(kb) and len(set(kb)) == len(kb)):
            if not srt(order) or len(set(order)) != n:
                return 'the result of sorted operands has unordered or repeated variables'
    J.go(mod, A, 'linear combinations %s of %s and %s' % (OPS[op], ka, kb), 'h_lc', lc(ka, av) + lc(kb, bv) + [S_], [op], Facts(A), check)


def qap(A, C, x):
    """domain size, a(x), b(x), c(x), t(x) from the rows"""
    n = len(C.cons)
    size = 1
    while size < n + C.inst + 1:
        size *= 2
    if n + C.inst + 1 == 3:
        size = 4
    l = lcoef(A, size, x)
    k = C.inst + 1 + C.wit
    M = [[A.const(0)] * k for _ in range(3)]
    for j, con in enumerate(C.cons):
        for m in range(3):
            for q, v in C.row(con[m]).items():
                M[m][q] = A.add(M[m][q], A.mul(l[j], v))
    for j in range(C.inst + 1):
        M[0][j] = A.add(M[0][j], l[n + j])
    return size, M, A.sub(pw(A, x, size), A.const(1))


def hcheck(A, fc, C, size, h):
    """h t = a b - c on the coset of the multiplicative group"""
    D = dom(size)
    n = len(C.cons)
    xs = C.vi + C.vw
    av = [C.value(c[0]) for c in C.cons] + C.vi
    bv, cv = [C.value(c[1]) for c in C.cons], [C.value(c[2]) for c in C.cons]
    z = pow(OFF, size, P) - 1
    for d in D:
        u = OFF * d % P
        lj = [z * e * pow(size * (u - e), -1, P) % P for e in D]
        A_, B_, C_ = (sm(A, [A.mul(A.const(k), v) for k, v in zip(lj, vs)]) for vs in (av, bv, cv))
        if not same(A, fc, A.mul(ev(A, h, A.const(u)), A.const(z)), A.sub(A.mul(A_, B_), C_)):
            return 'the quotient is wrong at a point of the coset'


def generic(A, f, C, size):
    """the leading coefficients of the interpolants and of the quotient that
    are not identically zero are not zero"""
    n = len(C.cons)
    D = dom(size)
    vs = [[C.value(c[m]) for c in C.cons] for m in range(3)]
    vs[0] += C.vi
    co = [[sm(A, [A.mul(A.const(pow(D[j], -k, P) * pow(size, -1, P) % P), v) for j, v in enumerate(x)]) for k in range(size)] for x in vs]
    h = [sm(A, [A.mul(co[0][p], co[1][k + size - p]) for p in range(k + 1, size)]) for k in range(size - 1)]
    for l in co + [h]:
        for v in reversed(l):
            if not same(A, f, v, A.const(0)):
                A.assume_nonzero(f, v)
                break
    # and for the values that are tested one by one
    return f


def g_alg(C, more):
    A = alg(more + C.names + ['r0', 'r1', 'r2', 'r3'])
    A.params[1] = A.const(OFF)
    C.bind(A)
    return A


def j_qap(J, mod, name):
    C = CIRCS[name]
    A = g_alg(C, ['x', 'e'])
    x, e = A.var('x'), A.var('e')
    size, M, t = qap(A, C, x)
    f = facts(A, [(x, A.const(d)) for d in dom(size)] + [(A.var(k), A.const(v % P)) for k in C.coefs for v in (0, 1, -2)])
    if name in BIG:
        generic(A, f, C, size)

    def check(fc, out):
        r = Rd(out)
        if r.int() != size:
            return 'domain of another size'
        for m in range(3):
            g = r.vec()
            if len(g) != len(M[m]):
                return '%s has %d entries' % ('abc'[m], len(g))
            for k, (p, q) in enumerate(zip(g, M[m])):
                if not same(A, fc, p, q):
                    return '%s(x) of variable %d is wrong' % ('abc'[m], k)
        if not same(A, fc, r.val(), t):
            return 't(x) is wrong'
        if (r.int(), r.int(), r.int(), r.int()) != (len(C.cons), C.inst + 1, C.wit, C.inst + C.wit):
            return 'the sizes are wrong'
        g = r.vec()
        if len(g) != size - 1:
            return 'h query of %d entries' % len(g)
        for k, p in enumerate(g):
            if not same(A, fc, p, A.mul(A.mul(pw(A, x, k), t), e)):
                return 'h query %d is wrong' % k
        h = r.vec()
        if len(h) > size:
            return 'quotient of %d coefficients' % len(h)
        err = hcheck(A, fc, C, size, h)
        if err:
            return err
        z = r.vec()
        if len(z) != C.inst + 1 + C.wit:
            return '%d assignments' % len(z)
        for p, q in zip(z, C.vi + C.vw):
            if not same(A, fc, p, q):
                return 'the full assignment is wrong'
    J.go(mod, A, 'quadratic arithmetic program of %s' % name, 'h_qap', [x, e] + C.ins(), C.extra(), f, check, steps=20000000)


TW = ['al', 'be', 'ga', 'de', 'g', 'k']


def keyspec(A, C, x):
    size, M, t = qap(A, C, x)
    al, be, ga, de, g, k = map(A.var, TW)
    n1 = C.inst + 1
    m = [sm(A, [A.mul(be, a), A.mul(al, b), c]) for a, b, c in zip(*M)]
    G = lambda l: [A.mul(g, v) for v in l]
    K = lambda l: [A.mul(k, v) for v in l]
    gi, di = A.inv(ga), A.inv(de)
    vk = G([al]) + K([be, ga, de]), G([A.mul(v, gi) for v in m[:n1]])
    pk = G([be, de]), G(M[0]), G(M[1]), K(M[1]), G([A.mul(A.mul(pw(A, x, j), t), di) for j in range(size - 1)]), G([A.mul(v, di) for v in m[n1:]])
    return size, M, t, m, vk, pk


def kfacts(A, C, x, size, M):
    f = facts(A, [(x, A.const(d)) for d in dom(size)] + [(A.var(k), A.const(v % P)) for k in C.coefs for v in (0, 1, -2)])
    for n in TW:
        A.assume_nonzero(f, A.var(n))
    for m in M[:2]:
        for v in m:
            if not same(A, f, v, A.const(0)):
                A.assume_nonzero(f, v)
    return f


def same_list(A, fc, r, want, name):
    g = r.vec()
    if len(g) != len(want):
        return '%s has %d entries' % (name, len(g))
    for k, (p, q) in enumerate(zip(g, want)):
        if not same(A, fc, p, q):
            return '%s, entry %d is wrong' % (name, k)


def j_keys(J, mod, what, name):
    C = CIRCS[name]
    A = g_alg(C, list(TW))
    x = A.var('r0')
    size, M, t, m, vk, pk = keyspec(A, C, x)
    f = kfacts(A, C, x, size, M)

    def check(fc, out):
        r = Rd(out)
        if not r.int() & 1:
            return 'the key is not made'
        if not same(A, fc, r.val(), x):
            return 'the secret is not the drawn one'
        for n, v in zip(('alpha', 'beta', 'gamma', 'delta'), vk[0]):
            if not same(A, fc, r.val(), v):
                return 'verifying key: %s is wrong' % n
        e = same_list(A, fc, r, vk[1], 'verifying key: input query')
        if e or not what:
            return e
        for n, v in zip(('beta', 'delta'), pk[0]):
            if not same(A, fc, r.val(), v):
                return 'proving key: %s is wrong' % n
        for n, v in zip(('a', 'b in G1', 'b in G2', 'h', 'l'), pk[1:]):
            e = same_list(A, fc, r, v, 'proving key: %s query' % n)
            if e:
                return e
    J.go(mod, A, 'Groth16 %s key of %s' % (('verifying', 'proving')[what], name), 'h_keys', [A.var(n) for n in TW] + C.ins(), [what] + C.extra(), f, check, steps=30000000)


def j_prove(J, mod, how, name, zero=''):
    C = CIRCS[name]
    A = g_alg(C, ['r', 's'] + TW)
    x = A.var('r0')
    R, S_ = A.var('r'), A.var('s')
    if 'r' in zero:
        R = A.const(0)
    if 's' in zero:
        S_ = A.const(0)
    ins = [R, S_] + [A.var(n) for n in TW] + C.ins()
    if how == 2:
        R = S_ = A.const(0)
    size, M, t, m, vk, pk = keyspec(A, C, x)
    f = kfacts(A, C, x, size, M)
    if name in BIG:
        generic(A, f, C, size)
    if how == 0 and 'r' not in zero:
        A.assume_nonzero(f, R)
    if how == 1:
        for n in ('r1', 'r2'):
            A.assume_nonzero(f, A.var(n))
    al, be, ga, de, g, k = map(A.var, TW)
    z = C.vi + C.vw
    a, b, c = (sm(A, [A.mul(p, q) for p, q in zip(z, v)]) for v in M)
    w_ = sm(A, [A.mul(p, q) for p, q in zip(C.vw, m[C.inst + 1:])])

    def check(fc, out):
        r = Rd(out)
        if not r.int() & 1:
            return 'the key is not made'
        r.val()
        got = [r.val() for _ in range(3)]
        flag = r.val()
        cand = [(R, S_)] if how != 1 else [(A.var('r1'), A.var('r2')), (A.var('r2'), A.var('r1'))]
        err = None
        for rr, ss in cand:
            pa, pb = sm(A, [al, a, A.mul(rr, de)]), sm(A, [be, b, A.mul(ss, de)])
            # h(x) t(x) = a(x) b(x) - c(x): the witness satisfies the circuit
            pc = sm(A, [A.mul(sm(A, [w_, A.mul(a, b), A.sub(A.const(0), c)]), A.inv(de)), A.mul(pa, ss), A.mul(rr, pb), A.sub(A.const(0), A.mul(A.mul(rr, ss), de))])
            err = None
            for n, p, q in zip('ABC', got, (A.mul(g, pa), A.mul(k, pb), A.mul(g, pc))):
                if not same(A, fc, p, q):
                    err = '%s of the proof is wrong' % n
                    break
            if not err:
                break
        if err:
            return err
        for q, ok in cases(A, fc, flag):
            if not ok:
                return 'the verifier refuses the proof'
    J.go(mod, A, 'Groth16 proof of %s%s%s' % (name, ('', ', zero knowledge', ', not zero knowledge')[how], zero and ', %s zero' % zero), 'h_prove', ins, [how] + C.extra(), f, check, steps=30000000)


def j_gverify(J, mod, how, n, k):
    nm = ['al', 'be', 'ga', 'de'] + ['l%d' % j for j in range(n)] + ['a', 'b', 'c'] + ['x%d' % j for j in range(k)]
    A = alg(nm)
    V = {x: A.var(x) for x in nm}
    ins = [V[x] for x in nm]

    def check(fc, out):
        r = Rd(out)
        flag = r.val()
        if n != k + 1:
            return 'accepts %d inputs where the key has %d' % (k, n - 1) if any(b for _, b in cases(A, fc, flag)) else None
        lhs = A.mul(V['a'], V['b'])
        inp = sm(A, [V['l0']] + [A.mul(V['l%d' % (j + 1)], V['x%d' % j]) for j in range(k)])
        rhs = sm(A, [A.mul(V['al'], V['be']), A.mul(inp, V['ga']), A.mul(V['c'], V['de'])])
        return equal_iff(A, [lhs], [rhs])(fc, flag)
    J.go(mod, A, 'Groth16 verification%s, %d inputs for a key of %d' % (', key moved' if how else '', k, n - 1), 'h_gverify', ins, [how, n, k], Facts(A), check)


def j_rerandomize(J, mod, zero=0):
    nm = ['al', 'be', 'ga', 'de', 'a', 'b', 'c', 'r0', 'r1', 'r2', 'r3']
    A = alg(nm)
    V = {x: A.var(x) for x in nm}
    f = Facts(A)

    def check(fc, out):
        got = [Rd(out, j).val() for j in range(3)]
        # the equation of the verifier is kept: A B - C delta
        if not same(A, fc, A.sub(A.mul(got[0], got[1]), A.mul(got[2], V['de'])), A.sub(A.mul(V['a'], V['b']), A.mul(V['c'], V['de']))):
            return 'the proof is not valid any more'
        for r1, r2 in ((V['r0'], V['r1']), (V['r2'], V['r3'])):
            if nonzero(A, fc, r1) and all(same(A, fc, p, q) for p, q in zip(got, (A.mul(V['a'], A.inv(r1)), A.mul(r1, A.add(V['b'], A.mul(r2, V['de']))), A.add(V['c'], A.mul(r2, V['a']))))):
                return
        return 'the proof is not the re-randomized one'
    if zero == 0:
        A.assume_nonzero(f, V['r0'])
    A.assume_nonzero(f, V['r2'])
    A.assume_nonzero(f, V['r3'])
    J.go(mod, A, 'Groth16 re-randomization%s' % (', any randomness' if zero else ''), 'h_rerandomize', [V[x] for x in nm[:7]], [], f, check)


FN = {k: f for k, f in globals().items() if k.startswith('j_')}


def job_list(thorough):
    l = []
    for n in CIRCS:
        for mode in (0, 1):
            for weight in (0, 1):
                l.append(('j_cs', n, mode, weight, 1))
    l += [('j_cs', n, m, wt, t) for n in ('sym', 'wide', 'chain') for m in (0, 1) for wt in (0, 1) for t in (0, 2) if t or n == 'chain']
    v = ((Z, 0), (ONE, 0), (I, 1), (I, 2), (I, 3), (W, 0), (W, 1), (W, 2), (S, 0), (S, 1))
    pairs = [((), v[:2]), (v[1:4], ()), (v[1:4], v[1:4]), (v[1:6:2], v[2:7:2]), (v[:8], v[2:10]), (v[2:9], (v[4],)), (v[1:9:2] + (v[9],), (v[0], v[5], v[9])), (v[1:4], (v[2], v[8])),
             (v[0:6] + v[7:], (v[6],)), (v[1:], (v[0],)), (v[:9], (v[9],))]
    l += [('j_lc', op, a, b) for op in range(16) for a, b in pairs]
    uns = (((W, 1), (I, 2), (W, 1), (ONE, 0), (I, 2), (W, 1)), ((S, 1), (W, 5), (I, 9)), ((W, 0), (W, 0)), ((I, 2), (I, 1), (I, 2)))
    l += [('j_lc', op, a, ()) for op in (4, 5, 6, 7, 8, 13) for a in uns]
    l += [('j_lc', 12, a, uns[1]) for a in uns]
    l += [('j_qap', n) for n in CIRCS if CIRCS[n].solve or n in ('square', 'none', 'empty', 'dup', 'sym', 'zsym')]
    keyed = [n for n in CIRCS if CIRCS[n].solve] + ['square', 'sym', 'none']
    l += [('j_keys', what, n) for n in keyed for what in (0, 1)]
    for n in keyed:
        if CIRCS[n].solve:
            l += [('j_prove', 0, n), ('j_prove', 1, n), ('j_prove', 2, n)]
    l += [('j_prove', 0, 'chain', x) for x in ('r', 's', 'rs')]
    l += [('j_gverify', how, n, k) for how in (0, 1) for n, k in ((1, 0), (2, 1), (3, 2), (4, 3), (3, 1), (3, 3), (2, 0), (1, 1))]
    l += [('j_rerandomize', 0), ('j_rerandomize', 1)]
    return l


def run_all(rep, thorough):
    jobs.MODS['g'] = load_ir(os.path.join(VERIF, 'harness/groth.cc'), fresh=True)
    for k, f in FN.items():
        jobs.FUNCS['g' + k] = f
    from jobs import run_jobs
    run_jobs(rep, [('g' + k, ('g', *a)) for k, *a in job_list(thorough)], limit=1500 if thorough else 300)
