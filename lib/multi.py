"""Multilinear extensions, multivariate sparse polynomials, linear combinations
and the multilinear sumcheck against their defining sums."""
import itertools
import os
from absint import Undecided, PathAbort
from alg import Facts
from spec import ModAlg, cases, same
from common import load_ir, VERIF
import jobs
from jobs import run_jobs
from poly import nonzero

KMAX = 4


def eq_vec(A, f, got, want, what='value'):
    if len(got) != len(want):
        return 'has %d %ss instead of %d' % (len(got), what, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(A, f, g, w):
            return 'has a wrong %s %d' % (what, i)


def mle(A, t, pt):
    """multilinear extension of table t (first variable is the lowest index bit) at pt"""
    for r in pt:
        t = [A.add(t[2 * i], A.mul(r, A.sub(t[2 * i + 1], t[2 * i]))) for i in range(len(t) // 2)]
    return t


BIN = {0: 'a + b', 1: 'a += b', 2: 'a - b', 3: 'a -= b', 4: 'a * b', 5: 'a *= b', 6: 'a / b', 7: 'a /= b', 8: 'a == b',
       20: 'a + a', 21: 'a += a', 22: 'a - a', 23: 'a -= a', 24: 'a * a', 25: 'a *= a', 26: 'a / a', 27: 'a /= a'}


def j_mle_bin(J, mod, op, n, m):
    A = ModAlg(['a%d' % i for i in range(8)] + ['b%d' % i for i in range(8)])
    x = [A.var('a%d' % i) for i in range(n)]
    b = [A.var('b%d' % i) for i in range(m)]
    y = x if op >= 20 else b
    o = op % 20
    f = Facts(A)
    zero = lambda fc, v: all(same(A, fc, c, A.const(0)) for c in v)
    mism = x and y and len(x) != len(y)

    def check(fc, out):
        if o == 8:
            if mism:
                return None if not out.int(0) and out.int(1) else 'compares equal with another size'
            e = [A.sub(u, v) for u, v in zip(x, y)] if x and y else x or y
            eq = zero(fc, e)
            if bool(out.int(0)) != eq or bool(out.int(1)) == eq:
                return 'is wrong'
            if not eq and not any(nonzero(A, fc, v) for v in e):
                return 'decides inequality although all values can agree'
            return
        if o in (6, 7):
            ok = out.int(0)
            if mism:
                return 'accepts operands of different sizes' if ok else None
            if not x and y:
                return 'zero divided is not zero' if ok and not zero(fc, out.vec(1)) else None
            zd = not y or any(same(A, fc, v, A.const(0)) for v in y)
            if not ok:
                return None if zd else 'fails although no divisor value is zero'
            if not y or not all(nonzero(A, fc, v) for v in y):
                return 'succeeds although a divisor value can be zero'
            return eq_vec(A, fc, out.vec(1), [A.mul(u, A.inv(v)) for u, v in zip(x, y)])
        if mism:
            return 'accepts operands of different sizes'
        g = out.vec(0)
        if not x or not y:
            want = [] if o in (4, 5) else (x if not y else (y if o < 2 else [A.neg(v) for v in y]))
            if o in (4, 5) or not want:
                return None if zero(fc, g) else 'is not zero'
        else:
            fn = {0: A.add, 1: A.sub, 2: A.mul}[o // 2]
            want = [fn(u, v) for u, v in zip(x, y)]
        return eq_vec(A, fc, g, want)
    J.go(mod, A, 'multilinear %s, %d and %d values' % (BIN[op], n, len(y)), 'mle_bin', x + b, [op, n, m], f, check,
         may_abort=(lambda fc, o_: True) if mism else None)


UN = {0: '-a', 1: 'NegateInPlace', 2: 'IsZero/IsOne/Degree', 3: 'a[i]', 4: 'a.at(i) const', 5: 'a.at(i) = s', 6: 'Evaluate', 7: 'FixVariables',
      8: 'FixVariablesInPlace', 9: 'Zero/One', 10: 'ToDense'}


def j_mle_un(J, mod, op, n, k):
    A = ModAlg(['x%d' % i for i in range(5)] + ['a%d' % i for i in range(16)])
    x = [A.var('a%d' % i) for i in range(n)]
    pt = [A.var('x%d' % i) for i in range(k if op in (6, 7, 8) else 1)]
    f = Facts(A)
    lg = max(n - 1, 0).bit_length()
    z, one = A.const(0), A.const(1)

    def check(fc, out):
        if op in (0, 1):
            return eq_vec(A, fc, out.vec(0), [A.neg(v) for v in x])
        if op == 10:
            return eq_vec(A, fc, out.vec(0), x)
        if op == 2:
            for q, g0 in cases(A, fc, out[0]):
                for q2, g1 in cases(A, q, out[1]):
                    for nm, g, c, e in (('IsZero', g0, z, True), ('IsOne', g1, one, False)):
                        t = [A.sub(v, c) for v in x]
                        if g and not (all(same(A, q2, v, z) for v in t) and (x or e)):
                            return nm + ' accepts other values'
                        if not g and not any(nonzero(A, q2, v) for v in t) and (x or e):
                            return nm + ' rejects it'
            return None if out.int(2) == lg else 'Degree is %d' % out.int(2)
        if op in (3, 4):
            return None if same(A, fc, out[0], x[k] if k < n else z) else 'is wrong'
        if op == 5:
            return eq_vec(A, fc, out.vec(0), [pt[0] if i == k else v for i, v in enumerate(x)])
        if op == 9:
            if not all(same(A, fc, v, z) for v in out.vec(0)):
                return 'Zero is not zero'
            return eq_vec(A, fc, out.vec(1 + out.int(0)), [one] * (1 << k))
        if op == 6:
            want = mle(A, x, pt) if x else [z]
            if not same(A, fc, out[0], want[0]):
                return 'is not the value of the multilinear extension'
            return eq_vec(A, fc, out.vec(1), x, 'value of the operand')
        want = mle(A, x, pt)
        g = out.vec(0)
        return eq_vec(A, fc, g, want) or eq_vec(A, fc, out.vec(1 + len(g)), x if op == 7 else want, 'value of the operand')
    bad = (op == 6 and k != lg) or (op in (7, 8) and k > lg)

    def check_bad(fc, out):
        return 'accepts a point of %d coordinates' % k
    J.go(mod, A, 'multilinear %s%s, %d values' % (UN[op], ' (%d)' % k if op > 2 else '', n), 'mle_un', x + pt, [op, n, k], f,
         check_bad if bad else check, may_abort=(lambda fc, o: True) if bad else None)


# ---------------- multivariate
def exps(l):
    return [l >> (4 * v) & 15 for v in range(16) if l >> (4 * v) & 15]


def mono(A, l, pt):
    r = A.const(1)
    for v in range(8):
        for _ in range(l >> (4 * v) & 15):
            r = A.mul(r, pt[v])
    return r


def mstr(lits):
    return ' + '.join('*'.join('x%d%s' % (v, '' if l >> 4 * v & 15 == 1 else '^%d' % (l >> 4 * v & 15)) for v in range(8) if l >> 4 * v & 15) or '1' for l in lits) or '0'


def read_mp(o, at):
    n = o.int(at + 1)
    if n > 50:
        raise Undecided('implausible size')
    t = [(o.int(at + 2 + 2 * i), o[at + 3 + 2 * i]) for i in range(n)]
    return t, o.int(at + 2 + 2 * n), at + 3 + 2 * n


def cmp_mp(A, fc, got, want, what='result'):
    t, srt, _ = got
    d = dict(t)
    if len(d) != len(t):
        return '%s repeats a monomial' % what
    if not srt and len(t) > 1:
        return '%s has unsorted terms' % what
    for l, c in t:
        if not nonzero(A, fc, c):
            return '%s keeps a term %s that can be zero' % (what, mstr([l]))
    for l in set(d) | set(want):
        if not same(A, fc, d.get(l, A.const(0)), want.get(l, A.const(0))):
            return '%s has a wrong coefficient of %s' % (what, mstr([l]))


def comb(A, a, b, sg):
    r = dict(a)
    for l, c in b.items():
        r[l] = (A.add if sg > 0 else A.sub)(r.get(l, A.const(0)), c)
    return r


def mval(A, p, pt):
    r = A.const(0)
    for l, c in p.items():
        r = A.add(r, A.mul(c, mono(A, l, pt)))
    return r


def nvars(lits):
    return max([v + 1 for l in lits for v in range(8) if l >> 4 * v & 15], default=1)


def j_mp_bin(J, mod, op, la, lb):
    A = ModAlg(['a%d' % i for i in range(4)] + ['b%d' % i for i in range(4)] + ['x%d' % i for i in range(4)])
    a = {l: A.var('a%d' % i) for i, l in enumerate(la)}
    b = {l: A.var('b%d' % i) for i, l in enumerate(lb)}
    f = Facts(A)
    for v in list(a.values()) + list(b.values()):
        A.assume_nonzero(f, v)
    na, nb = nvars(la), nvars(lb)
    k = na if op >= 20 else max(na, nb)
    pt = [A.var('x%d' % i) for i in range(k)]
    o = op % 20
    r = comb(A, a, a if op >= 20 else b, 1 if o < 2 else -1)

    def check(fc, out):
        if o == 8:
            eq = all(same(A, fc, v, A.const(0)) for v in r.values())
            if bool(out.int(0)) != eq or bool(out.int(1)) == eq:
                return 'is wrong'
            return None if eq or any(nonzero(A, fc, v) for v in r.values()) else 'decides inequality although all coefficients can agree'
        g = read_mp(out, 0)
        e = cmp_mp(A, fc, g, r)
        if e:
            return e
        if not same(A, fc, out[g[2]], mval(A, r, pt)):
            return 'evaluates to something else'
    J.go(mod, A, 'multivariate %s, a: %s%s' % (BIN[op], mstr(la), '' if op >= 20 else ', b: ' + mstr(lb)), 'mp_bin',
         list(a.values()) + list(b.values()) + pt,
         [op, na, len(la), nb, len(lb), k] + list(la) + [0] * (4 - len(la)) + list(lb) + [0] * (4 - len(lb)), f, check)


MUN = {0: '-a', 1: 'NegateInPlace', 2: 'IsZero/IsOne/Degree/IsConstant', 3: 'a[monomial]', 4: 'Evaluate', 5: 'Zero/One', 6: 'Compact', 7: 'at(monomial)'}


def j_mp_un(J, mod, op, la, lit):
    A = ModAlg(['a%d' % i for i in range(4)] + ['x%d' % i for i in range(4)])
    vs = [A.var('a%d' % i) for i in range(len(la))]
    a = {}
    for l, v in zip(la, vs):
        a[l] = A.add(a[l], v) if l in a else v
    f = Facts(A)
    if op != 6:
        for v in vs:
            A.assume_nonzero(f, v)
    na = nvars(la)
    pt = [A.var('x%d' % i) for i in range(na)]

    def check(fc, out):
        if op in (0, 1):
            g = read_mp(out, 0)
            w = {l: A.neg(c) for l, c in a.items()}
            e = cmp_mp(A, fc, g, w)
            return e or (None if same(A, fc, out[g[2]], mval(A, w, pt)) else 'evaluates to something else')
        if op == 2:
            for q, g1 in cases(A, fc, out[1]):
                if g1 and not (list(a) == [0] and same(A, q, a[0], A.const(1))):
                    return 'IsOne accepts other polynomials'
                if not g1 and list(a) == [0] and not nonzero(A, q, A.sub(a[0], A.const(1))):
                    return 'IsOne rejects one'
            if bool(out.int(0)) != (not a):
                return 'IsZero is wrong'
            d = max([sum(exps(l)) for l in a], default=0)
            if out.int(2) != d:
                return 'Degree is %d instead of %d' % (out.int(2), d)
            if a and bool(out.int(3)) != (list(a) == [0]):
                return 'IsConstant is wrong'
            return
        if op in (3, 7):
            return None if same(A, fc, out[0], a.get(lit, A.const(0))) else 'is not the coefficient of %s' % mstr([lit])
        if op == 4:
            return None if same(A, fc, out[0], mval(A, a, pt)) else 'is not the value of the polynomial'
        if op == 5:
            g = read_mp(out, 0)
            return cmp_mp(A, fc, g, {}, 'Zero') or cmp_mp(A, fc, read_mp(out, g[2]), {0: A.const(1)}, 'One')
        return cmp_mp(A, fc, read_mp(out, 0), a)
    J.go(mod, A, 'multivariate %s, a: %s%s' % (MUN[op], mstr(la), ', monomial %s' % mstr([lit]) if op in (3, 7) else ''), 'mp_un',
         vs + pt, [op, na, len(la), len(pt), lit] + list(la) + [0] * (4 - len(la)), f, check)


# ---------------- linear combinations and sumcheck
def terms_of(ts):
    return [[(t >> (4 * j) & 15) - 1 for j in range(8) if t >> (4 * j) & 15] for t in ts]


def tstr(nv, ts):
    return '%d variables, %s' % (nv, ' + '.join('c%d*%s' % (i, '*'.join('f%d' % x for x in t)) for i, t in enumerate(terms_of(ts))) or 'no terms')


class LCI:
    def __init__(self, A, nv, ts):
        self.A = A
        T = terms_of(ts)
        self.T = T
        self.nm = max([x + 1 for t in T for x in t], default=0)
        self.tab = [[A.var('%s%d' % ('efgh'[m], i)) for i in range(1 << nv)] for m in range(self.nm)]
        self.c = [A.var('c%d' % i) for i in range(len(T))]
        self.ins = [v for t in self.tab for v in t] + self.c
        self.deg = max(map(len, T), default=0)

    def at(self, tabs, i):
        A = self.A
        r = A.const(0)
        for c, t in zip(self.c, self.T):
            p = c
            for x in t:
                p = A.mul(p, tabs[x][i])
            r = A.add(r, p)
        return r

    def sum(self, tabs=None):
        A = self.A
        tabs = tabs or self.tab
        r = A.const(0)
        for i in range(len(tabs[0]) if tabs else 0):
            r = A.add(r, self.at(tabs, i))
        return r


def lcalg(nv, ts):
    nm = max([x + 1 for t in terms_of(ts) for x in t], default=0)
    return ModAlg(['r%d' % i for i in range(4)] + ['c%d' % i for i in range(3)] + ['%s%d' % ('efgh'[m], i) for m in range(nm) for i in range(1 << nv)])


def j_lc(J, mod, what, nv, ts):
    A = lcalg(nv, ts)
    L = LCI(A, nv, ts)
    f = Facts(A)
    args = [nv, L.nm, len(ts)] + list(ts) + [0] * (3 - len(ts))
    rs = [A.var('r%d' % i) for i in range(nv)]
    w = tstr(nv, ts)
    used = []
    for t in L.T:
        for x in t:
            if x not in used:
                used.append(x)
    if what == 'sum':
        def check(fc, o):
            if o.int(0) != L.deg or o.int(1) != nv:
                return 'has %d as the number of evaluations, %d variables' % (o.int(0), o.int(1))
            if o.int(2) != len(used):
                return 'keeps %d tables instead of %d' % (o.int(2), len(used))
            return None if same(A, fc, o[3], L.sum()) else 'is not the sum over the hypercube'
        J.go(mod, A, 'Combine: ' + w, 'lc_sum', L.ins, args, f, check)
    elif what == 'eval':
        J.go(mod, A, 'Evaluate: ' + w, 'lc_eval', L.ins + rs, args, f,
             lambda fc, o: None if same(A, fc, o[0], L.at([mle(A, t, rs) for t in L.tab], 0)) else 'is not the combination of the extensions')
    elif what == 'prover':
        def check(fc, o):
            at = 0
            for i in range(nv):
                g = o.vec(at)
                at += 1 + len(g)
                t = [mle(A, x, rs[:i]) for x in L.tab]
                e = eq_vec(A, fc, g, [L.sum([mle(A, x, [A.const(k)]) for x in t]) for k in range(L.deg + 1)], 'evaluation')
                if e:
                    return 'round %d message %s' % (i + 1, e)
        J.go(mod, A, 'SumcheckProver: ' + w, 'prover', L.ins + rs, args, f, check)
    elif what == 'protocol':
        A.small = L.deg + 3
        A.hints = [A.canon(A.sub(r, A.const(k)).n) for r in rs for k in range(L.deg + 3)]

        def check(fc, o):
            if not o.int(0):
                return 'an honest run is rejected'
            return None if same(A, fc, o[1], L.sum()) else 'the run modifies the linear combination'
        J.go(mod, A, 'RunInteractiveProtocol: ' + w, 'protocol', L.ins, args, f, check)
    elif what == 'key':
        A = ModAlg(['%s%d' % (p, i) for p in 'uv' for i in range(len(L.ins))])
        u, v = ([A.var('%s%d' % (p, i)) for i in range(len(L.ins))] for p in 'uv')

        def check(fc, o):
            d = [A.sub(x, y) for x, y in zip(u, v)]
            eq = all(same(A, fc, x, A.const(0)) for x in d)
            if bool(o.int(0)) != eq or bool(o.int(1)) == eq:
                return 'is wrong'
            return None if eq or any(nonzero(A, fc, x) for x in d) else 'decides inequality although everything can agree'
        J.go(mod, A, 'SumcheckProvingKey equality: ' + w, 'key_eq', u + v, args, Facts(A), check)


def lag(A, v, x):
    """value at x of the polynomial of degree < len(v) with values v at 0, 1, ..."""
    r = A.const(0)
    for i in range(len(v)):
        n, d = v[i], 1
        for j in range(len(v)):
            if j != i:
                n = A.mul(n, A.sub(x, A.const(j)))
                d *= i - j
        r = A.add(r, A.mul(n, A.inv(A.const(d))))
    return r


def j_uni(J, mod, n):
    A = ModAlg(['x'] + ['a%d' % i for i in range(n)])
    A.small = n + 3
    A.hints = [A.canon(A.sub(A.var('x'), A.const(k)).n) for k in range(n + 3)]
    v = [A.var('a%d' % i) for i in range(n)]
    x = A.var('x')
    J.go(mod, A, 'InterpolateUniPoly of %d evaluations' % n, 'unipoly', v + [x], [n], Facts(A),
         lambda fc, o: None if same(A, fc, o[0], lag(A, v, x)) else 'is not the value of the interpolating polynomial')


def j_ver(J, mod, nv, ne, rounds, sz):
    A = ModAlg(['r%d' % i for i in range(max(rounds, 1))] + ['s'] + ['p%d_%d' % (i, j) for i in range(rounds) for j in range(sz)])
    A.small = sz + 2
    A.hints = [A.canon(A.sub(A.var('r%d' % i), A.const(k)).n) for i in range(rounds) for k in range(sz + 2)]
    p = [[A.var('p%d_%d' % (i, j)) for j in range(sz)] for i in range(rounds)]
    s = A.var('s')
    r = [A.var('r%d' % i) for i in range(rounds)]
    f = Facts(A)
    w = 'SumcheckVerifier of %d variables, %d evaluations, on %d messages of %d evaluations' % (nv, ne, rounds, sz)
    if rounds != nv or sz != ne + 1:
        J.go(mod, A, w, 'verifier', sum(p, []) + [s], [nv, ne, rounds, sz], f,
             lambda fc, o: 'accepts a transcript of the wrong shape' if o.int(rounds) else None, may_abort=lambda fc, o: True)
        return

    def check(fc, o):
        for i in range(rounds):
            if not same(A, fc, o[i], r[i]):
                return 'sends something else than the challenge in round %d' % (i + 1)
        ok = o.int(rounds)
        e = s
        d = []
        for i in range(rounds):
            d.append(A.sub(A.add(p[i][0], p[i][1]), e))
            e = lag(A, p[i], r[i])
        if ok:
            for i, x in enumerate(d):
                if not same(A, fc, x, A.const(0)):
                    return 'accepts although the message of round %d disagrees with the claim' % (i + 1)
            pt = o.vec(rounds + 1)
            return eq_vec(A, fc, pt, r, 'coordinate') or (None if same(A, fc, o[rounds + 2 + len(pt)], e) else 'returns another expected evaluation')
        return None if any(nonzero(A, fc, x) for x in d) else 'rejects consistent messages'
    J.go(mod, A, w, 'verifier', sum(p, []) + [s], [nv, ne, rounds, sz], f, check)


jobs.FUNCS.update({'mle_bin': j_mle_bin, 'mle_un': j_mle_un, 'mp_bin': j_mp_bin, 'mp_un': j_mp_un, 'lc': j_lc, 'uni': j_uni, 'ver': j_ver})

# monomials as 4-bit exponents of x0, x1, x2
MPS = [(), (0x0,), (0x1,), (0x10,), (0x100,), (0x0, 0x2), (0x1, 0x10), (0x101, 0x110), (0x110,), (0x101,), (0x3, 0x10), (0x12, 0x21, 0x0), (0x111, 0x110, 0x100), (0x5,),
       (0x2, 0x11, 0x20, 0x0)]
LCS = [(1, (0x1,)), (1, (0x12, 0x1)), (2, (0x1,)), (2, (0x12,)), (2, (0x12, 0x11)), (2, (0x1, 0x22, 0x112)), (3, (0x12,)), (3, (0x12, 0x2)), (1, (0x1112,)), (2, (0x1112, 0x2)), (1, (0x1, 0x1, 0x2))]


def all_jobs(mod, thorough):
    out = []
    ns = (0, 1, 2, 4, 8)
    for op in BIN:
        for n in ns:
            for m in (ns if op < 20 else (0,)):
                if n == 8 and m == 8 and op in (6, 7, 26, 27) and not thorough:
                    pass
                out.append(('mle_bin', (mod, op, n, m)))
    for op in UN:
        for n in ns + (16,):
            lg = max(n - 1, 0).bit_length()
            if op in (0, 1, 2, 10):
                ks = (0,)
            elif op in (3, 4):
                ks = range(n + 2)
            elif op == 5:
                ks = range(n)
            elif op == 9:
                ks = range(4) if n == 0 else ()
            else:
                ks = range(lg + 2) if n else (0, 1)
            for k in ks:
                if op in (7, 8) and n == 0:
                    continue
                out.append(('mle_un', (mod, op, n, k)))
    for op in (0, 1, 2, 3, 8):
        for a in MPS:
            for b in MPS:
                out.append(('mp_bin', (mod, op, a, b)))
    for op in (20, 21, 22, 23):
        for a in MPS:
            out.append(('mp_bin', (mod, op, a, ())))
    lits = sorted({l for m in MPS for l in m})
    for op in MUN:
        for a in MPS:
            for l in (lits if op in (3, 7) else (0,)):
                if op == 5 and a:
                    continue
                out.append(('mp_un', (mod, op, a, l)))
    for a in ((0x0, 0x0), (0x1, 0x1), (0x0, 0x0, 0x10, 0x10), (0x101, 0x110), (0x2, 0x11, 0x11)):
        out.append(('mp_un', (mod, 6, a, 0)))
    for nv, ts in LCS:
        for what in ('sum', 'eval', 'prover', 'protocol'):
            if what == 'protocol' and (nv > 2 and not thorough):
                continue
            out.append(('lc', (mod, what, nv, ts)))
        if nv < 3 and len(ts) < 3:
            out.append(('lc', (mod, 'key', nv, ts)))
    for n in range(1, 7):
        out.append(('uni', (mod, n)))
    for nv in (1, 2, 3):
        for ne in (1, 2, 3):
            out.append(('ver', (mod, nv, ne, nv, ne + 1)))
    for nv, ne, rd, sz in ((2, 1, 1, 2), (1, 1, 2, 2), (1, 2, 1, 2), (1, 1, 1, 3), (1, 1, 1, 1), (2, 2, 2, 2), (1, 1, 1, 0)):
        out.append(('ver', (mod, nv, ne, rd, sz)))
    return out


def run_all(rep, thorough):
    src = os.path.join(VERIF, 'harness/multi.cc')
    jobs.MODS['multi'] = load_ir(src, extra=['-fno-access-control'])
    jobs.MODS['multi3'] = load_ir(src, extra=['-fno-access-control', '-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness/omp')])
    js = all_jobs('multi', thorough)
    js3 = [(t, ('multi3',) + s[1:]) for t, s in js if t in ('lc', 'uni') or (t == 'mle_bin' and s[1] in (1, 3, 5, 7)) or (t == 'mle_un' and s[1] in (0, 1, 6)) or (t == 'mp_un' and s[1] in (0, 1, 4))]
    run_jobs(rep, js + js3)
