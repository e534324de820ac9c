"""Pairings: line/step formulas (algebraic), Miller loop (divisors of formal
points modulo verticals), final exponentiation (exponent arithmetic)."""
from math import gcd
import os
from absint import Interp, Domain, Ptr, TOP, UNDEF, Undecided, PathAbort
from alg import Alg, Facts, log_call
from common import VERIF, load_ir


# ------------------------------------------------------------------ (A) steps
def step_checks(mod, rep):
    for K in 'MD':
        for op in ('dbl', 'add', 'neg'):
            A = Alg(['y2', 'y1', 'x2', 'x1', 'z1'], prio=['y2', 'y1'])
            x1, y1, x2, y2, z1 = (A.var(v) for v in ('x1', 'y1', 'x2', 'y2', 'z1'))
            f = Facts(A)
            A.assume_nonzero(f, z1)
            A.assume_nonzero(f, y1)
            b = A.sub(A.pw(y1, 2), A.pw(x1, 3))
            A.params = {1: b}
            A.assume_nonzero(f, b)
            if op == 'add':
                A.assume_nonzero(f, A.sub(x1, x2))
                f.rel = [A.sub(A.sub(A.pw(y2, 2), A.pw(x2, 3)), b).n]
            where = 'G2Projective %s, twist %s' % ({'dbl': 'DoubleInPlace', 'add': 'AddInPlace', 'neg': 'NegateInPlace'}[op], K)
            it = Interp(mod, A)

            def prep(st):
                i = st.wobj('IN')
                for k, v in enumerate([A.mul(x1, z1), A.mul(y1, z1), z1, A.const(0), x2, y2]):
                    i[8 * k] = (v, 8)
                st.wobj('OUT')
            try:
                for st, r in it.run('@%s_%s' % (op, K), [Ptr('IN'), Ptr('OUT')], f, prep):
                    if isinstance(r, PathAbort):
                        rep.bad(where, 'aborts: %s' % r.why)
                        continue
                    o = [A.h(st.mem['OUT'][8 * k][0]) if 8 * k in st.mem['OUT'] else None for k in range(6)]
                    step_result(rep, A, st.facts, where, op, K, o, x1, y1, x2, y2)
            except Undecided as e:
                rep.unk(where, e)
            rep.functions |= it.visited_funcs


def step_result(rep, A, f, where, op, K, o, x1, y1, x2, y2):
    def z(h):
        return A.norm(f, h.n) == 0
    if op == 'neg':
        x3, y3 = x1, A.neg(y1)
    else:
        lam = A.mul(A.mul(A.const(3), A.pw(x1, 2)), A.inv(A.mul(A.const(2), y1))) if op == 'dbl' else \
            A.mul(A.sub(y2, y1), A.inv(A.sub(x2, x1)))
        x3 = A.sub(A.sub(A.pw(lam, 2), x1), x1 if op == 'dbl' else x2)
        y3 = A.sub(A.mul(lam, A.sub(x1, x3)), y1)
    if A.decide(f, ('eq', o[2].n)) is not False:
        rep.bad(where, 'z of the result vanishes')
        return
    for n, v, w in (('x', o[0], x3), ('y', o[1], y3)):
        if z(A.sub(v, A.mul(w, o[2]))):
            rep.ok('%s: %s' % (where, n))
        else:
            rep.bad(where, '%s of the result is not that of the %s' % (n, 'sum' if op == 'add' else 'double' if op == 'dbl' else 'negative'))
    if op == 'neg':
        return
    # line through the operands at an untwisted point, up to a factor of Fp2
    j = A.sub(A.mul(lam, x1), y1)
    e = [A.const(1), A.neg(lam), j]
    c = o[3:6] if K == 'D' else o[5:2:-1]
    if A.decide(f, ('eq', c[0].n)) is not False:
        rep.bad(where, 'the yP coefficient of the line vanishes')
        return
    for k in (1, 2):
        if z(A.sub(A.mul(c[k], e[0]), A.mul(c[0], e[k]))):
            rep.ok('%s: line coefficient %d' % (where, k))
        else:
            rep.bad(where, 'line coefficients are not proportional to (1, -slope, slope*x - y)')


# --------------------------------------------------------- (B)/(C) formal run
class V:
    """immutable formal value"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return '%s%r' % (self.k, self.a)

    def __eq__(self, o):
        return isinstance(o, V) and (self.k, self.a) == (o.k, o.a)

    def __hash__(self):
        return hash((self.k, self.a))


class Broken(Exception):
    pass


def padd(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted((k, v) for k, v in d.items() if v))


def pscale(a, s):
    return tuple(sorted((k, v * s) for k, v in a))


def canon(a):
    """(sign, point) with the point chosen among {P, -P}"""
    if not a:
        return 0, a
    if a[0][1] < 0:
        return -1, pscale(a, -1)
    return 1, a


class Formal(Domain):
    def __init__(self, q, r):
        self.q, self.r = q, r
        self.N = q ** 12 - 1
        self.easy = (q ** 6 - 1) * (q ** 2 + 1)
        self.inf = set()
        self.g1zero = set()
        self.unset_ok = False

    def gt(self, d):
        return V('gt', tuple(sorted((k, v % self.N) for k, v in d.items() if v % self.N)))

    def g(self, v):
        if isinstance(v, V) and v.k == 'gt':
            return dict(v.a[0])
        if isinstance(v, V):
            raise Broken('%s used as target group element' % v.k)
        raise Undecided('%r as target group element' % (v,))

    def global_init(self, name):
        if 'kTwistMulByQX' in name:
            return {0: (V('tw', 'x'), 8)}
        if 'kTwistMulByQY' in name:
            return {0: (V('tw', 'y'), 8)}
        return None

    def external(self, st, n, a, inst):
        raise Undecided('call to unmodelled external %s' % n)

    def icmp(self, st, pred, t, a, b):
        raise Undecided('formal value compared')

    def call(self, st, n, a, inst):
        if n.startswith('pf_'):
            return self.pf(n[3:], a)
        if n.startswith('gt_'):
            return self.gtop(n[3:], a)
        if n in ('_Znwm', '_Znam'):
            return self.interp.alloc(st, a[0] if isinstance(a[0], int) else None)
        if n.startswith('_ZdlPv') or n.startswith('_ZdaPv'):
            return None
        if n.startswith('_ZSt20__throw'):
            raise PathAbort(n)
        return log_call(n)

    def point(self, x, y):
        if not (isinstance(x, V) and isinstance(y, V)):
            raise Undecided('point from unknown coordinates')
        if x.k != 'x' or y.k != 'y' or canon(x.a[0])[1] != canon(y.a[0])[1]:
            raise Broken('point built from %s and %s' % (x, y))
        return y.a[0]

    def pf(self, n, a):
        if n == 'one':
            return V('one')
        if n == 'twoinv':
            return V('twoinv')
        if n == 'inf':
            if isinstance(a[1], V) and a[1].k == 'y':
                return int(a[1].a[0] in self.inf or canon(a[1].a[0])[1] in self.inf)
            raise Undecided('identity test of unknown point')
        if n == 'pt':
            if a[2] != V('one'):
                raise Undecided('projective point with z other than one')
            return V('pt', self.point(a[0], a[1]))
        if n == 'pt_neg':
            return V('pt', pscale(a[0].a[0], -1))
        if n == 'frob':
            v, e = a
            if not isinstance(v, V) or not isinstance(e, int):
                raise Undecided('frobenius')
            if v.k in 'xy':
                return V('f' + v.k, v.a[0]) if e % 2 else v
            raise Undecided('frobenius of %s' % v.k)
        if n == 'neg':
            v = a[0]
            if isinstance(v, V) and v.k in ('y', 'fy'):
                return V(v.k, pscale(v.a[0], -1))
            raise Undecided('negation of %r' % (v,))
        if n == 'mul':
            x, y = a
            if isinstance(x, V) and isinstance(y, V):
                if x.k == 'tw':
                    x, y = y, x
                if y.k == 'tw' and x.k in ('fx', 'fy'):
                    if x.k[1] != y.a[0]:
                        raise Broken('the %s coordinate is twisted with the %s constant' % (x.k[1], y.a[0]))
                    # multiplication by the characteristic: shift the power of pi
                    return V(x.k[1], tuple(sorted(((i, e + 1), c) for (i, e), c in x.a[0])))
                if y.k == 'c':
                    x, y = y, x
                if x.k == 'c' and y.k == 'g1':
                    return V('cm', x.a[0], x.a[1], y.a[0], y.a[1])
            raise Undecided('product of %r and %r' % (x, y))
        if n == 'dbl_line':
            if a[1] != V('twoinv'):
                raise Undecided('two_inv is not 1/2')
            return V('l', a[0].a[0], a[0].a[0])
        if n == 'dbl':
            return V('pt', padd(a[0].a[0], a[0].a[0]))
        if n == 'add_line':
            return V('l', a[0].a[0], self.point(a[1], a[2]))
        if n == 'add':
            return V('pt', padd(a[0].a[0], self.point(a[1], a[2])))
        if n == 'coeff':
            return V('c', a[0].a, a[1])
        raise Undecided('pf_' + n)

    def line(self, f, coeffs, order):
        """multiply f by the line whose i-th coefficient sits in coeffs[i]"""
        l = p = None
        for i, (v, (coef, coord)) in enumerate(zip(coeffs, order)):
            if not isinstance(v, V):
                raise Undecided('unknown line coefficient')
            if coord is None:
                if v.k != 'c' or v.a[1] != coef:
                    raise Broken('sparse operand %d is %s' % (i, v))
                ln = v.a[0]
            else:
                if v.k != 'cm' or v.a[1] != coef or v.a[3] != coord:
                    raise Broken('sparse operand %d is %s' % (i, v))
                ln = v.a[0]
                if p is not None and p != v.a[2]:
                    raise Broken('line evaluated at two different points')
                p = v.a[2]
            if l is not None and l != ln:
                raise Broken('coefficients of two different lines are mixed')
            l = ln
        d = self.g(f)
        for pt, m in ((l[0], 1), (l[1], 1), (padd(*l), -1)):
            s, c = canon(pt)
            if s:
                d[(p, c)] = d.get((p, c), 0) + s * m
        return self.gt(d)

    def gtop(self, n, a):
        q = self.q
        if n == 'one':
            return self.gt({})
        if n == 'zero':
            return V('gt0')
        if n == 'g1_zero':
            if isinstance(a[0], V) and a[0].k == 'g1':
                return int(a[0].a[0] in self.g1zero)
            raise Undecided('identity test')
        if n == 'is_zero':
            if isinstance(a[0], V) and a[0].k == 'gt0':
                return 1
            self.g(a[0])
            return 0
        if n == 'eq':
            raise Undecided('target group comparison')
        if n == '034':
            return self.line(a[0], a[1:], ((0, 'y'), (1, 'x'), (2, None)))
        if n == '014':
            return self.line(a[0], a[1:], ((0, None), (1, 'x'), (2, 'y')))
        x = self.g(a[0])
        if n == 'mul':
            for k, v in self.g(a[1]).items():
                x[k] = x.get(k, 0) + v
            return self.gt(x)
        if n == 'square':
            return self.gt({k: 2 * v for k, v in x.items()})
        if n == 'cycsquare':
            if any(v % self.easy for v in x.values()):
                raise Broken('cyclotomic squaring of an element that need not lie in the cyclotomic subgroup')
            return self.gt({k: 2 * v for k, v in x.items()})
        if n == 'inv':
            return self.gt({k: -v for k, v in x.items()})
        if n == 'cycinv':
            return self.gt({k: v * q ** 6 for k, v in x.items()})
        if n == 'frob':
            if not isinstance(a[1], int):
                raise Undecided('frobenius exponent')
            return self.gt({k: v * q ** a[1] for k, v in x.items()})
        raise Undecided('gt_' + n)


def run1(mod, dom, fn, ins, n=None):
    it = Interp(mod, dom, max_steps=20000000)

    def prep(st):
        i = st.wobj('IN')
        for k, v in enumerate(ins):
            i[8 * k] = (v, 8)
        st.wobj('OUT')
    args = [Ptr('IN')] + ([n] if n is not None else []) + [Ptr('OUT')]
    res = list(it.run('@' + fn, args, None, prep))
    st, r = res[0]
    if isinstance(r, PathAbort):
        raise Broken('aborts: %s' % r.why)
    return [st.mem['OUT'][k][0] for k in sorted(st.mem['OUT'])], it.visited_funcs


def P1(i):
    return (((i, 0), 1),)


def scenarios(n_max):
    """(infinite G1 indices, infinite G2 indices, number of pairs)"""
    yield (), (), 0
    for n in range(1, n_max + 1):
        yield (), (), n
    yield (0,), (), 1
    yield (), (0,), 1
    yield (1,), (), 3
    yield (), (0,), 3
    yield (0,), (2,), 3
    yield (0, 1), (2,), 3
    yield (2,), (4,), 7
    yield (), (1, 3), 6


def expect(dom, fam, x, g1, pairs, npairs, res, where, rep, final):
    g = dom.g(res)
    exp = {}
    for i in range(npairs):
        if i in pairs[0] or i in pairs[1]:
            continue

        def put(pt, m):
            s, c = canon(pt)
            if s:
                exp[(i, c)] = exp.get((i, c), 0) + s * m
        Q = P1(i)
        n = 6 * x + 2 if fam == 'BN' else x
        put(Q, n)
        nQ = pscale(Q, n)
        put(nQ, -1)
        if fam == 'BN':
            pi = ((((i, 1)), 1),)
            pi2n = ((((i, 2)), -1),)
            cur = nQ
            for p in (pi, pi2n):
                put(cur, 1)
                put(p, 1)
                cur = padd(cur, p)
                put(cur, -1)
    keys = set(exp) | set(g)
    N, q = dom.N, dom.q
    if not final:
        bad = [k for k in keys if (g.get(k, 0) - exp.get(k, 0)) * (q ** 6 - 1) % N]
        if bad:
            k = bad[0]
            rep.bad(where, 'the Miller function of pair %d has the wrong divisor (multiplicity of %s)' % (k[0], pname(k[1])))
        else:
            rep.ok(where + ': divisor of the Miller function')
        return
    E = N // dom.r
    m = None
    for k in keys:
        e = exp.get(k, 0)
        v = g.get(k, 0)
        if e == 0:
            if v:
                rep.bad(where, 'pair %d contributes %s' % (k[0], pname(k[1])))
                return
            continue
        if v % E:
            rep.bad(where, 'the result need not have order r')
            return
    # common multiplier
    for k in keys:
        e = exp.get(k, 0)
        if e and gcd(e % dom.r, dom.r) == 1:
            mk = g.get(k, 0) // E * pow(e, -1, dom.r) % dom.r
            if m is None:
                m = mk
            if mk != m:
                rep.bad(where, 'pairs are raised to different powers')
                return
    if m is not None and gcd(m, dom.r) != 1:
        rep.bad(where, 'degenerate power')
        return
    rep.ok(where + ': power of the product of the Miller functions')


def pname(pt):
    return ' + '.join('%d*pi^%d(Q%d)' % (c, e, i) for (i, e), c in pt)[:120]


def bn_params(x):
    return 36 * x ** 4 + 36 * x ** 3 + 24 * x ** 2 + 6 * x + 1, 36 * x ** 4 + 36 * x ** 3 + 18 * x ** 2 + 6 * x + 1


def bls_params(x):
    r = x ** 4 - x ** 2 + 1
    return (x - 1) ** 2 * r // 3 + x, r


def naf(n):
    out = []
    while n:
        d = 0
        if n & 1:
            d = 2 - (n & 3)
            n -= d
        out.append(d)
        n >>= 1
    return out


def curve_checks(mod, rep, name, fam, x, thorough):
    q, r = (bn_params if fam == 'BN' else bls_params)(x)
    dom0 = Formal(q, r)
    N, E = dom0.N, dom0.N // r

    def guarded(where, f):
        try:
            f()
        except Broken as e:
            rep.bad(where, str(e))
        except Undecided as e:
            rep.unk(where, e)

    def powx():
        w = '%s PowByX/PowByNegX' % name
        s = dom0.easy
        o, vf = run1(mod, dom0, 'powx_' + name, [dom0.gt({'f': s})])
        rep.functions.update(vf)
        for k, sg, nm in ((0, 1, 'PowByX'), (1, -1, 'PowByNegX')):
            if (dom0.g(o[k]).get('f', 0) - sg * x * s) % N:
                rep.bad('%s %s' % (name, nm), 'is not the power by %sx on the cyclotomic subgroup' % ('' if sg > 0 else '-'))
            else:
                rep.ok('%s %s' % (name, nm))

    def final():
        w = '%s FinalExponentiation' % name
        o, vf = run1(mod, dom0, 'final_' + name, [dom0.gt({'f': 1})])
        rep.functions.update(vf)
        e = dom0.g(o[0]).get('f', 0)
        if e % E:
            rep.bad(w, 'the exponent is not a multiple of (q^12 - 1)/r')
        elif gcd(e // E, r) != 1:
            rep.bad(w, 'the exponent is a multiple of q^12 - 1 on a subgroup of order r (degenerate)')
        else:
            rep.ok(w, '%s: exponent = m (q^12-1)/r with m prime to r' % w)
    guarded('%s PowByX' % name, powx)
    guarded('%s FinalExponentiation' % name, final)
    for pairs in scenarios(10 if thorough else 6):
        n = pairs[2]
        dom = Formal(q, r)
        dom.g1zero = set(pairs[0])
        dom.inf = {P1(i) for i in pairs[1]}
        ins = []
        for i in range(n):
            ins += [V('g1', i, 'x'), V('g1', i, 'y'), V('x', P1(i)), V('y', P1(i))]
        for fn, fin in (('miller', False), ('pairing', True), ('pairingp', True)):
            where = '%s %s with %d pairs (identity in G1: %s, in G2: %s)' % (
                name, {'miller': 'MultiMillerLoop', 'pairing': 'Pairing', 'pairingp': 'Pairing of prepared points'}[fn], n,
                list(pairs[0]), list(pairs[1]))

            def go():
                o, vf = run1(mod, dom, '%s_%s' % (fn, name), ins, n)
                rep.functions.update(vf)
                expect(dom, fam, x, None, pairs, n, o[0], where, rep, fin)
            guarded(where, go)


SYN = (('SBN', 'BN', -(2 ** 62 + 2 ** 55 + 1), 'M'), ('SBLS', 'BLS', 0x8508c00000000001, 'D'),
       ('SBLS', 'BLS', -(2 ** 62 + 2 ** 58 + 2 ** 20 + 5), 'D'))


def run(rep, thorough):
    src = os.path.join(VERIF, 'harness', 'pairing.cc')
    mod = load_ir(src, extra=['-fno-access-control'], fresh=True)
    step_checks(mod, rep)
    it = Interp(mod, Formal(7, 5))

    def prep(st):
        st.wobj('OUT')
    st, _ = list(it.run('@x_neg', [Ptr('OUT')], None, prep))[0]
    o = st.mem['OUT']
    xs = [o[k][0] for k in (0, 8, 16, 24)]
    curve_checks(mod, rep, 'BN', 'BN', -xs[0] if xs[1] else xs[0], thorough)
    curve_checks(mod, rep, 'BLS', 'BLS', -xs[2] if xs[3] else xs[2], thorough)
    for name, fam, x, tw in SYN:
        n = naf(abs(6 * x + 2))
        m = load_ir(src, extra=['-fno-access-control', '-DSYN_ONLY=' + name, '-DSYN_X=%dULL' % abs(x),
                                '-DSYN_ATE=' + ','.join(map(str, n)), '-DSYN_NEG=' + ('true' if x < 0 else 'false'),
                                '-DSYN_TWIST=' + tw], fresh=True)
        before = len(rep.viol)
        curve_checks(m, rep, name, fam, x, False)
        for v in rep.viol[before:]:
            v['where'] += ' [family parameter x = %d, twist %s]' % (x, tw)
