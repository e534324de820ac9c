"""Group law / representation checks for the short Weierstrass point systems."""
from absint import Interp, Ptr, TOP, UNDEF, Bool, Undecided, PathAbort
from alg import Alg, Facts, H, Contradiction, Uninit

SYS = ('aff', 'prj', 'jac', 'xyz')


class PointAnalysis:
    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep

    def alg(self, az):
        A = Alg(['y2', 'y1', 'a', 'b', 'x2', 'x1', 'z2', 'z1', 'X2', 'Y2', 'X1', 'Y1', 'beta', 'gx', 'gy'], prio=['y2', 'y1', 'x2', 'x1'])
        A.params = {0: A.const(0) if az else A.var('a'), 2: A.var('beta'), 3: A.var('gx'), 4: A.var('gy')}
        return A

    def coords(self, A, s, x, y, z):
        m, p = A.mul, A.pw
        if s == 'aff':
            return [x, y]
        if s == 'prj':
            return [m(x, z), m(y, z), z]
        if s == 'jac':
            return [m(x, p(z, 2)), m(y, p(z, 3)), z]
        return [m(x, p(z, 2)), m(y, p(z, 3)), p(z, 2), p(z, 3)]

    def zero_coords(self, A, s, i):
        X, Y, O = A.var('X%d' % i), A.var('Y%d' % i), A.const(0)
        if s == 'aff':
            return [O, O]
        return [X, Y, O] if s in ('prj', 'jac') else [X, Y, O, O]

    def curve_rhs(self, A, a, x):
        return A.add(A.pw(x, 3), A.mul(a, x))

    def cases(self, A, s1, s2):
        """yield (name, in1, in2 or None, facts, P, Q) ; P,Q = (x,y) or None"""
        a = A.params[0]
        zs1 = A.var('z1')
        zs2 = A.var('z2')

        def base():
            f = Facts(A)
            A.assume_nonzero(f, A.var('z1'))
            A.assume_nonzero(f, A.var('z2'))
            if a.n != 0:
                A.assume_nonzero(f, A.var('a'))
            return f

        def with_b(f, x, y):
            b = A.sub(A.pw(y, 2), self.curve_rhs(A, a, x))
            A.params[1] = b
            A.assume_nonzero(f, b)
            return f
        x1, y1, x2, y2 = (A.var(v) for v in ('x1', 'y1', 'x2', 'y2'))
        O = A.const(0)
        c = self.coords
        if s2 is None:
            f = with_b(base(), x1, y1)
            A.assume_nonzero(f, y1)
            yield 'P', c(A, s1, x1, y1, zs1), None, f, (x1, y1), None
            f = with_b(base(), x1, O)
            yield 'P with y=0', c(A, s1, x1, O, zs1), None, f, (x1, O), None
            f = base()
            A.params[1] = A.var('b')
            A.assume_nonzero(f, A.var('b'))
            yield 'O', self.zero_coords(A, s1, 1), None, f, None, None
            return
        f = with_b(base(), x2, y2)
        yield 'O,Q', self.zero_coords(A, s1, 1), c(A, s2, x2, y2, zs2), f, None, (x2, y2)
        f = with_b(base(), x1, y1)
        yield 'P,O', c(A, s1, x1, y1, zs1), self.zero_coords(A, s2, 2), f, (x1, y1), None
        f = base()
        A.params[1] = A.var('b')
        A.assume_nonzero(f, A.var('b'))
        yield 'O,O', self.zero_coords(A, s1, 1), self.zero_coords(A, s2, 2), f, None, None
        f = with_b(base(), x1, y1)
        A.assume_nonzero(f, y1)
        yield 'P,P', c(A, s1, x1, y1, zs1), c(A, s2, x1, y1, zs2), f, (x1, y1), (x1, y1)
        f = with_b(base(), x1, O)
        yield 'P,P with y=0', c(A, s1, x1, O, zs1), c(A, s2, x1, O, zs2), f, (x1, O), (x1, O)
        f = with_b(base(), x1, y1)
        A.assume_nonzero(f, y1)
        yield 'P,-P', c(A, s1, x1, y1, zs1), c(A, s2, x1, A.neg(y1), zs2), f, (x1, y1), (x1, A.neg(y1))
        f = with_b(base(), x1, y1)
        A.assume_nonzero(f, A.sub(x1, x2))
        rel = A.sub(A.sub(A.pw(y2, 2), self.curve_rhs(A, a, x2)), A.params[1])
        f.rel = [rel.n]
        A.assume_nonzero(f, A.sub(A.pw(y2, 2), self.curve_rhs(A, a, x2)))
        yield 'P,Q', c(A, s1, x1, y1, zs1), c(A, s2, x2, y2, zs2), f, (x1, y1), (x2, y2)

    def add_spec(self, A, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        a = A.params[0]
        if A.sub(P[0], Q[0]).n == 0:
            if A.sub(P[1], Q[1]).n != 0 or P[1].n == 0:
                return None
            lam = A.mul(A.add(A.mul(A.const(3), A.pw(P[0], 2)), a), A.inv(A.mul(A.const(2), P[1])))
        else:
            lam = A.mul(A.sub(Q[1], P[1]), A.inv(A.sub(Q[0], P[0])))
        x3 = A.sub(A.sub(A.pw(lam, 2), P[0]), Q[0])
        y3 = A.sub(A.mul(lam, A.sub(P[0], x3)), P[1])
        return (x3, y3)

    # ---------------------------------------------------------------- running
    def run(self, A, fn, ins, facts, nout, extra=None):
        """yield (state, ret, outs)"""
        it = Interp(self.mod, A)

        def prep(st):
            i = st.wobj('IN')
            for k, v in ins.items():
                i[8 * k] = (v, 8)
            st.wobj('OUT')
        for st, r in it.run('@' + fn, [Ptr('IN'), Ptr('OUT')], facts, prep):
            if isinstance(r, PathAbort):
                yield st, r, None
                continue
            o = st.mem['OUT']
            outs = []
            for k in range(nout):
                e = o.get(8 * k)
                outs.append(None if e is None else e[0])
            yield st, r, outs
        self.rep.functions |= {n for n in it.visited_funcs}

    def inputs(self, in1, in2):
        d = {i: v for i, v in enumerate(in1)}
        if in2:
            d.update({4 + i: v for i, v in enumerate(in2)})
        return d

    def eq0(self, A, facts, h):
        return A.norm(facts, h.n) == 0

    def point_ok(self, A, st, s, outs, R):
        """None if fine, else a message"""
        f = st.facts
        vals = [A.h(v) for v in outs]
        if any(v is None for v in outs):
            return 'output coordinate not written'
        if s == 'aff':
            if R is None:
                R = (A.const(0), A.const(0))
            for n, v, w in zip('xy', vals, R):
                if not self.eq0(A, f, A.sub(v, w)):
                    return '%s is %s, expected %s' % (n, A.normh(f, v), A.normh(f, w))
            return None
        zi = vals[2]
        if R is None:
            if not self.eq0(A, f, zi):
                return 'result must be the identity but z is %s' % A.normh(f, zi)
            if s == 'xyz' and not self.eq0(A, f, vals[3]):
                return 'result must be the identity but zzz is %s' % A.normh(f, vals[3])
            return None
        d = A.decide(f, ('eq', zi.n))
        if d is not False:
            return 'z coordinate %s vanishes although the result is not the identity' % A.normh(f, zi)
        if s == 'prj':
            ex = [A.mul(R[0], zi), A.mul(R[1], zi)]
        elif s == 'jac':
            ex = [A.mul(R[0], A.pw(zi, 2)), A.mul(R[1], A.pw(zi, 3))]
        else:
            ex = [A.mul(R[0], zi), A.mul(R[1], vals[3])]
            if not self.eq0(A, f, A.sub(A.pw(zi, 3), A.pw(vals[3], 2))):
                return 'invariant ZZ^3 = ZZZ^2 broken: ZZ=%s ZZZ=%s' % (A.normh(f, zi), A.normh(f, vals[3]))
        for n, v, w in zip('xy', vals, ex):
            df = A.sub(v, w)
            if not self.eq0(A, f, df):
                return '%s coordinate differs from the group law: difference numerator has %d terms' % (
                    n, len(A.norm(f, df.n)))
        return None

    def check(self, fn, label, s1, s2, sout, spec, az, self_alias=False):
        rep = self.rep
        if '@' + fn not in self.mod.funcs:
            rep.broken.append('harness function %s missing' % fn)
            return
        A = self.alg(az)
        for cn, in1, in2, facts, P, Q in self.cases(A, s1, s2):
            R = spec(A, P, Q)
            nout = {'aff': 2, 'prj': 3, 'jac': 3, 'xyz': 4}.get(sout, 0)
            where = '%s [%s]' % (label, cn)
            try:
                n = 0
                for st, r, outs in self.run(A, fn, self.inputs(in1, in2), facts.copy(), nout):
                    n += 1
                    path = '; '.join(st.trace[-6:])
                    if isinstance(r, PathAbort):
                        rep.bad(where, 'aborts (%s) on %s' % (r.why, path))
                        continue
                    if sout == 'bool':
                        if isinstance(r, Bool):
                            r = A.decide(st.facts, r.f)
                        if r is None or r is TOP:
                            rep.unk(where, 'result not decided')
                        elif bool(r) != R:
                            rep.bad(where, 'returns %s, must be %s (path: %s)' % (bool(r), R, path))
                        else:
                            rep.ok(where)
                        continue
                    try:
                        m = self.point_ok(A, st, sout, outs, R)
                    except Uninit as e:
                        m = str(e)
                    if m:
                        rep.bad(where, '%s (path: %s)' % (m, path))
                    else:
                        rep.ok(where)
                if n == 0:
                    rep.unk(where, 'no feasible path')
            except Uninit as e:
                rep.bad(where, str(e))
            except (Undecided, Contradiction) as e:
                rep.unk(where, 'undecided: %s' % e)

    def check_fromx(self, fn, label, s, az):
        rep = self.rep
        for odd in (0, 1):
            A = self.alg(az)
            A.params[1] = A.var('b')
            f = Facts(A)
            A.assume_nonzero(f, A.var('b'))
            x = A.var('x1')
            rhs = A.add(self.curve_rhs(A, A.params[0], x), A.params[1])
            A.assume_nonzero(f, rhs)
            where = '%s [pick_odd=%d]' % (label, odd)
            nout = {'aff': 2, 'prj': 3, 'jac': 3, 'xyz': 4}[s]
            try:
                for st, r, outs in self.run(A, fn, {0: x, 1: odd}, f, nout):
                    sq = None
                    for k, v in st.facts.atoms.items():
                        if k[0] == 'square':
                            sq = v
                    if isinstance(r, Bool):
                        r = A.decide(st.facts, r.f)
                    if sq is None:
                        rep.bad(where, 'returns without testing that the right hand side is a square')
                        continue
                    if not sq:
                        if r:
                            rep.bad(where, 'claims a point although x^3+ax+b is not a square')
                        else:
                            rep.ok(where)
                        continue
                    if not r:
                        rep.bad(where, 'returns false although x^3+ax+b is a square')
                        continue
                    if not st.facts.roots:
                        rep.bad(where, 'square root never taken')
                        continue
                    g, p = st.facts.roots[0]
                    if A.norm(st.facts, p - rhs.n) != 0:
                        rep.bad(where, 'square root of %s instead of x^3+ax+b' % p)
                        continue
                    y = A.h(outs[1])
                    A2 = H(g, A.one)
                    sgn = None
                    if self.eq0(A, st.facts, A.sub(y, A2)):
                        sgn = 1
                    elif self.eq0(A, st.facts, A.add(y, A2)):
                        sgn = -1
                    else:
                        rep.bad(where, 'y coordinate %s is not a root of x^3+ax+b' % y)
                        continue
                    odd_g = None
                    for k, v in st.facts.atoms.items():
                        if k[0] == 'odd' and k[1] == repr(A2):
                            odd_g = v
                        if k[0] == 'odd' and k[1] == repr(A.neg(A2)):
                            odd_g = not v
                    if odd_g is None:
                        rep.bad(where, 'parity of the root is never examined')
                        continue
                    got = odd_g if sgn == 1 else not odd_g
                    m = self.point_ok(A, st, s, outs, (x, y))
                    if got != bool(odd):
                        rep.bad(where, 'picks the %s root' % ('odd' if got else 'even'))
                    elif m:
                        rep.bad(where, m)
                    else:
                        rep.ok(where)
            except (Undecided, Contradiction) as e:
                rep.unk(where, e)


NAMES = {'aff': 'AffinePoint', 'prj': 'ProjectivePoint', 'jac': 'JacobianPoint', 'xyz': 'PointXYZZ'}


def add(A, P, Q, pa):
    return pa.add_spec(A, P, Q)


def negp(A, P):
    return None if P is None else (P[0], A.neg(P[1]))


def run_group_law(mod, rep, kinds):
    pa = PointAnalysis(mod, rep)
    for K, az, kn in kinds:
        def S(f):
            return f
        addf = lambda A, P, Q: pa.add_spec(A, P, Q)
        subf = lambda A, P, Q: pa.add_spec(A, P, negp(A, Q))
        dblf = lambda A, P, Q: pa.add_spec(A, P, P)
        for s in ('prj', 'jac', 'xyz'):
            n = NAMES[s] + '<' + kn + '>'
            pa.check('add_%s_%s' % (s, K), n + '::operator+', s, s, s, addf, az)
            pa.check('addi_%s_%s' % (s, K), n + '::operator+=', s, s, s, addf, az)
            pa.check('sub_%s_%s' % (s, K), n + '::operator-', s, s, s, subf, az)
            pa.check('subi_%s_%s' % (s, K), n + '::operator-=', s, s, s, subf, az)
            pa.check('madd_%s_%s' % (s, K), n + '::operator+(affine)', s, 'aff', s, addf, az)
            pa.check('maddi_%s_%s' % (s, K), n + '::operator+=(affine)', s, 'aff', s, addf, az)
            pa.check('msub_%s_%s' % (s, K), n + '::operator-(affine)', s, 'aff', s, subf, az)
            pa.check('msubi_%s_%s' % (s, K), n + '::operator-=(affine)', s, 'aff', s, subf, az)
            pa.check('dbl_%s_%s' % (s, K), n + '::Double', s, None, s, dblf, az)
            pa.check('dbli_%s_%s' % (s, K), n + '::DoubleInPlace', s, None, s, dblf, az)
            pa.check('addself_%s_%s' % (s, K), n + ' p + p', s, None, s, dblf, az)
            pa.check('addiself_%s_%s' % (s, K), n + ' p += p', s, None, s, dblf, az)
        n = 'AffinePoint<' + kn + '>'
        pa.check('affadd_' + K, n + '::operator+', 'aff', 'aff', 'jac', addf, az)
        pa.check('affsub_' + K, n + '::operator-', 'aff', 'aff', 'jac', subf, az)
        pa.check('affaddprj_' + K, n + '::operator+(projective)', 'aff', 'prj', 'prj', addf, az)
        pa.check('affaddjac_' + K, n + '::operator+(jacobian)', 'aff', 'jac', 'jac', addf, az)
        pa.check('affaddxyz_' + K, n + '::operator+(xyzz)', 'aff', 'xyz', 'xyz', addf, az)
        pa.check('affdbl_' + K, n + '::Double', 'aff', None, 'jac', dblf, az)
        pa.check('affdblprj_' + K, n + '::DoubleProjective', 'aff', None, 'prj', dblf, az)
        pa.check('affdblxyz_' + K, n + '::DoubleXYZZ', 'aff', None, 'xyz', dblf, az)
        for s in SYS:
            nn = NAMES[s] + '<' + kn + '>'
            pa.check('neg_%s_%s' % (s, K), nn + '::Negate', s, None, s, lambda A, P, Q: negp(A, P), az)
            pa.check('negop_%s_%s' % (s, K), nn + '::operator-()', s, None, s, lambda A, P, Q: negp(A, P), az)
            pa.check('negi_%s_%s' % (s, K), nn + '::NegateInPlace', s, None, s, lambda A, P, Q: negp(A, P), az)


def run_repr(mod, rep, kinds):
    pa = PointAnalysis(mod, rep)
    for K, az, kn in kinds:
        idf = lambda A, P, Q: P

        def eqf(A, P, Q):
            if P is None or Q is None:
                return P is None and Q is None
            return A.sub(P[0], Q[0]).n == 0 and A.sub(P[1], Q[1]).n == 0
        for s in SYS:
            nn = NAMES[s] + '<' + kn + '>'
            pa.check('eq_%s_%s' % (s, K), nn + '::operator==', s, s, 'bool', eqf, az)
            pa.check('ne_%s_%s' % (s, K), nn + '::operator!=', s, s, 'bool', lambda A, P, Q: not eqf(A, P, Q), az)
            pa.check('iszero_%s_%s' % (s, K), nn + '::IsZero', s, None, 'bool', lambda A, P, Q: P is None, az)
            pa.check('zero_%s_%s' % (s, K), nn + '::Zero', s, None, s, lambda A, P, Q: None, az)
            pa.check('dflt_%s_%s' % (s, K), nn + ' default constructor', s, None, s, lambda A, P, Q: None, az)
            pa.check('gen_%s_%s' % (s, K), nn + '::Generator', s, None, s, lambda A, P, Q: (A.var('gx'), A.var('gy')), az)
            pa.check('endo_%s_%s' % (s, K), nn + '::Endomorphism', s, None, s,
                     lambda A, P, Q: None if P is None else (A.mul(A.var('beta'), P[0]), P[1]), az)
            pa.check_fromx('fromx_%s_%s' % (s, K), nn + '::CreateFromX', s, az)
            check_oncurve(pa, 'isoncurve_%s_%s' % (s, K), nn + '::IsOnCurve', s, az)
        for s in ('prj', 'jac', 'xyz'):
            pa.check('toaff_%s_%s' % (s, K), NAMES[s] + '<' + kn + '>::ToAffine', s, None, 'aff', idf, az)
        for s in SYS:
            for t in ('prj', 'jac', 'xyz'):
                if s != t:
                    pa.check('%s_to_%s_%s' % (s, t, K), '%s<%s>::To%s' % (NAMES[s], kn, NAMES[t]), s, None, t, idf, az)
        for s in SYS:
            for t in SYS:
                if s != t:
                    pa.check('from_%s_%s_%s' % (s, t, K), '%s<%s>::From%s' % (NAMES[t], kn, NAMES[s]), s, None, t, idf, az)


def check_oncurve(pa, fn, label, s, az):
    rep = pa.rep
    for on in (True, False):
        A = pa.alg(az)
        f = Facts(A)
        A.assume_nonzero(f, A.var('z1'))
        x, y, z = A.var('x1'), A.var('y1'), A.var('z1')
        if on:
            A.params[1] = A.sub(A.pw(y, 2), pa.curve_rhs(A, A.params[0], x))
            A.assume_nonzero(f, A.params[1])
        else:
            A.params[1] = A.var('b')
            A.assume_nonzero(f, A.var('b'))
            A.assume_nonzero(f, A.sub(A.sub(A.pw(y, 2), pa.curve_rhs(A, A.params[0], x)), A.var('b')))
            if s == 'aff':
                A.assume_nonzero(f, A.var('x1'))
        where = '%s [%s the curve]' % (label, 'on' if on else 'off')
        try:
            for st, r, outs in pa.run(A, fn, pa.inputs(pa.coords(A, s, x, y, z), None), f, 0):
                if isinstance(r, Bool):
                    r = A.decide(st.facts, r.f)
                if r is None or r is TOP or isinstance(r, PathAbort):
                    rep.unk(where, 'not decided')
                elif bool(r) != on:
                    rep.bad(where, 'returns %s' % bool(r))
                else:
                    rep.ok(where)
        except (Undecided, Contradiction) as e:
            rep.unk(where, e)
