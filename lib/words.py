"""C07: machine-word arithmetic of prime fields and big integers."""
import random
from fractions import Fraction

from absint import Interp, Ptr, Bool, PathAbort, Undecided
from limb import LimbDom, Facts, P, mk, add, mul, scale, simp

PRIMES = ['bn254_fq', 'bn254_fr', 'bls12_381_fq', 'bls12_381_fr', 'bn384_fq', 'bn384_fr', 'pallas_fq', 'pallas_fr',
          'vesta_fq', 'vesta_fr', 'secp256k1_fq', 'secp256k1_fr', 'goldilocks', 'baby_bear', 'koala_bear',
          'mersenne31', 'gf7', 'm31_fr']


class Dom(LimbDom):
    def external(self, st, name, args, inst):
        raise Undecided('external ' + name)

    def call(self, st, name, args, inst):
        if 'LogMessage' in name or 'basic_ostream' in name:
            raise Undecided('logging reached')
        if name == 'malloc':
            return self.interp.alloc(st, args[0] if isinstance(args[0], int) else None)
        if name == 'free':
            return 0
        return NotImplemented


def words(st, obj, n, w):
    o = st.mem.get(obj, {})
    out = []
    for i in range(n):
        e = o.get(i * w)
        if e is None or e[1] != w or not isinstance(e[0], (int, P)):
            return None
        out.append(mk(e[0]))
    return out


class Val:
    """valuation of a normal form: definitions of every symbol at chosen inputs"""
    def __init__(self, dom, env):
        self.dom, self.env, self.memo = dom, env, {}

    def sym(self, i):
        if i in self.memo:
            return self.memo[i]
        s = self.dom.syms[i]
        if s.kind in ('in', 'agg'):
            if i in self.env:
                v = self.env[i]
            elif i in self.dom.bitdefs:
                x, y = self.dom.bitdefs[i]
                v = self.p(x) & self.p(y)
            else:
                raise KeyError(i)
        elif s.kind == 'def':
            v = self.p(s.e)
        elif s.kind == 'quot':
            v = self.p(s.e) // s.d
        else:
            v = self.p(s.e) % s.d
        self.memo[i] = v
        return v

    def p(self, p):
        t = 0
        for m, c in p.t.items():
            for i in m:
                c = c * self.sym(i)
            t += c
        return t

    def path(self, facts):
        for (op, k), v in facts.eq.items():
            x = self.p(P(dict(k)))
            r = x >= 0 if op == 'ge0' else x == 0 if op == 'eq0' else x == 1
            if r != v:
                return False
        return True


def corners(p, n, w, rnd):
    top = (1 << (n * w)) - 1
    c = {0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, (p >> 1) - 1}
    for i in range(n):
        for d in (-1, 0, 1):
            c.add((1 << (w * i)) + d)
            c.add(p - (1 << (w * i)) + d)
        m = p >> (w * i) << (w * i)
        c |= {m, m - 1, m + 1, p ^ ((1 << (w * i)) - 1)}
        c.add((1 << (w * (i + 1) - 1)))
    r = (1 << (n * w)) % p
    c |= {r, p - r, (r * r) % p, pow(r, -1, p) if p > 1 and p % 2 else 1}
    for _ in range(12):
        c.add(rnd.randrange(p))
        c.add(rnd.randrange(1 << rnd.randrange(1, n * w + 1)) % p)
        v = 0
        for i in range(n):
            v |= rnd.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (p >> (w * i)) & ((1 << w) - 1), rnd.randrange(1 << w)]) << (w * i)
        c.add(v % (p if v >= p and rnd.random() < .7 else top + 1))
    return sorted(x for x in c if 0 <= x < p)


class Run:
    def __init__(self, mod, rep, where):
        self.mod, self.rep, self.where = mod, rep, where

    def setup(self):
        self.dom = Dom()
        self.dom.bitdefs = {}
        self.it = Interp(self.mod, self.dom, max_paths=3000)
        self.rnd = random.Random(7)

    def envs(self, spec, limit=700):
        """valuations of the inputs: spec = [(limbs, aggregate, corners, word)]"""
        outs = [{}]
        sets = []
        for limbs, ag, cs, w in spec:
            l = []
            for c in cs:
                e = {}
                for i, x in enumerate(limbs):
                    (m, _), = x.t.items()
                    e[m[0]] = (c >> (w * i)) & ((1 << w) - 1)
                if ag is not None:
                    e[ag] = c
                l.append(e)
            sets.append(l)
        if len(sets) == 1:
            return sets[0]
        if not sets:
            return [{}]
        if len(sets) > 2:
            out = []
            for k in range(limit):
                e = {}
                for l in sets:
                    e.update(l[k] if k < len(l) and k % 2 else self.rnd.choice(l))
                out.append(e)
            return out
        prod = [{**a, **b} for a in sets[0] for b in sets[1]]
        self.rnd.shuffle(prod)
        near = [{**a, **b} for a, b in zip(sets[0], sets[1])]
        return near + prod[:limit]

    def witness(self, facts, spec, bad):
        for env in self.envs(spec):
            v = Val(self.dom, env)
            try:
                if not v.path(facts):
                    continue
                r = bad(v)
            except KeyError:
                continue
            if r:
                return r
        return None


def inputs(dom, st, names, n, w, p):
    spec = []
    for nm in names:
        ls = dom.big(nm, n, p - 1, w)
        ag = None
        for i, s in enumerate(dom.syms):
            if s.kind == 'agg' and s.name == nm:
                ag = i
        st.mem[nm] = {i * (w // 8): (ls[i], w // 8) for i in range(n)}
        st.sizes[nm] = n * w // 8
        spec.append((ls, ag))
    return spec


def check_field_op(R, fn, names, n, w, p, target, outn=None, ow=None, outlim=None, what=''):
    """every path of fn writes words whose value lies in [0, outlim) and equals target mod p"""
    rep = R.rep
    key = '%s' % R.where
    R.setup()
    dom = R.dom
    spec = []

    def prep(st):
        spec.extend(inputs(dom, st, names, n, w, p))
        st.mem['R'] = {}
        st.own.add('R')
    outn = outn or n
    outlim = outlim or p
    ow_ = ow or w
    M = 1 << (ow_ * outn)
    np_ = 0
    cs = corners(p, n, w, R.rnd)
    try:
        for st, ret in R.it.run('@' + fn, [Ptr('R')] + [Ptr(x) for x in names], Facts(), prep):
            sp = [(l, a, cs, w) for l, a in spec]
            if isinstance(ret, PathAbort):
                if ret.why != 'infeasible':
                    wit = R.witness(st.facts, sp, lambda v: 'inputs %s' % [hex(v.env[a]) if a is not None else v.env for _, a in spec])
                    if wit:
                        rep.bad(key, '%s aborts for %s' % (what, wit))
                    else:
                        rep.unk(key, 'abort path not excluded: %s' % ret.why)
                continue
            np_ += 1
            ow = words(st, 'R', outn, ow_ // 8)
            if ow is None:
                rep.unk(key, 'result words not tracked')
                continue
            E = dom.total(ow, ow_)
            tot = [dom.total(l, w) for l, _ in spec]
            T = target(*tot)          # polynomial, coefficients mod p
            ints = outlim - 1
            good, notes = prove_value(dom, E, M, T, p, ints, st.facts)
            if good:
                continue

            def bad(v):
                x = v.p(E)
                t = v.p(T)
                if not (0 <= x <= ints) or (Fraction(x) - t).numerator % p:
                    return '%s: inputs %s give word value 0x%x (p = 0x%x)' % (
                        what, ', '.join('0x%x' % v.p(q) for q in tot), x, p)
                return None
            wit = R.witness(st.facts, sp, bad)
            if wit:
                rep.bad(key, wit)
                return
            rep.unk(key, '%s: path not decided (bounds %s)' % (what, notes[:2]))
            return
    except Undecided as e:
        rep.unk(key, '%s: %s' % (what, e))
        return
    except RecursionError:
        rep.unk(key, '%s: recursion' % what)
        return
    if np_ == 0:
        rep.unk(key, '%s: no path returns' % what)
        return
    rep.functions.add(fn)
    rep.ok('%s (%d paths): %s' % (key, np_, what))


def same_mod(dom, a, b, p, facts):
    """a - b is a multiple of p for all values of the symbols"""
    if dom.rng(a, facts) == (0, 0):
        a = mk(0)
        if all(isinstance(c, int) for c in b.t.values()) and dom.rng(b, facts) == (0, 0):
            return True
    for m, c in dom.known(dom.agg(dom.known(add(a, b, -1), facts)), facts).t.items():
        c = Fraction(c)
        if c.denominator % p == 0 and p > 1:
            return False
        if c.numerator * pow(c.denominator, -1, p) % p:
            return False
    return True


def infeasible(dom, facts):
    return any(dom.bound(f, facts, True, -1) < 0 for f in facts.raw + facts.fs)


def cases(dom, facts, polys):
    """partition by a two-valued quotient occurring in the expressions"""
    seen = set()
    todo = list(polys) + list(facts.fs)
    while todo:
        q = todo.pop()
        for m in q.t:
            for i in m:
                if i in seen:
                    continue
                seen.add(i)
                s = dom.syms[i]
                if s.e is not None:
                    todo.append(s.e)
    for i in sorted(seen, reverse=True):
        s = dom.syms[i]
        if s.kind != 'quot' or s.exact:
            continue
        lo, hi = dom.sb(i, facts)
        if hi - lo == 1:
            out = []
            for v in (lo, hi):
                g = dom.fix(facts, i, v)
                if g is not None and not infeasible(dom, g):
                    out.append(g)
            yield out


def unfold(dom, facts):
    """the facts, and the same facts with the defined words replaced by their definitions"""
    extra = []
    for f in facts.fs:
        g = f
        for _ in range(8):
            l = [i for m in g.t for i in m if dom.syms[i].kind == 'def']
            if not l:
                break
            g = dom.subst(g, max(l), dom.syms[max(l)].e)
        if g is not f:
            extra.append(g)
    if not extra:
        return facts
    r = facts.copy()
    r.fs = list(r.fs) + extra
    r.memo = {}
    return r


def prove_value(dom, E, M, T, p, ints, facts, depth=3):
    good, notes = prove_value_(dom, E, M, T, p, ints, facts, depth)
    if not good and depth == 3:
        g = unfold(dom, facts)
        if g is not facts:
            return prove_value_(dom, E, M, T, p, ints, g, depth)
    return good, notes


def prove_value_(dom, E, M, T, p, ints, facts, depth=3):
    notes = []
    cand = []
    gs = list(dom.canon(E, M, facts).values())
    if facts.b:
        gs += [g for g in dom.canon(E, M, facts, True).values() if g not in gs]
    for Tk, lo, hi in gs:
        if lo > hi:
            return True, notes
        k = lo // M
        if k and k == hi // M:
            Tk, lo, hi = add(Tk, -k * M), lo - k * M, hi - k * M
        notes.append((lo, hi))
        cand.append(Tk)
        if lo < 0 or hi > ints:
            continue
        if same_mod(dom, Tk, T, p, facts):
            return True, notes
    if infeasible(dom, facts):
        return True, notes
    for Tk in cand:
        for m in list(Tk.t):
            if len(m) != 1:
                continue
            s = dom.syms[m[0]]
            if s.kind != 'quot' or s.exact:
                continue
            # floor(e/d) = c when 0 <= e - d c < d
            for n in list(s.e.t):
                if len(n) == 1 and dom.syms[n[0]].kind == 'quot':
                    c = P({n: 1})
                    lo, hi = dom.rng(add(s.e, c, -s.d), facts)
                    if 0 <= lo and hi < s.d:
                        T2 = dom.subst(Tk, m[0], c)
                        lo, hi = dom.rng(T2, facts)
                        notes.append((lo, hi))
                        if 0 <= lo and hi <= ints and same_mod(dom, T2, T, p, facts):
                            return True, notes
    if depth > 0:
        tried = 0
        for alts in cases(dom, facts, cand + [E]):
            tried += 1
            if tried > 4:
                break
            if all(prove_value(dom, E, M, T, p, ints, g, depth - 1)[0] for g in alts):
                return True, notes
    return False, notes


def check_pred(R, fn, names, n, w, p, truth, what, canon=0):
    """truth(tot) -> list of (cond P, 'ge0'/'eq0') : the boolean result equals the relation"""
    rep = R.rep
    key = R.where
    R.setup()
    dom = R.dom
    spec = []

    def prep(st):
        spec.extend(inputs(dom, st, names, n, w, p))
        if canon:
            st.mem['R'] = {}
            st.own.add('R')
    cs = corners(p, n, w, R.rnd)
    k = 0
    try:
        for st, ret in R.it.run('@' + fn, ([Ptr('R')] if canon else []) + [Ptr(x) for x in names], Facts(), prep):
            if isinstance(ret, PathAbort):
                continue
            k += 1
            sp = [(l, a, cs, w) for l, a in spec]
            tot = [dom.total(l, w) for l, _ in spec]
            if canon:
                ow = words(st, 'R', 2 * canon, 8)
                if ow is None:
                    rep.unk(key, what + ': canonical values not tracked')
                    return
                op, d = truth(dom.total(ow[:canon]), dom.total(ow[canon:]))
            else:
                op, d = truth(*[l if truth.__code__.co_varnames[0] == 'la' else t for (l, _), t in zip(spec, tot)])
            alts = [(st.facts, ret)]
            if isinstance(ret, (Bool, P)):
                f = ret.f if isinstance(ret, Bool) else ('atom', ('bit', ret))
                alts = []
                work = [st.facts]
                while work:
                    fa = work.pop()
                    r = dom.decide(fa, f)
                    if r is not None:
                        alts.append((fa, int(r)))
                        continue
                    st.facts = fa
                    try:
                        work.extend(x for x, _ in dom.split(st, f))
                    except PathAbort:
                        pass
                    if len(alts) + len(work) > 60:
                        raise Undecided('too many cases')
            for fa, r in alts:
                if not isinstance(r, int):
                    rep.unk(key, what + ': result not a truth value')
                    return
                if isinstance(d, list):
                    rs = [dom.rng(x, fa) for x in d]
                    inf = any(l > h for l, h in rs)
                    if bool(r & 1) == (op == 'eq0'):
                        ok = all(l == 0 == h for l, h in rs)
                    else:
                        ok = any(l > 0 or h < 0 for l, h in rs)
                    lo, hi = rs[0]
                else:
                    lo, hi = dom.rng(d, fa)
                    inf = lo > hi
                    ok = None
                if ok is not None:
                    pass
                elif op == 'ge0':
                    ok = lo >= 0 if r & 1 else hi < 0
                elif bool(r & 1) == (op == 'eq0'):
                    ok = lo == 0 == hi
                else:
                    ok = lo > 0 or hi < 0
                if ok or inf or infeasible(dom, fa):
                    continue
                if not isinstance(d, list):
                    g = dom.tighten(fa)
                    if g is None:
                        continue
                    lo, hi = dom.rng(d, g)
                    if (lo >= 0 if r & 1 else hi < 0) if op == 'ge0' else (lo == 0 == hi if bool(r & 1) == (op == 'eq0') else lo > 0 or hi < 0):
                        continue

                def bad(v):
                    x = sum(abs(v.p(y)) for y in d) if isinstance(d, list) else v.p(d)
                    t = x >= 0 if op == 'ge0' else (x == 0) == (op == 'eq0')
                    if t != bool(r & 1):
                        return '%s: operands %s give %d' % (what, ', '.join('0x%x' % v.p(q) for q in tot), r & 1)
                wit = R.witness(fa, sp, bad)
                if wit:
                    rep.bad(key, wit)
                else:
                    rep.unk(key, '%s: result %d, relation bounds [%s, %s]' % (what, r, lo, hi))
                return
    except Undecided as e:
        rep.unk(key, '%s: %s' % (what, e))
        return
    rep.functions.add(fn)
    rep.ok('%s (%d paths): %s' % (key, k, what))


def read_info(mod, id_):
    from params import read
    return None


def field_info(mod, id_):
    dom = Dom()
    it = Interp(mod, dom)

    def prep(st):
        st.mem['R'] = {}
        st.own.add('R')
    for st, ret in it.run('@info_' + id_, [Ptr('R')], Facts(), prep):
        g = lambda o, s: it.load(st, Ptr('R', o), __import__('llir').Ty('int', 8 * s))
        w, mont, sz = g(0, 8), g(8, 8), g(16, 8)
        p = 0
        for i in range(0, sz, 4):
            p |= g(24 + i, 4) << (8 * i)
        return w, bool(mont & 1), sz, p


def check_fields(mod, rep, ids=PRIMES, tag=''):
    for id_ in ids:
        if '@info_' + id_ not in mod.funcs:
            continue
        w, mont, sz, p = field_info(mod, id_)
        n = sz * 8 // w
        bign = (n * w + 63) // 64
        R_ = (1 << (n * w)) % p if mont else 1
        Ri = pow(R_, -1, p)
        R = Run(mod, rep, '')

        def op(o, names, tgt, what, **kw):
            fn = '%s_%s' % (o, id_)
            if '@' + fn not in mod.funcs:
                return
            R.where = '%s%s::%s' % (tag, id_, o)
            check_field_op(R, fn, names, kw.pop('n', n), kw.pop('w', w), p, tgt, what=what, **kw)
        A, AB = ['A'], ['A', 'B']
        for o in ('add', 'addip'):
            op(o, AB, lambda a, b: add(a, b), 'a + b')
        for o in ('addself', 'dbl', 'dblip'):
            op(o, A, lambda a: scale(a, 2), '2a')
        for o in ('sub', 'subip'):
            op(o, AB, lambda a, b: add(a, b, -1), 'a - b')
        op('subself', A, lambda a: mk(0), 'a - a')
        for o in ('neg', 'negip'):
            op(o, A, lambda a: scale(a, -1), '-a')
        for o in ('mul', 'mulip'):
            op(o, AB, lambda a, b: scale(mul(a, b), Ri), 'a b')
        for o in ('mulself', 'sqr', 'sqrip'):
            op(o, A, lambda a: scale(mul(a, a), Ri), 'a^2')
        op('one', [], lambda: mk(R_), 'one')
        op('zero', [], lambda: mk(0), 'zero')
        op('minusone', [], lambda: mk(-R_ % p), 'minus one')
        if p % 2:
            op('twoinv', [], lambda: mk(R_ * pow(2, -1, p) % p), 'one half')
        if w == 64:
            op('tobig', A, lambda a: scale(a, Ri), 'canonical value of a')
            op('frombig', A, lambda a: scale(a, R_), 'element of a canonical value')
        else:
            op('tobig', A, lambda a: scale(a, Ri), 'canonical value of a', ow=64)
            op('frombig', A, lambda a: scale(a, R_), 'element of a canonical value', w=64, ow=32)

        def pr(o, names, truth, what):
            fn = '%s_%s' % (o, id_)
            if '@' + fn not in mod.funcs:
                return
            R.where = '%s%s::%s' % (tag, id_, o)
            check_pred(R, fn, names, n, w, p, truth, what)
        one = R_ % p
        def limbs(c):
            return [(c >> (w * i)) & ((1 << w) - 1) for i in range(n)]

        def diff(la, lb):
            return [add(x, y, -1) for x, y in zip(la, lb)]
        pr('eq', AB, lambda la, lb: ('eq0', diff(la, lb)), 'a == b')
        pr('ne', AB, lambda la, lb: ('ne0', diff(la, lb)), 'a != b')
        pr('iszero', A, lambda la: ('eq0', diff(la, limbs(0))), 'a == 0')
        pr('isone', A, lambda la: ('eq0', diff(la, limbs(one))), 'a == 1')
        pr('isminusone', A, lambda la: ('eq0', diff(la, limbs(p - one))), 'a == -1')
        cn = bign
        for o, t, s in (('lt', lambda a, b: ('ge0', add(add(b, a, -1), -1)), '<'), ('le', lambda a, b: ('ge0', add(b, a, -1)), '<='),
                        ('gt', lambda a, b: ('ge0', add(add(a, b, -1), -1)), '>'), ('ge', lambda a, b: ('ge0', add(a, b, -1)), '>=')):
            fn = '%s_%s' % (o, id_)
            if '@' + fn in mod.funcs:
                R.where = '%s%s::%s' % (tag, id_, o)
                check_pred(R, fn, AB, n, w, p, t, 'canonical a %s b' % s, canon=cn)
