"""Abstract domain of multivariate rational expressions with equality /
disequality facts: the value of every field handle is a normal form in
Frac(Z[g1..gn]) modulo (known relations).  Equality of values is decided by
normalisation only."""
from sympy.polys.rings import PolyElement
from sympy.polys.rings import ring
from sympy import ZZ, GF
from absint import (Domain, Ptr, Bool, TOP, UNDEF, Undecided, NeedDecide, PathAbort, bnot)

CONST_TAG = 4 << 60
PARAM_TAG = 6 << 60
HALF = 1 << 59


def _unhash(f):
    """sympy caches the hash of intermediate results of a division that it then
    changes in place; results are copied so that their hash is computed anew"""
    def g(self, *a):
        r = f(self, *a)
        if isinstance(r, PolyElement):
            return r.copy()
        if isinstance(r, tuple):
            return tuple([y.copy() for y in x] if isinstance(x, list) else x.copy() for x in r)
        return r
    return g


if not hasattr(PolyElement, 'verif_patched'):
    PolyElement.verif_patched = True
    PolyElement.div = _unhash(PolyElement.div)
    PolyElement.rem = _unhash(PolyElement.rem)


class H:
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __repr__(self):
        if self.d == 1:
            return '(%s)' % (self.n,)
        return '(%s)/(%s)' % (self.n, self.d)


def log_call(n):
    """glog statements have no effect on the analysed state; fatal ones end the path"""
    if n.startswith('_ZN6google'):
        if 'MakeCheckOpString' in n:
            raise PathAbort('CHECK fails')
        if 'LogMessageFatal' in n or n.startswith('_ZN6google15LogMessageFatal'):
            raise PathAbort('fatal log message (CHECK/NOTREACHED)')
        if 'streamEv' in n:
            return Ptr('LOGSTREAM')
        return TOP
    if n.startswith('_ZSt16__ostream_insert') or n.startswith('_ZStls') or n.startswith('_ZNSolsE') or n.startswith('_ZNSo9_M_insert'):
        return Ptr('LOGSTREAM')
    return NotImplemented


class Contradiction(Exception):
    pass


class Facts:
    def __init__(self, alg):
        self.alg = alg
        self.nz = set()      # irreducible polynomials known nonzero
        self.subs = []       # (gen index, num, den) applied in order
        self.rel = []        # polynomials known zero, used by rem
        self.atoms = {}      # opaque condition -> bool
        self.roots = []      # (gen, poly)
        self.log = []

    def copy(self):
        f = Facts(self.alg)
        f.nz = set(self.nz)
        f.subs = list(self.subs)
        f.rel = list(self.rel)
        f.atoms = dict(self.atoms)
        f.roots = list(self.roots)
        f.log = list(self.log)
        return f


class Alg(Domain):
    def __init__(self, gens, char=0, prio=()):
        self.names = list(gens) + ['s0_', 's1_', 's2_', 's3_']
        # the square-root gens come first in the order so that rem() rewrites them
        self.order = ['s0_', 's1_', 's2_', 's3_'] + list(gens)
        dom = ZZ if char == 0 else GF(char, symmetric=False)
        r = ring(','.join(self.order), dom, order='lex')
        self.R = r[0]
        self.g = dict(zip(self.order, r[1:]))
        self.char = char
        self.params = {}
        self.prio = list(prio)
        self._fac = {}
        self.one = self.R.one
        self.zero = self.R.zero
        self.ext = {}
        self.small = None
        self.unset_n = 0
        self.obligations = 0

    # ---------------- values
    def const(self, c):
        return H(self.R.ground_new(self.R.domain(c)), self.one)

    def var(self, name):
        return H(self.g[name], self.one)

    def h(self, v):
        """handle value from an IR value"""
        if isinstance(v, H):
            return v
        if isinstance(v, int):
            if v >> 61 == CONST_TAG >> 61:
                c = v - CONST_TAG
                if c >= HALF * 2:
                    pass
                c = c - HALF
                return self.const(c)
            if v >> 61 == PARAM_TAG >> 61:
                i = v - PARAM_TAG
                if i not in self.params:
                    raise Undecided('unknown parameter handle %d' % i)
                return self.params[i]
            raise Undecided('integer %#x used as field handle' % v)
        if v is UNDEF:
            raise Uninit('uninitialised value used as field element')
        if v is TOP:
            raise Undecided('unknown value used as field element')
        raise Undecided('%r used as field element' % (v,))

    def add(self, a, b):
        if a.d == b.d:
            return self.mk(a.n + b.n, a.d)
        return self.mk(a.n * b.d + b.n * a.d, a.d * b.d)

    def sub(self, a, b):
        if a.d == b.d:
            return self.mk(a.n - b.n, a.d)
        return self.mk(a.n * b.d - b.n * a.d, a.d * b.d)

    def mul(self, a, b):
        return self.mk(a.n * b.n, a.d * b.d)

    def neg(self, a):
        return H(-a.n, a.d)

    def inv(self, a):
        return self.mk(a.d, a.n)

    def mk(self, n, d):
        if d == 1:
            return H(n, d)
        if n == 0:
            return H(n, self.one)
        try:
            n, d = n.cancel(d)
        except Exception:
            pass
        return H(n, d)

    def pw(self, a, k):
        return H(a.n ** k, a.d ** k)

    # ---------------- normalisation
    def subst(self, p, gi, n, d):
        """numerator of p[g := n/d], times d^deg"""
        deg = max((m[gi] for m in p.keys()), default=0) if p else 0
        if deg <= 0:
            return p, 0
        parts = {}
        for m, c in p.items():
            k = m[gi]
            mm = list(m)
            mm[gi] = 0
            parts.setdefault(k, self.R.zero)
            parts[k] = parts[k] + self.R({tuple(mm): c})
        out = self.R.zero
        npow = [self.one]
        dpow = [self.one]
        for _ in range(deg):
            npow.append(npow[-1] * n)
            dpow.append(dpow[-1] * d)
        for k, q in parts.items():
            out = out + q * npow[k] * dpow[deg - k]
        return out, deg

    def norm(self, facts, p):
        """numerator-normal form (zero iff zero under the facts)"""
        if p == 0:
            return p
        for _ in range(4):
            q = p
            for gi, n, d in facts.subs:
                q, _k = self.subst(q, gi, n, d)
                if q == 0:
                    return q
            if facts.rel:
                q = q.rem(facts.rel)
            if q == p or q == 0:
                return q
            p = q
        return p

    def norm_subs(self, facts, p):
        for gi, n, d in facts.subs:
            if p == 0:
                return p
            p, _k = self.subst(p, gi, n, d)
        return p

    def open_part(self, facts, p):
        """None if p is known zero; otherwise the list of distinct factors not
        known nonzero, each reduced modulo the relations ([] = nonzero)"""
        p = self.norm_subs(facts, p)
        if p == 0:
            return None
        if p.is_ground:
            return []
        out = []
        for f in self.factors(p):
            if f in facts.nz:
                continue
            if facts.rel:
                q = f.rem(facts.rel)
                if q == 0:
                    return None
                if q.is_ground:
                    continue
                for f2 in self.factors(q):
                    if f2 not in facts.nz and f2 not in out:
                        out.append(f2)
            elif f not in out:
                out.append(f)
        return out

    def normh(self, facts, a):
        n, d = a.n, a.d
        for gi, sn, sd in facts.subs:
            n, k = self.subst(n, gi, sn, sd)
            d, l = self.subst(d, gi, sn, sd)
            if k > l:
                d = d * sd ** (k - l)
            elif l > k:
                n = n * sd ** (l - k)
        if facts.rel:
            n = n.rem(facts.rel)
            d = d.rem(facts.rel)
        if d == 0:
            raise Contradiction()
        return self.mk(n, d)

    def factors(self, p):
        key = p
        r = self._fac.get(key)
        if r is None:
            try:
                c, fs = p.factor_list()
            except NotImplementedError:
                # characteristic p: only the monomial content is split off
                mono = tuple(min(m[i] for m in p) for i in range(len(self.order)))
                fs = [(self.R({tuple(int(i == j) for j in range(len(mono))): self.R.domain(1)}), 1) for i, e in enumerate(mono) if e]
                q = self.R.from_dict({tuple(x - y for x, y in zip(m, mono)): c for m, c in p.items()})
                if not q.is_ground:
                    fs.append((q, 1))
            r = []
            for f, _ in fs:
                r.append(self.canon(f))
            self._fac[key] = r
        return r

    def canon(self, f):
        if self.char == 0 and f.LC < 0:
            f = -f
        return f

    def unknown_factors(self, facts, p):
        """factors of p (normalised, nonzero poly) not known nonzero"""
        if p.is_ground:
            return []
        return [f for f in self.factors(p) if not self.known_nz(facts, f)]

    def known_nz(self, facts, f):
        if f in facts.nz:
            return True
        return False

    # ---------------- facts
    def assume_nonzero(self, facts, p):
        if isinstance(p, H):
            p = p.n
        p = self.norm_subs(facts, p)
        if p == 0:
            raise Contradiction()
        for f in self.factors(p):
            facts.nz.add(f)

    def assume_zero(self, facts, p):
        if isinstance(p, H):
            p = p.n
        uf = self.open_part(facts, p)
        if uf is None:
            return
        if not uf:
            raise Contradiction()
        if len(uf) > 1:
            raise Undecided('zero fact with several factors')
        p = uf[0]
        # linear generator with unit coefficient?
        best = None
        cand = list(range(len(self.order)))
        pr = [self.order.index(x) for x in self.prio]
        cand.sort(key=lambda i: (pr.index(i) if i in pr else len(pr) + i))
        for gi in cand:
            degs = [m[gi] for m in p.keys()]
            if max(degs) != 1:
                continue
            if any(len(r) and max(m[gi] for m in r.keys()) > 0 for r in facts.rel):
                # allowed, relation will be substituted below
                pass
            lin = self.R.zero
            rest = self.R.zero
            for m, c in p.items():
                if m[gi] == 1:
                    mm = list(m)
                    mm[gi] = 0
                    lin = lin + self.R({tuple(mm): c})
                else:
                    rest = rest + self.R({m: c})
            if lin.is_ground or not self.unknown_factors(facts, lin):
                best = (gi, -rest, lin)
                break
        if best is None:
            facts.rel = facts.rel + [p]
            facts.log.append('%s = 0' % p)
            self._recheck(facts)
            return
        facts.subs = facts.subs + [best]
        facts.log.append('%s = 0' % p)
        self._recheck(facts)

    def _recheck(self, facts):
        old = facts.nz
        facts.nz = set()
        for f in old:
            q = self.norm_subs(facts, f)
            if q == 0:
                raise Contradiction()
            if q.is_ground:
                continue
            for x in self.factors(q):
                facts.nz.add(x)
        rels = []
        for r in facts.rel:
            q = r
            for gi, n, d in facts.subs:
                q, _k = self.subst(q, gi, n, d)
            if q == 0:
                continue
            if q.is_ground:
                raise Contradiction()
            uf = [x for x in self.factors(q) if x not in facts.nz]
            if not uf:
                raise Contradiction()
            q = self.one
            for x in uf:
                q = q * x
            rels.append(q)
        facts.rel = rels
        for f in facts.nz:
            if facts.rel and f.rem(facts.rel) == 0:
                raise Contradiction()

    # ---------------- decisions
    def decide(self, facts, f):
        k = f[0]
        if k == 'eq':
            op = self.open_part(facts, f[1])
            if op is None:
                return True
            return None if op else False
        if k == 'not':
            r = self.decide(facts, f[1])
            return None if r is None else not r
        if k == 'and':
            a = self.decide(facts, f[1])
            if a is False:
                return False
            b = self.decide(facts, f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.decide(facts, f[1])
            if a:
                return True
            b = self.decide(facts, f[2])
            if b:
                return True
            return False if a is False and b is False else None
        if k == 'xor':
            a = self.decide(facts, f[1])
            b = self.decide(facts, f[2])
            return None if a is None or b is None else a != b
        if k == 'atom':
            return facts.atoms.get(f[1])
        raise Undecided('formula %r' % (f,))

    def _first_lit(self, facts, f):
        if f[0] in ('eq', 'atom'):
            return f if self.decide(facts, f) is None else None
        for g in f[1:]:
            r = self._first_lit(facts, g)
            if r is not None:
                return r
        return None

    def split(self, st, f):
        lit = self._first_lit(st.facts, f)
        out = []
        if lit[0] == 'atom':
            for b in (True, False):
                q = st.facts.copy()
                q.atoms[lit[1]] = b
                out.append((q, '%s%s' % ('' if b else 'not ', lit[1])))
            return out
        p = self.norm(st.facts, lit[1])
        uf = self.open_part(st.facts, lit[1])
        base = st.facts
        for fac in uf:
            q = base.copy()
            try:
                self.assume_zero(q, fac)
                out.append((q, '%s == 0' % fac))
            except Contradiction:
                pass
            base = base.copy()
            base.nz.add(fac)
        out.append((base, '%s != 0' % p))
        return out

    # ---------------- IR hooks
    def call(self, st, n, args, inst):
        if n.startswith('af_'):
            return self.af(st, n[3:], args)
        h = self.ext.get(n)
        if h:
            return h(st, args, inst)
        if n in ('_Znwm', '_Znam'):
            return self.interp.alloc(st, args[0] if isinstance(args[0], int) else None)
        if n.startswith('_ZdlPv') or n.startswith('_ZdaPv'):
            return None
        return log_call(n)

    def af(self, st, n, a):
        if n == 'add':
            return self.add(self.h(a[0]), self.h(a[1]))
        if n == 'sub':
            return self.sub(self.h(a[0]), self.h(a[1]))
        if n == 'mul':
            return self.mul(self.h(a[0]), self.h(a[1]))
        if n == 'neg':
            return self.neg(self.h(a[0]))
        if n == 'inv':
            x = self.h(a[0])
            r = self.decide(st.facts, ('eq', x.n))
            if r is None:
                raise NeedDecide(('eq', x.n))
            if r:
                return TOP
            return self.inv(self.normh(st.facts, x))
        if n == 'eq':
            d = self.sub(self.h(a[0]), self.h(a[1]))
            f = ('eq', d.n)
            r = self.decide(st.facts, f)
            return Bool(f) if r is None else int(r)
        if n == 'lt':
            d = self.sub(self.h(a[0]), self.h(a[1]))
            if self.norm(st.facts, d.n) == 0:
                return 0
            return Bool(('atom', ('lt', repr(self.normh(st.facts, self.h(a[0]))), repr(self.normh(st.facts, self.h(a[1]))))))
        if n == 'is_odd':
            return Bool(('atom', ('odd', repr(self.normh(st.facts, self.h(a[0]))))))
        if n == 'is_square':
            x = self.normh(st.facts, self.h(a[0]))
            if x.n == 0:
                return 1
            return Bool(('atom', ('square', repr(x))))
        if n == 'sqrt':
            x = self.normh(st.facts, self.h(a[0]))
            if x.n == 0:
                return self.const(0)
            if x.d != 1:
                raise Undecided('sqrt of a fraction')
            for g, p in st.facts.roots:
                if p == x.n:
                    return H(g, self.one)
            i = len(st.facts.roots)
            if i >= 4:
                raise Undecided('too many square roots')
            g = self.g['s%d_' % i]
            st.facts.roots.append((g, x.n))
            if self.decide(st.facts, ('eq', x.n)) is False:
                st.facts.nz.add(g)
            st.facts.rel = st.facts.rel + [g ** 2 - x.n]
            return H(g, self.one)
        if n == 'from_str':
            b = self.cstr(st, a[0], a[1])
            try:
                return self.const(int(b, a[2]))
            except (ValueError, TypeError):
                raise Undecided('unparsable field constant %r' % (b,))
        if n == 'cond':
            return Bool(('atom', ('cond', a[0])))
        if n == 'random':
            o = st.wobj('RANDOM')
            k = o[0][0] if 0 in o else 0
            o[0] = (k + 1, 8)
            return self.var('r%d' % k)
        if n == 'to_int':
            x = self.normh(st.facts, self.h(a[0]))
            if self.small is not None and not (x.n.is_ground and x.d.is_ground):
                # one of the first integers, or none of them
                for k in range(self.small):
                    f = ('eq', self.sub(x, self.const(k)).n)
                    r = self.decide(st.facts, f)
                    if r is None:
                        raise NeedDecide(f)
                    if r:
                        return k
                return 1 << 40
            if not x.n.is_ground or not x.d.is_ground or x.d != 1:
                raise Undecided('integer value of an arbitrary field element')
            v = int(x.n.LC) if x.n != 0 else 0
            if v >> 63:
                raise Undecided('integer value of a large field element')
            return v
        raise Undecided('af_' + n)

    def cstr(self, st, p, n):
        if not isinstance(p, Ptr) or not isinstance(n, int):
            raise Undecided('non constant string')
        self.interp.ensure(st, p.obj)
        o = st.mem[p.obj]
        out = ''
        for k in range(n):
            e = o.get(p.off + k)
            if e is None or not isinstance(e[0], int):
                raise Undecided('non constant string')
            out += chr(e[0])
        return out

    def icmp(self, st, pred, t, a, b):
        # comparing handles as integers can only come from identity of handles
        if pred in ('eq', 'ne') and (isinstance(a, H) or isinstance(b, H)):
            raise Undecided('handle compared as integer')
        return TOP


class Uninit(Undecided):
    pass
