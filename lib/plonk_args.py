"""Plonk permutation, lookup and shuffle arguments: copy cycles, grand products
and sums, permuted lookup columns, and the agreement of what the prover puts in
the quotient and opens with what the verifier checks."""
import os
import random
from alg import Facts
from spec import same
from common import load_ir, VERIF
import jobs
from fri import Rd
from commit import alg, sm, pr, pw, dom
from plonk import c, f, a, i, ch, neg, add, sub, mul, sc, enc, names, value, renumber, Table

KIND = {'f': 0, 'a': 1, 'i': 2}
RND = ['r%d' % k for k in range(64)]


def mk(nm):
    A = alg(list(dict.fromkeys(list(nm) + ['d'])))
    A.params[1] = A.var('d')
    return A


def vl(A, l):
    return [len(l)] + [A.var(x) if isinstance(x, str) else x for x in l]


def cols_in(cols):
    return [len(cols)] + [y for k, x in cols for y in (KIND[k], x)]


def copies_in(copies):
    return [len(copies)] + [y for t in copies for y in t]


# ---- copies ------------------------------------------------------------

COPIES = {
    'none': (2, 3, []),
    'one': (2, 3, [(0, 0, 1, 2)]),
    'itself': (2, 2, [(0, 1, 0, 1), (0, 1, 1, 1)]),
    'twice': (2, 3, [(0, 0, 1, 2), (1, 2, 0, 0)]),
    'chain': (3, 3, [(0, 0, 1, 0), (1, 0, 2, 0), (2, 0, 0, 1), (0, 1, 0, 2)]),
    'merge small into large': (3, 4, [(0, 0, 0, 1), (0, 1, 0, 2), (1, 0, 1, 1), (1, 1, 0, 2), (0, 0, 1, 0)]),
    'merge large into small': (3, 4, [(1, 0, 1, 1), (0, 0, 0, 1), (0, 1, 0, 2), (0, 2, 0, 3), (1, 1, 0, 3), (2, 2, 1, 0)]),
    'equal sizes': (2, 4, [(0, 0, 0, 1), (1, 0, 1, 1), (0, 2, 0, 3), (1, 2, 1, 3), (0, 0, 1, 3), (1, 1, 0, 3), (0, 0, 0, 2)]),
    'all': (2, 3, [(0, 0, 0, 1), (0, 2, 0, 1), (1, 0, 0, 1), (1, 1, 1, 0), (0, 2, 1, 2)]),
    'rows past the last': (2, 3, [(0, 3, 1, 0)]),
    'second row past the last': (2, 3, [(0, 0, 1, 3)]),
}


def copies(name):
    if name in COPIES:
        return COPIES[name]
    r = random.Random(int(name))
    nc, nr = r.randrange(1, 5), r.randrange(1, 7)
    return nc, nr, [(r.randrange(nc), r.randrange(nr), r.randrange(nc), r.randrange(nr)) for _ in range(r.randrange(0, 12))]


def classes(nc, nr, l):
    p = {(x, y): (x, y) for x in range(nc) for y in range(nr)}
    for x, y, u, v in l:
        s, t = p[x, y], p[u, v]
        for k in p:
            if p[k] == t:
                p[k] = s
    return p


ORDER = [('a', 0), ('f', 1), ('i', 0), ('a', 2)]


def j_cycles(J, mod, name):
    nc, nr, l = copies(name)
    A = mk([])
    bad = any(y >= nr or v >= nr for x, y, u, v in l)
    p = None if bad else classes(nc, nr, l)

    def check(fc, out):
        if bad:
            return 'a copy of a row past the last is accepted'
        r = Rd(out)
        nxt, base = {}, {}
        for x in range(nc):
            for y in range(nr):
                nxt[x, y] = (r.int(), r.int())
                base[x, y] = (r.int(), r.int())
                size, first = r.int(), r.int()
                if size != sum(p[k] == p[x, y] for k in p):
                    return 'the cycle of (%d, %d) has size %d' % (x, y, size)
                if bool(first) != (p[x, y] == p[0, 0]):
                    return 'CheckSameCycle of (%d, %d) and (0, 0)' % (x, y)
        for k in p:
            s, z = [], k
            while z not in s and z in nxt:
                s.append(z)
                z = nxt[z]
            if z != k:
                return 'the cycle of %s is not closed' % (k,)
            if set(s) != {q for q in p if p[q] == p[k]}:
                return 'the cycle of %s is %s' % (k, s)
            if any(base[q] != base[k] for q in s) or base[k] not in s:
                return 'the representatives of the cycle of %s' % (k,)
    J.go(mod, A, 'cycles after copies: %s' % name, 'h_cycles', cols_in(ORDER[:nc]) + copies_in(l), [nr], Facts(A), check,
         may_abort=(lambda fc, o: True) if bad else None)


def j_perm(J, mod, nc, n, blind, degree, ntab, name):
    _, _, l = copies(name)
    l = [t for t in l if max(t[0], t[2]) < nc and max(t[1], t[3]) < n]
    nm = ['%d%s' % (t, x) for t in range(ntab) for x in Table.names(n)]
    A = mk(nm + ['beta', 'gamma'] + RND)
    if nc > 2 or ntab > 1:
        # (one generator, to keep the products small)
        A.params[1] = A.const(11)
    cols = ORDER[:nc]
    ins = cols_in(cols) + copies_in(l) + [A.var('beta'), A.var('gamma')]
    tabs = []
    for t in range(ntab):
        T = _tab(A, n, '%d' % t, thin(n, 7 * t + nc))
        tabs.append(T)
        ins += T.ins()
    D = dom(n)
    d, be, ga = A.params[1], A.var('beta'), A.var('gamma')
    p = classes(nc, n, l)
    usable = n - blind - 1
    chunk = degree - 2
    f0 = Facts(A)
    for T in tabs:
        for k, m in cols:
            for y in range(n):
                for x in range(nc):
                    for w in range(n):
                        A.assume_nonzero(f0, A.add(A.add(T.col[k][m][y], ga), A.mul(be, A.mul(pw(A, d, x), A.const(D[w])))))

    def check(fc, out):
        r = Rd(out)
        S = [[r.val() for _ in range(n)] for _ in range(nc)]
        lab = {}
        key = lambda x, y: A.mul(pw(A, d, x), A.const(D[y]))
        nxt = {}
        for x in range(nc):
            for y in range(n):
                k = [z for z in p if same(A, fc, S[x][y], key(*z))]
                if len(k) != 1:
                    return 'the permutation of column %d at row %d is not the label of a cell' % (x, y)
                nxt[x, y] = k[0]
        for k in p:
            s, z = [], k
            while z not in s:
                s.append(z)
                z = nxt[z]
            if z != k or set(s) != {q for q in p if p[q] == p[k]}:
                return 'the permutation does not cycle over the cells equal to %s' % (k,)
        seen = set()
        for t, T in enumerate(tabs):
            nz = r.int()
            if nz != -(-nc // chunk):
                return 'circuit %d: %d products' % (t, nz)
            prev = A.const(1)
            for z in range(nz):
                Z = [r.val() for _ in range(n)]
                cs = range(z * chunk, min(nc, (z + 1) * chunk))
                if not same(A, fc, Z[0], prev):
                    return 'circuit %d: product %d does not start where the one before ends' % (t, z)
                for y in range(usable):
                    num, den = A.const(1), A.const(1)
                    for x in cs:
                        k, m = cols[x]
                        v = A.add(T.col[k][m][y], ga)
                        num = A.mul(num, A.add(v, A.mul(be, key(x, y))))
                        den = A.mul(den, A.add(v, A.mul(be, key(*nxt[x, y]))))
                    if not same(A, fc, A.mul(A.h(Z[y + 1]), den), A.mul(A.h(Z[y]), num)):
                        return 'circuit %d: product %d after row %d' % (t, z, y)
                prev = Z[usable]
                e = blinded(A, fc, Z[usable + 1:], seen)
                if e:
                    return 'circuit %d: product %d: %s' % (t, z, e)
    J.go(mod, A, 'permutation of %d columns by %s and products over %d rows, %d blinding factors, degree %d, %d circuits' % (nc, name, n, blind, degree, ntab), 'h_perm_prove',
         ins, [n, blind, degree, ntab], f0, _generic(check), steps=6000000, may_abort=lambda fc, o: special(fc))


def special(fc):
    """the facts of the path set a value that is generic to a special one"""
    return bool(fc.subs) or bool(getattr(fc, 'rel', None))


def _generic(check):
    # a challenge for which a denominator vanishes is outside of the argument
    def g(fc, out):
        if special(fc):
            return None
        return check(fc, out)
    return g


def blinded(A, fc, vs, seen):
    for v in vs:
        k = [x for x in RND if same(A, fc, v, A.var(x))]
        if len(k) != 1:
            return 'a row to be blinded is not random'
        if k[0] in seen:
            return 'a random value is used twice'
        seen.add(k[0])


def thin(n, seed, keep=.2):
    """constants for most cells"""
    r = random.Random(seed)
    return {x: r.randrange(1, 1 << 40) for x in Table.names(n)[:-2] if r.random() > keep}


def _tab(A, n, pre, consts=None):
    T = Table.__new__(Table)
    T.A, T.n = A, n
    from plonk import NC

    def cell(s):
        if consts and s in consts:
            return A.const(consts[s])
        return A.var(pre + s)
    T.col = {k: [[cell('%s%d_%d' % (k, x, y)) for y in range(n)] for x in range(m)] for k, m in NC.items()}
    T.ch = [A.var(pre + 'ch0'), A.var(pre + 'ch1')]
    return T


# ---- openings ----------------------------------------------------------

def opens(A, fc, r, want, evals):
    """openings in order: (id, point name)"""
    if r.int() != len(want):
        return '%d openings' % len(want)
    for k, (x, pt, val) in enumerate(want):
        if not same(A, fc, r.val(), A.var(x)):
            return 'opening %d is not of %s' % (k, x)
        if not same(A, fc, r.val(), A.var(pt)):
            return 'opening %d is not at %s' % (k, pt)
        v = A.mul(A.var(x), A.var(pt)) if val is None else A.var(val)
        if not same(A, fc, r.val(), v):
            return 'opening %d has another value' % k


def written(A, fc, r, want):
    if r.int() != len(want):
        return 'number of evaluations written'
    for k, (x, pt) in enumerate(want):
        if not same(A, fc, r.val(), A.mul(A.var(x), A.var(pt))):
            return 'evaluation %d written is not %s at %s' % (k, x, pt)


def ids(s, n):
    return ['%s%d' % (s, k) for k in range(n)]


def perm_opens(nz, ns):
    z, s = ids('z', nz), ids('s', ns)
    o = []
    for k in range(nz):
        o += [(z[k], 'x', 'z%d_at_x' % k), (z[k], 'xn', 'z%d_at_xn' % k)]
    o += [(z[k], 'xl', 'z%d_at_xl' % k) for k in reversed(range(nz - 1))]
    return o + [(s[k], 'x', 's%d_at_x' % k) for k in range(ns)]


def arg_opens(kind, n):
    o = []
    for k in range(n):
        l = {'halo2': ('z x', 'a x', 's x', 'a xp', 'z xn'), 'log': ('z x', 'z xn', 'm x'), 'shuf': ('z x', 'z xn')}[kind]
        for t in l:
            p, pt = t.split()
            o.append(('%s%d' % (p, k), pt, '%s%d_at_%s' % (p, k, pt)))
    return o


def arg_written(kind, n):
    l = {'halo2': ('z x', 'z xn', 'a x', 'a xp', 's x'), 'log': ('z x', 'z xn', 'm x'), 'shuf': ('z x', 'z xn')}[kind]
    return [('%s%d' % (p, k), pt) for k in range(n) for p, pt in (t.split() for t in l)]


def j_perm_open(J, mod, nz, ns):
    A = mk(ids('z', nz) + ids('s', ns) + ['x', 'xn', 'xl'] + RND)

    def check(fc, out):
        r = Rd(out)
        w = []
        for k in range(nz):
            w += [('z%d' % k, 'x'), ('z%d' % k, 'xn')] + ([('z%d' % k, 'xl')] if k < nz - 1 else [])
        e = written(A, fc, r, w + [('s%d' % k, 'x') for k in range(ns)])
        return e or opens(A, fc, r, [(x, p, None) for x, p, _ in perm_opens(nz, ns)], None)
    J.go(mod, A, 'openings of %d permutation products and %d permutations by the prover' % (nz, ns), 'h_perm_open',
         vl(A, ids('z', nz)) + vl(A, ids('s', ns)) + [A.var(x) for x in ('x', 'xn', 'xl')], [], Facts(A), check)


def j_open(J, mod, kind, n):
    pts = ['x', 'xn'] if kind == 'shuf' else ['x', 'xp', 'xn']
    l = {'halo2': 'zas', 'log': 'zm', 'shuf': 'z'}[kind]
    A = mk([y for x in l for y in ids(x, n)] + pts + RND)

    def check(fc, out):
        r = Rd(out)
        return written(A, fc, r, arg_written(kind, n)) or opens(A, fc, r, [(x, p, None) for x, p, _ in arg_opens(kind, n)], None)
    J.go(mod, A, 'openings of %d %s arguments by the prover' % (n, kind), 'h_%s_open' % kind,
         [y for x in l for y in vl(A, ids(x, n))] + [A.var(x) for x in pts], [], Facts(A), check)


# ---- what is checked ---------------------------------------------------

def perm_terms(A, z, zn, zp, v, s, keys, chunk, lf, ll, act, be, ga):
    """z, zn: products here and at the next row; zp: products at the last row"""
    one = A.const(1)
    t = [A.mul(lf, A.sub(one, z[0])), A.mul(ll, A.sub(A.mul(z[-1], z[-1]), z[-1]))]
    for k in range(1, len(z)):
        t.append(A.mul(lf, A.sub(z[k], zp[k - 1])))
    for k in range(len(z)):
        l, r = zn[k], z[k]
        for x in range(k * chunk, min(len(v), (k + 1) * chunk)):
            u = A.add(v[x], ga)
            l = A.mul(l, A.add(u, A.mul(be, s[x])))
            r = A.mul(r, A.add(u, A.mul(be, keys[x])))
        t.append(A.mul(act, A.sub(l, r)))
    return t


def comb(A, l, theta):
    r = A.const(0)
    for x in l:
        r = A.add(A.mul(r, theta), x)
    return r


def arg_terms(A, kind, k, ins, tab, q, lf, ll, act, be, ga, theta):
    """ins: the values of the inputs; tab: those of the table; q(name): values of the argument's polynomials"""
    one = A.const(1)
    z, zn = q('z'), q('zn')
    if kind == 'log':
        phi = [A.add(comb(A, l, theta), be) for l in ins]
        tau = A.add(comb(A, tab, theta), be)
        s = sm(A, [pr(A, phi[:j] + phi[j + 1:]) for j in range(len(phi))])
        t = A.sub(A.mul(A.mul(tau, pr(A, phi)), A.sub(zn, z)), A.sub(A.mul(tau, s), A.mul(pr(A, phi), q('m'))))
        return [A.mul(lf, z), A.mul(ll, z), A.mul(act, t)]
    r = [A.mul(lf, A.sub(one, z)), A.mul(ll, A.sub(A.mul(z, z), z))]
    f, t = comb(A, ins[0], theta), comb(A, tab, theta)
    if kind == 'shuf':
        return r + [A.mul(act, A.sub(A.mul(zn, A.add(t, ga)), A.mul(z, A.add(f, ga))))]
    pa, ps, pp = q('a'), q('s'), q('ap')
    return r + [A.mul(act, A.sub(A.mul(zn, A.mul(A.add(pa, be), A.add(ps, ga))), A.mul(z, A.mul(A.add(f, be), A.add(t, ga))))),
                A.mul(lf, A.sub(pa, ps)), A.mul(act, A.mul(A.sub(pa, ps), A.sub(pa, pp)))]


CH = ['theta', 'beta', 'gamma']


def evs(A, q):
    r = []
    for k in 'fai':
        r += vl(A, ids(k, len(q[k])))
    return r + vl(A, ['ch0', 'ch1']) + [A.var(x) for x in CH + ['X', 'lf', 'lb', 'll']]


def j_perm_verify(J, mod, cols, degree):
    nc, chunk = len(cols), degree - 2
    nz = -(-nc // chunk)
    z, s = ids('z', nz), ids('s', nc)
    q = {k: [m for j, m in cols if j == k] for k in 'fai'}
    nm = z + s + [x for k in 'fai' for x in ids(k, len(q[k]))] + ['ch0', 'ch1', 'X', 'lf', 'lb', 'll', 'x', 'xn', 'xl'] + CH
    zx, zn, zl, sx = [['%s_at_%s' % (y, p) for y in l] for l, p in ((z, 'x'), (z, 'xn'), (z[:-1], 'xl'), (s, 'x'))]
    A = mk(nm + zx + zn + zl + sx)
    V = lambda l: [A.var(y) for y in l]

    def check(fc, out):
        r = Rd(out)
        v = [A.var('%s%d' % (k, q[k].index(m))) for k, m in cols]
        act = A.sub(A.const(1), A.add(A.var('lb'), A.var('ll')))
        keys = [A.mul(A.var('X'), pw(A, A.var('d'), x)) for x in range(nc)]
        want = perm_terms(A, V(zx), V(zn), V(zl), v, V(sx), keys, chunk, A.var('lf'), A.var('ll'), act, A.var('beta'), A.var('gamma'))
        e = terms(A, fc, r, want)
        return e or opens(A, fc, r, perm_opens(nz, nc), None)
    J.go(mod, A, 'verifier of the permutation of %s at degree %d' % (' '.join('%s%d' % x for x in cols), degree), 'h_perm_verify',
         cols_in(cols) + evs(A, q) + vl(A, z) + vl(A, zx) + vl(A, zn) + vl(A, zl) + vl(A, sx) + vl(A, s) + V(['x', 'xn', 'xl']), [degree], Facts(A), check)


def terms(A, fc, r, want):
    if r.int() != len(want):
        return 'number of constraints is not %d' % len(want)
    for k, w in enumerate(want):
        if not same(A, fc, r.val(), w):
            return 'constraint %d is another one' % k


def args_in(A, kind, args):
    r = [len(args)]
    for ins, tab in args:
        if kind != 'shuf':
            r += [len(ins)]
        for l in list(ins) + [tab]:
            r += [len(l)] + [y for t in l for y in enc(A, t)]
    return r


def trees(args):
    return [t for ins, tab in args for l in list(ins) + [tab] for t in l]


ARGS = {
    'one': [([[a(0)]], [f(0)])],
    'two': [([[a(0)]], [f(0)]), ([[a(1, 1)]], [f(1)])],
    'three': [([[a(0)]], [f(0)]), ([[mul(a(1, 1), a(2))]], [f(1)]), ([[i(0)]], [f(2, -1)])],
    'wide': [([[a(0), a(1)]], [f(0), f(1)]), ([[a(2), sub(a(0, -1), i(1)), neg(a(1))]], [f(1), add(f(2), c('p')), f(0, 1)])],
    'shared': [([[mul(f(0), a(0)), a(0)]], [f(0), f(1)]), ([[a(0), mul(f(0), a(0))]], [f(1), f(0)])],
    'challenge': [([[add(a(0), ch(0)), mul(a(1), ch(1, 1))]], [mul(f(0), ch(0)), f(1)])],
    'scaled': [([[sc(2, a(0)), sc('p', a(1, -2))]], [sc('p', f(0)), mul(c(3), f(1))])],
}
MANY = {
    'two inputs': [([[a(0)], [a(1)]], [f(0)])],
    'three inputs': [([[a(0)], [a(1, 1)], [mul(a(2), a(0))]], [f(0)])],
    'inputs of two': [([[a(0)]], [f(0)]), ([[a(0), a(1)], [a(2), i(0)]], [f(1), f(2)])],
}


def get_args(kind, name):
    return (MANY if name in MANY else ARGS)[name]


def j_verify(J, mod, kind, name):
    q = {k: [(9, 9), (8, 8)] for k in 'fai'}
    args = [([[renumber(t, q) for t in l] for l in ins], [renumber(t, q) for t in tab]) for ins, tab in get_args(kind, name)]
    n = len(args)
    L = {'halo2': 'zas', 'log': 'zm', 'shuf': 'z'}[kind]
    vals = {'halo2': ('z x', 'z xn', 'a x', 'a xp', 's x'), 'log': ('z x', 'z xn', 'm x'), 'shuf': ('z x', 'z xn')}[kind]
    pts = ['x', 'xn'] if kind == 'shuf' else ['x', 'xp', 'xn']
    ev = [['%s%d_at_%s' % (t.split()[0], k, t.split()[1]) for k in range(n)] for t in vals]
    nm = [x for k in 'fai' for x in ids(k, len(q[k]))] + ['ch0', 'ch1', 'X', 'lf', 'lb', 'll'] + CH + pts + [y for l in ev for y in l] + [y for x in L for y in ids(x, n)]
    for t in trees(args):
        nm += sorted(names(t))
    A = mk(nm)
    leaf = lambda u: A.var('ch%d' % u[1] if u[0] == 'h' else '%s%d' % u[:2])
    order = {'halo2': 'asz', 'log': 'zm', 'shuf': 'z'}[kind]
    ins = args_in(A, kind, args) + evs(A, q) + [y for x in order for y in vl(A, ids(x, n))]
    for l in ev:
        ins += vl(A, l)
    f0 = Facts(A)
    if kind == 'log':
        for I, T in args:
            for l in list(I) + [T]:
                A.assume_nonzero(f0, A.add(comb(A, [value(A, t, leaf) for t in l], A.var('theta')), A.var('beta')))

    def check(fc, out):
        r = Rd(out)
        act = A.sub(A.const(1), A.add(A.var('lb'), A.var('ll')))
        want = []
        for k, (I, T) in enumerate(args):
            at = {'z': 'z%d_at_x', 'zn': 'z%d_at_xn', 'a': 'a%d_at_x', 's': 's%d_at_x', 'ap': 'a%d_at_xp', 'm': 'm%d_at_x'}
            V = lambda t: value(A, t, leaf)
            want += arg_terms(A, kind, k, [[V(t) for t in l] for l in I], [V(t) for t in T], lambda x: A.var(at[x] % k),
                              A.var('lf'), A.var('ll'), act, A.var('beta'), A.var('gamma'), A.var('theta'))
        return terms(A, fc, r, want) or opens(A, fc, r, arg_opens(kind, n), None)
    # (the verifier of the log derivative inverts: a challenge that hits a value is out of scope)
    J.go(mod, A, 'verifier of %s arguments: %s' % (kind, name), 'h_%s_verify' % kind, ins + [A.var(x) for x in pts], [], f0,
         _generic(check) if kind == 'log' else check, may_abort=(lambda fc, o: special(fc)) if kind == 'log' else None)


# ---- the quotient ------------------------------------------------------

def bld(A, n, ln, off, size, last, lists):
    r = [n, ln, off, size, last & ((1 << 64) - 1)]
    r += [A.var(x) for x in CH + ['y', 'dd', 'ds', 'om', 'ceo']]
    for p in ('lf', 'll', 'la'):
        r += vl(A, ids(p, n))
    r += [len(lists)]
    for l in lists:
        r += vl(A, l)
    return r + vl(A, ids('acc', ln))


BN = CH + ['y', 'dd', 'ds', 'om', 'ceo']


def quotient(A, fc, out, n, ln, off, size, want):
    r = Rd(out)
    y = A.var('y')
    for j in range(ln):
        row = off * size + j
        v = A.var('acc%d' % j)
        for t in want(row):
            v = A.add(A.mul(v, y), t)
        if not same(A, fc, r.val(), v):
            return 'row %d of the quotient is not the combination by powers of y of the constraints' % row


def j_perm_eval(J, mod, cols, degree, n, ln, off, size, last):
    nc, chunk = len(cols), degree - 2
    nz = -(-nc // chunk)
    Z = [['z%d_%d' % (k, y) for y in range(n)] for k in range(nz)]
    S = [['s%d_%d' % (k, y) for y in range(n)] for k in range(nc)]
    A = mk(Table.names(n) + BN + [x for p in ('lf', 'll', 'la') for x in ids(p, n)] + ids('acc', ln) + [y for l in Z + S for y in l])
    T = Table(A, n)

    def want(row):
        V = lambda l, k: [A.var(y[k % n]) for y in l]
        u = A.mul(A.var('ds'), A.mul(A.var('ceo'), pw(A, A.var('om'), row)))
        # (delta_start carries beta)
        keys = [A.mul(u, pw(A, A.var('dd'), x)) for x in range(nc)]
        be = A.var('beta')
        t = perm_terms(A, V(Z, row), V(Z, row + 1), V(Z, row + last), [T.col[k][m][row] for k, m in cols], V(S, row),
                       [A.mul(k, A.inv(be)) for k in keys], chunk, A.var('lf%d' % row), A.var('ll%d' % row), A.var('la%d' % row), be, A.var('gamma'))
        return t
    f0 = Facts(A)
    A.assume_nonzero(f0, A.var('beta'))
    J.go(mod, A, 'quotient: permutation of %s at degree %d, rows %d to %d of %d, last rotation %d' % (' '.join('%s%d' % x for x in cols), degree, off * size, off * size + ln - 1, n, last), 'h_perm_eval',
         T.ins() + bld(A, n, ln, off, size, last, Z + S) + cols_in(cols), [degree, nz], f0, lambda fc, out: quotient(A, fc, out, n, ln, off, size, want))


def j_eval(J, mod, kind, name, n, ln, off, size):
    args = get_args(kind, name)
    m = len(args)
    L = {'halo2': 'zas', 'log': 'zm', 'shuf': 'z'}[kind]
    # (columns a, s are also names of tables)
    C = {x: [['%s%dc%d' % (x, k, y) for y in range(n)] for k in range(m)] for x in L}
    nm = Table.names(n) + BN + [x for p in ('lf', 'll', 'la') for x in ids(p, n)] + ids('acc', ln) + [y for x in L for l in C[x] for y in l]
    for t in trees(args):
        nm += sorted(names(t))
    A = mk(nm)
    T = Table(A, n)

    def want(row):
        r = []
        for k, (I, U) in enumerate(args):
            V = lambda t: value(A, t, T.leaf(row))
            at = {'z': ('z', 0), 'zn': ('z', 1), 'a': ('a', 0), 'ap': ('a', -1), 's': ('s', 0), 'm': ('m', 0)}
            q = lambda x: A.var(C[at[x][0]][k][(row + at[x][1]) % n])
            r += arg_terms(A, kind, k, [[V(t) for t in l] for l in I], [V(t) for t in U], q, A.var('lf%d' % row), A.var('ll%d' % row), A.var('la%d' % row),
                           A.var('beta'), A.var('gamma'), A.var('theta'))
        return r
    f0 = Facts(A)
    for p in sorted({x for t in trees(args) for x in names(t)}):
        for k in (0, 1, 2):
            A.assume_nonzero(f0, A.sub(A.var(p), A.const(k)))
    J.go(mod, A, 'quotient: %s arguments %s, rows %d to %d of %d' % (kind, name, off * size, off * size + ln - 1, n), 'h_%s_eval' % kind,
         args_in(A, kind, args) + T.ins() + bld(A, n, ln, off, size, 0, [l for x in L for l in C[x]]), [], f0, lambda fc, out: quotient(A, fc, out, n, ln, off, size, want))


# ---- provers -----------------------------------------------------------

def cell_names(n):
    return Table.names(n)


def j_prove(J, mod, kind, name, n, blind, ntab):
    """grand products and sums over any values (shuffles; sums with given multiplicities)"""
    args = get_args(kind, name)
    usable = n - blind - 1
    nm = ['%d%s' % (t, x) for t in range(ntab) for x in Table.names(n)] + CH + RND
    M = {}
    if kind == 'log':
        M = {(t, k): ['m%d_%d_%d' % (t, k, y) for y in range(n)] for t in range(ntab) for k in range(len(args))}
        nm += [y for l in M.values() for y in l]
    for t in trees(args):
        nm += sorted(names(t))
    A = mk(nm)
    tabs = [_tab(A, n, '%d' % t, thin(n, t)) for t in range(ntab)]
    ins = args_in(A, kind, args) + [ntab]
    for T in tabs:
        ins += T.ins()
    th, be, ga = (A.var(x) for x in CH)
    ins += [th, be] if kind == 'log' else [th, ga]
    for l in M.values():
        ins += vl(A, l)
    f0 = Facts(A)
    for T in tabs:
        for I, U in args:
            for e in list(I) + [U]:
                for y in range(n):
                    A.assume_nonzero(f0, A.add(comb(A, [value(A, x, T.leaf(y)) for x in e], th), be if kind == 'log' else ga))

    def check(fc, out):
        r = Rd(out)
        rd = lambda: [r.val() for _ in range(n)]
        seen = set()
        got = []
        for t, T in enumerate(tabs):
            l = []
            for k, (I, U) in enumerate(args):
                V = lambda e, y: comb(A, [value(A, x, T.leaf(y)) for x in e], th)
                cols = []
                for e in list(I) + [U]:
                    w = [V(e, y) for y in range(n)]
                    g = rd()
                    for y in range(n):
                        if not same(A, fc, g[y], w[y]):
                            return 'circuit %d, argument %d: row %d is not compressed by powers of theta' % (t, k, y)
                    cols.append(w)
                if kind == 'log':
                    e = log_sum(t, k, cols[:-1], cols[-1], rd(), fc, seen)
                    if e:
                        return e
                l.append(cols)
            if kind == 'log':
                continue
            got.append(l)
        if kind == 'log':
            return
        for t, l in enumerate(got):
            for k, (F, S) in enumerate(l):
                z = rd()
                w = 'circuit %d, argument %d: ' % (t, k)
                if not same(A, fc, z[0], A.const(1)):
                    return w + 'the product does not start with 1'
                for y in range(usable):
                    if not same(A, fc, A.mul(A.h(z[y + 1]), A.add(S[y], ga)), A.mul(A.h(z[y]), A.add(F[y], ga))):
                        return w + 'the product after row %d' % y
                e = blinded(A, fc, z[usable + 1:], seen)
                if e:
                    return w + e

    def log_sum(t, k, I, U, z, fc, seen):
        w = 'circuit %d, argument %d: ' % (t, k)
        s = A.const(0)
        for y in range(usable):
            if not same(A, fc, z[y], s):
                return w + 'the sum before row %d' % y
            s = A.add(s, A.sub(sm(A, [A.inv(A.add(F[y], be)) for F in I]), A.mul(A.var(M[t, k][y]), A.inv(A.add(U[y], be)))))
        if not (same(A, fc, z[usable], A.const(0)) or same(A, fc, z[usable], s)):
            return w + 'the last row of the sum'
        e = blinded(A, fc, z[usable + 1:], seen)
        return e and w + e
    J.go(mod, A, 'prover of %s arguments %s over %d rows, %d blinding factors, %d circuits' % (kind, name, n, blind, ntab), 'h_log_sum' if kind == 'log' else 'h_shuf_prove',
         ins, [n, blind], f0, _generic(check), steps=6000000, may_abort=lambda fc, o: special(fc))


LOOKS = {
    # rows: inputs, tables (values of the usable rows and of the rest)
    'in order': ([1, 2, 3, 4], [1, 2, 3, 4]),
    'reversed': ([4, 3, 2, 1], [1, 2, 3, 4]),
    'repeated': ([2, 2, 2, 2], [1, 2, 3, 4]),
    'pairs': ([3, 1, 3, 1], [1, 2, 3, 4]),
    'table repeats': ([5, 1, 5, 1], [1, 1, 5, 5]),
    'table of one': ([7, 7, 7, 7], [7, 7, 7, 7]),
    'zero': ([0, 2, 0, 2], [2, 0, 0, 0]),
    'first': ([9, 9, 1, 9], [1, 9, 1, 1]),
    'large': ([2013265920, 1, 5, 2013265920], [5, 2013265920, 2013265920, 1]),
    'of five': ([4, 1, 1, 3, 4], [1, 3, 4, 4, 2]),
    'of six': ([6, 2, 2, 6, 1, 2], [1, 2, 6, 5, 5, 3]),
    'three': ([5, 2, 5], [2, 5, 3]),
    'of two': ([1, 1], [3, 1]),
    'of one': ([3], [3]),
    'missing': ([1, 2, 8, 4], [1, 2, 3, 4]),
    'only in a blinded row': ([1, 2, 3, 4], [1, 2, 3, 3]),
}


def look(name):
    if name in LOOKS:
        return LOOKS[name]
    r = random.Random(int(name))
    u = r.randrange(1, 7)
    tab = [r.randrange(1, 6) for _ in range(u)]
    return [r.choice(tab) for _ in range(u)], tab


def j_lookup(J, mod, kind, name, blind, two=False, prods=True):
    """permuted columns, multiplicities, products and sums for values that are given"""
    inp, tab = look(name)
    u = len(inp)
    n = 2
    while n < u + blind + 1:
        n *= 2
    blind = n - u - 1
    ins2 = list(reversed(inp))
    if two:
        args = [([[a(0)]], [f(0)]), ([[a(1)]], [f(1)])] if kind == 'halo2' else [([[a(0)], [a(1)]], [f(0)]), ([[a(1)]], [f(1)])]
    else:
        args = [([[a(0)]], [f(0)])]
    vals = {}
    for y in range(n):
        vals['a0_%d' % y] = inp[y] if y < u else 4
        vals['f0_%d' % y] = tab[y] if y < u else 4
        vals['a1_%d' % y] = ins2[y] if y < u else 11
        vals['f1_%d' % y] = tab[-1 - y] if y < u else 12
    A = mk(['0' + x for x in Table.names(n)] + CH + RND)
    T = _tab(A, n, '0', vals)
    th, be, ga = (A.var(x) for x in CH)
    ins = args_in(A, kind, args) + [1] + T.ins() + ([th, be, ga] if kind == 'halo2' else [th, be])
    missing = not set(inp) <= set(tab)
    f0 = Facts(A)
    # any order of the values
    l = sorted(set(vals.values()))
    random.Random(name).shuffle(l)
    for k, v in enumerate(l):
        h = A.normh(f0, A.h(A.const(v)))
        A.rank[h.n, h.d] = k
    for v in range(-1, 13):
        for x in (be, ga):
            A.assume_nonzero(f0, A.add(x, A.const(v)))

    def num(fc, x):
        for v in {v for l in (inp, tab, [4, 11, 12]) for v in l}:
            if same(A, fc, x, A.const(v)):
                return v

    def check(fc, out):
        r = Rd(out)
        rd = lambda: [r.val() for _ in range(n)]
        seen = set()
        cols = []
        col = lambda e: [vals['%s%d_%d' % (e[0][0], e[0][3], y)] for y in range(n)]
        if kind == 'halo2':
            for I, U in args:
                for e in (I[0], U):
                    if [num(fc, x) for x in rd()] != col(e):
                        return 'a column is changed'
            if missing:
                return 'accepts an input that is not in the table'
            perm = []
            for k, (I, U) in enumerate(args):
                pa, ps = rd(), rd()
                w = 'argument %d: ' % k
                va, vs = [num(fc, x) for x in pa[:u]], [num(fc, x) for x in ps[:u]]
                if sorted(va, key=str) != sorted(col(I[0])[:u], key=str):
                    return w + 'the permuted input %s is not a permutation' % va
                if sorted(vs, key=str) != sorted(col(U)[:u], key=str):
                    return w + 'the permuted table %s is not a permutation' % vs
                for y in range(u):
                    if va[y] != vs[y] and (y == 0 or va[y] != va[y - 1]):
                        return w + 'the input of row %d is not that of the table or of the row before' % y
                e = blinded(A, fc, pa[u:] + ps[u:], seen)
                if e:
                    return w + e
                perm.append((va, vs))
            if not prods:
                return
            for k, (I, U) in enumerate(args):
                z = rd()
                w = 'argument %d: ' % k
                if not same(A, fc, z[0], A.const(1)):
                    return w + 'the product does not start with 1'
                ci, ct = col(I[0]), col(U)
                g = lambda x, v: A.add(x, A.const(v))
                for y in range(u):
                    if not same(A, fc, A.mul(A.h(z[y + 1]), A.mul(g(be, perm[k][0][y]), g(ga, perm[k][1][y]))), A.mul(A.h(z[y]), A.mul(g(be, ci[y]), g(ga, ct[y])))):
                        return w + 'the product after row %d' % y
                if not same(A, fc, z[u], A.const(1)):
                    return w + 'the product does not end with 1'
                e = blinded(A, fc, z[u + 1:], seen)
                if e:
                    return w + e
            return
        for k, (I, U) in enumerate(args):
            w = 'argument %d: ' % k
            for e in list(I) + [U]:
                if [num(fc, x) for x in rd()] != col(e):
                    return 'a column is changed'
            m, z = rd(), rd()
            ct = col(U)
            mv = []
            for y in range(n):
                v = [x for x in range(3 * n + 1) if same(A, fc, m[y], A.const(x))]
                if len(v) != 1:
                    return w + 'the multiplicity of row %d is not a count' % y
                mv.append(v[0])
            if any(mv[u:]):
                return w + 'multiplicities in rows that are not used'
            for v in set(ct[:u]):
                if sum(mv[y] for y in range(u) if ct[y] == v) != sum(x == v for e in I for x in col(e)[:u]):
                    return w + 'the multiplicities of the value %d' % v
            s = A.const(0)
            inv = lambda v: A.inv(A.add(be, A.const(v)))
            for y in range(u):
                if not same(A, fc, z[y], s):
                    return w + 'the sum before row %d' % y
                s = A.add(s, A.sub(sm(A, [inv(col(e)[y]) for e in I]), A.mul(A.const(mv[y]), inv(ct[y]))))
            if missing:
                continue
            if not same(A, fc, z[u], A.const(0)):
                return w + 'the sum does not end with 0'
            e = blinded(A, fc, z[u + 1:], seen)
            if e:
                return w + e
    J.go(mod, A, '%s lookup %s, %d blinding factors%s%s' % (kind, name, blind, ', two arguments' if two else '', '' if prods else ', without the product'), 'h_%s_prove' % kind, ins, [n, blind] + ([int(prods)] if kind == 'halo2' else []), f0, _generic(check),
         steps=6000000, may_abort=lambda fc, o: missing and kind == 'halo2' or special(fc))


FN = {k: v for k, v in globals().items() if k.startswith('j_')}
C1 = [('a', 0)]
C3 = [('a', 0), ('f', 1), ('i', 0)]
C4 = [('a', 1), ('a', 0), ('f', 2), ('i', 1)]
C5 = [('i', 1), ('a', 2), ('f', 0), ('a', 0), ('f', 1)]


def job_list(thorough):
    R = lambda *l: list(l)
    J = R()
    J += [('j_cycles', k) for k in COPIES] + [('j_cycles', str(k)) for k in range(16 if not thorough else 200)]
    J += [('j_perm', nc, n, b, dg, t, nm) for nc, n, b, dg, t, nm in [
        (1, 4, 1, 3, 1, 'none'), (2, 4, 1, 3, 1, 'one'), (2, 4, 1, 4, 1, 'equal sizes'), (3, 4, 1, 4, 1, 'chain'), (2, 4, 1, 3, 2, 'equal sizes'), (3, 4, 1, 3, 1, 'merge large into small'), (3, 2, 0, 5, 1, 'merge small into large')]
        + ([(2, 4, 2, 4, 2, 'chain'), (4, 4, 2, 5, 1, 'merge small into large'), (4, 2, 0, 4, 1, 'chain')] if thorough else [])]
    J += [('j_perm_open', z, s) for z, s in [(1, 1), (2, 3), (3, 5)] + ([(4, 2)] if thorough else [])]
    J += [('j_perm_verify', cl, dg) for cl, dg in [(C1, 3), (C3, 3), (C3, 4), (C4, 4), (C5, 4), (C5, 5), (C4, 8)]]
    J += [('j_perm_eval', cl, dg, n, ln, off, size, last) for cl, dg, n, ln, off, size, last in [
        (C1, 3, 4, 4, 0, 4, -2), (C3, 3, 4, 2, 1, 2, -3), (C3, 4, 4, 4, 0, 4, -2), (C5, 4, 8, 2, 3, 2, -6), (C4, 5, 4, 1, 3, 1, -1)]]
    for kind in ('halo2', 'log', 'shuf'):
        nm = list(ARGS) + (list(MANY) if kind == 'log' else [])
        J += [('j_open', kind, k) for k in (1, 2, 3)]
        J += [('j_verify', kind, x) for x in nm]
        J += [('j_eval', kind, x, 4, 4, 0, 4) for x in nm] + [('j_eval', kind, x, 8, 2, 3, 2) for x in ('two', 'wide')] + [('j_eval', kind, 'three', 4, 1, 3, 1)]
        if kind != 'halo2':
            J += [('j_prove', kind, x, 4, 1, 1) for x in nm] + [('j_prove', kind, 'two', 4, 2, 2), ('j_prove', kind, 'one', 8, 3, 1)]
        if kind != 'shuf':
            J += [('j_lookup', kind, x, 1, False, kind == 'log') for x in LOOKS] + [('j_lookup', kind, x, 2, True, kind == 'log') for x in ('reversed', 'repeated', 'table repeats', 'of six')]
            J += [('j_lookup', kind, str(k), 1, k % 2 == 1, kind == 'log') for k in range(8 if not thorough else 60)]
            J += [('j_lookup', kind, x, 0, t) for x, t in (('three', False), ('of two', False), ('of one', True), ('of one', False))] if kind == 'halo2' else []
    return J


def run_all(rep, thorough):
    src = os.path.join(VERIF, 'harness/plonk_args.cc')
    jobs.MODS['pa'] = load_ir(src, fresh=True)
    # sums made by chunks, as with several threads
    jobs.MODS['pa3'] = load_ir(src, extra=['-DTACHYON_HAS_OPENMP', '-I' + os.path.join(VERIF, 'harness/omp')], fresh=True)
    for k, g in FN.items():
        jobs.FUNCS['pa' + k] = g
    from jobs import run_jobs
    l = job_list(thorough)
    run_jobs(rep, [('pa' + k, ('pa', *r)) for k, *r in l] + [('pa' + k, ('pa3', *r)) for k, *r in l if k in ('j_prove', 'j_lookup') and (r[0] == 'log' or thorough)] +
             [('paj_prove', ('pa3', 'shuf', 'two', 4, 1, 1)), ('paj_lookup', ('pa3', 'halo2', 'of six', 2, True, False))], limit=1500 if thorough else 300)
