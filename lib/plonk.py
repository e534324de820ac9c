"""Plonk constraint expressions: evaluation by the prover, the verifier and the
compiled calculation graph, degrees, identifiers, selector replacement and
selector compression, against the meaning of the expression tree."""
import os
import random
from absint import Undecided
from alg import Facts
from spec import P, root, same
from common import load_ir, VERIF
import jobs
from fri import Rd
from commit import alg, facts, dom, sm, pr, pw

M64 = (1 << 64) - 1


# --- expression trees: (kind, ...) in the order of the encoding

def c(v): return ('c', v)
def sel(i, simple=1): return ('s', i, simple)
def f(col, rot=0, q=None): return ('f', col if q is None else q, rot, col)
def a(col, rot=0, q=None, ph=0): return ('a', col if q is None else q, rot, col, ph)
def i(col, rot=0, q=None): return ('i', col if q is None else q, rot, col)
def ch(k, ph=0): return ('h', k, ph)
def neg(x): return ('-', x)
def add(x, y): return ('+', x, y)
def sub(x, y): return add(x, neg(y))
def mul(x, y): return ('*', x, y)
def sc(s, x): return ('k', s, x)


OPS = {k: n for n, k in enumerate('csfaih-+*k')}


def num(A, v):
    return A.var(v) if isinstance(v, str) else A.const(v % P)


def enc(A, t):
    k = t[0]
    if k == 'c':
        return [0, num(A, t[1])]
    if k == 'k':
        return [9, num(A, t[1])] + enc(A, t[2])
    r = [OPS[k]]
    for x in t[1:]:
        r += enc(A, x) if isinstance(x, tuple) else [x & M64]
    return r


def names(t):
    if t[0] in 'ck':
        return ({t[1]} if isinstance(t[1], str) else set()) | (names(t[2]) if t[0] == 'k' else set())
    r = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            r |= names(x)
    return r


def deg(t, sd=None):
    k = t[0]
    if k in 'ch':
        return 0
    if k == 's':
        return sd[t[1]] if sd else 1
    if k in 'fai':
        return 1
    if k in '-':
        return deg(t[1], sd)
    if k == 'k':
        return deg(t[2], sd)
    return (max if k == '+' else lambda x, y: x + y)(deg(t[1], sd), deg(t[2], sd))


def cost(t):
    k = t[0]
    if k in 'sfai':
        return 1
    if k in 'ch':
        return 0
    return sum(cost(x) for x in t[1:] if isinstance(x, tuple)) + {'-': 30, '+': 15, '*': 30, 'k': 30}[k]


def simple(t):
    if t[0] == 's':
        return [t] if t[2] else []
    return [y for x in t[1:] if isinstance(x, tuple) for y in simple(x)]


def value(A, t, leaf):
    k = t[0]
    if k == 'c':
        return num(A, t[1])
    if k == '-':
        return A.neg(value(A, t[1], leaf))
    if k == '+':
        return A.add(value(A, t[1], leaf), value(A, t[2], leaf))
    if k == '*':
        return A.mul(value(A, t[1], leaf), value(A, t[2], leaf))
    if k == 'k':
        return A.mul(num(A, t[1]), value(A, t[2], leaf))
    return leaf(t)


TREES = {
    'constant': c('p'), 'zero': c(0), 'one': c(1), 'two': c(2),
    'fixed': f(1), 'advice': a(2, 1), 'instance': i(0, -1), 'challenge': ch(1, 1),
    'negated': neg(a(0)), 'negated constant': neg(c('p')), 'negated one': neg(c(1)), 'twice negated': neg(neg(f(0, 2))),
    'sum': add(a(0), f(1, 1)), 'difference': sub(a(1, -1), i(1)), 'sum of negations': add(neg(a(0)), neg(a(1))),
    'zero plus': add(c(0), a(1)), 'plus zero': add(a(1), c(0)), 'zero minus': sub(c(0), a(0)), 'minus zero': sub(a(0), c(0)), 'zero minus zero': sub(c(0), c(0)),
    'minus negated': sub(a(0), neg(a(1))),
    'product': mul(a(0), a(0, 1)), 'square': mul(a(1), a(1)), 'zero times': mul(c(0), a(0)), 'times zero': mul(a(0), c(0)), 'one times': mul(c(1), a(0)), 'times one': mul(f(0), c(1)),
    'two times': mul(c(2), a(1)), 'times two': mul(i(0), c(2)), 'two twos': mul(c(2), c(2)), 'one zero': mul(c(1), c(0)), 'ones': add(c(1), c(1)),
    'constant times': mul(c('p'), a(0)), 'times constant': mul(a(2), c('q')), 'constants': mul(c('p'), c('q')),
    'scaled': sc('p', a(0)), 'scaled by zero': sc(0, a(0)), 'scaled by one': sc(1, a(1, 1)), 'scaled by two': sc(2, a(0)), 'scaled constant': sc(3, c('p')), 'scaled zero': sc('p', c(0)),
    'scaled twice': sc('p', sc('q', a(1))), 'scaled sum': sc(7, add(a(0), f(0))), 'negated scaled': neg(sc('p', a(0))), 'scaled negated': sc('p', neg(a(0))),
    'same query at rotations': add(add(a(0, -1), a(0)), mul(a(0, 1), a(0, 3))),
    'same column of kinds': add(mul(f(0), a(0)), mul(i(0), ch(0))),
    'repeated': add(mul(add(a(0), a(1)), add(a(0), a(1))), mul(add(a(1), a(0)), add(a(0), a(1)))),
    'reordered': sub(mul(a(1), a(0)), mul(a(0), a(1))),
    'minus itself': sub(mul(a(0), f(0)), mul(a(0), f(0))),
    'boolean': mul(f(0), mul(a(0), sub(c(1), a(0)))),
    'fibonacci': mul(f(0), sub(add(a(0), a(1)), a(2))),
    'gate': add(add(add(mul(f(0), a(0)), mul(f(1), a(1))), mul(mul(f(2), a(0)), a(1))), add(sub(c(0), mul(f(1, 1), a(2))), add(f(2, -1), i(0)))),
    'inverse': mul(f(1), sub(c(1), mul(a(0), a(1)))),
    'nested': mul(neg(sc('p', add(a(0), neg(mul(f(1, 1), ch(0)))))), add(sc(2, i(1, -2)), sub(c('q'), a(1, 5)))),
    'sum of constant differences': add(sub(c('p'), c('q')), sub(c(2), c(1))),
    'wrap': add(mul(a(0, 7), a(0, -7)), a(1, 8)),
    'challenges': mul(add(a(0), ch(0)), add(mul(a(1), ch(1, 1)), ch(0))),
    'scaled power': sc(5, mul(mul(a(0), a(0)), mul(a(0), a(0)))),
    'doubles': add(mul(c(2), a(0)), mul(mul(c(2), a(0)), c(2))),
    'negations of equals': add(neg(a(0)), sub(neg(a(0)), neg(neg(a(0))))),
}


def rnd_tree(r, d, sels=0):
    k = r.random()
    if d == 0 or k < .1:
        n = r.randrange(11 if sels else 10)
        if n == 10 or sels and n == 9:
            return sel(r.randrange(sels), 0)
        return [lambda: c(0), lambda: c(1), lambda: c(2), lambda: c(r.choice(['p', 'q', -1, 3])), lambda: f(r.randrange(3), r.randrange(-2, 3)), lambda: a(r.randrange(3), r.randrange(-2, 3)),
                lambda: a(r.randrange(3)), lambda: a(r.randrange(2), 1), lambda: i(r.randrange(2), r.randrange(-1, 2)), lambda: ch(r.randrange(2))][n]()
    if k < .25:
        return neg(rnd_tree(r, d - 1, sels))
    if k < .37:
        return sc(r.choice([0, 1, 2, 'p', 'q', -1]), rnd_tree(r, d - 1, sels))
    if k < .5:
        return sub(rnd_tree(r, d - 1, sels), rnd_tree(r, d - 1, sels))
    return (add if k < .75 else mul)(rnd_tree(r, d - 1, sels), rnd_tree(r, d - 1, sels))


def tree(t):
    """name, ('rnd', seed, depth[, selectors]) or the tree itself"""
    if isinstance(t, str):
        return TREES[t]
    if t[0] == 'rnd':
        return rnd_tree(random.Random(t[1]), *t[2:])
    return t


def label(t):
    return t if isinstance(t, str) else 'tree %d of depth %d' % t[1:3] if t[0] == 'rnd' else show(t)


def show(t):
    if t[0] in 'cs':
        return '%s%s' % (t[0] if t[0] == 's' else '', t[1])
    if t[0] in 'fai':
        return '%s%d@%d' % (t[0], t[3], t[2])
    if t[0] == 'h':
        return 'ch%d' % t[1]
    if t[0] == '-':
        return '-(%s)' % show(t[1])
    if t[0] == 'k':
        return '%s.(%s)' % (t[1], show(t[2]))
    return '(%s %s %s)' % (show(t[1]), t[0], show(t[2]))


NC = {'f': 3, 'a': 3, 'i': 2}


class Table:
    def __init__(self, A, n):
        self.A, self.n = A, n
        self.col = {k: [[A.var('%s%d_%d' % (k, x, y)) for y in range(n)] for x in range(m)] for k, m in NC.items()}
        self.ch = [A.var('ch0'), A.var('ch1')]

    @staticmethod
    def names(n):
        return ['%s%d_%d' % (k, x, y) for k, m in NC.items() for x in range(m) for y in range(n)] + ['ch0', 'ch1']

    def ins(self):
        r = []
        for k in 'fai':
            r.append(len(self.col[k]))
            for v in self.col[k]:
                r += [len(v)] + v
        return r + [2] + self.ch

    def leaf(self, idx, scale=1, extra=None):
        def g(t):
            if t[0] == 'h':
                return self.ch[t[1]]
            if t[0] == 's':
                return extra(t[1])
            return self.col[t[0]][t[3]][(idx + t[2] * scale) % self.n]
        return g


def setup(n, ts, more=()):
    nm = set(more)
    for t in ts:
        nm |= names(t)
    A = alg(Table.names(n) + sorted(nm))
    fc = Facts(A)
    for x in ('p', 'q'):
        if x in nm:
            for k in (0, 1, 2):
                d = A.sub(A.var(x), A.const(k))
                A.assume_nonzero(fc, d)
    if {'p', 'q'} <= nm:
        A.assume_nonzero(fc, A.sub(A.var('p'), A.var('q')))
    return A, fc, Table(A, n)


def eqtree(A, fc, x, y):
    if x[0] != y[0] or len(x) != len(y):
        return False
    for p, q in zip(x[1:], y[1:]):
        if isinstance(p, tuple):
            if not eqtree(A, fc, p, q):
                return False
        elif isinstance(p, str) or isinstance(q, str) or x[0] in 'ck':
            if not same(A, fc, num(A, p), num(A, q)):
                return False
        elif p != q:
            return False
    return True


def j_props(J, mod, x, y):
    tx, ty = tree(x), tree(y)
    A, f0, T = setup(1, [tx, ty])
    w = 'degree, cost, equality and copy of %s against %s' % (label(x), label(y))

    def check(fc, out):
        r = Rd(out)
        d, k, s, cp, e1, e2, d2, k2 = [r.int() for _ in range(8)]
        if (d, d2) != (deg(tx),) * 2:
            return 'degree %d of an expression of degree %d' % (d, deg(tx))
        if (k, k2) != (cost(tx),) * 2:
            return 'complexity %d instead of %d' % (k, cost(tx))
        if bool(s & 1) != bool(simple(tx)):
            return 'a simple selector is%s found' % ('' if s & 1 else ' not')
        if cp != 1:
            return 'the copy differs'
        e = 1 if x == y or eqtree(A, fc, tx, ty) else 2
        if (e1, e2) != (e, e):
            return 'compares as %d, %d' % (e1, e2)
    J.go(mod, A, w, 'h_props', enc(A, tx) + enc(A, ty), [], f0, check)


def j_extract(J, mod, x):
    t = tree(x)
    A, f0, T = setup(1, [t])
    s = simple(t)

    def check(fc, out):
        r = Rd(out)
        if r.int() & 1 != bool(s):
            return 'a simple selector is%s reported' % (' not' if s else '')
        if s and (r.int(), r.int() & 1) != (s[0][1], 1):
            return 'another selector'
        if len(s) > 1:
            return 'two simple selectors in one expression are accepted'
    J.go(mod, A, 'the simple selector of %s' % label(x), 'h_extract', enc(A, t), [], f0, check, may_abort=lambda fc, o: len(s) > 1)


def ident(J, mod, t):
    """the text of the identifier on its only path"""
    from spec import run
    A, f0, T = setup(1, [t])
    res, vf = run(jobs.MODS[mod], A, 'h_ident', enc(A, t), [], f0)
    J.fn |= vf
    (fc, o), = res
    v = o.vec(0)
    r, k = '', 0
    while k < len(v):
        if v[k] == 1 << 32:
            # the decimal digits of the value
            h = A.h(v[k + 1])
            for n in ['p', 'q']:
                if n in names(t) and same(A, fc, h, A.var(n)):
                    r += {'p': '71', 'q': '93'}[n]
                    break
                if n in names(t) and same(A, fc, h, A.neg(A.var(n))):
                    r += str(P - {'p': 71, 'q': 93}[n])
                    break
            else:
                r += str(next(x if x >= 0 else P + x for x in range(-9, 99) if same(A, fc, h, A.const(x % P))))
            k += 2
        else:
            r += chr(v[k])
            k += 1
    return r


def point(t, seed):
    """value modulo P at a point fixed by the seed, with p = 71 and q = 93"""
    k = t[0]
    if k == 'c':
        return {'p': 71, 'q': 93}.get(t[1], t[1]) % P
    if k == '-':
        return -point(t[1], seed) % P
    if k == '+':
        return (point(t[1], seed) + point(t[2], seed)) % P
    if k == '*':
        return point(t[1], seed) * point(t[2], seed) % P
    if k == 'k':
        return {'p': 71, 'q': 93}.get(t[1], t[1]) * point(t[2], seed) % P
    return random.Random('%d %s %s' % (seed, k, t[2:4] if k in 'fai' else t[1])).randrange(P)


def j_ident(J, mod, ts):
    ts = [tree(t) for t in ts]
    w = 'identifiers of %d expressions from %s' % (len(ts), show(ts[0])[:60])
    seen = {}
    for t in ts:
        try:
            s = ident(J, mod, t)
        except (Undecided, StopIteration, ValueError) as e:
            J.unk(w, e)
            return
        u = seen.setdefault(s, t)
        if any(point(u, k) != point(t, k) for k in range(3)):
            J.bad(w, 'different expressions %s and %s have the identifier "%s"' % (show(u), show(t), s))
            return
    J.ok(w)


def apply(op, x, y):
    """the tree the harness builds"""
    op = {6: 5, 7: 1, 8: 2, 9: 3, 10: 4, 11: 5, 12: 0}.get(op, op)
    return [lambda: x, lambda: add(x, y), lambda: sub(x, y), lambda: mul(x, y), lambda: sc('s', x), lambda: neg(x)][op]() if op < 12 else y


def j_prove(J, mod, op, x, y, n, idx, scale=1):
    tx, ty = tree(x), tree(y)
    A, f0, T = setup(n, [tx, ty], ['s'])
    t = apply(op, tx, ty)

    def check(fc, out):
        r = Rd(out)
        if not same(A, fc, r.val(), value(A, t, T.leaf(idx, scale))):
            return 'is not the value of the expression'
        if r.int() != deg(t):
            return 'has another degree'
    J.go(mod, A, 'prover value of %s%s at row %d of %d, scale %d' % (label(x), op and ' op %d %s' % (op, label(y)) or '', idx, n, scale), 'h_prove',
         T.ins() + enc(A, tx) + enc(A, ty) + [A.var('s')], [op, idx, n, scale], f0, check)


def renumber(t, q):
    """query indices in order of appearance"""
    if t[0] in 'fai':
        l = q[t[0]]
        k = (t[2], t[3]) + t[4:]
        if k not in l:
            l.append(k)
        return (t[0], l.index(k)) + t[2:]
    return tuple(renumber(x, q) if isinstance(x, tuple) else x for x in t)


def j_verify(J, mod, x):
    q = {k: [(0, 9), (0, 8)] for k in 'fai'}
    t = renumber(tree(x), q)
    nm = ['%s%d' % (k, m) for k in 'fai' for m in range(len(q[k]))]
    A = alg(nm + ['ch0', 'ch1'] + sorted(names(t)))
    ins = []
    for k in 'fai':
        ins += [len(q[k])] + [A.var('%s%d' % (k, m)) for m in range(len(q[k]))]
    ins += [2, A.var('ch0'), A.var('ch1')]

    def check(fc, out):
        if not same(A, fc, out[0], value(A, t, lambda u: A.var('ch%d' % u[1] if u[0] == 'h' else '%s%d' % u[:2]))):
            return 'is not the value of the expression'
    J.go(mod, A, 'verifier value of %s' % label(x), 'h_verify', ins + enc(A, t), [], Facts(A), check)


def j_graph(J, mod, how, xs, n=3, scale=1, rows=None):
    ts = [tree(x) for x in xs]
    sp = ['theta', 'beta', 'gamma', 'y', 'prev']
    A, f0, T = setup(n, ts, sp)
    V = {x: A.var(x) for x in sp}
    rows = n if rows is None else rows

    def check(fc, out):
        for r in range(rows):
            v = [value(A, t, T.leaf(r, scale)) for t in ts]
            acc, m = [(V['prev'], V['y']), (A.const(0), V['theta']), (A.const(1), V['beta']), (None, None)][how]
            if how < 3:
                for x in v:
                    acc = A.add(A.mul(acc, m), x)
            else:
                acc = v[-1]
            if how == 2:
                acc = pw(A, A.sub(acc, V['gamma']), 2)
                acc = A.mul(A.add(A.mul(acc, A.const(P - 2)), A.const(2)), V['beta'])
            if not same(A, fc, out[r], acc):
                return 'row %d is not the accumulation of the expressions' % r
    J.go(mod, A, 'calculation graph (%d) of %s over %d rows, scale %d' % (how, ', '.join(label(x) for x in xs), n, scale), 'h_graph',
         T.ins() + [V[x] for x in sp] + [len(ts)] + [y for t in ts for y in enc(A, t)], [how, n, scale, rows], f0, check)


def j_replace(J, mod, x, reps, n=2):
    t, rs = tree(x), [tree(r) for r in reps]
    A, f0, T = setup(n, [t] + rs)

    def check(fc, out):
        v = value(A, t, T.leaf(1, 1, lambda k: value(A, rs[k], T.leaf(1))))
        if not same(A, fc, out[0], v):
            return 'is not the expression with its selectors replaced'
        if out.int(1) != deg(t, [deg(r) for r in rs]):
            return 'has another degree'
    J.go(mod, A, 'selectors of %s replaced by %s' % (label(x), ', '.join(label(r) for r in reps)), 'h_replace',
         T.ins() + [len(rs)] + [y for r in rs for y in enc(A, r)] + enc(A, t), [1, n], f0, check)


def j_compress(J, mod, n, xs):
    ts = [tree(x) for x in xs]
    A, f0, T = setup(n, ts, ['theta'])

    def check(fc, out):
        got = out.vec(0)
        if len(got) != n:
            return '%d rows' % len(got)
        for r in range(n):
            v = A.const(0)
            for t in ts:
                v = A.add(A.mul(v, A.var('theta')), value(A, t, T.leaf(r)))
            if not same(A, fc, got[r], v):
                return 'row %d is not the combination by powers of theta' % r
    J.go(mod, A, 'compression of %s over %d rows' % (', '.join(label(x) for x in xs), n), 'h_compress', T.ins() + [A.var('theta'), len(ts)] + [y for t in ts for y in enc(A, t)], [n], f0, check)


def sel_case(s):
    if not isinstance(s[0], int):
        return s
    seed, k, n, dmax = s
    r = random.Random(seed)
    dens = r.choice([.1, .2, .35])
    rows = [[int(r.random() < dens) for _ in range(n)] for _ in range(k)]
    if r.random() < .5:
        # disjoint selectors
        rows = [[0] * n for _ in range(k)]
        for j in range(n):
            if r.random() < .8:
                rows[r.randrange(k)][j] = 1
    return [(r.choice([0] + [1 + r.randrange(dmax) for _ in range(4)]), tuple(x)) for x in rows], dmax


def j_selectors(J, mod, s):
    sels, dmax = sel_case(s)
    k, n = len(sels), len(sels[0][1])
    A = alg([])
    ins = [y for d, act in sels for y in (d, *act)]

    def check(fc, out):
        r = Rd(out)
        cols, ncomb = r.int(), r.int()
        if cols != ncomb:
            return '%d columns for %d combinations' % (cols, ncomb)
        for _ in range(ncomb):
            if r.int() != n:
                return 'a combination has another length'
        if r.int() != k:
            return 'some selectors have no assignment'
        seen = set()
        for _ in range(k):
            idx, comb, d = r.int(), r.int(), r.int()
            if idx in seen or idx >= k or comb >= ncomb:
                return 'selector %d or combination %d out of range or repeated' % (idx, comb)
            seen.add(idx)
            gate, act = sels[idx]
            if gate and gate - 1 + d > dmax:
                return 'a gate of degree %d whose selector is replaced exceeds the maximum degree %d' % (gate - 1 + d, dmax)
            if not gate and d > 1:
                return 'a complex selector is not a column of its own'
            for j in range(n):
                v = A.h(r.val())
                z = same(A, fc, v, A.const(0))
                if z == bool(act[j]):
                    return 'selector %d is %s on row %d' % (idx, 'off' if z else 'on', j)
                if not gate and act[j] and not same(A, fc, v, A.const(1)):
                    return 'complex selector %d is not one on row %d' % (idx, j)
    J.go(mod, A, 'compression of %d selectors over %d rows %s, maximum degree %d' % (k, n, s[0] if isinstance(s[0], int) else '', dmax), 'h_selectors', ins, [k, n, dmax], Facts(A), check)


def j_rotate(J, mod, n, rot):
    A = alg(['x'])
    w = pow(root(96), 96 // n, P)

    def check(fc, out):
        if not same(A, fc, out[0], A.mul(A.var('x'), A.const(pow(w, rot % n, P)))):
            return 'is not x times the generator to the rotation'
    J.go(mod, A, 'point rotated by %d on the domain of size %d' % (rot, n), 'h_rotate', [A.var('x')], [n, rot & M64], Facts(A), check)


FN = {k: g for k, g in globals().items() if k.startswith('j_')}


def neighbours():
    """expressions that differ in one place"""
    l = [a(0), a(1), a(0, 1), a(0, -1), a(1, 1), a(10), a(1, 10), a(11, 0), f(0), f(1), f(0, 1), i(0), i(0, 1), ch(0), ch(1), sel(0), sel(1), c(0), c(1), c(11), c('p')]
    x, y = a(0), f(1)
    l += [neg(x), neg(y), neg(neg(x)), add(x, y), add(y, x), mul(x, y), mul(y, x), sub(x, y), add(neg(x), y), neg(add(x, y))]
    l += [sc(2, x), sc(3, x), sc(2, y), sc('p', x), sc('p', y), sc(2, sc(3, x)), sc(3, sc(2, x)), sc(2, neg(x)), neg(sc(2, x)), sc(2, add(x, y)), add(sc(2, x), y), add(x, sc(2, y)), mul(x, c(2)), mul(c(2), x)]
    l += [add(add(x, y), x), add(x, add(y, x)), mul(add(x, y), x), add(mul(x, y), x), mul(x, add(y, x)), add(x, mul(y, x)), mul(mul(x, y), x), mul(x, mul(y, x))]
    l += [sc(2, mul(x, y)), mul(sc(2, x), y), mul(x, sc(2, y)), sc(2, mul(y, x)), sc(2, c(3)), sc(3, c(2)), c(6), mul(c(2), c(3)), add(c(1), c(1)), c(2), neg(c(1)), c(-1)]
    return l


def job_list(thorough):
    T = list(TREES)
    R = [('rnd', s, d) for d, m in ((2, 12), (3, 12), (4, 6 if not thorough else 40)) for s in range(m)]
    S = [('rnd', s, 3, 3) for s in range(12)]
    l = []
    for k, t in enumerate(T):
        l.append(('j_props', t, T[(k * 7 + 1) % len(T)]))
        l.append(('j_props', t, t))
    nb = neighbours()
    for k in range(len(nb)):
        l += [('j_props', nb[k], nb[(k + m) % len(nb)]) for m in (1, 2)]
    l += [('j_props', x, y) for x, y in ((sel(0), sel(0, 0)), (mul(sel(1), a(0)), mul(sel(1, 0), a(0))), (a(0), a(0, 0, 3)), (a(0, ph=1), a(0)), (ch(0), ch(0, 1)), (f(0, 0, 1), f(0, 0, 2)), (i(0, 0, 0), i(0, 0, 1)),
                                         (add(a(0), sel(2)), add(a(0), sel(2))), (neg(sc(2, sel(1))), neg(sc(2, sel(2)))))]
    l += [('j_props', x, x) for x in R[:20] + S]
    one, two = sel(2), sel(0)
    l += [('j_extract', t) for t in (a(0), one, sel(1, 0), mul(one, a(0)), mul(a(0), one), add(f(0), mul(i(0), neg(one))), sc(3, mul(sel(1, 0), one)), add(one, two), mul(one, two), mul(one, one),
                                     mul(one, add(a(0), sel(0, 0))), neg(add(mul(one, a(0)), mul(two, a(1)))), ch(0), c('p'), sc(2, c(1)), add(sel(0, 0), sel(1, 0)))]
    l.append(('j_ident', tuple(nb)))
    l.append(('j_ident', tuple(('rnd', s, 2, 2) for s in range(60))))
    l.append(('j_ident', tuple(('rnd', s, 3, 2) for s in range(40))))
    for t in T:
        l.append(('j_prove', 0, t, 'one', 4, 1))
        l.append(('j_verify', t))
        l.append(('j_graph', 0, (t,)))
        l.append(('j_graph', 3, (t, 'two times', sub(a(0, 1), i(1)))))
    for t in R:
        l.append(('j_prove', 0, t, 'one', 5, 3))
        l.append(('j_verify', t))
        l.append(('j_graph', 0, (t, t), 3))
    for op in range(14):
        l += [('j_prove', op, x, y, 3, 2) for x, y in (('sum', 'product'), ('scaled', 'negated'), ('constant', 'nested'))]
    l += [('j_prove', 0, t, 'one', n, k, s) for t in ('same query at rotations', 'wrap', 'gate') for n, k, s in ((1, 0, 1), (2, 1, 1), (3, 0, 1), (4, 3, 1), (8, 0, 2), (8, 7, 2), (8, 5, 4), (6, 2, 3), (8, 1, 8))]
    groups = [('fibonacci', 'boolean'), ('gate', 'inverse', 'fibonacci', 'boolean'), ('repeated', 'reordered', 'minus itself'), ('square', 'product', 'square'), ('zero', 'one', 'two', 'constant'),
              ('scaled', 'scaled negated', 'negated scaled', 'scaled twice'), ('challenges', 'challenge', 'same column of kinds'), ('wrap', 'same query at rotations'), ('zero',), ('doubles', 'two times', 'times two'),
              ('negated', 'difference', 'sum', 'sum of negations', 'minus negated', 'zero minus'), ('fixed', 'advice', 'instance'), ('nested', 'nested')]
    l += [('j_graph', how, g) for how in (0, 1, 2) for g in groups]
    l += [('j_graph', 0, ()), ('j_graph', 1, ())]
    l += [('j_graph', 0, (t,), n, s, n) for t in ('same query at rotations', 'wrap') for n, s in ((1, 1), (2, 1), (4, 2), (6, 3))]
    reps = (('fixed', 'constant', 'boolean'), (mul(f(0), sub(c(2), f(0))), f(2), f(1)))
    for t in S + [mul(sel(1, 0), a(0)), sc('p', sel(0, 0)), neg(sel(2, 0)), 'nested', mul(sel(0), sub(a(0), sel(2, 0))), 'challenges']:
        l += [('j_replace', t, r) for r in reps]
    l += [('j_compress', n, g) for n in (1, 2, 4) for g in ((), ('advice',), ('advice', 'fixed'), ('difference', 'zero', 'product'), ('fixed', 'instance', 'challenge', 'same query at rotations'), ('one', 'constant', 'scaled'))]
    l += [('j_selectors', (s, k, n, d)) for s in range(12 if not thorough else 60) for k, n, d in ((2, 4, 3), (3, 5, 3), (4, 6, 4), (6, 6, 5), (9, 9, 9), (5, 3, 7))]
    one9 = lambda *on: tuple(int(k in on) for k in range(6))
    l += [('j_selectors', x) for x in (
        ([(1, one9(0))], 1), ([(1, one9(0)), (1, one9(1))], 1), ([(2, one9(0)), (5, one9(1))], 5), ([(2, one9(0)), (5, one9(1))], 6), ([(5, one9(0)), (2, one9(1))], 6), ([(3, one9(0)), (3, one9(0))], 6),
        ([(2, one9(0)), (4, one9(1)), (2, one9(2)), (5, one9(3)), (3, one9(4))], 6), ([(0, one9(0, 1, 2)), (0, one9()), (2, one9(3))], 4), ([(2, one9()), (3, one9())], 5),
        ([(1, one9(0)), (2, one9(1)), (3, one9(2)), (4, one9(3)), (5, one9(4)), (6, one9(5))], 6), ([(6 - k, one9(k)) for k in range(6)], 6), ([(6 - k, one9(k)) for k in range(6)], 9), ([(3, one9(k)) for k in range(6)], 5))]
    l += [('j_rotate', n, r) for n in (1, 2, 4, 8, 16) for r in (0, 1, -1, 2, -3, 7, -n, n, 5 - n)]
    return l


def run_all(rep, thorough):
    jobs.MODS['p'] = load_ir(os.path.join(VERIF, 'harness/plonk.cc'), fresh=True)
    for k, g in FN.items():
        jobs.FUNCS['p' + k] = g
    from jobs import run_jobs
    run_jobs(rep, [('p' + k, ('p', *r)) for k, *r in job_list(thorough)], limit=1500 if thorough else 300)
