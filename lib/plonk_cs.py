"""Plonk constraint systems: queries, degrees, blinding factors, lookup
arguments, selector replacement, after any history of definitions."""
import os
import random
from absint import Undecided
from alg import Facts
from spec import P, same
from common import load_ir, VERIF
import jobs
from fri import Rd
from commit import alg
from plonk import M64, c, sel, f, a, i, ch, neg, add, sub, mul, sc, num, enc, names, deg, value, OPS

NOIDX = M64
F0 = lambda col, rot=0: f(col, rot, NOIDX)          # a cell written by hand, without an index
A0 = lambda col, rot=0, ph=0: a(col, rot, NOIDX, ph)
I0 = lambda col, rot=0: i(col, rot, NOIDX)


def cells(t):
    if t[0] in 'fai':
        return [(t[0], t[3], t[4] if t[0] == 'a' else 0, t[2])]
    return [y for x in t[1:] if isinstance(x, tuple) for y in cells(x)]


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def undump(r):
    k = 'csfaih-+*k'[r.int()]
    if k == 'c':
        return ('C', r.val())
    if k == 's':
        return ('s', r.int(), r.int())
    if k in 'fai':
        q, rot, col = r.int(), s32(r.int()), r.int()
        return (k, q, rot, col) + ((r.int(),) if k == 'a' else ())
    if k == 'h':
        return ('h', r.int(), r.int())
    if k == '-':
        return neg(undump(r))
    if k == 'k':
        v = r.val()
        return ('K', v, undump(r))
    x = undump(r)
    return (k, x, undump(r))


def dvalue(A, t, leaf):
    """value of a dumped tree (constants are field elements)"""
    k = t[0]
    if k == 'C':
        return A.h(t[1])
    if k == '-':
        return A.neg(dvalue(A, t[1], leaf))
    if k == '+':
        return A.add(dvalue(A, t[1], leaf), dvalue(A, t[2], leaf))
    if k == '*':
        return A.mul(dvalue(A, t[1], leaf), dvalue(A, t[2], leaf))
    if k == 'K':
        return A.mul(A.h(t[1]), dvalue(A, t[2], leaf))
    return leaf(t)


def ddeg(t):
    k = t[0]
    if k in 'Ch':
        return 0
    if k in 'sfai':
        return 1
    if k == '-':
        return ddeg(t[1])
    if k == 'K':
        return ddeg(t[2])
    return max(ddeg(t[1]), ddeg(t[2])) if k == '+' else ddeg(t[1]) + ddeg(t[2])


class Sys:
    """the meaning of a history"""

    def __init__(self):
        self.n = {'f': 0, 'a': 0, 'i': 0}
        self.ph, self.simple, self.complex, self.chal = [], 0, 0, 0
        self.q = []
        self.perm, self.consts = [], []
        self.gates, self.look, self.shuf = [], [], []
        self.mind, self.log, self.chunked, self.packed = None, False, False, None

    def query(self, cs):
        for x in cs:
            if x not in self.q:
                self.q.append(x)

    def blinding(self):
        cnt = [sum(1 for k, col, p, r in self.q if k == 'a' and col == m) for m in range(self.n['a'])]
        return max([3] + cnt) + 2

    def gate_degree(self):
        return max([deg(t) for g in self.gates for t in g] or [0])

    @staticmethod
    def lookup_degree(inputs, table):
        s = sum(max([1] + [deg(t) for t in v]) for v in inputs)
        return s, max([1] + [deg(t) for t in table])

    def degree(self, look):
        d = max(3, self.gate_degree(), self.mind or 1)
        for x, y in look:
            d = max(d, 2 + max([1] + [deg(t) for t in x + y]))
        return d


K3 = {'f': 0, 'a': 1, 'i': 2}


def run_ops(A, ops):
    """(words, model, [what each intermediate output must be])"""
    w, S, exp = [len(ops)], Sys(), []
    for o in ops:
        k = o[0]
        if k == 'col':
            kind, ph = o[1], (o[2] if len(o) > 2 else 0)
            w += {'f': [0], 'a': [1, ph], 'i': [2]}[kind]
            exp.append(('col', [S.n[kind]] + ([ph] if kind == 'a' else [])))
            S.n[kind] += 1
            if kind == 'a':
                S.ph.append(ph)
        elif k == 'sel':
            w += [3, o[1]]
            exp.append(('sel', [S.simple + S.complex, o[1]]))
            if o[1]:
                S.simple += 1
            else:
                S.complex += 1
        elif k == 'eq':
            x = (o[1], o[2], o[3] if len(o) > 3 else 0)
            w += [4, K3[o[1]], o[2], x[2]]
            S.query([x + (0,)])
            if x not in S.perm:
                S.perm.append(x)
        elif k == 'const':
            w += [5, o[1]]
            if o[1] not in S.consts:
                S.consts.append(o[1])
                S.query([('f', o[1], 0, 0)])
                if ('f', o[1], 0) not in S.perm:
                    S.perm.append(('f', o[1], 0))
        elif k == 'gate':
            w += [6, len(o[1])] + [x for t in o[1] for x in enc(A, t)]
            for t in o[1]:
                S.query(cells(t))
            S.gates.append(o[1])
        elif k in ('any', 'shuffle'):
            w += [7 if k == 'any' else 9, len(o[1])] + [x for p in o[1] for t in p for x in enc(A, t)]
            for p in o[1]:
                for t in p:
                    S.query(cells(t))
            if k == 'any':
                S.look.append(([p[0] for p in o[1]], [p[1] for p in o[1]]))
            else:
                exp.append(('shuffle', [len(S.shuf)]))
                S.shuf.append(([p[0] for p in o[1]], [p[1] for p in o[1]]))
        elif k == 'table':
            w += [8, len(o[1])]
            for t, col in o[1]:
                w += enc(A, t) + [col]
                S.query(cells(t) + [('f', col, 0, 0)])
            S.look.append(([t for t, _ in o[1]], [f(col) for _, col in o[1]]))
        elif k == 'min':
            w += [10, o[1]]
            S.mind = max(S.mind or 0, o[1])
        elif k == 'degree':
            w += [11]
            d = S.degree(S.shuf)
            if not S.log:
                for x, y in S.look:
                    d = max(d, max(4, 2 + max([1] + [deg(t) for t in x]) + max([1] + [deg(t) for t in y])))
            exp.append(('degree', [d]))
        elif k == 'blind':
            w += [12]
            exp.append(('blinding factors', [S.blinding()]))
        elif k == 'chal':
            w += [13, o[1]]
            exp.append(('challenge', [S.chal, o[1]]))
            S.chal += 1
        elif k == 'chunk':
            w += [14]
            if S.look:
                one = max(max(3, max(deg(t) for t in y) + 2) + max(max(deg(t) for t in x2) for x2, y2 in S.look if y2 == y) for x, y in S.look)
                r = max(S.gate_degree(), one)
                S.mind = max(S.mind or 0, (1 << (r - 1).bit_length()) + 1)
            S.chunked = True
        elif k == 'pack':
            w += [15, len(o[1][0])] + [x for row in o[1] for x in row]
            exp.append(('pack', o[1]))
        elif k == 'log':
            w += [16]
            S.log = True
        elif k == 'query':
            x = (o[1], o[2], o[3], o[4])
            w += [17, K3[o[1]], o[2], o[3], o[4] & M64]
            S.query([x])
            exp.append(('query', x))
    return w, S, exp


def all_names(ops):
    nm = set()
    for o in ops:
        if o[0] == 'gate':
            for t in o[1]:
                nm |= names(t)
        if o[0] in ('any', 'shuffle'):
            for p in o[1]:
                for t in p:
                    nm |= names(t)
        if o[0] == 'table':
            for t, _ in o[1]:
                nm |= names(t)
    return nm


def all_cells(ops):
    r = set()
    for o in ops:
        if o[0] == 'gate':
            r |= {x for t in o[1] for x in cells(t)}
        if o[0] in ('any', 'shuffle'):
            r |= {x for p in o[1] for t in p for x in cells(t)}
        if o[0] == 'table':
            r |= {x for t, col in o[1] for x in cells(t) + [('f', col, 0, 0)]}
    return r


def cname(x):
    return 'v%s%d_%d@%d' % x


class Bad(Exception):
    pass


def j_cs(J, mod, name):
    ops = HIST[name] if name in HIST else rnd_hist(int(name))
    A = alg(sorted({cname(x) for x in all_cells(ops)} | all_names(ops)) + ['s%d' % k for k in range(8)] + ['h0', 'h1'])
    fc0 = Facts(A)
    w, S, exp = run_ops(A, ops)

    def leaf(t):
        if t[0] in 'fai':
            return A.var(cname((t[0], t[3], t[4] if t[0] == 'a' else 0, t[2])))
        return A.var(('s%d' if t[0] == 's' else 'h%d') % t[1])

    def point(t):
        return {'f': 3, 'a': 5, 'i': 7, 's': 11, 'h': 13}[t[0]] + 17 * t[1 if t[0] in 'sh' else 3] + 101 * (t[2] + 9 if t[0] in 'fai' else 0)

    def check_(fc, out):
        r = Rd(out)
        query_out, pack = [], None
        for what, e in exp:
            if what == 'query':
                query_out.append((e, r.int()))
            elif what == 'pack':
                pack = (e, [[A.h(v) for v in r.vec()] for _ in range(r.int())], [r.int() for _ in range(r.int())])
            else:
                got = [r.int() for _ in e]
                if what == 'sel':
                    got[1] &= 1
                if got != e:
                    raise Bad('%s is %s instead of %s' % (what, got, e))
        new = len(pack[1]) if pack else 0
        got = [r.int() for _ in range(6)]
        if got != [S.n['f'] + new, S.n['a'], S.n['i'], S.simple, S.complex, S.chal]:
            raise Bad('numbers of columns, selectors and challenges are %s' % got)
        Q = {}
        for k in 'fai':
            Q[k] = []
            for _ in range(r.int()):
                col, ph, rot = r.int(), r.int(), s32(r.int())
                Q[k].append((k, col, ph if k == 'a' else 0, rot))
        flat = [x for k in 'fai' for x in Q[k]]
        for x in flat:
            if flat.count(x) > 1:
                raise Bad('the query of %s is listed twice' % cname(x))
        want = set(S.q) | {('f', S.n['f'] + k, 0, 0) for k in range(new)}
        if set(flat) != want:
            raise Bad('queries listed and made differ in %s' % sorted(cname(x) for x in set(flat) ^ want))
        for x, n in query_out:
            if n >= len(Q[x[0]]) or Q[x[0]][n] != x:
                raise Bad('the index of a query of %s is %d' % (cname(x), n))
        cnt = [r.int() for _ in range(r.int())]
        if cnt != [sum(1 for y in Q['a'] if y[1] == m) for m in range(S.n['a'])]:
            raise Bad('counts of advice queries are %s' % cnt)
        perm = [(r.int(), r.int(), r.int()) for _ in range(r.int())]
        if [x[:2] for x in perm] != [(K3[k], col) for k, col, p in S.perm]:
            raise Bad('columns of the permutation are %s' % perm)
        for k, col, n in perm:
            if Q['fai'[k]][n][1] != col or Q['fai'[k]][n][3]:
                raise Bad('a column of the permutation has the query index %d' % n)
        if [r.int() for _ in range(r.int())] != S.consts:
            raise Bad('constants')

        def trees():
            l = [undump(r) for _ in range(r.int())]
            for t in l:
                index(t)
            return l

        def index(t):
            if t[0] in 'fai':
                x = (t[0], t[3], t[4] if t[0] == 'a' else 0, t[2])
                if t[1] >= len(Q[t[0]]) or Q[t[0]][t[1]] != x:
                    raise Bad('an expression queries %s by the index %d' % (cname(x), t[1]))
            for u in t[1:]:
                if isinstance(u, tuple):
                    index(u)

        def equal(ts, us):
            if len(ts) != len(us):
                return False
            if not pack:
                return all(same(A, fc, dvalue(A, t, leaf), value(A, u, leaf)) for t, u in zip(ts, us))
            return all(row_equal(t, u, j) for t, u in zip(ts, us) for j in range(len(pack[0][0])))

        def row_equal(t, u, j):
            """u with selectors at row j, up to a nonzero factor when it has a simple selector"""
            def lf(sym):
                def g(x):
                    if x[0] == 'f' and x[3] >= S.n['f']:
                        return pack[1][x[3] - S.n['f']][j]
                    if x[0] == 's':
                        return A.const(pack[0][x[1]][j])
                    return leaf(x) if sym else A.const(point(x))
                return g
            p, q = dvalue(A, t, lf(True)), value(A, u, lf(True))
            if same(A, fc, p, q):
                return True
            if not any(k == 's' and simp for k, simp in sels(u)):
                return False
            p0, q0 = dvalue(A, t, lf(False)), value(A, u, lf(False))
            k = next((k for k in range(-800, 800) if k and same(A, fc, p0, A.mul(A.const(k % P), q0))), None)
            return k is not None and same(A, fc, p, A.mul(A.const(k % P), q))

        degs = [3, S.mind or 1]
        n = r.int()
        if n != len(S.gates):
            raise Bad('%d gates' % n)
        for k, g in enumerate(S.gates):
            ts = trees()
            if not equal(ts, g):
                raise Bad('gate %d is not what was constrained' % k)
            degs += [ddeg(t) for t in ts]
        look = []
        n = r.int()
        for _ in range(n):
            ins = [trees() for _ in range(r.int())]
            tab = trees()
            d = r.int()
            m, t = sum(max([1] + [ddeg(t) for t in v]) for v in ins), max([1] + [ddeg(t) for t in tab])
            need = max(4, 2 + m + t, 3 + m) if S.log else max(4, 2 + m + t)
            if d < need:
                raise Bad('a lookup argument of degree %d states the degree %d' % (need, d))
            degs.append(d)
            look.append((ins, tab))
        if S.log:
            left = list(S.look)
            for ins, tab in look:
                for v in ins:
                    k = next((k for k, (x, y) in enumerate(left) if equal(v, x) and equal(tab, y)), None)
                    if k is None:
                        raise Bad('a lookup argument looks up inputs in a table they were not to be looked up in')
                    del left[k]
            if left and S.chunked:
                raise Bad('%d lookups are in no argument' % len(left))
            if not S.chunked and look:
                raise Bad('arguments before chunking')
            if S.chunked and any(len(ins) > 1 and sum(max([1] + [ddeg(t) for t in v]) for v in ins) + max(2 + max([1] + [ddeg(t) for t in tab]), 3) > S.mind for ins, tab in look):
                raise Bad('a lookup argument of several inputs exceeds the degree %d' % S.mind)
        else:
            if len(look) != len(S.look):
                raise Bad('%d lookups' % len(look))
            for (ins, tab), (x, y) in zip(look, S.look):
                if len(ins) != 1 or not equal(ins[0], x) or not equal(tab, y):
                    raise Bad('a lookup is not what was asked for')
        n = r.int()
        if n != len(S.shuf):
            raise Bad('%d shuffles' % n)
        for x, y in S.shuf:
            p, q = trees(), trees()
            if not equal(p, x) or not equal(q, y):
                raise Bad('a shuffle is not what was asked for')
            degs.append(2 + max([1] + [ddeg(t) for t in p + q]))
        mind, D, B, last, rows, chunk, prods = [r.int() for _ in range(7)]
        ext = [r.int() for _ in range(4)]
        mp, nph = r.int() & 255, r.int()
        if mind != (S.mind or 0):
            raise Bad('the minimum degree is %d instead of %d' % (mind, S.mind or 0))
        if pack:
            dg = lambda l: max([1] + [deg(t) for t in l])
            top = max([3, S.mind or 1] + [deg(t) for g in S.gates for t in g] + [max(4, 2 + dg(x) + dg(y)) for x, y in S.look] + [2 + dg(x + y) for x, y in S.shuf])
            if max(degs) > top:
                raise Bad('compressing selectors raised the degree from %d to %d' % (top, max(degs)))
        else:
            top = max(degs)
        if not max(degs) <= D <= top:
            raise Bad('the degree is %d instead of %d' % (D, top))
        b = S.blinding()
        if (B, s32(last), rows) != (b, -(b + 1), b + 3):
            raise Bad('blinding factors, last row, rows are %s instead of %s' % ((B, s32(last), rows), (b, -(b + 1), b + 3)))
        if (chunk, prods) != (D - 2, -(-len(S.perm) // (D - 2))):
            raise Bad('chunks of %d, %d products' % (chunk, prods))
        for k in range(1, 5):
            e = k
            while (1 << e) < (1 << k) * (D - 1):
                e += 1
            if ext[k - 1] != e:
                raise Bad('extended k of %d is %d instead of %d' % (k, ext[k - 1], e))
        if (mp, nph) != (max(S.ph or [0]), max(S.ph or [0]) + 1):
            raise Bad('phases up to %d, %d of them' % (mp, nph))

    def check(fc, out):
        try:
            check_(fc, out)
        except Bad as e:
            return str(e)
    J.go(mod, A, 'constraint system "%s"' % name, 'h_cs', w, [], fc0, check, steps=30000000)


def sels(t):
    if t[0] == 's':
        return [('s', t[2])]
    return [y for x in t[1:] if isinstance(x, tuple) for y in sels(x)]


COLS = [('col', 'f'), ('col', 'f'), ('col', 'a'), ('col', 'a'), ('col', 'a'), ('col', 'i')]
S0, S1, S2 = sel(0), sel(1), sel(2, 0)
G1 = ('gate', (mul(f(0), sub(mul(a(0), a(1)), a(2))),))
G2 = ('gate', (mul(mul(f(0), a(0, 1)), mul(a(0, -1), a(0, 2))), add(a(1), i(0, 3))))
L1 = ('any', ((a(0), f(0)),))
L1b = ('any', ((a(1), f(0)),))
L2 = ('any', ((a(1), f(1)),))
L2b = ('any', ((a(2, 1), f(1)),))
L3 = ('any', ((mul(f(0), mul(a(0), a(1))), f(1)), (a(2), f(0, 1))))
L3b = ('any', ((mul(a(0), a(2)), f(1)), (a(1), f(0, 1))))
HIST = {
    'empty': [],
    'columns': COLS + [('sel', 1), ('sel', 0), ('sel', 1), ('degree',), ('blind',)],
    'gates': COLS + [G1, G2, ('degree',), ('blind',)],
    'equalities': COLS + [('eq', 'a', 1), ('eq', 'i', 0), ('eq', 'a', 1), ('const', 1), ('const', 1), ('eq', 'f', 1), ('const', 0), ('eq', 'a', 2), ('eq', 'f', 0)],
    'queries': COLS + [('query', 'a', 0, 0, 0), ('query', 'a', 0, 0, 1), ('query', 'a', 1, 0, 0), ('query', 'a', 0, 0, 0), ('query', 'f', 0, 0, -1), ('query', 'f', 0, 0, -1), ('query', 'i', 0, 0, 2), ('query', 'a', 0, 0, -1), ('query', 'a', 0, 0, 5), ('query', 'f', 1, 0, 0), ('blind',)],
    'phases': [('col', 'a', 0), ('col', 'a', 1), ('col', 'a', 2), ('col', 'a', 0), ('chal', 0), ('chal', 1), ('query', 'a', 1, 1, 0), ('query', 'a', 2, 2, 0), ('gate', (mul(a(1, 0, None, 1), add(ch(0), mul(ch(1, 1), a(2, 1, None, 2)))),)), ('eq', 'a', 1, 1)],
    'halo2 lookups': COLS + [L1, L2, L3, L1b, ('degree',)],
    'table lookups': COLS + [('table', ((a(0), 0), (mul(a(1), a(1, 1)), 1))), ('table', ((a(2), 1),)), ('degree',)],
    'shuffles': COLS + [('shuffle', ((a(0), f(0)), (a(1, 1), mul(f(1), a(2))))), ('shuffle', ((a(2), a(1)),)), ('degree',)],
    'unindexed gate': COLS + [('gate', (mul(F0(0), sub(A0(0, 1), A0(0))), add(I0(0), A0(1)))), G1],
    'unindexed table': COLS + [('table', ((A0(0, 1), 0), (A0(0), 1)))],
    'unindexed lookup': COLS + [('any', ((A0(0, 1), F0(1)), (A0(0), F0(0, 2))))],
    'unindexed shuffle': COLS + [('shuffle', ((A0(0, 1), F0(1)), (A0(0), I0(0))))],
    'degree asked early': COLS + [('degree',), ('blind',), G2, L1, ('degree',), ('blind',), L3, ('degree',), ('eq', 'a', 0), ('query', 'a', 0, 0, 9), ('query', 'a', 0, 0, 10), ('blind',), ('min', 12), ('degree',)],
    'degree then shuffle': COLS + [('degree',), ('shuffle', ((mul(a(0), mul(a(0), a(1))), f(0)),))],
    'minimum degree': COLS + [('min', 7), ('min', 4), ('degree',), G2],
    'log one table': [('log',)] + COLS + [L1, L1b, ('chunk',)],
    'log two tables': [('log',)] + COLS + [L1, L2, L1b, L2b, ('chunk',), ('degree',)],
    'log three tables': [('log',)] + COLS + [L1, L2, L3, L1b, L2b, L3b, ('any', ((a(2), f(0)),)), ('chunk',)],
    'log many inputs': [('log',)] + COLS + [('any', ((t, f(0)),)) for t in (a(0), a(1), a(2), mul(a(0), a(1)), a(0, 1), mul(a(2), mul(a(1), a(1))), a(1, 1), i(0))] + [('chunk',)],
    'log tables': [('log',)] + COLS + [('table', ((a(0), 0), (a(1), 1))), ('table', ((a(1), 0), (a(2), 1))), ('table', ((a(1), 1), (a(2), 0))), ('table', ((i(0), 0),)), ('chunk',)],
    'log high gate': [('log',)] + COLS + [('gate', (mul(mul(mul(a(0), a(1)), mul(a(0), a(1))), mul(mul(a(0), a(1)), mul(a(0), a(1)))),)), L1, L2, L1b, L2b, ('chunk',)],
    'log degree before chunk': [('log',)] + COLS + [L1, L3, ('degree',), ('chunk',)],
    'log rotated tables': [('log',)] + COLS + [('any', ((a(0), f(0)),)), ('any', ((a(1), f(0, 1)),)), ('any', ((a(2), i(0)),)), ('any', ((a(0, 1), f(0, 1)),)), ('any', ((a(2, 2), f(0)),)), ('any', ((a(1), i(0, 1)),)), ('chunk',)],
    'log expression tables': [('log',)] + COLS + [('any', ((a(0), add(f(0), f(1))),)), ('any', ((a(1), mul(f(0), f(1))),)), ('any', ((a(2), add(f(0), f(1))),)), ('any', ((a(2), neg(f(0))),)), ('any', ((a(1), f(0)),)), ('chunk',)],
    'log none': [('log',)] + COLS + [G1, ('chunk',)],
    'log not chunked': [('log',)] + COLS + [L1, L2],
    'pack one': COLS + [('sel', 1), ('gate', (mul(S0, sub(a(0), a(1))),)), ('pack', ((1, 0, 1),))],
    'pack disjoint': COLS + [('sel', 1), ('sel', 1), ('sel', 0), ('gate', (mul(S0, sub(a(0), a(1))), mul(S0, a(2)))), ('gate', (mul(sub(mul(a(0), a(1)), a(2)), S1),)), ('any', ((mul(S2, a(0)), f(0)),)), ('min', 6), ('pack', ((1, 0, 0, 0), (0, 1, 1, 0), (1, 1, 0, 0)))],
    'pack overlapping': COLS + [('sel', 1), ('sel', 1), ('gate', (mul(S0, sub(a(0), a(1))),)), ('gate', (mul(S1, sub(mul(a(0), a(1)), a(2))),)), ('pack', ((1, 1, 0), (0, 1, 1)))],
    'pack tight': COLS + [('sel', 1), ('sel', 1), ('gate', (mul(S0, sub(a(0), a(1))),)), ('gate', (mul(S1, mul(mul(a(0), a(1)), a(2))),)), ('pack', ((1, 0, 0), (0, 1, 1)))],
    'pack unused': COLS + [('sel', 1), ('sel', 0), ('sel', 1), ('gate', (mul(sel(2), sub(a(0), a(1))),)), ('pack', ((1, 0), (0, 1), (1, 1)))],
    'pack shuffle': COLS + [('sel', 0), ('shuffle', ((mul(sel(0, 0), a(0)), a(1)),)), ('gate', (mul(sel(0, 0), a(2)),)), ('pack', ((1, 0),))],
    'pack three': COLS + [('sel', 1), ('sel', 1), ('sel', 1), ('gate', (mul(S0, sub(a(0), a(1))),)), ('gate', (mul(S1, a(2)),)), ('gate', (mul(sel(2), mul(a(0), a(1))),)), ('min', 9), ('pack', ((1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0)))],
    'pack used twice': COLS + [('sel', 1), ('sel', 1), ('gate', (mul(S0, mul(mul(a(0), a(1)), mul(a(0), a(2)))),)), ('gate', (mul(S0, a(0)),)), ('gate', (mul(S1, a(2)),)), ('pack', ((1, 0), (0, 1)))],
    'pack used twice, rising': COLS + [('sel', 1), ('sel', 1), ('gate', (mul(S1, a(2)), mul(S0, a(0)))), ('gate', (mul(S0, mul(mul(a(0), a(1)), mul(a(0), a(2)))), mul(S1, a(1)))), ('pack', ((1, 0, 0), (0, 1, 1)))],
    'log second column': [('log',)] + COLS + [('any', ((a(0, k), f(0)), (mul(mul(a(0), a(1, k)), mul(a(1), a(2))), f(1)))) for k in range(3)] + [('chunk',)],
    'log first column': [('log',)] + COLS + [('any', ((mul(mul(a(0), a(1, k)), mul(a(1), a(2))), f(0)), (a(0, k), mul(f(0), f(1))))) for k in range(3)] + [('chunk',)],
    'log rising inputs': [('log',)] + COLS + [('any', ((t, f(0)),)) for t in (a(0), mul(a(0), a(1)), mul(a(0), mul(a(1), a(2))), mul(mul(a(0), a(1)), mul(a(1), a(2))))] + [('chunk',)],
    'pack negated': COLS + [('sel', 1), ('sel', 1), ('gate', (neg(mul(S0, sc(3, a(0)))),)), ('gate', (mul(mul(a(1), S1), a(2)),)), ('min', 8), ('pack', ((0, 1), (1, 0)))],
}


def rnd_hist(s):
    r = random.Random(s)
    ops = list(COLS)
    log = s % 2
    if log:
        ops.insert(0, ('log',))

    def cell():
        return r.choice((f(r.randrange(2), r.choice((0, 0, 1))), a(r.randrange(3), r.choice((0, 0, 1, -1, 2))), i(0, r.choice((0, 1)))))

    def ex(d):
        if d == 0 or r.random() < .3:
            return cell()
        k = r.randrange(3)
        return mul(ex(d - 1), ex(d - 1)) if k == 0 else add(ex(d - 1), ex(d - 1)) if k == 1 else neg(ex(d - 1))
    tabs = [(f(0),), (f(1),), (f(0), f(1)), (f(1), f(0)), (f(0, 1),), (mul(f(0), f(1)),)]
    for _ in range(r.randrange(3, 9)):
        k = r.randrange(7)
        if k == 0:
            ops.append(('gate', tuple(ex(2) for _ in range(r.randrange(1, 3)))))
        elif k in (1, 2, 3):
            t = r.choice(tabs)
            ops.append(('any', tuple((ex(1), x) for x in t)))
        elif k == 4:
            ops.append(('shuffle', ((ex(2), ex(1)),)))
        elif k == 5:
            ops.append(('eq', *r.choice((('a', 0), ('a', 2), ('f', 1), ('i', 0)))))
        else:
            ops.append(r.choice((('degree',), ('blind',), ('min', r.randrange(3, 8)), ('query', 'a', r.randrange(3), 0, r.randrange(-3, 4)))) if not log else ('blind',))
    if log:
        ops.append(('chunk',))
    return ops


FN = {'j_cs': j_cs}


def job_list(thorough):
    return [('j_cs', k) for k in HIST] + [('j_cs', str(k)) for k in range(40 if not thorough else 200)]


def run_all(rep, thorough):
    jobs.MODS['pc'] = load_ir(os.path.join(VERIF, 'harness/plonk_cs.cc'), fresh=True)
    for k, g in FN.items():
        jobs.FUNCS['pc' + k] = g
    from jobs import run_jobs
    run_jobs(rep, [('pc' + k, ('pc', *r)) for k, *r in job_list(thorough)], limit=1500 if thorough else 300)
