"""Floor planners: every cell, selector, copy, constant and table of a circuit
reaches the assignment at a row of its region, and regions do not meet."""
import os
import random
from alg import Facts
from spec import same
from common import load_ir, VERIF
import jobs
from fri import Rd
from commit import alg

# Items of a circuit:
#  ('R', ops)            a region; ops as below
#  ('T', [(column, row, value)])   a lookup table
#  ('I', cell, column, row)        cell equal to an instance cell
#  ('C', index)          a challenge is read
#  ('N', item)           in a namespace
# Operations of a region (cells are numbered in the order in which they are assigned):
#  ('s', selector, offset) ('a', column, offset, value) ('c', column, offset, value)
#  ('i', instance, row, column, offset) ('f', column, offset, value)
#  ('k', cell, value) ('e', cell, cell) ('n', column) ('q', cell, column, offset)
CODE = {'s': 0, 'a': 1, 'c': 2, 'i': 3, 'f': 4, 'k': 5, 'e': 6, 'n': 7, 'q': 8}
ANY, INSTANCE, ADVICE, FIXED = 0, 1, 2, 3


def words(items, val):
    """the encoding; val(name): a word"""
    src = {}
    cells = []

    def ops(l):
        r = [len(l)]
        for o in l:
            k, *a = o
            r.append(CODE[k])
            if k in 'acf':
                r += [a[0], a[1], val(a[2])]
                cells.append(a[2])
            elif k == 'i':
                r += a
                cells.append('inst%d_%d' % (a[0], a[1]))
            elif k == 'k':
                r += [a[0], val(a[1])]
            elif k == 'q':
                r += [*a, val(cells[a[0]])]
                cells.append(cells[a[0]])
            else:
                r += a
        return r

    def item(t, add):
        if t[0] == 'N':
            return item(t[1], 8)
        if t[0] == 'R':
            return [add] + ops(t[1])
        if t[0] == 'T':
            r = [add + 1, len(t[1])]
            for c, o, v in t[1]:
                r += [c, o, val(v)]
            return r
        if t[0] == 'I':
            return [add + 2, *t[1:]]
        return [add + 3, t[1]]
    r = [len(items)]
    for t in items:
        r += item(t, 0)
    return r


def bare(t):
    return bare(t[1]) if t[0] == 'N' else t


def rect(ops):
    """columns of a region, its number of rows"""
    cols, n = set(), 0
    for k, *a in ops:
        c = None
        if k == 's':
            c, o = ('s', a[0]), a[1]
        elif k in 'ac':
            c, o = ('a', a[0]), a[1]
        elif k == 'i':
            c, o = ('a', a[2]), a[3]
        elif k == 'f':
            c, o = ('f', a[0]), a[1]
        elif k == 'q':
            c, o = ('a', a[1]), a[2]
        if c:
            cols.add(c)
            n = max(n, o + 1)
    return cols, n


def events(A, r, typ):
    """what reaches the assignment"""
    l = []

    def rat():
        n, d = r.val(), r.val()
        return n, d

    def col():
        t = r.int()
        return typ.get(t, '?'), r.int()
    while True:
        k = r.int()
        if k == 0:
            return l
        if k == 1:
            l.append(('s', ('s', r.int()), r.int(), None))
        elif k == 2:
            l.append(('a', ('a', r.int()), r.int(), rat()))
        elif k == 3:
            l.append(('f', ('f', r.int()), r.int(), rat()))
        elif k == 4:
            a = col() + (r.int(),)
            b = col() + (r.int(),)
            l.append(('copy', a, b))
        elif k == 5:
            l.append(('fill', ('f', r.int()), r.int(), rat()))
        elif k == 11:
            l.append(('name', col()))
        elif k in (7, 8, 9, 10):
            l.append(({7: 'enter', 8: 'exit', 9: 'push', 10: 'pop'}[k],))
        else:
            return None


def table_ok(items):
    """the result of every table cell and whether the tables are accepted"""
    used, out, good = set(), [], True
    for t in map(bare, items):
        if t[0] != 'T':
            continue
        rows = {}
        for c, o, v in t[1]:
            if c in used:
                out.append(0)
                continue
            if o == 0 and 0 in rows.get(c, {}):
                out.append(0)
                continue
            out.append(1)
            rows.setdefault(c, {})[o] = v
        sizes = {max(x) + 1 for x in rows.values()}
        if len(sizes) != 1 or any(len(x) != max(x) + 1 for x in rows.values()):
            good = False
        used |= set(rows)
    return out, good


def j_layout(J, mod, v1, name, items, constants):
    nm = set()

    def note(x):
        nm.add(x)
        return x
    words(items, note)
    nm = sorted(x for x in nm if not x.startswith('inst'))
    A = alg(nm + ['inst%d_%d' % (c, y) for c in range(4) for y in range(8)] + ['ch%d' % k for k in range(8)] + ['d'])
    A.params[1] = A.var('d')
    ins = [A.var('inst%d_%d' % (c, y)) for c in range(4) for y in range(8)] + [A.var('ch%d' % k) for k in range(8)]
    ins += [len(constants)] + list(constants)
    ins += words(items, A.var)
    T = max([len(bare(t)[1]) for t in items if bare(t)[0] == 'T'] + [0])
    oks, tables = table_ok(items)
    regions = [bare(t)[1] for t in items if bare(t)[0] == 'R']
    ncon = sum(k in 'ck' for l in regions for k, *_ in l)
    many = ncon and not constants
    typ = {FIXED: 'f', ADVICE: 'a', INSTANCE: 'i'}

    def check(fc, out):
        if not tables:
            return 'accepts a table with a column that is short or has gaps'
        if many:
            return 'accepts constants without a column for them'
        r = Rd(out)
        last = [bare(t)[1] for t in items if bare(t)[0] == 'T']
        if last:
            got = [r.int() for _ in range(T)]
            want = oks[len(oks) - len(last[-1]):]
            if got[:len(want)] != want:
                return 'results of the cells of the last table'
        ev = events(A, r, typ)
        if ev is None:
            return 'unknown event'
        eq = lambda v, n: same(A, fc, A.h(v[0]), A.mul(A.var(n), A.h(v[1])))
        # split into regions and the rest
        pos = 0
        starts, rects = [], []
        cells = []       # (region, offset, column, value)
        wantcopy, wantconst, rest = [], [], []
        got_copy = []
        tests = []       # fixed cells assigned for constants
        used = set()

        def take(k):
            nonlocal pos
            if pos < len(ev) and ev[pos][0] == k:
                pos += 1
                return True
            return False

        def loose():
            # constants and copies, at any time outside of regions
            nonlocal pos
            while pos < len(ev) and ev[pos][0] in ('copy', 'f'):
                if ev[pos][0] == 'copy':
                    got_copy.append(ev[pos])
                else:
                    tests.append(ev[pos])
                pos += 1

        def region(ops):
            nonlocal pos
            if not take('enter'):
                return 'a region is not entered'
            l = []
            while pos < len(ev) and ev[pos][0] != 'exit':
                l.append(ev[pos])
                pos += 1
            if not take('exit'):
                return 'a region is not left'
            want = []
            n = len(starts)
            for k, *a in ops:
                if k == 's':
                    want.append(('s', ('s', a[0]), a[1], None))
                elif k in 'acf':
                    c = ('a' if k != 'f' else 'f', a[0])
                    want.append((c[0], c, a[1], a[2]))
                    if k == 'c':
                        wantconst.append((len(cells), a[2]))
                    cells.append((n, a[1], c, a[2]))
                elif k == 'i':
                    v = 'inst%d_%d' % (a[0], a[1])
                    c = ('a', a[2])
                    want.append(('a', c, a[3], v))
                    wantcopy.append((len(cells), ('i', a[0], a[1])))
                    cells.append((n, a[3], c, v))
                elif k == 'q':
                    c = ('a', a[1])
                    v = cells[a[0]][3]
                    want.append(('a', c, a[2], v))
                    wantcopy.append((len(cells), a[0]))
                    cells.append((n, a[2], c, v))
                elif k == 'k':
                    wantconst.append((a[0], a[1]))
                elif k == 'e':
                    wantcopy.append((a[0], a[1]))
                elif k == 'n':
                    want.append(('name', ('a', a[0])))
            got_copy.extend(x for x in l if x[0] == 'copy')
            l = [x for x in l if x[0] != 'copy']
            if len(l) != len(want):
                return 'region %d assigns %d cells and selectors, not %d' % (n, len(l), len(want))
            start = None
            for g, w in zip(l, want):
                if g[:2] != w[:2]:
                    return 'region %d assigns %s, not %s' % (n, g[:2], w[:2])
                if g[0] == 'name':
                    continue
                if start is None:
                    start = g[2] - w[2]
                if g[2] - w[2] != start or start < 0:
                    return 'region %d: %s is at row %d' % (n, g[1], g[2])
                if w[3] is not None and not eq(g[3], w[3]):
                    return 'region %d: the value at %s, row %d' % (n, g[1], g[2])
            cols, h = rect(ops)
            if start is None:
                start = 0
            for m, (s2, (c2, h2)) in enumerate(zip(starts, rects)):
                if cols & c2 and start < s2 + h2 and s2 < start + h:
                    return 'regions %d and %d overlap' % (m, n)
            starts.append(start)
            rects.append((cols, h))

        for t in items:
            ns = t[0] == 'N'
            t = bare(t)
            if t[0] in 'RT' or ns:
                loose()
            if ns and not take('push'):
                return 'a namespace is not entered'
            if t[0] == 'R':
                e = region(t[1])
                if e:
                    return e
                loose()
            elif t[0] == 'T':
                if not take('enter'):
                    return 'the region of a table is not entered'
                rows = {}
                for c, o, v in t[1]:
                    if c in used:
                        continue
                    g = ev[pos]
                    pos += 1
                    if g[:3] != ('f', ('f', c), o) or not eq(g[3], v):
                        return 'the cell of a table at column %d, row %d' % (c, o)
                    if o or 0 not in rows.get(c, {}):
                        rows.setdefault(c, {})[o] = v
                if not take('exit'):
                    return 'the region of a table is not left'
                fills = []
                while pos < len(ev) and ev[pos][0] == 'fill':
                    fills.append(ev[pos])
                    pos += 1
                if sorted(x[1][1] for x in fills) != sorted(rows):
                    return 'the columns of a table are not filled'
                for _, c, y, v in fills:
                    if y != len(rows[c[1]]) or not eq(v, rows[c[1]][0]):
                        return 'column %d of a table is filled from row %d or with another value' % (c[1], y)
                used |= set(rows)
            elif t[0] == 'I':
                wantcopy.append((t[1], ('i', t[2], t[3])))
                loose()
            if ns and not take('pop'):
                return 'a namespace is not left'
        loose()
        if pos != len(ev):
            return 'an event %s that no part of the circuit causes' % (ev[pos][:1],)
        at = lambda k: (*cells[k][2], starts[cells[k][0]] + cells[k][1])
        norm = lambda a, b: tuple(sorted((a, b)))
        gc = sorted(norm(x[1], x[2]) for x in got_copy)
        wc = [norm(at(a), b if isinstance(b, tuple) else at(b)) for a, b in wantcopy]
        for w in wc:
            if w not in gc:
                return 'no copy constraint between %s and %s' % w
            gc.remove(w)
        # constants: a cell of its own in a column for constants
        if len(tests) != len(wantconst) or len(gc) != len(wantconst):
            return '%d constants, %d assigned, %d copied' % (len(wantconst), len(tests), len(gc))
        seen = set()
        for _, c, y, v in tests:
            if c[1] not in constants:
                return 'a constant in column %d' % c[1]
            if (c, y) in seen:
                return 'two constants in one cell'
            seen.add((c, y))
            for s2, (c2, h2) in zip(starts, rects):
                if c in c2 and s2 <= y < s2 + h2:
                    return 'a constant inside of a region'
        left = list(wantconst)
        for _, c, y, v in tests:
            m = [g for g in gc if (*c, y) in g]
            if len(m) != 1:
                return 'the constant at %s, row %d is copied %d times' % (c, y, len(m))
            a, b = m[0]
            o = b if a == (*c, y) else a
            k = [w for w in left if at(w[0]) == o and eq(v, w[1])]
            if not k:
                return 'the cell %s does not equal its constant' % (o,)
            left.remove(k[0])

    def abort(fc, o):
        if not tables or many:
            return True
        return v1 and short(regions, constants, ncon)
    J.go(mod, A, 'layout by %s of %s, %d columns for constants' % ('V1FloorPlanner' if v1 else 'SimpleFloorPlanner', name, len(constants)), 'h_layout',
         ins, [v1, T], Facts(A), check, may_abort=abort, steps=6000000)


def short(regions, constants, ncon):
    """there may be less free rows in the columns for constants than constants"""
    rows = sum(rect(l)[1] for l in regions)
    most = max([rect(l)[1] for l in regions] + [0])
    usedc = sum(rect(l)[1] for l in regions for c in rect(l)[0] if c[0] == 'f' and c[1] in constants)
    return ncon > most * len(constants) - usedc


CIRCUITS = {
    'nothing': [],
    'one region': [('R', [('s', 0, 0), ('a', 0, 0, 'x'), ('a', 1, 1, 'y'), ('f', 2, 0, 'u')])],
    'an empty region between': [('R', [('a', 0, 0, 'x')]), ('R', []), ('R', [('a', 0, 0, 'y'), ('e', 0, 1)])],
    'side by side': [('R', [('a', 0, 0, 'x'), ('a', 0, 1, 'y')]), ('R', [('a', 1, 0, 'z')]), ('R', [('a', 0, 0, 'u'), ('a', 1, 0, 'v'), ('e', 0, 3), ('e', 2, 4)])],
    'selectors meet': [('R', [('s', 0, 1), ('a', 0, 0, 'x')]), ('R', [('s', 0, 0), ('a', 1, 2, 'y')]), ('R', [('s', 1, 0), ('a', 2, 0, 'z')]), ('R', [('s', 1, 0), ('s', 0, 1)])],
    'columns of equal index': [('R', [('a', 0, 2, 'x')]), ('R', [('f', 0, 1, 'y')]), ('R', [('s', 0, 0)]), ('R', [('a', 0, 0, 'z'), ('f', 0, 0, 'u'), ('s', 0, 1)])],
    'gaps': [('R', [('a', 0, 3, 'x'), ('a', 1, 0, 'y')]), ('R', [('a', 1, 0, 'z'), ('a', 2, 0, 'u')]), ('R', [('a', 2, 1, 'v')]), ('R', [('a', 0, 0, 'w'), ('a', 2, 0, 't')])],
    'large first': [('R', [('a', 0, 0, 'x')]), ('R', [('a', 0, 1, 'y'), ('a', 1, 0, 'z')]), ('R', [('a', 0, 4, 'u'), ('a', 1, 4, 'v'), ('a', 2, 0, 'w'), ('e', 0, 4)]), ('R', [('a', 1, 0, 't'), ('a', 2, 2, 's'), ('e', 1, 6)])],
    'constants': [('R', [('c', 0, 0, 'x'), ('c', 1, 2, 'y'), ('a', 0, 1, 'z'), ('k', 2, 'u')])],
    'constants and fixed cells': [('R', [('f', 3, 0, 'w'), ('f', 3, 2, 'w2'), ('a', 0, 0, 'x'), ('k', 2, 'u')]), ('R', [('a', 1, 4, 'y'), ('c', 1, 0, 'z'), ('k', 2, 't')]), ('R', [('f', 3, 0, 'v'), ('c', 0, 1, 's')])],
    'instances': [('R', [('i', 0, 2, 0, 0), ('i', 1, 0, 1, 1), ('a', 0, 1, 'x')]), ('R', [('i', 0, 1, 0, 1), ('a', 1, 0, 'y')]), ('I', 0, 1, 3), ('I', 4, 0, 0), ('I', 3, 2, 5)],
    'copies': [('R', [('a', 0, 1, 'x'), ('a', 1, 0, 'y')]), ('R', [('q', 0, 1, 0), ('q', 1, 0, 2), ('e', 0, 1)]), ('R', [('q', 2, 2, 1), ('e', 4, 3), ('n', 2)])],
    'a table': [('T', [(4, 0, 'x'), (4, 1, 'y'), (4, 2, 'z'), (5, 0, 'u'), (5, 1, 'v'), (5, 2, 'w')]), ('R', [('a', 0, 0, 't')])],
    'tables': [('R', [('a', 0, 1, 't')]), ('T', [(4, 1, 'y'), (4, 0, 'x')]), ('T', [(5, 0, 'u'), (5, 1, 'v'), (5, 2, 'w')]), ('R', [('a', 0, 0, 's'), ('e', 0, 1)])],
    'a column of two tables': [('T', [(4, 0, 'x')]), ('T', [(5, 0, 'u'), (4, 0, 'v')])],
    'the first row twice': [('T', [(4, 0, 'x'), (4, 0, 'y'), (4, 1, 'z')])],
    'a later row twice': [('T', [(4, 0, 'x'), (4, 1, 'y'), (4, 1, 'z')])],
    'a table with a gap': [('T', [(4, 0, 'x'), (4, 2, 'y')])],
    'a table without its first row': [('T', [(4, 1, 'y')])],
    'a table with a short column': [('T', [(4, 0, 'x'), (4, 1, 'y'), (5, 0, 'u')])],
    'a table with a short last column': [('T', [(4, 0, 'x'), (4, 1, 'y'), (5, 0, 'u'), (5, 1, 'u'), (6, 0, 'v')])],
    'a table without columns': [('T', [])],
    'namespaces': [('N', ('R', [('a', 0, 0, 'x'), ('c', 1, 0, 'y')])), ('R', [('a', 0, 0, 'z')]), ('N', ('T', [(4, 0, 'u')])), ('N', ('I', 2, 1, 1)), ('C', 1), ('N', ('R', [('a', 0, 1, 'v'), ('e', 0, 3)])), ('N', ('C', 0))],
    'more constants than rows': [('R', [('a', 0, 0, 'x'), ('k', 0, 'u'), ('k', 0, 'v')])],
    'more constants than free rows': [('R', [('a', 0, 2, 'x'), ('f', 3, 1, 'w'), ('k', 0, 'u'), ('k', 0, 'v')])],
    'regions in holes': [('R', [('a', 0, 1, 'x'), ('a', 1, 0, 'x2')]), ('R', [('a', 1, 3, 'y'), ('a', 2, 0, 'y2'), ('a', 3, 0, 'y3')]), ('R', [('a', 0, 2, 'z'), ('a', 2, 1, 'z2'), ('e', 0, 2)]), ('R', [('a', 0, 0, 'u')]), ('R', [('a', 2, 2, 'v'), ('s', 0, 0)]), ('R', [('s', 0, 1), ('a', 0, 0, 'w'), ('e', 6, 4)])],
    'a constant for an earlier cell': [('R', [('a', 0, 3, 'x')]), ('R', [('a', 0, 0, 'y'), ('k', 0, 'u'), ('k', 1, 'v')]), ('R', [('f', 3, 0, 'w')])],
}


def rand(seed):
    r = random.Random(seed)
    items, cells, n = [], [], 0
    for _ in range(r.randrange(1, 6)):
        ops = []
        cs = r.sample(range(4), r.randrange(1, 4))
        for _ in range(r.randrange(1, 5)):
            k = r.choice('saaaaffcik eq')
            v = 'v%d' % n
            n += 1
            o = r.randrange(4)
            if k == 's':
                ops.append(('s', r.randrange(2), o))
            elif k in 'a ':
                ops.append(('a', r.choice(cs), o, v))
            elif k == 'c':
                ops.append(('c', r.choice(cs), o, v))
            elif k == 'f':
                ops.append(('f', r.choice((1, 3)), o, v))
            elif k == 'i':
                ops.append(('i', r.randrange(3), r.randrange(8), r.choice(cs), o))
            elif cells and k == 'k':
                ops.append(('k', r.choice(cells), v))
            elif cells and k == 'e':
                ops.append(('e', r.choice(cells), r.choice(cells)))
            elif cells and k == 'q':
                ops.append(('q', r.choice(cells), r.choice(cs), o))
            if ops and ops[-1][0] in 'acfiq':
                cells.append(len(cells))
        items.append(('R', ops))
        if cells and r.random() < .2:
            items.append(('I', r.choice(cells), r.randrange(3), r.randrange(8)))
    return items


def job_list(thorough):
    l = []
    for v1 in (0, 1):
        for k, it in CIRCUITS.items():
            for cs in ((3,), (6, 3)) + (((),) if k in ('constants', 'gaps') else ()):
                l.append(('j_layout', v1, k, it, cs))
        for s in range(24 if not thorough else 400):
            l.append(('j_layout', v1, 'random circuit %d' % s, rand(s), ((3,), (6, 3), (2, 6, 7))[s % 3]))
    return l


FN = {'j_layout': j_layout}


def run_all(rep, thorough):
    jobs.MODS['ly'] = load_ir(os.path.join(VERIF, 'harness/layout.cc'), fresh=True)
    for k, g in FN.items():
        jobs.FUNCS['ly' + k] = g
    jobs.run_jobs(rep, [('ly' + k, ('ly', *r)) for k, *r in job_list(thorough)], limit=900 if thorough else 200)
