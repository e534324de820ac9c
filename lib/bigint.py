"""C07 (second half): fixed-width big integers, decided word by word."""
import random

import llir
from absint import Interp, Ptr, PathAbort, Undecided
from bits import BitDom, ZERO
from limb import Facts, P, mk, add, mul, scale
from words import Run, Dom, Val, check_pred, words

SIZES = [1, 2, 3, 4, 5, 6, 8]


def expand(dom, p, M=None):
    last = None
    while True:
        i = dom.newest(p, last)
        if i < 0:
            return expand_wraps(dom, p, M)
        s = dom.syms[i]
        if s.kind == 'def' or s.exact:
            p = dom.elim(p, i, True)
        else:
            last = i


def expand_wraps(dom, p, M):
    for i in sorted({i for m in p.t for i in m}, reverse=True):
        s = dom.syms[i]
        if s.kind == 'wrap' and M and s.d % M == 0:
            p = dom.subst(p, i, s.e)
    return p


def zero_mod(p, M):
    return all(isinstance(c, int) and (c % M == 0 if M else c == 0) for c in p.t.values())


def value_op(R, fn, ins, out, target, what, extra=(), M=None, bitmode=False):
    """every path of fn stores words whose combination by `out` equals target exactly (mod M when given);
    ins: [(name, count, bits)], out: (count, bits, weights)"""
    rep = R.rep
    if '@' + fn not in R.mod.funcs:
        return
    key = R.where
    R.setup()
    dom = R.dom
    dom.bitmode = bitmode
    syms = {}

    def prep(st):
        for nm, n, w in ins:
            ls = [dom.v(dom.sym('%s%d' % (nm, i), 0, (1 << w) - 1)) for i in range(n)]
            st.mem[nm] = {i * (w // 8): (ls[i], w // 8) for i in range(n)}
            st.sizes[nm] = n * w // 8
            syms[nm] = ls
        st.mem['R'] = {}
        st.own.add('R')
    cnt, w, wt = out
    k = 0
    try:
        for st, ret in R.it.run('@' + fn, [Ptr('R')] + [Ptr(x) for x, _, _ in ins] + list(extra), Facts(), prep):
            if isinstance(ret, PathAbort):
                if ret.why != 'infeasible':
                    rep.unk(key, '%s: abort path %s' % (what, ret.why))
                    return
                continue
            k += 1
            ow = []
            o = st.mem.get('R', {})
            import llir
            for i in range(cnt):
                x = R.it.load(st, Ptr('R', i * (w // 8)), llir.Ty('int', w))
                if not isinstance(x, (int, P)):
                    ow = None
                    break
                ow.append(mk(x))
            if ow is None:
                rep.unk(key, what + ': result words not tracked')
                return
            E = P({})
            for x, c in zip(ow, wt):
                E = add(E, x, c)
            T = target(dom, *[syms[nm] for nm, _, _ in ins])
            D = add(E, T, -1)
            if zero_mod(D, M) or zero_mod(expand(dom, D, M), M) or zero_mod(dom.known(expand(dom, D, M), st.facts), M):
                continue
            wit = None
            rnd = random.Random(3)
            for t in range(400):
                env = {}
                for nm, n, wb in ins:
                    for l in syms[nm]:
                        (m, _), = l.t.items()
                        top = (1 << wb) - 1
                        env[m[0]] = rnd.choice([0, 1, top, top - 1, 1 << (wb - 1), rnd.randrange(top + 1), 1 << rnd.randrange(wb)])
                v = Val(dom, env)
                try:
                    if not v.path(st.facts):
                        continue
                    d = v.p(D)
                except KeyError:
                    continue
                if d % M if M else d:
                    wit = '%s: operands %s give %s' % (what, ', '.join('%s=[%s]' % (nm, ' '.join('%x' % v.p(l) for l in syms[nm])) for nm, _, _ in ins),
                                                       ' '.join('%x' % v.p(x) for x in ow))
                    break
            if wit:
                rep.bad(key, wit)
            else:
                rep.unk(key, what + ': words not brought to the expected form')
            return
    except Undecided as e:
        rep.unk(key, '%s: %s' % (what, e))
        return
    if not k:
        rep.unk(key, what + ': no path returns')
        return
    rep.functions.add(fn)
    rep.ok('%s (%d paths): %s' % (key, k, what))


def tot(ls, w=64):
    e = P({})
    for i, l in enumerate(ls):
        e = add(e, l, 1 << (w * i))
    return e


def bit(dom, ls, i, w=64):
    if i // w >= len(ls):
        return mk(0)
    q = dom.quot(ls[i // w], 1 << (i % w))[0]
    return dom.quot(q, 2)[1]


def slice_(dom, ls, o, c, w=64):
    """bits [o, o+c) of the little-endian word list"""
    out = P({})
    pos = o
    while pos < o + c and pos // w < len(ls):
        i, b = pos // w, pos % w
        n = min(w - b, o + c - pos)
        x = dom.quot(ls[i], 1 << (b + n))[1] if b + n < w else ls[i]
        x = dom.quot(x, 1 << b)[0] if b else x
        out = add(out, x, 1 << (pos - o))
        pos += n
    return out


def check_bigint(mod, rep, n, deep=False, tag=''):
    R = Run(mod, rep, '')
    M = 1 << (64 * n)
    wt = [1 << (64 * i) for i in range(2 * n + 2)]
    A, AB = [('A', n, 64)], [('A', n, 64), ('B', n, 64)]

    def v(o, ins, out, tgt, what, extra=(), M=M, lab=''):
        R.where = tag + 'BigInt<%d>::%s%s' % (n, o, lab)
        value_op(R, '%s_%d' % (o, n), ins, out, tgt, what, extra, M, 'bit' in o)
    W = (n, 64, wt)
    for o in ('add', 'addip'):
        v(o, AB, W, lambda d, a, b: add(tot(a), tot(b)), 'a + b mod 2^%d' % (64 * n))
    v('addself', A, W, lambda d, a: scale(tot(a), 2), 'a + a')
    for o in ('sub', 'subip'):
        v(o, AB, W, lambda d, a, b: add(tot(a), tot(b), -1), 'a - b mod 2^%d' % (64 * n))
    v('subself', A, W, lambda d, a: mk(0), 'a - a')
    C = (n + 1, 64, wt)
    Bo = (n + 1, 64, wt[:n] + [-wt[n]])
    for o in ('addc', 'addcip'):
        v(o, AB, C, lambda d, a, b: add(tot(a), tot(b)), 'a + b with carry out', M=None)
    for o in ('subb', 'subbip'):
        v(o, AB, Bo, lambda d, a, b: add(tot(a), tot(b), -1), 'a - b with borrow out', M=None)
    for o in ('dbl', 'dblip'):
        v(o, A, W, lambda d, a: scale(tot(a), 2), '2a')
    for o in ('dblc', 'dblcip'):
        v(o, A, C, lambda d, a: scale(tot(a), 2), '2a with carry out', M=None)
    for o in ('mul', 'mulip'):
        v(o, AB, W, lambda d, a, b: mul(tot(a), tot(b)), 'a b mod 2^%d' % (64 * n))
    for o in ('mulx', 'multiply'):
        v(o, AB, (2 * n, 64, wt), lambda d, a, b: mul(tot(a), tot(b)), 'full product', M=None)
    v('half', A, W, lambda d, a: slice_(d, a, 1, 64 * n - 1), 'floor(a/2)')
    v('zero', [], W, lambda d: mk(0), '0')
    v('one', [], W, lambda d: mk(1), '1')
    v('max', [], W, lambda d: mk(M - 1), 'maximum')
    v('ext', A, (n + 2, 64, wt), lambda d, a: tot(a), 'zero extension', M=None)
    v('shrink', [('A', n + 1, 64)], W, lambda d, a: tot(a), 'truncation')
    v('iseven', A, (1, 64, wt), lambda d, a: add(1, bit(d, a, 0), -1), 'a mod 2 == 0', M=None)
    v('isodd', A, (1, 64, wt), lambda d, a: bit(d, a, 0), 'a mod 2 == 1', M=None)
    for o in ('and', 'or', 'xor'):
        f = lambda d, a, b, o=o: tot([mk(d.bitop(_St, o, 64, x, y, None)) for x, y in zip(a, b)])
        v(o, AB, W, f, 'bitwise %s' % o)
        v(o + 'ip', AB, W, f, 'bitwise %s' % o)
    shifts = range(0, 64 * n + 2) if n <= 2 or deep else sorted({0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 64 * n - 65, 64 * n - 64, 64 * n - 1, 64 * n, 64 * n + 1, 17, 100})
    for s in shifts:
        for o in ('shl', 'shlip'):
            v(o, A, W, lambda d, a: scale(tot(a), 1 << s), 'a << %d' % s, (s,), lab='(%d)' % s)
        for o in ('shr', 'shrip'):
            v(o, A, W, lambda d, a: slice_(d, a, s, 64 * n - s) if s < 64 * n else mk(0), 'a >> %d' % s, (s,), lab='(%d)' % s)
    by = lambda b, k=8: P(b.t)
    nb = 8 * n
    bw = [1 << (8 * i) for i in range(nb)]
    v('bytesle', A, (nb, 8, bw), lambda d, a: tot(a), 'little-endian bytes', M=None)
    v('bytesbe', A, (nb, 8, bw[::-1]), lambda d, a: tot(a), 'big-endian bytes', M=None)
    for o, m in (('frombytes', nb), ('part', nb - 3)):
        I = [('A', m, 8)]
        v(o + 'le', I, W, lambda d, a: tot(a, 8), 'value of %d little-endian bytes' % m, M=None)
        v(o + 'be', I, W, lambda d, a: tot(a[::-1], 8), 'value of %d big-endian bytes' % m, M=None)
    for o, rev in (('bitsle', 1), ('frombitsle', 1), ('bitsbe', -1), ('frombitsbe', -1)):
        bit_op(mod, rep, '%s_%d' % (o, n), tag + 'BigInt<%d>::%s' % (n, o), n, lambda e: e[::rev])
    for i in (range(64 * n + 2) if n <= 2 or deep else shifts):
        b_ = 1 << i
        bit_op(mod, rep, 'testbit_%d' % n, tag + 'BigInt<%d>::testbit(%d)' % (n, i), n, lambda e: (e[i:i + 1] or (ZERO,)) + (ZERO,) * 63, (i,))
        if i < 64 * n:
            v('setbit', A, W, lambda d, a: add(add(tot(a), bit(d, a, i), -b_), b_), 'bit %d set' % i, (i,), lab='(%d)' % i)
            v('clrbit', A, W, lambda d, a: add(tot(a), bit(d, a, i), -b_), 'bit %d cleared' % i, (i,), lab='(%d)' % i)
    for w, cs in ((64, (1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 62, 63)), (32, (1, 2, 3, 7, 8, 15, 16, 17, 30, 31))):
        step = 1 if (n <= 2 or deep) else 13
        for c in cs:
            for o in range(0, 64 * n, step):
                v('bits%d' % w, A, (1, w, wt), lambda d, a: slice_(d, a, o, c), 'bits [%d, %d)' % (o, o + c), (o, c), M=None, lab='(%d,%d)' % (o, c))

    def pr(o, names, truth, what):
        fn = '%s_%d' % (o, n)
        if '@' + fn in mod.funcs:
            R.where = tag + 'BigInt<%d>::%s' % (n, o)
            check_pred(R, fn, names, n, 64, M, truth, what)

    def diff(la, lb):
        return [add(x, y, -1) for x, y in zip(la, lb)]

    def tt(la):
        return tot(la)
    X, XY = ['A'], ['A', 'B']
    pr('eq', XY, lambda la, lb: ('eq0', diff(la, lb)), 'a == b')
    pr('ne', XY, lambda la, lb: ('ne0', diff(la, lb)), 'a != b')
    pr('iszero', X, lambda la: ('eq0', la), 'a == 0')
    pr('isone', X, lambda la: ('eq0', diff(la, [1] + [0] * (n - 1))), 'a == 1')
    pr('lt', XY, lambda a, b: ('ge0', add(add(b, a, -1), -1)), 'a < b')
    pr('le', XY, lambda a, b: ('ge0', add(b, a, -1)), 'a <= b')
    pr('gt', XY, lambda a, b: ('ge0', add(add(a, b, -1), -1)), 'a > b')
    pr('ge', XY, lambda a, b: ('ge0', add(a, b, -1)), 'a >= b')


class _St:
    facts = Facts()


def bit_op(mod, rep, fn, key, n, perm, extra=()):
    """a permutation of the bits, decided in the bit domain"""
    if '@' + fn not in mod.funcs:
        return
    dom = BitDom()
    dom.external = lambda st, name, args, inst: (_ for _ in ()).throw(Undecided('external ' + name))
    it = Interp(mod, dom)
    ws = [dom.word(64) for _ in range(n)]
    exp = perm(sum((w.b for w in ws), ()))

    def prep(st):
        st.mem['A'] = {8 * i: (w, 8) for i, w in enumerate(ws)}
        st.sizes['A'] = 8 * n
        st.mem['R'] = {}
        st.own.add('R')
    try:
        for st, ret in it.run('@' + fn, [Ptr('R'), Ptr('A')] + list(extra), None, prep):
            if isinstance(ret, PathAbort):
                rep.unk(key, ret.why)
                return
            got = ()
            for i in range(len(exp) // 64):
                x = dom.of(it.load(st, Ptr('R', 8 * i), llir.Ty('int', 64)), 64)
                if x is None:
                    rep.unk(key, 'result words not tracked')
                    return
                got += x
            for i, (g, e) in enumerate(zip(got, exp)):
                if g != e:
                    rep.bad(key, 'bit %d of the result is %s, expected input bit %s' % (i, [sorted(m) for m in g][:4], [sorted(m) for m in e]))
                    return
    except Undecided as e:
        rep.unk(key, str(e))
        return
    rep.functions.add(fn)
    rep.ok('%s: all %d bits in place' % (key, len(exp)))
