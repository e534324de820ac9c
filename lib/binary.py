"""Binary tower fields."""
import os
from multiprocessing import Pool
import llir
from absint import Interp, Domain, Ptr, Undecided, PathAbort, Bool
from alg import Alg, Facts, Contradiction, log_call
from bits import BitDom, ZERO, ONE
from common import VERIF, load_ir, BuildError

SRC = os.path.join(VERIF, 'harness', 'binary.cc')


# reference tower: GF(2)[X0][X1]..., X_k^2 = X_{k-1} X_k + 1, X_{-1} = 1
def tmul(a, b, k):
    if k == 1:
        return a & b
    h = k // 2
    m = (1 << h) - 1
    a0, a1, b0, b1 = a & m, a >> h, b & m, b >> h
    z0, z1 = tmul(a0, b0, h), tmul(a1, b1, h)
    z2 = tmul(a0 ^ a1, b0 ^ b1, h) ^ z0 ^ z1
    return (z0 ^ z1) | (z2 ^ talpha(z1, h)) << h


def talpha(a, k):
    return a if k == 1 else tmul(a, 1 << (k // 2), k)


def tpow(a, e, k):
    r = 1
    while e:
        if e & 1:
            r = tmul(r, a, k)
        a = tmul(a, a, k)
        e >>= 1
    return r


class Conc(Domain):
    def call(self, st, n, a, inst):
        return log_call(n)

    def external(self, st, n, a, inst):
        raise Undecided('external ' + n)


_mod = None


def _table(job):
    fn, rows, cols = job
    out = []
    dom = Conc()
    it = Interp(_mod, dom, max_steps=10 ** 12)
    for a in rows:
        for b in cols if cols is not None else (None,):
            try:
                st, r = list(it.run('@' + fn, [a] if b is None else [a, b], None))[0]
            except Undecided as e:
                return fn, 'undecided', str(e)
            out.append((a, b, 'abort' if isinstance(r, PathAbort) else r))
    return fn, out, it.visited_funcs


def small(mod, rep):
    global _mod
    _mod = mod
    jobs = []
    for k in (1, 2, 4, 8):
        n = 1 << k
        for op in ('mul', 'mulip', 'add', 'sub', 'lt', 'eq'):
            step = 16 if k == 8 else n
            if k == 8 and op in ('lt', 'eq', 'add', 'sub'):
                continue
            for s in range(0, n, step):
                jobs.append(('s_%s_%d' % (op, k), range(s, min(n, s + step)), range(n)))
        for op in ('alpha', 'sq', 'sqip', 'neg', 'dbl', 'zero', 'one', 'inv', 'invip'):
            jobs.append(('s_%s_%d' % (op, k), range(n), None))
    spec = {
        'mul': tmul, 'mulip': tmul, 'add': lambda a, b, k: a ^ b, 'sub': lambda a, b, k: a ^ b,
        'lt': lambda a, b, k: int(a < b), 'eq': lambda a, b, k: int(a == b),
        'alpha': lambda a, b, k: talpha(a, k), 'sq': lambda a, b, k: tmul(a, a, k), 'sqip': lambda a, b, k: tmul(a, a, k),
        'neg': lambda a, b, k: a, 'dbl': lambda a, b, k: 0, 'zero': lambda a, b, k: int(a == 0), 'one': lambda a, b, k: int(a == 1)}
    names = {'mul': 'Mul', 'mulip': 'MulInPlace', 'add': 'Add', 'sub': 'Sub', 'lt': 'operator<', 'eq': 'operator==',
             'alpha': 'MulByAlpha', 'sq': 'Square', 'sqip': 'SquareInPlace', 'neg': 'Negate', 'dbl': 'Double', 'zero': 'IsZero',
             'one': 'IsOne', 'inv': 'Inverse', 'invip': 'InverseInPlace'}
    with Pool(8) as p:
        for fn, out, vf in p.imap_unordered(_table, jobs):
            _, op, k = fn.split('_')
            k = int(k)
            where = 'BinaryField<%d bits>::%s' % (k, names[op])
            if out == 'undecided':
                rep.unk(where, vf)
                continue
            rep.functions |= vf
            for a, b, r in out:
                if op in ('inv', 'invip'):
                    ok = r == 0x100 if a == 0 else isinstance(r, int) and r < (1 << k) and tmul(a, r, k) == 1
                else:
                    ok = r == spec[op](a, b, k)
                if not ok:
                    rep.bad(where, 'operands %s give %s' % ([x for x in (a, b) if x is not None], r))
                    break
            else:
                rep.obligations += len(out) - 1
                rep.discharged += len(out) - 1
                rep.ok('%s: %d table rows' % (where, len(out)))


def words(mod, rep):
    for k in (1, 2, 4, 8, 16, 32, 64, 128):
        it = Interp(mod, Conc())
        st, r = list(it.run('@bits_%d' % k, [], None))[0]
        if r != k:
            rep.bad('BinaryField%dConfig' % k, 'has %s bits' % r)
        else:
            rep.ok('BinaryField%dConfig bits' % k)
    for k in (16, 32, 64, 128):
        h = k // 2

        def two(b):
            return [b[0:128], b[128:256]]
        specs = {
            'add': lambda x, y: [p ^ q for p, q in zip(x[:k], y[:k])], 'sub': lambda x, y: [p ^ q for p, q in zip(x[:k], y[:k])],
            'neg': lambda x, y: x[:k], 'dbl': lambda x, y: [ZERO] * k, 'lo': lambda x, y: x[:h], 'hi': lambda x, y: x[h:k],
            'compose': lambda x, y: list(x[:h]) + list(y[:h]), 'big': lambda x, y: x[:k], 'tobig': lambda x, y: x[:k],
            'zero': lambda x, y: [ZERO] * k, 'one': lambda x, y: [ONE] + [ZERO] * (k - 1)}
        for o in ('add', 'sub', 'neg', 'dbl'):
            specs[o + 'ip'] = specs[o]
        for op, spec in specs.items():
            fn = 'w_%s_%d' % (op, k)
            where = 'BinaryField<%d bits> %s' % (k, op)
            dom = BitDom()
            dom.external = lambda st, name, args, inst: (_ for _ in ()).throw(Undecided('external ' + name))
            it = Interp(mod, dom)
            ws = [dom.word(64) for _ in range(4)]
            allb = sum((w.b for w in ws), ())
            exp = spec(*two(allb))
            exp = list(exp) + [ZERO] * (-len(exp) % 64)

            def prep(st):
                st.mem['A'] = {8 * i: (w, 8) for i, w in enumerate(ws)}
                st.mem['R'] = {}
                st.own.add('R')
            try:
                for st, ret in it.run('@' + fn, [Ptr('R'), Ptr('A')], None, prep):
                    if isinstance(ret, PathAbort):
                        rep.bad(where, 'aborts: %s' % ret.why)
                        break
                    got = ()
                    for i in range(len(exp) // 64):
                        x = dom.of(it.load(st, Ptr('R', 8 * i), llir.Ty('int', 64)), 64)
                        if x is None:
                            raise Undecided('result words not tracked')
                        got += tuple(x)
                    bad = [i for i, (g, e) in enumerate(zip(got, exp)) if g != e]
                    if bad:
                        rep.bad(where, 'bit %d of the result is wrong' % bad[0])
                    else:
                        rep.ok('%s: every bit' % where)
            except Undecided as e:
                rep.unk(where, e)
            rep.functions |= it.visited_funcs


def tower(rep):
    for k in (16, 32, 64, 128):
        h = k // 2
        # X^2 + alpha X + 1 irreducible over GF(2^h): Tr(1/alpha^2) = 1
        al = 1 << (h // 2)
        inv = tpow(al, (1 << h) - 3, h)
        t, acc = inv, 0
        for _ in range(h):
            acc ^= t
            t = tmul(t, t, h)
        assert acc == 1
        try:
            mod = load_ir(SRC, extra=['-DKB=%d' % k])
        except BuildError as e:
            for op in ('mul', 'alpha', 'square', 'inverse'):
                rep.unk('BinaryTowerOperations<%d bits> %s' % (k, op), 'needs more than the tower interface: ' + str(e)[-200:])
            continue
        for op in ('mul', 'alpha', 'square', 'inverse'):
            where = 'BinaryTowerOperations<%d bits>::%s' % (k, {'mul': 'Mul', 'alpha': 'MulByAlpha', 'square': 'Square', 'inverse': 'Inverse'}[op])
            for zero in ((False, True) if op == 'inverse' else (False,)):
                A = Alg(['al', 'b0', 'b1', 'a0', 'a1'], char=2)
                A.params = {0: A.var('al')}
                f = Facts(A)
                A.assume_nonzero(f, A.var('al'))
                a = [A.const(0), A.const(0)] if zero else [A.var('a0'), A.var('a1')]
                b = [A.var('b0'), A.var('b1')]
                al_ = A.var('al')

                def mul(x, y):
                    z = A.mul(x[1], y[1])
                    return [A.add(A.mul(x[0], y[0]), z), A.add(A.add(A.mul(x[0], y[1]), A.mul(x[1], y[0])), A.mul(z, al_))]
                norm = A.add(A.add(A.mul(a[0], a[0]), A.mul(al_, A.mul(a[0], a[1]))), A.mul(a[1], a[1]))
                it = Interp(mod, A)

                def prep(st):
                    i = st.wobj('IN')
                    for j, v in enumerate(a + b):
                        i[8 * j] = (v, 8)
                    st.wobj('OUT')
                try:
                    for st, r in it.run('@t_' + op, [Ptr('IN'), Ptr('OUT')], f, prep):
                        if isinstance(r, PathAbort):
                            rep.bad(where, 'aborts')
                            continue
                        o = st.mem['OUT']
                        if op == 'inverse':
                            if isinstance(r, Bool):
                                r = A.decide(st.facts, r.f)
                            # the norm form is anisotropic: it vanishes exactly at zero
                            vanishes = zero or A.norm(st.facts, norm.n) == 0
                            if bool(r) == vanishes:
                                rep.bad(where, 'reports %s for %s' % ('an inverse' if r else 'no inverse', 'zero' if zero else 'a nonzero element'))
                                continue
                            if not r:
                                if not zero and any(A.norm(st.facts, x.n) == 0 for x in a):
                                    rep.unk(where, 'absent on %s' % st.trace[-2:])
                                else:
                                    rep.ok(where + ' of zero')
                                continue
                        v = [A.h(o[0][0]), A.h(o[8][0])]
                        if op == 'inverse':
                            v, e = mul(v, a), [A.const(1), A.const(0)]
                        else:
                            e = mul(a, b) if op == 'mul' else mul(a, a) if op == 'square' else mul(a, [A.const(0), A.const(1)])
                        for j in (0, 1):
                            d = A.sub(v[j], e[j])
                            if A.norm(st.facts, d.n) == 0:
                                rep.ok('%s coefficient %d' % (where, j))
                            else:
                                rep.bad(where, 'coefficient %d is not that of the product modulo X^2 + alpha X + 1' % j)
                except Undecided as e:
                    rep.unk(where, e)
                rep.functions |= it.visited_funcs


def run(rep):
    mod = load_ir(SRC)
    tower(rep)
    words(mod, rep)
    small(mod, rep)
