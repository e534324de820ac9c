"""Job pool shared by the specification modules: each job interprets one
harness entry point and reports ok / bad / undecided obligations."""
from multiprocessing import Pool
from absint import PathAbort, Undecided
from spec import run
from sympy import ZZ
from sympy.polys.galoistools import gf_div, gf_gcd, gf_monic, gf_pow_mod, gf_sub
import random
import signal

MODS = {}
FUNCS = {}


class Timeout(Exception):
    pass


class Job:
    def __init__(self):
        self.out = []
        self.fn = set()

    def ok(self, w):
        self.out.append(('ok', w, ''))

    def bad(self, w, x):
        self.out.append(('bad', w, x))

    def unk(self, w, x):
        self.out.append(('unk', w, str(x)))

    def go(self, mod, A, w, fn, ins, extra, f, check, steps=3000000, may_abort=None, paths=4000):
        """interpret and check every path; check(facts, out) -> None or what is wrong"""
        try:
            res, vf = run(MODS[mod], A, fn, ins, extra, f, steps=steps, paths=paths)
        except Undecided as e:
            self.unk(w, e)
            return
        self.fn |= vf
        if not res:
            self.unk(w, 'no path')
            return
        for fc, o in res:
            if isinstance(o, PathAbort):
                if may_abort is not None and may_abort(fc, o):
                    continue
                if getattr(fc, 'rel', None) and not points(fc, 1):
                    self.unk(w, 'no point found on the path that aborts')
                    return
                self.bad(w, 'aborts: %s%s' % (o.why, ctx(fc)))
                return
            try:
                r = check(fc, o)
            except Undecided as e:
                if 'uninitialised' in str(e):
                    self.bad(w, 'reads or returns uninitialised data')
                else:
                    self.unk(w, e)
                return
            if r and getattr(fc, 'rel', None):
                # the relations need not be radical: confirm at points
                try:
                    l = [check(q, o) for q in points(fc, 3)]
                except Undecided as e:
                    l = [None]
                if not any(l):
                    if l and None in l and len(l) == 3:
                        # (the difference lies in the radical of the relations)
                        continue
                    self.unk(w, 'no point found on the path for: %s' % (r,))
                    return
                r = next(x for x in l if x)
            if isinstance(r, tuple):
                self.bad(*r)
                return
            if r:
                self.bad(w, r + ctx(fc))
                return
        self.ok(w)


def points(fc, k):
    """up to k points (facts that fix every generator) that satisfy the facts"""
    A = fc.alg
    p = A.char
    if not p:
        return []
    out = []
    rnd = random.Random(1)
    for _ in range(12 * k):
        if len(out) == k:
            break
        fixed = {gi for gi, n, d in fc.subs}
        free, ok = set(), True
        for r in fc.rel:
            g = [i for i in range(len(A.order)) if i not in fixed and i not in free and 0 < max(m[i] for m in r)]
            if not g:
                ok = False
                break
            free.add(rnd.choice(g))
        if not ok:
            continue
        val = [None if i in free else rnd.randrange(1, p) for i in range(len(A.order))]
        todo = list(fc.rel)
        while todo and ok:
            for r in todo:
                v = [i for i in range(len(val)) if val[i] is None and max(m[i] for m in r) > 0]
                if len(v) == 1:
                    x = _root(r, v[0], val, p, rnd)
                    if x is None:
                        ok = False
                    else:
                        val[v[0]] = x
                    todo.remove(r)
                    break
            else:
                ok = False
        if not ok:
            continue
        val = [rnd.randrange(1, p) if x is None else x for x in val]

        def at(q):
            s = 0
            for m, c in q.items():
                t = int(c)
                for i, e in enumerate(m):
                    if e:
                        t = t * pow(val[i], e, p) % p
                s += t
            return s % p
        for gi, n, d in reversed(fc.subs):
            dv = at(d)
            if not dv:
                ok = False
                break
            val[gi] = at(n) * pow(dv, -1, p) % p
        if not ok or any(at(r) for r in fc.rel) or any(at(q) == 0 for q in fc.nz):
            continue
        q = fc.copy()
        q.nz, q.rel = set(), []
        q.subs = [(i, A.R.ground_new(A.R.domain(x)), A.one) for i, x in enumerate(val)]
        out.append(q)
    return out


def _root(r, g, val, p, rnd):
    """a random root in GF(p) of r as a polynomial in generator g"""
    c = {}
    for m, a in r.items():
        t = int(a)
        for i, e in enumerate(m):
            if e and i != g:
                t = t * pow(val[i], e, p) % p
        c[m[g]] = (c.get(m[g], 0) + t) % p
    f = [c.get(i, 0) for i in range(max(c), -1, -1)]
    while f and not f[0]:
        f.pop(0)
    if len(f) < 2:
        return None
    f = gf_monic(f, p, ZZ)[1]
    h = gf_pow_mod([1, 0], p, f, p, ZZ)
    s = gf_gcd(f, gf_sub(h, [1, 0], p, ZZ), p, ZZ)
    for _ in range(60):
        if len(s) < 2:
            return None
        if len(s) == 2:
            return -s[1] * pow(s[0], -1, p) % p
        h = gf_pow_mod([1, rnd.randrange(p)], (p - 1) // 2, s, p, ZZ)
        d = gf_gcd(s, gf_sub(h, [1], p, ZZ), p, ZZ)
        if 1 < len(d) < len(s):
            s = d if rnd.random() < .5 else gf_div(s, d, p, ZZ)[0]
    return None


def ctx(fc):
    """the path's assumptions"""
    l = ['%s = %s' % (fc.alg.order[g] if hasattr(fc.alg, 'order') and isinstance(g, int) else g, n if d == 1 else '(%s)/(%s)' % (n, d)) for g, n, d in fc.subs[:4]]
    l += ['%s = %s' % (k, v) for k, v in list(fc.atoms.items())[:3]]
    return ' (when %s)' % ', '.join(l) if l else ''


def _alarm(*a):
    raise Timeout()


def one(x):
    tag, spec, limit = x
    J = Job()
    w = ' '.join(map(str, spec))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        FUNCS[tag](J, *spec)
    except (Undecided, KeyError, IndexError, TypeError, AttributeError) as e:
        J.unk(w, '%s: %s' % (type(e).__name__, e))
    except RecursionError:
        J.unk(w, 'recursion')
    except Timeout:
        J.unk(w, 'time limit')
    finally:
        signal.alarm(0)
    return J.out, J.fn


def run_jobs(rep, jobs, limit=300, procs=8):
    """jobs: list of (tag, spec)"""
    with Pool(procs) as p:
        for out, fn in p.imap_unordered(one, [(t, s, limit) for t, s in jobs], 1):
            rep.functions |= fn
            for k, w, x in out:
                getattr(rep, k)(*((w,) if k == 'ok' else (w, x)))
