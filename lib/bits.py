"""Bit-vector domain: every bit of every word is a polynomial over GF(2) in the input bits
(algebraic normal form, a set of monomials); exact for and/or/xor/not, shifts by constants,
extensions, truncations, selects and byte-wise memory; no case splits."""
from absint import Domain, Bool, TOP, UNDEF, Undecided, Ptr

ONE = frozenset([frozenset()])
ZERO = frozenset()
LIMIT = 60000


class B:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def __repr__(self):
        return 'B%d' % len(self.b)


def bxor(a, b):
    return a ^ b


def band(a, b):
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == b:
        return a
    if len(a) * len(b) > LIMIT:
        raise Undecided('bit polynomial too large')
    out = set()
    for x in a:
        for y in b:
            out ^= {x | y}
    return frozenset(out)


def var(i):
    return frozenset([frozenset([i])])


class BitDom(Domain):
    merge = True

    def __init__(self):
        self.nv = 0

    def word(self, bits):
        r = B([var(self.nv + i) for i in range(bits)])
        self.nv += bits
        return r

    def of(self, x, bits):
        if isinstance(x, B):
            b = x.b[:bits]
            return b + (ZERO,) * (bits - len(b))
        if isinstance(x, int):
            return tuple(ONE if x >> i & 1 else ZERO for i in range(bits))
        return None

    def out(self, b):
        v = 0
        for i, x in enumerate(b):
            if x == ONE:
                v |= 1 << i
            elif x != ZERO:
                return B(b)
        return v

    def binop(self, st, op, bits, a, b, inst=None):
        x, y = self.of(a, bits), self.of(b, bits)
        if x is None or y is None:
            return TOP
        if op == 'xor':
            return self.out([bxor(p, q) for p, q in zip(x, y)])
        if op == 'and':
            return self.out([band(p, q) for p, q in zip(x, y)])
        if op == 'or':
            return self.out([bxor(bxor(p, q), band(p, q)) for p, q in zip(x, y)])
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
            if b >= bits:
                return UNDEF
            if op == 'shl':
                return self.out(((ZERO,) * b + x)[:bits])
            f = x[-1] if op == 'ashr' else ZERO
            return self.out(x[b:] + (f,) * b)
        if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            k, w = (a, y) if isinstance(a, int) else (b, x)
            if k and k & (k - 1) == 0:
                s = k.bit_length() - 1
                return self.out(((ZERO,) * s + w)[:bits])
        if op in ('udiv', 'urem') and isinstance(b, int) and b and b & (b - 1) == 0:
            s = b.bit_length() - 1
            return self.out(x[s:] + (ZERO,) * s) if op == 'udiv' else self.out(x[:s] + (ZERO,) * (bits - s))
        if op == 'add' and all(not p or not q for p, q in zip(x, y)):
            return self.out([bxor(p, q) for p, q in zip(x, y)])
        if op in ('add', 'sub'):
            out, c = [], ONE if op == 'sub' else ZERO
            for p, q in zip(x, y):
                q = bxor(q, ONE) if op == 'sub' else q
                out.append(bxor(bxor(p, q), c))
                c = bxor(band(p, q), band(c, bxor(p, q)))
            return self.out(out)
        return TOP

    def cast(self, st, op, t, v, t2):
        if not isinstance(v, B):
            return TOP
        if op in ('zext', 'trunc'):
            return self.out(self.of(v, t2.bits))
        if op == 'sext':
            x = self.of(v, t.bits)
            return self.out(x + (x[-1],) * (t2.bits - t.bits))
        return TOP

    def icmp(self, st, pred, t, a, b):
        if pred in ('eq', 'ne'):
            x, y = self.of(a, t.bits), self.of(b, t.bits)
            if x is None or y is None:
                return TOP
            e = ONE
            for p, q in zip(x, y):
                e = band(e, bxor(bxor(p, q), ONE))
            if pred == 'ne':
                e = bxor(e, ONE)
            return self.out((e,))
        if pred in ('slt', 'sge') and isinstance(b, int) and b == 0:
            x = self.of(a, t.bits)
            return self.out((x[-1] if pred == 'slt' else bxor(x[-1], ONE),))
        if pred in ('sgt', 'sle') and isinstance(b, int) and b == (1 << t.bits) - 1:
            x = self.of(a, t.bits)
            return self.out((x[-1] if pred == 'sle' else bxor(x[-1], ONE),))
        if pred in ('ult', 'ugt', 'ule', 'uge'):
            x, y = self.of(a, t.bits), self.of(b, t.bits)
            if x is None or y is None:
                return TOP
            c = ZERO if pred in ('ult', 'ugt') else ONE
            if pred in ('ugt', 'uge'):
                x, y = y, x
            if pred in ('uge', 'ule'):
                pass
            for p, q in zip(x, y):      # c: x < y (or <=) on the bits so far
                d = bxor(p, q)
                c = bxor(band(d, q), band(bxor(d, ONE), c))
            return self.out((c,))
        return TOP

    def select_unknown(self, st, c, a, b, ty):
        if isinstance(c, B) and isinstance(a, (int, B)) and isinstance(b, (int, B)):
            n = ty.bits
            x, y = self.of(a, n), self.of(b, n)
            return self.out([bxor(q, band(c.b[0], bxor(p, q))) for p, q in zip(x, y)])
        raise Undecided('select on unknown value')

    def partial_load(self, st, o, off, sz):
        out = ()
        pos = off
        while pos < off + sz:
            hit = None
            for k, (v, s) in o.items():
                if k <= pos < k + s:
                    hit = (k, v, s)
                    break
            if hit is None:
                return UNDEF
            k, v, s = hit
            x = self.of(v, 8 * s)
            if x is None:
                return TOP
            n = min(k + s, off + sz) - pos
            out += x[8 * (pos - k):8 * (pos - k + n)]
            pos += n
        return self.out(out)

    def intrinsic(self, st, n, bits, a, inst):
        base = n.split('.')[1]
        if base in ('fshl', 'fshr') and isinstance(a[2], int):
            x, y = self.of(a[1], bits), self.of(a[0], bits)
            if x is None or y is None:
                return TOP
            s = a[2] % bits
            z = x + y
            return self.out(z[bits - s:2 * bits - s] if base == 'fshl' else z[s:s + bits])
        if base in ('bswap', 'bitreverse'):
            x = self.of(a[0], bits)
            if x is None:
                return TOP
            if base == 'bitreverse':
                return self.out(x[::-1])
            return self.out(sum((x[i:i + 8] for i in range(bits - 8, -1, -8)), ()))
        return TOP

    def call(self, st, name, args, inst):
        return NotImplemented
