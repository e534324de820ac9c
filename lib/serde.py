"""Binary serialization: write, measure, read back, truncate."""
import os
import re
from alg import Facts
from spec import ModAlg, same
from common import load_ir, VERIF
import jobs
from jobs import run_jobs

ENDIAN = ('native', 'little endian', 'big endian')
WHY = {2: 'cannot be written', 3: 'leaves a buffer longer or shorter than what was written', 4: 'is not as long as EstimateSize says',
       5: 'cannot be written into a buffer of exactly its size', 6: 'does not fill a buffer of exactly its size',
       7: 'is written into a buffer that is too short', 8: 'is read from a buffer cut short', 9: 'cannot be read back',
       10: 'leaves bytes unread'}
INTS = {'bool', 'u8', 'char', 'u16', 'u32', 'i32', 'u64', 'i64', 'c16', 'c32', 'e8', 'e32', 'dimensions', 'sc_vk'}
VALS = {'bool': 1, 'char': 0x41, 'e8': 0x81}
NV = 24


def j_rt(J, mod, name, e, mont):
    A = ModAlg(['R'] + ['x%d' % i for i in range(NV)] + ['P%d' % i for i in range(9)])
    A.params = {9: A.var('R'), **{i: A.var('P%d' % i) for i in range(9)}}
    f = Facts(A)
    f.nz.add(A.g['R'])
    R = A.var('R')
    A.ext = {'sf_to32': lambda st, a, i: a[0], 'sf_mont': lambda st, a, i: A.mul(A.h(a[0]), R),
             'sf_unmont': lambda st, a, i: A.mul(A.h(a[0]), A.inv(R))}
    if name in INTS:
        ins = [VALS.get(name, 0x8182838485868788 - i * 0x0101010101010101) for i in range(4)]
        if name == 'dimensions':
            ins = [0x01020304, 0x05060708]
    elif name in ('big2', 'big4'):
        ins = [0x8182838485868788 + i for i in range(4)]
    else:
        ins = [A.var('x%d' % i) for i in range(NV)]
    what = '%s (%s%s)' % (name, ENDIAN[e], ', Montgomery form' if mont else '')
    for mode in (0, 1):
        cut = 0
        while cut < 2000:
            st = {}

            def check(fc, out):
                r = out.int(0)
                st['r'] = r
                if r == 100:
                    return
                if r != 1:
                    return WHY.get(r, 'fails (%r)' % (r,))
                if cut == 0 and mode == 0:
                    a, b = out.vec(1), out.vec(200)
                    if not a or len(a) != len(b):
                        return 'reads back another number of values'
                    for i, (u, v) in enumerate(zip(a, b)):
                        if not (u == v if isinstance(u, int) and isinstance(v, int) else same(A, fc, u, v)):
                            return 'reads back another value at %d' % i
            w = '%s %s' % (what, 'round trip' if not (cut or mode) else
                           'cut by %d bytes' % cut if not mode else 'into a buffer %d bytes short' % cut)
            J.go(mod, A, w, 'ser_' + name, ins, [e, cut, mode, mont], f, check)
            if st.get('r') == 100 or 'r' not in st or J.out and J.out[-1][0] != 'ok':
                break
            # every cut near either end and at each field boundary matters; all of them when short
            cut += 1 if cut < 9 or name in INTS else 8 if cut % 8 == 0 and not os.environ.get('VERIF_TIER') == 'thorough' else 1
            if cut > 9 and cut % 8 and os.environ.get('VERIF_TIER') != 'thorough':
                cut += 8 - cut % 8


V = 0x8182838485868788
BYTES = {0: 'uint8_t', 1: 'uint16_t', 2: 'uint32_t', 3: 'uint64_t', 4: 'int16_t', 5: 'int32_t', 6: 'int64_t', 7: 'enum', 8: 'vector<uint16_t>',
         9: 'Write16BE', 10: 'Write16LE', 11: 'Write32BE', 12: 'Write32LE', 13: 'Write64BE', 14: 'Write64LE', 15: 'WriteMany',
         16: 'WriteManyAt', 17: 'WriteAt in the middle', 18: 'StringBuffer', 19: 'moved buffer', 20: 'EndianAutoReset', 21: 'buffer of fixed size',
         22: 'string_view', 23: 'u16string_view', 24: 'C string', 25: 'char32_t C string', 26: 'span', 27: 'array'}


def want_bytes(op, e):
    o = 'big' if e == 2 else 'little'
    b = lambda n, v=V, o=o: list((v & ((1 << 8 * n) - 1)).to_bytes(n, o))
    if op <= 6:
        return b((1, 2, 4, 8, 2, 4, 8)[op])
    if op == 7:
        return b(4)
    if op == 8:
        return b(8, 2) + b(2) + b(2, V >> 16)
    if 9 <= op <= 14:
        return b((2, 2, 4, 4, 8, 8)[op - 9], V, 'big' if op % 2 else 'little')
    if op in (15, 16):
        return b(1) + b(4) + b(2)
    if op == 17:
        return [0, 0, 0] + b(4) + [0] * 9
    if op == 18:
        return b(2) + b(8)
    if op == 19:
        return [7] + b(2)
    if op == 20:
        return b(2, V, 'big') + b(2)
    if op in (22, 24):
        return b(8, 3) + list(b'abc')
    if op == 23:
        return b(8, 3) + [0x61, 0, 0x62, 0, 0x34, 0x12]
    if op == 25:
        return b(8, 2) + [0x61, 0, 0, 0, 0x62, 0, 0, 0]
    if op == 26:
        return b(8, 2) + b(2) + b(2, V >> 16)
    if op == 27:
        return b(2) + b(2, V >> 16)
    return b(2) + b(2)


def j_bytes(J, mod, op, e):
    A = ModAlg(['x'])
    w = want_bytes(op, e)

    def check(fc, out):
        n = out.int(0)
        if not n:
            return 'fails'
        g = [out[1 + i] for i in range(n - 1)]
        if len(g) != len(w):
            return 'writes %d bytes instead of %d' % (len(g), len(w))
        for i, (x, y) in enumerate(zip(g, w)):
            if not isinstance(x, int):
                return 'leaves byte %d unset' % i
            if x != y:
                return 'writes a wrong byte %d' % i
    J.go(mod, A, 'bytes of %s (%s)' % (BYTES[op], ENDIAN[e]), 'ser_bytes', [V], [e, op], Facts(A), check)


READS = {0: ('uint8_t', 1), 1: ('uint16_t', 2), 2: ('uint32_t', 4), 3: ('uint64_t', 8), 4: ('int32_t', 4), 5: ('enum', 4), 6: ('Read16BEAt', 2),
         7: ('Read16LEAt', 2), 8: ('Read32BEAt', 4), 9: ('Read32LEAt', 4), 10: ('Read64BEAt', 8), 11: ('Read64LEAt', 8), 12: ('ReadMany', 3),
         13: ('raw bytes', 3), 14: ('ReadPtrAt', 4), 15: ('ReadPtrAt of a huge count', 1 << 64),
         16: ('ReadManyAt', 3), 17: ('array', 4)}


def j_read(J, mod, op, e):
    A = ModAlg(['x'])
    src = [V, 0x9192939495969798, 0xa1a2a3a4a5a6a7a8]
    by = b''.join(x.to_bytes(8, 'little') for x in src)
    name, size = READS[op]
    M = (1 << 64) - 1
    for n in range(0, 19):
        for off in sorted(set(x for x in (0, 1, 2, 3, n - size - 1, n - size, n - size + 1, n - 1, n, n + 1) if 0 <= x < 24)) + [M - size + 1 & M, M, M - 1]:
            ok = off + size <= n
            o = 'big' if e == 2 and (op <= 5 or op == 17) or op in (6, 8, 10) else 'little'
            v = int.from_bytes(by[off:off + size], o) if ok else 0
            if ok and op in (4, 5) and v >> 31:
                v |= 0xffffffff00000000
            if op in (12, 16) and ok:
                v = by[off] | int.from_bytes(by[off + 1:off + 3], 'big' if e == 2 else 'little') << 8
            if op == 17 and ok and e == 2:
                v = v >> 16 | (v & 0xffff) << 16
            if op == 14:
                v = off

            def check(fc, out):
                if bool(out.int(0)) != ok:
                    return 'fails' if ok else 'reads past the end'
                if ok and out.int(1) != v:
                    return 'returns another value'
                if ok and out.int(2) != off + size:
                    return 'leaves the position at %r' % (out[2],)
            J.go(mod, A, '%s at %d of %d bytes (%s)' % (name, off, n, ENDIAN[e]), 'ser_read', src, [n, off, e, op], Facts(A), check)


def run_all(rep, thorough):
    M = {'serde': load_ir(os.path.join(VERIF, 'harness', 'serde.cc'), extra=['-fno-access-control'], fresh=True)}
    jobs.MODS.update(M)
    jobs.FUNCS.update({'ser_rt': j_rt, 'ser_bytes': j_bytes, 'ser_read': j_read})
    names = sorted(n[4:] for n in (f.lstrip('@') for f in M['serde'].funcs) if n.startswith('ser_') and n not in ('ser_bytes', 'ser_read'))
    L = []
    for n in names:
        for e in range(3):
            L.append(('ser_rt', ('serde', n, e, 0)))
        L.append(('ser_rt', ('serde', n, 0, 1)))
    for e in range(3):
        L += [('ser_bytes', ('serde', op, e)) for op in BYTES]
        L += [('ser_read', ('serde', op, e)) for op in READS]
    rep.floor('serializable types', len(names), 40)
    run_jobs(rep, L)
