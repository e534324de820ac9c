import os
import signal
import time
from multiprocessing import Pool

from run import check, H, TB_ALG
from common import Report, load_ir

MODS = {}


def task(a):
    kind, var, arg, limit = a
    import bigint
    import words
    r = Report('C07')

    def stop(*_):
        raise TimeoutError
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(limit)
    tag = 'intrinsics/' if var else ''
    try:
        if kind == 'field':
            words.check_fields(MODS[kind, var], r, [arg], tag)
        else:
            bigint.check_bigint(MODS[kind, var], r, arg, os.environ.get('VERIF_TIER') == 'thorough', tag)
    except TimeoutError:
        r.unk('%s%s' % (tag, arg), 'time budget for this field used up')
    except RecursionError:
        r.unk('%s%s' % (tag, arg), 'expression depth')
    finally:
        signal.alarm(0)
    return r.obligations, r.discharged, r.viol, r.undecided, r.samples, r.functions, r.known_hit


def merge(rep, parts):
    for o, d, v, u, s, f, k in parts:
        rep.obligations += o
        rep.discharged += d
        rep.viol += v
        rep.undecided += u
        rep.known_hit += k
        rep.functions |= f
        if len(rep.samples) < 12:
            rep.samples += s[:1]


@check('C07')
def c07(pid):
    import bigint
    import words
    rep = Report(pid)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    for var in (0, 1):
        ex = ['-DVERIF_INTRIN'] if var else []
        MODS['field', var] = load_ir(os.path.join(H, 'fields.cc'), extra=ex, fresh=True)
        MODS['big', var] = load_ir(os.path.join(H, 'bigint.cc'), extra=ex + ['-DVERIF_N'])
    heavy = ['bls12_381_fq', 'bn384_fq', 'bn384_fr', 'secp256k1_fq', 'secp256k1_fr']
    ids = heavy + [i for i in words.PRIMES if i not in heavy]
    tasks = [('field', 0, i, 2000 if deep else 500) for i in ids]
    tasks += [('field', 1, i, 2000 if deep else 300) for i in ids if deep or i not in heavy or i in ('secp256k1_fr', 'bls12_381_fq')]
    tasks += [('big', v, n, 600) for n in bigint.SIZES for v in (0, 1)]
    tasks.sort(key=lambda t: not (t[0] == 'field' and t[2] in heavy))
    with Pool(8) as p:
        merge(rep, p.map(task, tasks, chunksize=1))
    rep.floor('obligations', rep.obligations, 3000)
    return rep.finish(rule='for every canonical input, every path of every prime-field primitive stores limbs whose value lies in [0, p) and is congruent to the field operation mod p (Montgomery factor included), predicates equal the relation on residues or canonical values, and every BigInt<N> primitive stores the exact integer (with carry/borrow, or mod 2^(64N))',
                      trusted=['clang 18 front end and its -O1 lowering to LLVM IR', 'lib/llir.py', 'lib/absint.py',
                               'lib/limb.py (integer-polynomial normal forms with quotient symbols, interval bounds)', 'lib/bits.py'])
