import os
from run import check
from common import Report


@check('C06')
def c06(pid):
    import pairing
    rep = Report(pid)
    pairing.run(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 150)
    return rep.finish(
        rule='line and step formulas equal tangent/chord algebra; the Miller loop, run on formal points, lines and target '
             'group elements, yields the divisor of the optimal ate function for every pair; the final exponentiation is '
             'exactly a power m(q^12-1)/r with m prime to r; cyclotomic shortcuts only act inside the cyclotomic subgroup',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/pairing.py'])


@check('C08')
def c08(pid):
    import binary
    rep = Report(pid)
    binary.run(rep)
    rep.floor('obligations', rep.obligations, 100000)
    return rep.finish(
        rule='fields of at most 8 bits: every row of every operation, read off the IR and its constant tables, is that of the tower; '
             'wider fields: the tower step equals multiplication modulo X^2 + alpha X + 1 for all operands, and every bit of the word '
             'plumbing is in place',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/bits.py', 'lib/binary.py'])
