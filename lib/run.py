"""Entry point of every check: python3-vt lib/run.py <property id>."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from common import BuildError, Report, load_ir, VERIF  # noqa: E402

H = os.path.join(VERIF, 'harness')
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


KINDS = [(k, k[1] == 'z', lab) for k, lab in (
    ('1z', 'prime,a=0'), ('1n', 'prime,a!=0'), ('2z', 'deg2,a=0'), ('2n', 'deg2,a!=0'), ('3z', 'deg3,a=0'))]

TB_ALG = ['clang 18 front end and its -O1 lowering to LLVM IR', 'lib/llir.py (IR reader)',
          'lib/absint.py (path-partitioned abstract interpreter)', 'lib/alg.py (normal forms of rational expressions)',
          'sympy polynomial arithmetic', 'harness/abstract_field.h (uninterpreted field satisfying the field axioms)']


@check('C01')
def c01(pid):
    import points
    mod = load_ir(os.path.join(H, 'points.cc'), extra=['-DVERIF_MORE'])
    rep = Report(pid)
    points.run_group_law(mod, rep, KINDS)
    rep.floor('obligations', rep.obligations, 900)
    return rep.finish(
        rule='for every point system, operation and case of the group law (P+Q, P+P, P+(-P), O+Q, P+O, O+O, 2-torsion), '
             'the abstract value of the returned coordinates equals the chord-and-tangent formula for all field values',
        trusted=TB_ALG)


@check('C02')
def c02(pid):
    import points
    mod = load_ir(os.path.join(H, 'points.cc'), extra=['-DVERIF_MORE'])
    rep = Report(pid)
    points.run_repr(mod, rep, KINDS)
    rep.floor('obligations', rep.obligations, 700)
    return rep.finish(
        rule='conversion, equality, identity test, normalisation, curve membership and decompression of every point '
             'system denote the same affine point for all field values',
        trusted=TB_ALG)


def load_plugins():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('chk_') and f.endswith('.py'):
            __import__(f[:-3])


def main():
    pid = sys.argv[1]
    sys.modules['run'] = sys.modules['__main__']
    load_plugins()
    if pid not in CHECKS:
        print('unknown property', pid)
        return 2
    try:
        return CHECKS[pid](pid)
    except BuildError as e:
        print('check broken: harness does not compile against the current tree:\n%s' % str(e)[:4000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
