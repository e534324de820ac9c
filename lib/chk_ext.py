import os
from run import check, H, TB_ALG
from common import Report, load_ir


@check('C03')
def c03(pid):
    import ext
    mod = load_ir(os.path.join(H, 'ext.cc'), extra=['-fno-access-control'])
    rep = Report(pid)
    ext.run_arith(mod, rep)
    ext.run_cfgs(load_ir(os.path.join(H, 'extcfg.cc'), extra=['-fno-access-control'], fresh=True), rep)
    rep.floor('obligations', rep.obligations, 300)
    return rep.finish(rule='every operation of every extension-field class (both Fp2 multiplication strategies, Fp3, Fp4 direct and over Fp2, Fp6 over Fp2/Fp3, Fp12), value-returning, in-place and self-aliased, yields the coefficients of the ring operation in F[x]/(x^n - q) for all coefficient values; sparse and cyclotomic shortcuts equal the general product on their domain; generated MulByNonResidue equals multiplication by the configured non-residue', trusted=TB_ALG)


@check('C04')
def c04(pid):
    import ext
    mod = load_ir(os.path.join(H, 'ext.cc'), extra=['-fno-access-control'])
    rep = Report(pid)
    ext.run_frob(mod, rep)
    rep.floor('obligations', rep.obligations, 60)
    return rep.finish(rule='FrobeniusMap/FrobeniusMapInPlace(e) of every tower level maps x to x^(p^e) for every e, the coefficient tables that Init builds are the claimed powers of the non-residue, and norm/conjugate/inverse shortcuts built on it agree with the field', trusted=TB_ALG)


@check('C05')
def c05(pid):
    import params
    rep = Report(pid)
    F = params.check_fields(load_ir(os.path.join(H, 'params.cc'), fresh=True), rep)
    cm = load_ir(os.path.join(H, 'curves.cc'), extra=['-fno-access-control'], fresh=True)
    params.check_curves(cm, rep, F)
    params.check_circles(cm, rep, F)
    NR = params.check_towers(load_ir(os.path.join(H, 'extcfg.cc'), extra=['-fno-access-control'], fresh=True), rep, F)
    params.check_pairing(cm, rep, F, NR)
    rep.floor('obligations', rep.obligations, 200)
    return rep.finish(rule='every constant of every generated prime field, tower, curve, circle and pairing configuration, as the current generators, templates and declarations produce it, satisfies its defining equation in exact integer arithmetic', trusted=TB_ALG + ['exact integer arithmetic and Miller-Rabin in Python'])
