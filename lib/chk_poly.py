import os
from run import check
from common import Report


@check('C09')
def c09(pid):
    import domains
    rep = Report(pid)
    domains.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 400)
    return rep.finish(
        rule='for every listed domain size the instantiated code, run on coefficients, offset and point that stand for any field elements, '
             'stores exactly the values of the defining polynomial expressions in a primitive root of unity',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/domains.py'])


@check('C10')
def c10(pid):
    import poly
    rep = Report(pid)
    poly.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 600)
    return rep.finish(
        rule='every polynomial operation, interpreted on coefficients that stand for any field elements (leading coefficients nonzero), returns on every path '
             'the coefficients of the defining polynomial expression in canonical form',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/poly.py'])


@check('C11')
def c11(pid):
    import multi
    rep = Report(pid)
    multi.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 800)
    return rep.finish(
        rule='every operation, interpreted on values and coefficients that stand for any field elements, returns on every path the values of the defining sum; '
             'the verifier accepts exactly the messages whose claims agree',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/multi.py'])


@check('C12')
def c12(pid):
    import serde
    rep = Report(pid)
    serde.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 8000)
    return rep.finish(
        rule='every serializable type, filled with values that stand for any field elements, is written, measured, read back and truncated; '
             'every path must restore the same values from exactly the bytes written, or report failure within bounds',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/serde.py'])


@check('C13')
def c13(pid):
    import groups
    rep = Report(pid)
    groups.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 3000)
    return rep.finish(
        rule='every algorithm, interpreted on generators of a free abelian group (or opaque field elements) and enumerated scalars, returns the linear form or power of the definition',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/groups.py', 'model of GMP integers'])


@check('C14')
def c14(pid):
    import hashes
    rep = Report(pid)
    hashes.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough', True)
    rep.floor('obligations', rep.obligations, 350)
    return rep.finish(
        rule='commitments, openings and verification, interpreted on opaque leaves and an opaque hash function, give on every path the nodes of the defining tree; a proof is accepted exactly when its recomputed root is the commitment',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/hashes.py'])


@check('C15')
def c15(pid):
    import hashes
    rep = Report(pid)
    hashes.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough', False)
    rep.floor('obligations', rep.obligations, 2500)
    return rep.finish(
        rule='every enumerated sequence of calls, interpreted on opaque inputs and an opaque permutation, gives the elements of the defining duplex construction',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/hashes.py'])


@check('C16')
def c16(pid):
    import poseidon
    rep = Report(pid)
    poseidon.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 60)
    return rep.finish(
        rule='Create and Permute, interpreted on opaque states and round constants with the S-box uninterpreted, give the outputs of the textbook round function; matrices applied equal matrices constructed equal the defined ones; generator output and parameter tables equal the references',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/words.py', 'lib/poseidon.py (definitions of both permutations and of the Grain LFSR, digests of the published tables)'])


@check('C17')
def c17(pid):
    import fri
    rep = Report(pid)
    fri.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 55)
    return rep.finish(
        rule='folding, cosets and both FRI schemes, interpreted on opaque values, commitments and challenges, give on every path the rows, openings and transcript of the definition; a proof is accepted exactly when the defining equations, the proof of work and the number of queries hold',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/fri.py'])


@check('C18')
def c18(pid):
    import matrices
    rep = Report(pid)
    matrices.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 260)
    return rep.finish(
        rule='every operation, interpreted on entries that stand for any field elements, returns on every path the entries of its definition',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/matrices.py'])


@check('C19')
def c19(pid):
    import commit
    rep = Report(pid)
    commit.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 150)
    return rep.finish(
        rule='setups, commitments, openings and verifications of KZG, GWC, SHPlonk and Pedersen, interpreted with group elements represented by opaque exponents, give on every path the group elements, transcript and verdict of the definition of the scheme',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/commit.py', 'harness/group_model.h (ideal group, MSM and pairing)'])


@check('C20')
def c20(pid):
    import groth
    rep = Report(pid)
    groth.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 300)
    return rep.finish(
        rule='synthesis, finalization, reduction to a quadratic arithmetic program, key generation, proving, re-randomization and verification of Groth16, interpreted with opaque scalars and group elements represented by their exponents, give on every path the values of the definition',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/groth.py', 'harness/group_model.h (ideal group, MSM and pairing)', 'harness/verif_oset.h (ordered map)'])


@check('C23')
def c23(pid):
    import plonk_args
    rep = Report(pid)
    plonk_args.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 150)
    return rep.finish(
        rule='on every path of the compiled prover, verifier and quotient code of the permutation, lookup and shuffle arguments, over opaque field values, the columns, products, sums, constraints and openings are those of the argument',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/plonk_args.py'])


@check('C22')
def c22(pid):
    import plonk_cs
    rep = Report(pid)
    plonk_cs.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 55)
    return rep.finish(
        rule='after every history of definitions, interpreted from the compiled constraint system, the queries, indices, degrees, blinding factors, lookup arguments and replaced selectors are those the definitions imply',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/plonk_cs.py'])


@check('C21')
def c21(pid):
    import plonk
    rep = Report(pid)
    plonk.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 800)
    return rep.finish(
        rule='expressions, their identifiers, evaluators, compiled calculation graphs, selector replacement and selector combination, interpreted on opaque field values, keep on every path the value of the expression at every row',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/plonk.py'])


@check('C24')
def c24(pid):
    import layout
    rep = Report(pid)
    layout.run_all(rep, os.environ.get('VERIF_TIER') == 'thorough')
    rep.floor('obligations', rep.obligations, 120)
    return rep.finish(
        rule='on every path of the compiled floor planners over circuits with opaque values, regions that share a column or selector are disjoint and every cell, selector, copy, constant and table reaches the assignment at its row with its value',
        trusted=['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py', 'lib/spec.py', 'lib/layout.py', 'harness/layout.cc (any sort, ordered containers)'])
