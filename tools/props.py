EC = 'tachyon/math/elliptic_curves/short_weierstrass/'
ALG_NOTE = ('Abstract interpretation of the LLVM IR of the current source, instantiated with an uninterpreted field: every value is a '
            'normal form in the fraction field of a polynomial ring, paths are partitioned by the zero tests of the code. Holds for '
            'every field value of every prime characteristic > 3; trusts clang lowering, the interpreter and sympy normal forms. '
            'Paths the interpreter cannot decide are listed as undecided in the evidence and never reported.')

prop('C01', 'Point addition, subtraction, doubling and negation obey the group law',
     'For every pair of points of a short Weierstrass curve, in every coordinate system the library offers (affine, projective, Jacobian, XYZZ) '
     'and in every mixed combination with affine points, addition, subtraction, doubling and negation return a representative of the '
     'chord-and-tangent result. This includes every special case: either operand the identity, equal operands, opposite operands, a point of order two, '
     'operands that share an x coordinate, arbitrary non-normalised representatives, and both a = 0 and a != 0 curves. '
     'The in-place forms, also when an operand is added to itself, give the same point as the value-returning forms.',
     ['inputs', 'configurations'],
     'all points, all representatives (all z), all curve coefficients, base fields of extension degree 1, 2 and 3',
     'The tests try a handful of random points on one a=0 curve; special z values, a != 0 doublings and coincidences of operands are reached by measure-zero inputs only.',
     [EC + f for f in ('affine_point.h', 'projective_point.h', 'projective_point_impl.h', 'jacobian_point.h', 'jacobian_point_impl.h', 'point_xyzz.h', 'point_xyzz_impl.h', 'affine_point_impl.h')],
     [('coordinate formulas', EC + '*_impl.h'), ('identity / doubling dispatch', EC + '*_impl.h')],
     technique='abstract interpretation of LLVM IR over an uninterpreted field (normal forms, path partitioning)', note=ALG_NOTE)

prop('C02', 'Point conversions, equality and curve membership agree with the affine point',
     'Converting a point between affine, projective, Jacobian and XYZZ coordinates, in any direction, yields a representative of the same point, and the '
     'identity converts to the identity. Equality, inequality, the identity test and the curve membership test answer for the denoted point, whatever representative is stored. '
     'Decompression from an x coordinate succeeds exactly when x^3 + ax + b is a square and returns the root with the requested parity, and the curve endomorphism '
     'multiplies the x coordinate of any representative by the configured coefficient.',
     ['inputs', 'configurations'],
     'all points and representatives, all curve coefficients',
     'Tests convert a few random points; a shortcut taken only for particular z values, or a comparison wrong only for particular pairs of representatives, is not sampled.',
     [EC + f for f in ('affine_point.h', 'projective_point.h', 'jacobian_point.h', 'point_xyzz.h', 'sw_curve.h')],
     [('ToAffine/ToProjective/ToJacobian/ToXYZZ', EC), ('operator==', EC), ('GetPointFromX', EC + 'sw_curve.h')],
     technique='abstract interpretation of LLVM IR over an uninterpreted field (normal forms, path partitioning)', note=ALG_NOTE)

FF = 'tachyon/math/finite_fields/'
prop('C03', 'Extension field arithmetic is arithmetic modulo the irreducible binomial',
     'For every tower the library offers (Fp2, Fp3, Fp4, Fp6 and Fp12 over their base fields) and all elements, addition, subtraction, negation, doubling, '
     'multiplication, squaring, inversion and multiplication by a base-field element give the coefficients of the same operation in F[x]/(x^n - q). The in-place forms, '
     'also when an element is combined with itself, agree with the value-returning forms, and the sparse and cyclotomic shortcuts agree with the general product '
     'on every element of their domain. The inverse of zero is reported as absent.',
     ['inputs', 'configurations'],
     'all coefficient values, all base fields and non-residues (symbolic), all generated tower configurations',
     'The tests multiply a few random elements of towers with small non-residues; aliasing, configurations no test instantiates (quadratic Karatsuba, generic non-residues) and inverses with vanishing coefficients are not reached.',
     [FF + f for f in ('quadratic_extension_field.h', 'cubic_extension_field.h', 'quartic_extension_field.h', 'fp2.h', 'fp3.h', 'fp4.h', 'fp6.h', 'fp12.h', 'extension_field_base.h')],
     [('extension field products, squares, inverses', FF), ('MulInPlaceBy034 / MulInPlaceBy014 / sparse products', FF + 'fp12.h'), ('CyclotomicSquare', FF)],
     technique='abstract interpretation of LLVM IR over an uninterpreted field (normal forms, path partitioning)', note=ALG_NOTE)

prop('C04', 'The Frobenius map of every tower is raising to the p-th power',
     'For every tower (Fp2, Fp3, Fp4, Fp6, Fp12) and every exponent e, FrobeniusMap(e) and its in-place form map x to x^(p^e) where p is the characteristic, '
     'using coefficient tables that really are the powers of the non-residue they stand for. The norm, the conjugate and the inverses computed through them are those of the field extension.',
     ['inputs', 'configurations'],
     'all elements, all exponents e modulo the degree, symbolic non-residues and characteristic',
     'Tests compare against x^p for a few elements of the towers of one or two curves, and not for every level and exponent; most tower levels have no Frobenius test.',
     [FF + f for f in ('quadratic_extension_field.h', 'cubic_extension_field.h', 'quartic_extension_field.h', 'fp2.h', 'fp3.h', 'fp4.h', 'fp6.h', 'fp12.h')],
     [('FrobeniusMapInPlace', FF), ('kFrobeniusCoeffs tables built by Init', FF + 'fp*.h')],
     technique='abstract interpretation of LLVM IR over an uninterpreted field (normal forms, path partitioning)', note=ALG_NOTE)

prop('C05', 'Generated field, tower, curve and pairing parameters are the right numbers',
     'For every prime field, extension tower, curve, circle group and pairing configuration that the build generates, each constant satisfies its definition: '
     'the modulus and its derived values (bits, trace, Montgomery radices, inverses, one, minus one, one half), roots of unity of exactly the advertised order tied to a generator of the multiplicative group, '
     'irreducible tower polynomials, generators on their curve with the order of the scalar field, GLV endomorphism, eigenvalue and lattice, and ate-loop digits and twist constants. '
     'Every declared configuration yields usable headers and the output does not vary between runs of the generator.',
     ['configurations'],
     'all 19 generated prime fields, 13 towers, 7 curves, 2 circle groups and 2 pairing configurations, each constant',
     'The tests use a few of the constants indirectly on one or two curves; constants of the other configurations, two-adic roots at other sizes and GLV rows are never confronted with their definitions.',
     ['tachyon/math/finite_fields/generator', 'tachyon/math/elliptic_curves/short_weierstrass/generator', 'tachyon/math/elliptic_curves/bn/generator', 'tachyon/math/elliptic_curves/bls12/generator', 'tachyon/math/circle/generator', 'tachyon/math/base/gmp/gmp_util.cc', 'tachyon/math/finite_fields/modulus.h'],
     [('prime field constants', FF + 'generator/prime_field_generator/prime_field_generator.cc'), ('Montgomery constants', FF + 'modulus.h'), ('curve constants', EC + 'generator/generator.cc'), ('NAF of the ate loop', 'tachyon/math/elliptic_curves/bn/generator/generator.cc')],
     technique='constants of the compiled IR (headers regenerated from the current generators) checked against their number-theoretic definitions',
     note='The generated headers are build products: the check regenerates them with the repository build rules, compiles the configuration classes and reads every constant from the IR by abstract interpretation; the decision is exact integer arithmetic over those constants. Group orders are only factored up to their known small prime factors.')

MB = 'tachyon/math/base/'
prop('C07', 'Prime field and big integer operations are exact on machine words',
     'For every generated prime field and all canonical operands, addition, subtraction, negation, doubling, multiplication, squaring and the conversions to and from big integers '
     'return the canonical representative in [0, p) of the residue they denote, in value-returning, in-place and self-aliased form, and the comparison and zero/one predicates agree with those residues. '
     'For every width BigInt<N> sums, differences (with their carry or borrow), products, doublings, shifts, bitwise operations, bit extraction, comparisons and byte or bit conversions '
     'are exact, whichever carry primitive (compiler builtin or intrinsic) is compiled in.',
     ['inputs', 'configurations'],
     'all limb values; 18 prime fields; BigInt<N> for N in 1..6 and 8; every shift amount and bit position for N <= 2 (all N in the thorough tier) and the word boundaries otherwise',
     'Random elements almost never sit at the carry, clamp and word boundaries where limb code fails, and the tests compile only one of the carry primitives.',
     [MB + 'big_int.h', MB + 'arithmetics.h', FF + 'prime_field_fallback.h', FF + 'small_prime_field.h', FF + 'small_prime_field_mont.h', FF + 'generator/prime_field_generator'],
     [('Montgomery multiplication and reduction', FF + 'prime_field_fallback.h'), ('BigInt limb loops', MB + 'big_int.h'), ('carry primitives', MB + 'arithmetics.h')],
     technique='abstract interpretation of LLVM IR with integer-polynomial limb values, explicit quotients and interval bounds',
     note='Every operation is analysed over symbolic limbs: sums and products are integer polynomials, each truncation introduces a quotient with its defining equation, and range and congruence of the stored words are decided by eliminating quotients. Operands are assumed canonical (below the modulus). Not covered: inversion loops, BigInt division, and N = 7.')

PR = EC + 'pairing/'
prop('C06', 'Pairings are the bilinear non-degenerate optimal ate pairing',
     'For BN and BLS12 curves with either twist, the multi-pairing of any list of point pairs (any length, identity points in either argument at any position, prepared or affine second arguments) is the product of the individual optimal ate pairings, '
     'each line and point step of the Miller loop being the tangent or chord through the untwisted points. '
     'Final exponentiation raises every nonzero element to a fixed power m(q^12-1)/r with m prime to r, so results have order dividing r, and the cyclotomic shortcuts are used only on elements of the cyclotomic subgroup.',
     ['inputs', 'configurations'],
     'all points of the prime order subgroups; lists of 0 to 7 pairs with identity patterns (chunk size is 4); bn254, bls12_381 and three further family members including negative parameter and the other twist',
     'The tests pair one or two random points of one curve; identity points among several pairs, more pairs than a chunk, negative family parameters and the other twist are never run, and a wrong but self-consistent multiplier is invisible to a bilinearity test of one sample.',
     [PR + 'g2_projective.h', PR + 'pairing_friendly_curve.h', PR + 'pairing.h', EC + 'bn/bn_curve.h', EC + 'bn/g2_prepared.h', EC + 'bls12/bls12_curve.h', EC + 'bls12/g2_prepared.h', FF + 'cyclotomic_multiplicative_subgroup.h'],
     [('MultiMillerLoop and FinalExponentiation', EC + 'bn/bn_curve.h'), ('G2Prepared::From', EC + 'bn/g2_prepared.h'), ('line coefficients', PR + 'g2_projective.h'), ('sparse evaluation', PR + 'pairing_friendly_curve.h')],
     technique='abstract interpretation of LLVM IR: algebraic normal forms for the steps, divisors of formal points for the loop, exact exponents for the final power',
     note='The Miller loop is run over formal points Z[pi] Q_i and formal lines whose divisor (modulo verticals, which the final exponentiation kills) is tracked; the final exponentiation runs over exponents modulo q^12-1. Sequential (non OpenMP) chunk order is analysed; the field operations below are C03/C04 and twist constants are C05.')

BF = FF + 'binary_fields/'
prop('C08', 'Binary tower field arithmetic is that of the tower of quadratic extensions',
     'For the binary fields of 1, 2, 4, 8, 16, 32, 64 and 128 bits and all elements, addition, subtraction, negation, doubling, multiplication, squaring and multiplication by alpha '
     'give the element of the tower GF(2)[X0][X1]... with X_k^2 = alpha_k X_k + 1 whose bits are stored in the word, the two halves of a word being the subfield coefficients. '
     'Inversion returns the element whose product with the operand is one and reports absence exactly for zero.',
     ['inputs', 'configurations'],
     'all element pairs of the fields up to 8 bits; all operands of the tower step for 16, 32, 64 and 128 bits',
     'The tests draw one random element per field, never an element of a subfield or with a zero half, do not instantiate the 128 bit field, and compare the operations only with each other, so a wrong table row or a consistent but different tower goes unseen.',
     [BF + 'binary_field.h', BF + 'binary_tower_operations.h', BF + 'binary_fields.h'],
     [('lookup tables and tower step', BF + 'binary_tower_operations.h'), ('word representation', BF + 'binary_field.h')],
     technique='abstract interpretation of LLVM IR: enumeration of the constant tables, normal forms over an uninterpreted subfield of characteristic two, bit-level normal forms for the word plumbing',
     note='The tables are decided row by row from the compiled constants; the tower step is decided for an uninterpreted subfield. Irreducibility of each quadratic is computed in the reference tower. The order comparison is covered for the fields up to 8 bits.')

PU = 'tachyon/math/polynomials/univariate/'
prop('C09', 'Evaluation domains transform, interpolate and index by the domain they describe',
     'For every radix-2 and mixed-radix evaluation domain and coset, FFT of a polynomial of any degree below the size (with any number of coefficients) gives its values at offset*g^i in order, IFFT gives the unique normalized interpolating polynomial, and the batch transforms and coset low-degree extension do the same per matrix column in the requested order. '
     'GetElement(s), Lagrange coefficients (all or a range, at points inside and outside the domain), the vanishing polynomial and the filter polynomial of a subdomain are those of the same point set. '
     'Results do not depend on which domains or twiddle tables were created before.',
     ['inputs', 'configurations', 'history'],
     'all coefficient vectors, offsets and evaluation points; sizes 1 to 16 (radix 2, 32 when thorough) and 2^a 3^b up to 18 (36 when thorough); batch transforms up to 16 rows with 0 to 2 added bits',
     'The tests sample random polynomials on domains with offset one or one generator; mixed radix sizes divisible by the small base, coset filter polynomials, ranges of Lagrange coefficients at domain points, bit reversed extension through the lvalue overload and a domain created after a packed-only table were all never exercised (each hid a defect).',
     [PU + 'univariate_evaluation_domain.h', PU + 'radix2_evaluation_domain.h', PU + 'mixed_radix_evaluation_domain.h', PU + 'radix2_twiddle_cache.h', PU + 'two_adic_subgroup.h', PU + 'evaluations_utils.h'],
     [('Lagrange, vanishing, filter, elements', PU + 'univariate_evaluation_domain.h'), ('radix-2 transforms and coset extension', PU + 'radix2_evaluation_domain.h'), ('mixed radix transforms', PU + 'mixed_radix_evaluation_domain.h'), ('twiddle cache', PU + 'radix2_twiddle_cache.h')],
     technique='abstract interpretation of LLVM IR over the repository\'s own field hierarchy with uninterpreted arithmetic; normal forms over the cyclotomic integers compared with the defining sums',
     note='Coefficients are reduced modulo one large prime, where a primitive root of unity exists: an identity over the cyclotomic integers holds there, so an alarm is a real mismatch. Sizes beyond the listed ones and OpenMP variants of the loops are not decided. The hash map of the twiddle cache is replaced by a linear-search model with the same interface.')

prop('C10', 'Univariate polynomial operations compute the polynomial they denote',
     'Sums, differences, products, scalar multiples, quotients and remainders of dense and sparse univariate polynomials in every combination (copying and in place, operands aliased), folding, evaluation at any point, conversion between representations, construction from roots and Lagrange interpolation give the coefficients of the defining expression, '
     'with no zero leading coefficient in dense and no zero or unsorted term in sparse results. Division by a zero polynomial or scalar is reported as failure, and only that is. '
     'Evaluation-form arithmetic is pointwise, empty standing for zero.',
     ['inputs', 'configurations'],
     'all coefficients, points and scalars, including those where coefficients cancel; up to 4 coefficients or terms per binary operand, degrees up to 31 for sparse evaluation, up to 8 coefficients for unary operations; one and three chunks',
     'The tests use fixed small polynomials over a field of seven elements and random ones; cancellation inside sparse folding, aliasing, zero operands of each representation and odd lengths are sampled at most once, and chunked evaluation is never compared.',
     [PU + 'univariate_polynomial.h', PU + 'univariate_polynomial_ops.h', PU + 'univariate_dense_coefficients.h', PU + 'univariate_sparse_coefficients.h', PU + 'univariate_evaluations.h', PU + 'univariate_evaluations_ops.h', PU + 'lagrange_interpolation.h'],
     [('dense and sparse operations', PU + 'univariate_polynomial_ops.h'), ('evaluation-form operations', PU + 'univariate_evaluations_ops.h'), ('interpolation', PU + 'lagrange_interpolation.h')],
     technique='abstract interpretation of LLVM IR: every path with coefficients standing for arbitrary field elements, normal forms compared with coefficient arithmetic',
     note='Each path condition (a coefficient vanishing, a cancellation) becomes a fact in the normal form, so canonical form of results is decided too. The chunked paths are analysed with a constant thread count of three, chunks visited in order. The zero dividend remainder is a known finding.')

MU = 'tachyon/math/polynomials/multivariate/'
SK = 'tachyon/crypto/sumcheck/multilinear/'
prop('C11', 'Multilinear, multivariate and sumcheck results equal their defining sums',
     'Multilinear extensions (pointwise operations, partial and full evaluation, equality, empty standing for zero) and sparse multivariate polynomials (sums, differences, negation, evaluation, lookup, degree, equality; terms canonical and sorted) give what the represented polynomial gives, and operands of different sizes or points of the wrong length are rejected. '
     'A linear combination sums and evaluates the products of exactly the tables its terms name; the sumcheck prover sends in round i the values at 0..d of the sum over the remaining variables with earlier variables fixed to the challenges. '
     'The sumcheck verifier accepts exactly when every round message agrees with the running claim, then returns the challenges in order and the interpolated claim; honest runs are accepted for all challenges.',
     ['inputs', 'history'],
     'all values, coefficients, points, challenges and (dishonest) messages; tables of up to 16 values, up to 4 terms in 3 variables, combinations of up to 3 terms of degree 4 in 3 variables, verifiers of up to 3 rounds and 4 evaluations; one and three chunks',
     'The tests use fixed polynomials without mixed monomials sharing their last variable, never let all terms cancel, never evaluate a sum, and only run honest sumcheck provers over a field of seven elements where interpolation is mostly skipped; no rejected transcript is tested.',
     [MU + 'multilinear_dense_evaluations.h', MU + 'multilinear_extension_ops.h', MU + 'multivariate_sparse_coefficients.h', MU + 'multivariate_polynomial_ops.h', MU + 'linear_combination.h', MU + 'linear_combination_term.h',
      SK + 'sumcheck_prover.h', SK + 'sumcheck_verifier.h', SK + 'multilinear_sumcheck.h', SK + 'sumcheck_proving_key.h'],
     [('multilinear extensions', MU + 'multilinear_extension_ops.h'), ('multivariate polynomials', MU + 'multivariate_polynomial_ops.h'), ('sumcheck soundness', SK + 'sumcheck_verifier.h'), ('sumcheck messages', SK + 'sumcheck_prover.h')],
     technique='abstract interpretation of LLVM IR: every path with values, coefficients, challenges and prover messages standing for arbitrary field elements, normal forms compared with the defining sums',
     note='A challenge that is a small integer takes its own path (the interpolation shortcut). The hash map of the linear combination is replaced by a linear-search model. Soundness error over random challenges is not a property of one run and is not decided.')

BB = 'tachyon/base/buffer/'
prop('C12', 'Serialized values read back equal and truncated buffers are rejected',
     'Every serializable value (integers, enums, strings of any character type, arrays, vectors, big integers, fields and extensions, points, matrices, polynomials, '
     'hash configurations and states, Merkle trees, sumcheck, FRI and commitment scheme objects, argument data) written to a buffer occupies exactly the EstimateSize bytes and reads back equal, '
     'consuming exactly those bytes, in every byte order and with or without Montgomery form. '
     'A read of an encoding cut anywhere, or at any offset where the value does not fit, fails without touching memory outside the buffer; a buffer that cannot grow refuses writes that do not fit. '
     'Integers are stored in the selected byte order, and the positional, multi-value and pointer accessors address exactly the stated bytes.',
     ['inputs', 'configurations'],
     'all field values; representative shapes of 80 serializable types, 3 byte orders, both field encodings; every cut of short encodings and every 8th of long ones (all in the thorough tier); offsets up to 2^64-1',
     'Tests write and read one value of some types in native order; field order, size estimates, truncation at each position, fixed buffers, wide strings and offsets that overflow are not covered.',
     [BB + 'buffer.h', BB + 'buffer.cc', BB + 'read_only_buffer.h', BB + 'read_only_buffer.cc', BB + 'vector_buffer.h', BB + 'copyable.h', 'tachyon/math', 'tachyon/crypto', 'tachyon/zk/plonk/halo2/argument_data.h'],
     [('Copyable<T>::WriteTo/ReadFrom/EstimateSize', 'tachyon'), ('bounds checks', BB + 'read_only_buffer.cc')],
     technique='abstract interpretation of LLVM IR over opaque field values and exact memory bounds (write, read back, truncate)',
     note='Container sizes are small and fixed; contents are opaque. Encodings with hostile length prefixes (a length larger than memory) are out of scope. std::string members are instantiated from libstdc++ headers.')

MB = 'tachyon/math/base/'
MSM = 'tachyon/math/elliptic_curves/msm/'
prop('C13', 'Powers, scalar multiples, batch inverses and MSMs equal their definition',
     'For every group element and exponent or scalar, Pow, ScalarMul (plain, constant, with a table, GLV), successive powers and multiples in natural or bit-reversed order, and linear combinations give the defining power or sum. '
     'Batch inversion, in place or not, inverts every nonzero element, maps zero to zero and scales by the coefficient. '
     'Every multi-scalar multiplication (Pippenger with signed or unsigned digits, its adapter in every strategy, fixed base tables, pairwise multiples) returns the defining sum or multiples, for every number of terms including none where allowed, and reports arguments of mismatched size as failure.',
     ['inputs', 'configurations'],
     'all group and field elements; all scalars of 7, 8 and 9 bit fields and boundary patterns (windows, carries, limbs, extremes) of 31 to 256 bit fields; up to 7 terms with window size 3 and 31 to 33 (64 thorough) terms with larger windows; one and three chunks or threads',
     'The tests use random scalars of one curve, for which window boundary carries, zero halves of a GLV decomposition, zero elements in a batch, prefilled outputs and uneven chunks are never or hardly met.',
     [MB + 'semigroups.h', MB + 'groups.h', MB + 'bit_iterator.h', MSM + 'fixed_base_msm.h', MSM + 'variable_base_msm.h', MSM + 'glv.h', MSM + 'msm_ctx.h', MSM + 'algorithms/pippenger/pippenger.h', MSM + 'algorithms/pippenger/pippenger_base.h',
      MSM + 'algorithms/pippenger/pippenger_adapter.h', 'tachyon/base/parallelize.h'],
     [('powers and multiples', MB + 'semigroups.h'), ('batch inversion', MB + 'groups.h'), ('Pippenger', MSM + 'algorithms/pippenger/pippenger.h'), ('fixed base', MSM + 'fixed_base_msm.h')],
     technique='abstract interpretation of LLVM IR over opaque group elements (linear forms) with enumerated scalars',
     note='Group elements are generators of a free abelian group, so a result is right for every group; scalars are enumerated. GMP integers are modelled exactly. Thread schedules are covered only as visiting chunks in order: iterations of one parallel region write disjoint elements.')

MK = 'tachyon/crypto/commitments/merkle_tree/'
prop('C14', 'Merkle commitments open to committed rows and verify only against their root',
     'Committing to leaves, or to matrices of several heights over a prime or extension field, yields the root of the defining hash tree: rows of equal height are hashed together in the order given, shorter matrices are injected at their level, missing rows are padded with the zero digest. '
     'An opening carries exactly the opened rows and the sibling digests of its path, and verification accepts exactly when the root recomputed from rows, index and siblings is the commitment (and, for matrices, the path is as long as the tree is high). '
     'A number of leaves that is zero, not a power of two or above the maximum is refused.',
     ['inputs', 'configurations'],
     'all leaves and matrix entries, all (dishonest) proofs and commitments, any hash function; up to 16 leaves with every subtree size, 20 sets of up to 6 matrices of up to 8 rows, every row that exists',
     'Tests use one hash and a few fixed sizes (most are not built here); padding of odd heights, remainders of the packing width, single leaves and forged siblings are not met.',
     [MK + 'binary_merkle_tree/binary_merkle_tree.h', MK + 'field_merkle_tree/field_merkle_tree.h', MK + 'field_merkle_tree/field_merkle_tree_mmcs.h', MK + 'field_merkle_tree/extension_field_merkle_tree_mmcs.h',
      'tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h', 'tachyon/math/matrix/matrix_utils.h'],
     [('binary Merkle tree', MK + 'binary_merkle_tree/binary_merkle_tree.h'), ('field Merkle tree', MK + 'field_merkle_tree/field_merkle_tree.h'), ('MMCS verification', MK + 'field_merkle_tree/field_merkle_tree_mmcs.h')],
     technique='abstract interpretation of LLVM IR with the hash function as an uninterpreted function',
     note='Collision resistance is an assumption about the hash, not about this code. The packing width is two lanes; the sort is the model stable sort. Rows that do not exist in a matrix of odd height are outside the property.')

SPG = 'tachyon/crypto/hashes/sponge/'
CHL = 'tachyon/crypto/challenger/'
prop('C15', 'Sponges and challengers are the defined function of the transcript',
     'For any permutation or hash, any sequence of absorb and squeeze (or observe and sample) calls yields the elements of the duplex construction over the concatenated inputs, however they are cut into calls or containers: a challenge depends on everything observed before it, and no squeezed element is given out twice. '
     'PaddingFreeSponge, TruncatedPermutation and the packing of small fields into a big one give their defined digests and canonical elements. '
     'SampleBits returns the low bits of the next challenge, CheckWitness accepts exactly witnesses whose bits are zero, and Grind returns such a witness from its range and advances the transcript by it, or aborts.',
     ['inputs', 'history'],
     'all inputs and any permutation, for every sequence of up to 7 (9 thorough) observe/sample calls and up to 5 absorb/squeeze calls of up to 7 elements, rates 2 and 3; bits and grinding over BabyBear and Mersenne31 with concrete permutations, one and three chunks',
     'Tests absorb and squeeze once; sequences that cross block boundaries between calls are not tested, and most challenger tests are not built here.',
     [SPG + 'poseidon/poseidon_sponge_base.h', SPG + 'padding_free_sponge.h', SPG + 'truncated_permutation.h', SPG + 'sponge_state.h', CHL + 'challenger.h', CHL + 'duplex_challenger.h', CHL + 'hash_challenger.h',
      CHL + 'multi_field32_challenger.h', CHL + 'multi_field32_conversions.h', 'tachyon/crypto/hashes/prime_field_serializable.h'],
     [('Poseidon sponge', SPG + 'poseidon/poseidon_sponge_base.h'), ('challengers', CHL + 'duplex_challenger.h'), ('proof of work', CHL + 'challenger.h')],
     technique='abstract interpretation of LLVM IR with the permutation as an uninterpreted function, over enumerated call sequences',
     note='SqueezeBytes, SqueezeBits and squeezing non-native elements do not compile when instantiated and are not covered. Empty absorbs and squeezes are outside the property.')
PSD = SPG + 'poseidon/'
PS2 = SPG + 'poseidon2/'
prop('C16', 'Poseidon and Poseidon2 are the published permutations',
     'For every state and every choice of round constants, Poseidon with its optimized constants and sparse matrices gives the output of the textbook rounds (constants, S-box, MDS), and Poseidon2 that of its defined rounds with the external and internal matrices of either vendor, packed or not; applying a matrix equals multiplying by the matrix it constructs. '
     'Constants and MDS matrices come from the reference Grain LFSR for any widths, rounds and skipped matrices, and no entry is left unset. '
     'Every built-in parameter set has the published diagonal or shifts and round numbers, with an invertible internal matrix.',
     ['inputs'],
     'all states and round constants for widths 2 and 3 (Poseidon) and 2 to 16 (Poseidon2), all small field values on machine words for the Plonky3 internal matrix, external matrices of every width; the S-box is opaque (ConstPow is covered by C13); LFSR for 8 configurations',
     'Tests compare one permutation per parameter set with a vector; most Poseidon2 tests are not built here, and the width-24 and vendor variants have no vector.',
     [PSD + 'poseidon.h', PSD + 'poseidon_config.h', PSD + 'sparse_mds_matrix.h', PSD + 'poseidon_grain_lfsr.h', PSD + 'poseidon_sponge_base.h', PS2 + 'poseidon2.h', PS2 + 'poseidon2_config.h',
      PS2 + 'poseidon2_external_matrix.h', PS2 + 'poseidon2_plonky3_internal_matrix.h', PS2 + 'poseidon2_horizen_internal_matrix.h', PS2 + 'poseidon2_params.h', PS2 + 'param_traits/poseidon2_baby_bear.h'],
     [('Poseidon', PSD + 'poseidon.h'), ('optimized constants', PSD + 'poseidon_config.h'), ('Poseidon2', PS2 + 'poseidon2.h'), ('parameters', PS2 + 'param_traits')],
     technique='abstract interpretation of LLVM IR with the S-box as an uninterpreted function; machine-word value analysis; constant propagation for parameter tables',
     note='The widths of the bls12_381 and pallas parameter headers are not covered: those headers do not compile.')

FR = 'tachyon/crypto/commitments/fri/'
prop('C17', 'FRI folds, opens and verifies as defined',
     'Folding a codeword with a challenge gives the evaluations of the even part plus the challenge times the odd part on the squared domain; two-adic cosets have the defined points, disjoint and split cosets, vanishing values and selectors. '
     'TwoAdicFRI commits to the low degree extension in bit-reversed order and opens the values of the interpolated polynomials; its verifier, replaying the prover transcript, accepts a proof exactly when every opening, every folding step of every query, the final value, the proof of work and the number of queries are right. '
     'SimpleFRI commits to each folded layer, opens the queried leaf and its sibling in every layer, and its verifier accepts exactly openings of the queried positions under the commitments that fold to the claimed last layer.',
     ['inputs', 'configurations'],
     'all values, points, challenges and dishonest proofs of the right shape; folding up to 8 (16 thorough) rows, cosets up to 16 points, up to 3 matrices of up to 8 rows in 2 rounds and 2 points with 1 to 4 query indices, blowup 2 and 4, SimpleFRI domains of 2 to 8',
     'Tests (not built here) accept honest proofs of random polynomials; forged openings, unequal heights, several points, cosets larger than the trace and the zero polynomial are not met.',
     [FR + 'two_adic_fri.h', FR + 'prove.h', FR + 'verify.h', FR + 'simple_fri.h', FR + 'two_adic_multiplicative_coset.h', FR + 'fri_config.h', FR + 'lagrange_selectors.h', 'tachyon/math/matrix/matrix_utils.h'],
     [('TwoAdicFRI', FR + 'two_adic_fri.h'), ('SimpleFRI', FR + 'simple_fri.h'), ('cosets', FR + 'two_adic_multiplicative_coset.h'), ('verification', FR + 'verify.h')],
     technique='abstract interpretation of LLVM IR with the vector commitment and the challenger as uninterpreted functions',
     note='The Merkle trees (C14), challengers (C15) and transforms (C09) are decided on their own. Matrices of one row are outside the domain of the scheme. Soundness error (proximity gaps) is mathematics about the protocol, not code.')

MX = 'tachyon/math/matrix/'
prop('C18', 'Matrices, sparse matrices, fractions and circle points follow their algebra',
     'Products of matrices with matrices and vectors, combinations of columns with powers of a base, circulant and row-reversed matrices, row blocks and packed rows (padded or wrapping around) hold the entries of their definition for every shape and number of lanes, and matrices of mismatched sizes are refused. '
     'Sparse matrices keep their entries and report their rows, columns, nonzeros, order and equality through sorting and every conversion (ELL, CSR, Eigen). '
     'Fractions add, multiply, invert, compare and evaluate, alone or in a batch with a coefficient, as the quotients they stand for, and circle points as rotations; in-place forms agree.',
     ['inputs', 'configurations'],
     'all entries; about 40 shapes up to 16 rows or 8 columns, 1, 2 and 4 lanes, 9 sparsity patterns with empty rows and columns; all fractions with nonzero denominators, all circle points including (-1, 0); one and three chunks',
     'Tests use a few square or random matrices of GF(7) and one sparse matrix without an empty row; sizes that are no multiple of the lanes, non-square products and numerators equal to one are not met.',
     [MX + 'matrix_operations.h', MX + 'matrix_utils.h', MX + 'sparse/sparse_matrix.h', 'tachyon/math/base/rational_field.h', 'tachyon/math/circle/affine_point.h', 'tachyon/math/circle/circle.h', 'tachyon/math/finite_fields/extension_field_base.h'],
     [('matrix products', MX + 'matrix_operations.h'), ('packing', MX + 'matrix_utils.h'), ('sparse', MX + 'sparse/sparse_matrix.h'), ('fractions', 'tachyon/math/base/rational_field.h'), ('circle', 'tachyon/math/circle/affine_point.h')],
     technique='abstract interpretation of LLVM IR over opaque field values (entries stand for any elements)',
     note='Order comparisons of fractions have no meaning in a finite field and are left out, as are fractions with a zero denominator and combinations of a matrix without columns. Matrix decompositions are Eigen\'s.')

KZ = 'tachyon/crypto/commitments/'
prop('C19', 'KZG, GWC, SHPlonk and Pedersen commit, open and verify as defined',
     'A KZG setup holds the powers of its secret times the generator and the Lagrange basis at the secret of every supported size, and commitments to coefficients or evaluations, one by one or in a batch, are the value at the secret; Pedersen commitments are the generators combined with the message plus the blinding factor. '
     'GWC and SHPlonk group openings by point (by set of points), write to the transcript the quotients of the polynomials, combined with the powers of the challenges, by the vanishing polynomials, and reject writing or reading failures. '
     'Their verifiers read the transcript in the order of the prover, and, freshly set up or rebuilt from their serialized parts, accept exactly when the defining equation holds in the group, so honest openings verify and changed claims, or two values for one commitment at one point, do not.',
     ['inputs', 'configurations'],
     'all secrets, polynomials, points, challenges and proofs; setups of 1 to 8 powers, polynomials of up to 8 (4 when opened) coefficients, up to 5 openings of 3 polynomials at 3 points, points of commitments in affine, Jacobian and XYZZ form; Pedersen with up to 7 generators and 3 messages',
     'Tests (not built here) open one fixed set of random polynomials; equal polynomials, constant and zero polynomials, conflicting claims, truncated proofs and a scheme rebuilt from its parts are not met.',
     [KZ + 'kzg/kzg.h', KZ + 'kzg/kzg_family.h', KZ + 'kzg/gwc.h', KZ + 'kzg/shplonk.h', KZ + 'pedersen/pedersen.h', KZ + 'polynomial_openings.h', KZ + 'batch_commitment_state.h', 'tachyon/math/polynomials/univariate/lagrange_interpolation.h'],
     [('KZG setup and commitments', KZ + 'kzg/kzg.h'), ('GWC', KZ + 'kzg/gwc.h'), ('SHPlonk', KZ + 'kzg/shplonk.h'), ('grouping', KZ + 'polynomial_openings.h'), ('Pedersen', KZ + 'pedersen/pedersen.h')],
     technique='abstract interpretation of LLVM IR in the ideal group: points are their exponents, polynomials over an opaque field',
     note='The multi-scalar multiplication (C13), the group law (C01, C02) and bilinearity of the pairing (C03) are decided on their own and stand here as ideal operations. That a cheating prover cannot satisfy the equation is the hardness assumption of the scheme.')
R1 = 'tachyon/zk/r1cs/'
prop('C20', 'R1CS synthesis, its QAP and Groth16 keys, proofs, verdicts are as defined',
     'A constraint system evaluates linear combinations, reports satisfaction exactly when every a * b equals c, and its matrices and assignments, inlined or outlined, finalized once or again, encode the very constraints that were enforced, for any symbolic, repeated, zero or unordered terms; linear combination arithmetic keeps values and order. '
     'The QAP instance map, h query and witness map are the polynomials of those matrices at the secret and the quotient by the vanishing polynomial. '
     'Groth16 keys and proofs (with any randomness, re-randomized or not) are the group elements of the definition, so honest proofs verify, and the verifier accepts exactly when the pairing equation holds for the given inputs and their number fits the key.',
     ['inputs', 'configurations'],
     'all field values of assignments, coefficients named in the circuit, secrets, randomness and proofs; circuits of up to 5 instance variables, 6 witnesses, 5 constraints and 3 symbolic combinations, in 17 shapes; 16 operations of linear combinations of up to 9 terms',
     'Tests (not built here) prove one multiplication circuit; zero terms, finalizing twice, outlining, re-randomization and wrong inputs are not met.',
     [R1 + 'constraint_system/constraint_system.h', R1 + 'constraint_system/linear_combination.h', R1 + 'constraint_system/quadratic_arithmetic_program.h', R1 + 'groth16/key.h', R1 + 'groth16/proving_key.h', R1 + 'groth16/verifying_key.h', R1 + 'groth16/prepared_verifying_key.h', R1 + 'groth16/prove.h', R1 + 'groth16/verify.h'],
     [('constraint system', R1 + 'constraint_system/constraint_system.h'), ('linear combinations', R1 + 'constraint_system/linear_combination.h'), ('QAP', R1 + 'constraint_system/quadratic_arithmetic_program.h'), ('prover', R1 + 'groth16/prove.h'), ('verifier', R1 + 'groth16/verify.h')],
     technique='abstract interpretation of LLVM IR in the ideal group: opaque scalars, points are their exponents, circuits of fixed shapes',
     note='Multi-scalar multiplications (C13), the group law (C01, C02) and the pairing (C03) are decided on their own and stand here as ideal operations. Knowledge soundness is the hardness assumption of the scheme.')
ZK = 'tachyon/zk/'
prop('C21', 'Plonk expressions keep their value through every evaluator, graph and rewrite',
     'The prover, the verifier, the compiled calculation graph of custom gates and lookups, replacing selectors, compressing with theta and combining simple selectors all give every constraint expression the value it is defined to have at every row and rotation. '
     'Two expressions with equal identifiers, or comparing equal, have equal values everywhere; degrees and complexities are those of the definition. '
     'A combined selector is nonzero exactly on the rows where its selector was active, and no combination exceeds the degree bound.',
     ['inputs', 'configurations'],
     'all field values of constants, scales, challenges and cells; 40 expression shapes of every kind, nested, repeated and with zero, one and two constants; rotations in both directions with wrap-around; selector tables of up to 9 selectors',
     'Tests sample a few expressions with fixed values; the graph evaluator, identifiers and degree of combinations are hardly met, and most of this is not built here.',
     [ZK + 'expressions/expression.h', ZK + 'expressions/expression_factory.h', ZK + 'plonk/expressions/expression_factory.h', ZK + 'plonk/expressions/proving_evaluator.h', ZK + 'plonk/expressions/verifying_evaluator.h', ZK + 'plonk/expressions/compress_expression.h', ZK + 'plonk/expressions/evaluator/identifier.h', ZK + 'plonk/expressions/evaluator/simple_selector_extractor.h', ZK + 'plonk/expressions/evaluator/selector_replacer.h', ZK + 'plonk/vanishing/graph_evaluator.h', ZK + 'plonk/vanishing/calculation.h', ZK + 'plonk/constraint_system/selector_compressor.h', ZK + 'plonk/constraint_system/exclusion_matrix.h', ZK + 'base/rotation.h'],
     [('expressions', ZK + 'expressions/expression.h'), ('identifiers', ZK + 'plonk/expressions/evaluator/identifier.h'), ('calculation graph', ZK + 'plonk/vanishing/graph_evaluator.h'), ('selector combination', ZK + 'plonk/constraint_system/selector_compressor.h')],
     technique='abstract interpretation of LLVM IR over an opaque field: expressions of fixed shapes with symbolic values',
     note='Identifiers of lists of expressions (lookup tables) are concatenated as in halo2 and are outside the claim.')
prop('C22', 'Plonk constraint systems count every query, degree and blinding factor used',
     'Whatever the order in which columns, selectors, gates, lookups, shuffles and equality constraints are defined, every cell a definition reads is a recorded query with its own index, each query is recorded once, and every stored expression refers to the queries by those indices. '
     'Blinding factors, degree, extended domain size and numbers of permutation products are large enough for everything that was defined, also when asked before and after later definitions. '
     'Lookup chunks hold every input exactly once, only with the table it was looked up in, within the degree, and compressing selectors replaces each selector in every gate and lookup by its combined column.',
     ['histories', 'inputs'],
     'all field values of constants; 35 named histories of definitions (columns in three phases, selectors, gates, lookups of both kinds, shuffles, equality, chunking, compression) and 24 (thorough: 150) random ones',
     'Tests check a few fixed circuits; most of this is not compiled by this build, and a missing query or blinding factor shows only as a leaked witness or a failing proof.',
     [ZK + 'plonk/constraint_system/constraint_system.h', ZK + 'plonk/constraint_system/virtual_cells.h', ZK + 'plonk/constraint_system/query.h', ZK + 'plonk/constraint_system/lookup_tracker.h', ZK + 'plonk/expressions/evaluator/cells_querier.h', ZK + 'plonk/expressions/evaluator/selector_replacer.h', ZK + 'plonk/constraint_system/selector_compressor.h'],
     [('definitions', ZK + 'plonk/constraint_system/constraint_system.h'), ('virtual cells', ZK + 'plonk/constraint_system/virtual_cells.h')],
     technique='abstract interpretation of LLVM IR over an opaque field: histories of definitions against a model of their meaning')

prop('C23', 'Plonk permutation, lookup and shuffle: prover and verifier check the same facts',
     'Copy constraints yield a permutation whose cycles are exactly the classes of cells made equal, and a copy of a row outside of the table is rejected; the grand products and sums of permutations, lookups and shuffles obey their recursions on all usable rows, continue from chunk to chunk, and are blinded with fresh randomness. '
     'Permuted lookup columns and multiplicities are those of the input and table, and an input missing from the table is rejected. '
     'For every circuit, argument and row, the constraints put into the quotient, those evaluated by the verifier, and the openings written by the prover and expected by the verifier agree with the definition and order of the argument.',
     ['inputs', 'histories'],
     'all values of challenges, coset values, evaluations and of a part of the cells; copies: 11 named and 16 (thorough: 200) random sequences; products over 2 to 8 rows, up to 2 circuits, 5 columns and 3 arguments; lookups: 16 named and 8 (thorough: 60) random pairs of columns under an arbitrary order of the values',
     'Tests run whole proofs of a few circuits with one argument each; most of this is not compiled by this build, and a constraint that prover and verifier both weaken is accepted by every test.',
     [ZK + 'plonk/permutation/' + x for x in ('cycle_store.h', 'cycle_store.cc', 'permutation_assembly.h', 'grand_product_argument.h', 'permutation_prover_impl.h', 'permutation_verifier.h', 'permutation_evaluator.h', 'permutation_table_store.h', 'unpermuted_table.h', 'permutation_utils.h')]
     + [ZK + 'lookup/halo2/' + x for x in ('permute_expression_pair.h', 'prover_impl.h', 'verifier.h', 'evaluator.h')] + [ZK + 'lookup/log_derivative_halo2/' + x for x in ('prover_impl.h', 'verifier.h', 'evaluator.h')]
     + [ZK + 'shuffle/' + x for x in ('prover_impl.h', 'verifier.h', 'evaluator.h')] + [ZK + 'base/blinder.h'],
     [('permutations', ZK + 'plonk/permutation/permutation_prover_impl.h'), ('lookups', ZK + 'lookup/halo2/prover_impl.h'), ('sums', ZK + 'lookup/log_derivative_halo2/prover_impl.h'), ('shuffles', ZK + 'shuffle/prover_impl.h')],
     technique='abstract interpretation of LLVM IR over an opaque field: prover, quotient and verifier against the definition of the arguments')

prop('C24', 'Floor planners place regions apart and keep every assignment and constraint',
     'For every circuit, both floor planners give each region one start row at which no other region with a column or selector in common has rows, and every advice, fixed, instance and selector assignment reaches the constraint system in its column at start plus offset, with its value. '
     'Every equality between cells (of one or several regions), with an instance cell, or with a constant becomes a copy of the right rows, each constant in a cell of its own in a column for constants and outside of all regions, or too few such cells are refused. '
     'Lookup tables are assigned at the rows given and filled from their end with the value of their first row; tables with gaps, columns of different length or a column of another table are refused.',
     ['inputs', 'histories'],
     'all values of cells and constants; 26 named circuits and 24 (thorough: 400) random ones of up to 5 regions, 4 advice columns, fixed columns, selectors, constants, instances and tables, under both floor planners and 0 to 3 columns for constants',
     'Tests run a few circuits with one or two regions; a region that overlaps another only in some shapes, or a copy to a wrong row, shows as an unsound or unprovable circuit.',
     [ZK + 'plonk/layout/' + x for x in ('floor_planner/single_chip_layouter.h', 'floor_planner/simple_floor_planner.h', 'floor_planner/plan_region.h', 'floor_planner/allocations.h', 'floor_planner/allocated_region.h', 'floor_planner/empty_space.h', 'floor_planner/lookup_table_assigner.h', 'floor_planner/simple_lookup_table_layouter.h', 'floor_planner/v1/v1_strategy.h', 'floor_planner/v1/v1_strategy.cc', 'floor_planner/v1/v1_floor_planner.h', 'floor_planner/v1/v1_pass.h', 'floor_planner/v1/assignment_pass.h', 'floor_planner/v1/measurement_pass.h', 'region_shape.h', 'region.h', 'region_column.h', 'cell.h', 'assigned_cell.h', 'lookup_table.h', 'namespaced_layouter.h')],
     [('simple planner', ZK + 'plonk/layout/floor_planner/single_chip_layouter.h'), ('V1 planner', ZK + 'plonk/layout/floor_planner/v1/v1_floor_planner.h')],
     technique='abstract interpretation of LLVM IR over opaque values: events that reach the assignment against the circuit that was synthesized')
