// Writes, measures, reads back and truncates every serializable type.
#include <bits/c++config.h>
// library strings instantiated here, so that they can be interpreted
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define VERIF_PFT_MONT
#include "abstract_prime_field.h"

#include <memory>

#include "verif_map.h"
#include "tachyon/base/buffer/buffer.cc"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/read_only_buffer.cc"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/buffer/vector_buffer.cc"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/c/zk/air/sp1/block.h"
#include "tachyon/crypto/commitments/fri/fri_proof.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/duplex_sponge_mode.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/sponge_state.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "tachyon/math/finite_fields/fp2.h"
#include "tachyon/math/finite_fields/fp3.h"
#include "tachyon/math/finite_fields/fp4.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/plonk/halo2/argument_data.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

// ---- a 31 bit field: 32 bit words, optionally in Montgomery form
extern "C" {
[[gnu::const]] uint32_t sf_to32(uint64_t) noexcept;
[[gnu::const]] uint32_t sf_mont(uint32_t) noexcept;
[[gnu::const]] uint32_t sf_unmont(uint32_t) noexcept;
}
namespace verif {
template <bool Mont>
class SF;
template <bool Mont>
struct SFCfg {
  constexpr static tachyon::math::BigInt<1> kModulus{UINT64_C(0x78000001)};
  constexpr static size_t kModulusBits = 31;
  constexpr static bool kUseMontgomery = Mont;
  constexpr static bool kHasTwoAdicRootOfUnity = false;
  constexpr static bool kHasLargeSubgroupRootOfUnity = false;
  static uint32_t FromMontgomery(uint32_t v) { return sf_unmont(v); }
  static uint32_t ToMontgomery(uint32_t v) { return sf_mont(v); }
};
}  // namespace verif
namespace tachyon::math {
template <bool Mont>
struct FiniteFieldTraits<verif::SF<Mont>> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = true;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::SF<Mont>;
  using Config = verif::SFCfg<Mont>;
};
}  // namespace tachyon::math
namespace verif {
template <bool Mont>
class SF final : public tachyon::math::PrimeFieldBase<SF<Mont>> {
 public:
  using Config = SFCfg<Mont>;
  using BigIntTy = tachyon::math::BigInt<1>;
  using value_type = uint32_t;
  SF() = default;
  explicit SF(uint32_t v) : v_(Mont ? sf_mont(v) : v) {}
  static SF FromMontgomery(uint32_t v) {
    SF r;
    r.v_ = v;
    return r;
  }
  uint32_t value() const { return v_; }
  BigIntTy ToBigInt() const { return BigIntTy(Mont ? sf_unmont(v_) : v_); }
  uint32_t v_ = 0;
};
}  // namespace verif

namespace verif {
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::base;

struct FCfg : PFConfigBase {};
using F = PFT<FCfg>;
constexpr size_t kMax = 7;

template <typename B, int DEG>
struct ECfg {
  using BaseField = B;
  using BasePrimeField = B;
  using FrobeniusCoefficient = B;
  static constexpr BaseField kNonResidue = B::Param(12);
  constexpr static bool kNonResidueIsMinusOne = false;
  constexpr static uint32_t kDegreeOverBaseField = DEG;
  constexpr static uint32_t kDegreeOverBasePrimeField = DEG;
  static BaseField MulByNonResidue(const BaseField& v) { return kNonResidue * v; }
  static void Init() {}
};
using F2 = Fp2<ECfg<F, 2>>;
using F3 = Fp3<ECfg<F, 3>>;
using F4 = Fp4<ECfg<F, 4>>;

struct CCfg {
  using BaseField = F;
  using BasePrimeField = F;
  using ScalarField = F;
  using CpuBaseField = F;
  using CpuScalarField = F;
  using GpuBaseField = F;
  using GpuScalarField = F;
  using CpuCurveConfig = CCfg;
  using GpuCurveConfig = CCfg;
  constexpr static bool kAIsZero = false;
  constexpr static F kA = F::Param(0);
  constexpr static F kB = F::Param(1);
  constexpr static F kEndomorphismCoefficient = F::Param(2);
  constexpr static F kLambda = F::Param(5);
  constexpr static Point2<F> kGenerator{F::Param(3), F::Param(4)};
  constexpr static F MulByA(const F& v) { return kA * v; }
  static void Init() {}
};
using Curve = SWCurve<CCfg>;

enum class E8 : uint8_t { kA, kB };
enum class E32 : int32_t { kA, kB };

struct Reader {
  const uint64_t* p;
  uint64_t i = 0;
  F Get() { return F::Raw(*p++); }
};
// ---- Make<T>::In(reader, n) builds an object, Dump writes what it holds
template <typename T>
struct Holder;
struct Put {
  uint64_t* p;
  template <typename T>
  auto operator()(const T& v) -> decltype(Holder<T>::Dump(*this, v)) {
    Holder<T>::Dump(*this, v);
  }
  void I(uint64_t v) { *p++ = v; }
  void operator()(const F& f) { I(f.raw()); }
  template <bool M>
  void operator()(const SF<M>& f) { *reinterpret_cast<uint32_t*>(p++) = f.v_; }
  void operator()(uint8_t v) { I(v); }
  void operator()(uint16_t v) { I(v); }
  void operator()(uint32_t v) { I(v); }
  void operator()(int32_t v) { I(v); }
  void operator()(uint64_t v) { I(v); }
  void operator()(int64_t v) { I(v); }
  void operator()(bool v) { I(v); }
  void operator()(char v) { I(v); }
  void operator()(char16_t v) { I(v); }
  void operator()(char32_t v) { I(v); }
  void operator()(wchar_t v) { I(v); }
  void operator()(E8 v) { I(static_cast<uint64_t>(v)); }
  void operator()(E32 v) { I(static_cast<uint64_t>(v)); }
  template <typename C>
  void operator()(const std::basic_string<C>& s) {
    I(s.size());
    for (size_t i = 0; i < s.size(); ++i) (*this)(s[i]);
  }
  template <typename T>
  void operator()(const std::vector<T>& s) {
    I(s.size());
    for (size_t i = 0; i < s.size(); ++i) (*this)(s[i]);
  }
  template <typename T, size_t N>
  void operator()(const std::array<T, N>& s) {
    for (size_t i = 0; i < N; ++i) (*this)(s[i]);
  }
  template <size_t N>
  void operator()(const BigInt<N>& s) {
    for (size_t i = 0; i < N; ++i) I(s.limbs[i]);
  }
  void operator()(const F2& s) { (*this)(s.c0()); (*this)(s.c1()); }
  void operator()(const F3& s) { (*this)(s.c0()); (*this)(s.c1()); (*this)(s.c2()); }
  void operator()(const F4& s) { (*this)(s.c0()); (*this)(s.c1()); (*this)(s.c2()); (*this)(s.c3()); }
  void operator()(const Point2<F>& s) { (*this)(s.x); (*this)(s.y); }
  void operator()(const Point3<F>& s) { (*this)(s.x); (*this)(s.y); (*this)(s.z); }
  void operator()(const Point4<F>& s) { (*this)(s.x); (*this)(s.y); (*this)(s.z); (*this)(s.w); }
  void operator()(const Curve::AffinePoint& s) { (*this)(s.x()); (*this)(s.y()); }
  void operator()(const Curve::ProjectivePoint& s) { (*this)(s.x()); (*this)(s.y()); (*this)(s.z()); }
  void operator()(const Curve::JacobianPoint& s) { (*this)(s.x()); (*this)(s.y()); (*this)(s.z()); }
  void operator()(const Curve::PointXYZZ& s) { (*this)(s.x()); (*this)(s.y()); (*this)(s.zz()); (*this)(s.zzz()); }
  void operator()(const Dimensions& s) { I(s.width); I(s.height); }
  template <typename T, int R, int C, int O>
  void operator()(const Eigen::Matrix<T, R, C, O>& m) {
    I(m.rows());
    I(m.cols());
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      for (Eigen::Index j = 0; j < m.cols(); ++j) (*this)(m(i, j));
  }
  template <typename T, int R>
  void operator()(const Eigen::DiagonalMatrix<T, R>& m) {
    I(m.rows());
    for (Eigen::Index i = 0; i < m.rows(); ++i) (*this)(m.diagonal()[i]);
  }
  void operator()(const UnivariateTerm<F>& t) { I(t.degree); (*this)(t.coefficient); }
  void operator()(const UnivariateDenseCoefficients<F, kMax>& c) { (*this)(c.coefficients()); }
  void operator()(const UnivariateSparseCoefficients<F, kMax>& c) { (*this)(c.terms()); }
  template <typename T>
  void operator()(const UnivariatePolynomial<T>& c) { (*this)(c.coefficients()); }
  template <size_t N>
  void operator()(const UnivariateEvaluations<F, N>& c) { (*this)(c.evaluations()); }
  void operator()(const MultilinearDenseEvaluations<F, 4>& c) { (*this)(c.evaluations()); }
  void operator()(const MultilinearExtension<MultilinearDenseEvaluations<F, 4>>& c) { (*this)(c.evaluations()); }
  void operator()(const LinearCombinationTerm<F>& t) { (*this)(t.coefficient); (*this)(t.indexes); }
  void operator()(const crypto::SumcheckProverMsg<F, 3>& m) { (*this)(m.evaluations); }
  void operator()(const crypto::SumcheckVerifierMsg<F>& m) { (*this)(m.random_value); }
  void operator()(const crypto::SumcheckVerifyingKey& k) { I(k.max_evaluations); I(k.num_variables); }
  template <typename M>
  void operator()(const crypto::SumcheckProvingKey<M>& k) {
    (*this)(k.verifying_key);
    (*this)(k.terms);
    (*this)(k.flattened_ml_evaluations);
  }
  void operator()(const crypto::DuplexSpongeMode& m) { I(static_cast<uint64_t>(m.type)); I(m.next_index); }
  template <typename P>
  void operator()(const crypto::SpongeState<P>& s) { (*this)(s.elements); (*this)(s.mode); }
  void operator()(const crypto::SparseMDSMatrix<F>& s) { (*this)(s.row()); (*this)(s.col_hat()); }
  template <typename P>
  void operator()(const crypto::PoseidonConfig<P>& c) {
    (*this)(c.ark);
    (*this)(c.mds);
    (*this)(c.pre_sparse_mds);
    (*this)(c.sparse_mds_matrices);
  }
  template <typename P>
  void operator()(const crypto::Poseidon2Config<P>& c) {
    (*this)(c.ark);
    (*this)(c.internal_diagonal_minus_one);
    I(c.internal_shifts.size());
    for (Eigen::Index i = 0; i < c.internal_shifts.size(); ++i) I(c.internal_shifts[i]);
  }
  template <typename P>
  void operator()(const crypto::PoseidonSponge<P>& c) { (*this)(c.config); }
  template <typename P>
  void operator()(const c::zk::air::sp1::Block<P>& c) { (*this)(c.value()); }
  template <typename P>
  void operator()(const crypto::BatchOpening<P>& c) { (*this)(c.opened_values); (*this)(c.opening_proof); }
  template <typename P>
  void operator()(const crypto::CommitPhaseResult<P>& c) { (*this)(c.commits); (*this)(c.data); (*this)(c.final_eval); }
  template <typename P>
  void operator()(const crypto::CommitPhaseProofStep<P>& c) { (*this)(c.sibling_value); (*this)(c.opening_proof); }
  template <typename P>
  void operator()(const crypto::QueryProof<P>& c) { (*this)(c.input_proof); (*this)(c.commit_phase_openings); }
  template <typename P>
  void operator()(const crypto::FRIProof<P>& c) {
    (*this)(c.commit_phase_commits);
    (*this)(c.query_proofs);
    (*this)(c.final_eval);
    (*this)(c.pow_witness);
  }
  template <typename T, size_t N>
  void operator()(const crypto::FieldMerkleTree<T, N>& t) {
    const auto& l = t.leaves();
    I(l.size());
    for (size_t i = 0; i < l.size(); ++i) {
      I(l[i].rows());
      I(l[i].cols());
      for (Eigen::Index r = 0; r < l[i].rows(); ++r)
        for (Eigen::Index c = 0; c < l[i].cols(); ++c) (*this)(l[i](r, c));
    }
    (*this)(t.digest_layers());
  }
};

static F G(Reader& r) { return r.Get(); }
static std::vector<F> GV(Reader& r, size_t n) {
  std::vector<F> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = r.Get();
  return v;
}
template <typename M>
static M GM(Reader& r, size_t rows, size_t cols) {
  M m(rows, cols);
  for (size_t i = 0; i < rows; ++i)
    for (size_t j = 0; j < cols; ++j) m(i, j) = r.Get();
  return m;
}
static Vector<F> GVec(Reader& r, size_t n) {
  Vector<F> m(n);
  for (size_t i = 0; i < n; ++i) m[i] = r.Get();
  return m;
}

// 1 = round trip, anything else names what is wrong
template <typename T>
static uint64_t RoundTrip(const T& a, T& c, uint64_t* q, int endian, uint64_t cut, uint64_t mode) {
  Endian e = endian == 0 ? Endian::kNative : endian == 1 ? Endian::kLittle : Endian::kBig;
  Uint8VectorBuffer b;
  b.set_endian(e);
  if (!b.Write(a)) return 2;
  size_t n = b.buffer_offset();
  if (b.owned_buffer().size() != n) return 3;
  if (base::EstimateSize(a) != n) return 4;
  Put pa{q + 2};
  pa(a);
  q[1] = pa.p - (q + 2);
  if (mode == 1) {  // not enough room to write
    if (cut > n) return 100;
    if (cut == 0) {
      std::unique_ptr<uint8_t[]> m(new uint8_t[n]);
      Buffer w(m.get(), n);
      w.set_endian(e);
      if (!w.Write(a)) return 5;
      return w.Done() ? 1 : 6;
    }
    std::unique_ptr<uint8_t[]> m(new uint8_t[n - cut]);
    Buffer w(m.get(), n - cut);
    w.set_endian(e);
    return w.Write(a) ? 7 : 1;
  }
  if (cut > n) return 100;
  std::unique_ptr<uint8_t[]> m(new uint8_t[n - cut]);
  memcpy(m.get(), b.owned_buffer().data(), n - cut);
  ReadOnlyBuffer r(m.get(), n - cut);
  r.set_endian(e);
  bool ok = r.Read(&c);
  if (cut) return ok ? 8 : 1;
  if (!ok) return 9;
  if (!r.Done()) return 10;
  Put pc{q + 201};
  pc(c);
  q[200] = pc.p - (q + 201);
  return 1;
}

struct PP {
  using Field = F;
  constexpr static size_t kWidth = 3, kRate = 2, kCapacity = 1, kAlpha = 5, kFullRounds = 2, kPartialRounds = 2;
};
struct FakePCS {
  struct MMCS {
    using Field = F;
    using Proof = std::vector<std::array<F, 2>>;
    using Commitment = std::array<F, 2>;
    using ProverData = std::vector<F>;
  };
  struct ExtMMCS {
    using Field = F2;
    using Proof = std::vector<std::array<F, 2>>;
    using Commitment = std::array<F, 2>;
    using ProverData = std::vector<F>;
  };
  using InputMMCS = MMCS;
  using ChallengeMMCS = ExtMMCS;
  using InputProof = std::vector<crypto::BatchOpening<FakePCS>>;
};
static F2 G2(Reader& r) { F a = r.Get(); return F2(a, r.Get()); }
static std::array<F, 2> GA(Reader& r) { F a = r.Get(); return {a, r.Get()}; }
static crypto::BatchOpening<FakePCS> BO(Reader& r) {
  crypto::BatchOpening<FakePCS> b;
  b.opened_values.push_back(GV(r, 2));
  b.opened_values.push_back(GV(r, 0));
  b.opening_proof.push_back(GA(r));
  return b;
}
static crypto::CommitPhaseProofStep<FakePCS> CS(Reader& r) {
  crypto::CommitPhaseProofStep<FakePCS> b;
  b.sibling_value = G2(r);
  b.opening_proof.push_back(GA(r));
  return b;
}
static crypto::QueryProof<FakePCS> QP(Reader& r) {
  crypto::QueryProof<FakePCS> b;
  b.input_proof.push_back(BO(r));
  b.commit_phase_openings.push_back(CS(r));
  return b;
}
}  // namespace verif
using namespace verif;

#define RT(NAME, TYPE, MAKE)                                                                              \
  extern "C" void ser_##NAME(const uint64_t* p, uint64_t* q, int endian, uint64_t cut, uint64_t mode,     \
                             uint64_t mont) {                                          \
    base::Copyable<F>::s_is_in_montgomery = mont;                                                         \
    Reader r{p};                                                                                          \
    using Type = TYPE;                                                                                    \
    Type a = MAKE;                                                                                        \
    Type c{};                                                                                             \
    q[0] = RoundTrip(a, c, q, endian, cut, mode);                                                     \
  }
#define C(...) __VA_ARGS__

RT(bool, bool, *p++)
RT(u8, uint8_t, *p++)
RT(char, char, *p++)
RT(u16, uint16_t, *p++)
RT(u32, uint32_t, *p++)
RT(i32, int32_t, *p++)
RT(u64, uint64_t, *p++)
RT(i64, int64_t, *p++)
RT(c16, char16_t, *p++)
RT(c32, char32_t, *p++)
RT(e8, E8, static_cast<E8>(*p++))
RT(e32, E32, static_cast<E32>(*p++))
RT(str0, std::string, std::string())
RT(str, std::string, std::string("hello"))
RT(str16, std::u16string, std::u16string(u"h\u1234lo"))
RT(wstr, std::wstring, std::wstring(L"wide"))
RT(v8, std::vector<uint8_t>, C({uint8_t(1), uint8_t(2), uint8_t(3)}))
RT(v0, std::vector<uint32_t>, {})
RT(v32, std::vector<uint32_t>, C({1u, 2u, 3u}))
RT(vv, std::vector<std::vector<F>>, C({GV(r, 2), GV(r, 0), GV(r, 1)}))
RT(vstr, std::vector<std::string>, C({"ab", "", "cde"}))
RT(arr, C(std::array<uint16_t, 3>), C({{1, 2, 3}}))
RT(arrv, C(std::array<std::vector<F>, 2>), C({{GV(r, 1), GV(r, 2)}}))
RT(big2, BigInt<2>, BigInt<2>(C({r.p[0], r.p[1]})))
RT(big4, BigInt<4>, BigInt<4>(C({r.p[0], r.p[1], r.p[2], r.p[3]})))
RT(field, F, G(r))
RT(small_mont, SF<true>, C((base::Copyable<SF<true>>::s_is_in_montgomery = mont, SF<true>::FromMontgomery(sf_to32(*p)))))
RT(small_plain, SF<false>, C((base::Copyable<SF<false>>::s_is_in_montgomery = mont, SF<false>::FromMontgomery(sf_to32(*p)))))
RT(small_vec, std::vector<SF<true>>, C(({base::Copyable<SF<true>>::s_is_in_montgomery = mont; std::vector<SF<true>> v; v.push_back(SF<true>::FromMontgomery(sf_to32(p[0]))); v.push_back(SF<true>::FromMontgomery(sf_to32(p[1]))); v;})))
RT(fp2_raw_array, C(std::array<F2, 2>), C({{G2(r), G2(r)}}))
RT(fp2, F2, G2(r))
RT(fp3, F3, C(({F a = G(r); F b = G(r); F3(a, b, G(r));})))
RT(fp4, F4, C(({F a = G(r); F b = G(r); F d = G(r); F4(a, b, d, G(r));})))
RT(affine, Curve::AffinePoint, C(({F a = G(r); Curve::AffinePoint(a, G(r));})))
RT(projective, Curve::ProjectivePoint, C(({F a = G(r); F b = G(r); Curve::ProjectivePoint(a, b, G(r));})))
RT(jacobian, Curve::JacobianPoint, C(({F a = G(r); F b = G(r); Curve::JacobianPoint(a, b, G(r));})))
RT(xyzz, Curve::PointXYZZ, C(({F a = G(r); F b = G(r); F d = G(r); Curve::PointXYZZ(a, b, d, G(r));})))
RT(point2, Point2<F>, C({G(r), G(r)}))
RT(point3, Point3<F>, C({G(r), G(r), G(r)}))
RT(point4, Point4<F>, C({G(r), G(r), G(r), G(r)}))
RT(dimensions, Dimensions, C({r.p[0], r.p[1]}))
RT(matrix, Matrix<F>, GM<Matrix<F>>(r, 2, 3))
RT(rmatrix, RowMajorMatrix<F>, GM<RowMajorMatrix<F>>(r, 3, 2))
RT(matrix0, Matrix<F>, GM<Matrix<F>>(r, 0, 2))
RT(fmatrix, C(Matrix<F, 2, 3>), C((GM<Matrix<F, 2, 3>>(r, 2, 3))))
RT(hmatrix, C(Matrix<F, 2, Eigen::Dynamic>), C((GM<Matrix<F, 2, Eigen::Dynamic>>(r, 2, 3))))
RT(wmatrix, C(Matrix<F, Eigen::Dynamic, 3>), C((GM<Matrix<F, Eigen::Dynamic, 3>>(r, 2, 3))))
RT(vector, Vector<F>, GVec(r, 3))
RT(rowvector, RowVector<F>, C(({RowVector<F> v(2); v[0] = G(r); v[1] = G(r); v;})))
RT(diagonal, DiagonalMatrix<F>, DiagonalMatrix<F>(GVec(r, 3)))
RT(fdiagonal, C(DiagonalMatrix<F, 2>), C(({F a = G(r); DiagonalMatrix<F, 2> d; d.diagonal()[0] = a; d.diagonal()[1] = G(r); d;})))
RT(term, UnivariateTerm<F>, C({5, G(r)}))
RT(dense, C(UnivariateDenseCoefficients<F, kMax>), C((UnivariateDenseCoefficients<F, kMax>(GV(r, 3)))))
RT(dense0, C(UnivariateDenseCoefficients<F, kMax>), C((UnivariateDenseCoefficients<F, kMax>())))
RT(sparse, C(UnivariateSparseCoefficients<F, kMax>), C((UnivariateSparseCoefficients<F, kMax>({{1, G(r)}, {4, G(r)}}))))
RT(poly, C(UnivariatePolynomial<UnivariateDenseCoefficients<F, kMax>>), C((UnivariatePolynomial<UnivariateDenseCoefficients<F, kMax>>(UnivariateDenseCoefficients<F, kMax>(GV(r, 2))))))
RT(spoly, C(UnivariatePolynomial<UnivariateSparseCoefficients<F, kMax>>), C((UnivariatePolynomial<UnivariateSparseCoefficients<F, kMax>>(UnivariateSparseCoefficients<F, kMax>({{0, G(r)}, {7, G(r)}})))))
RT(evals, C(UnivariateEvaluations<F, kMax>), C((UnivariateEvaluations<F, kMax>(GV(r, 3)))))
RT(evals0, C(UnivariateEvaluations<F, kMax>), C((UnivariateEvaluations<F, kMax>())))
RT(mle_evals, C(MultilinearDenseEvaluations<F, 4>), C((MultilinearDenseEvaluations<F, 4>(GV(r, 4)))))
RT(mle, C(MultilinearExtension<MultilinearDenseEvaluations<F, 4>>), C((MultilinearExtension<MultilinearDenseEvaluations<F, 4>>(MultilinearDenseEvaluations<F, 4>(GV(r, 4))))))
RT(lcterm, LinearCombinationTerm<F>, C({G(r), {3, 0, 2}}))
RT(sc_msg, C(crypto::SumcheckProverMsg<F, 3>), C({UnivariateEvaluations<F, 3>(GV(r, 3))}))
RT(sc_vmsg, crypto::SumcheckVerifierMsg<F>, C({G(r)}))
RT(sc_vk, crypto::SumcheckVerifyingKey, C({r.p[0], r.p[1]}))
using MLE = MultilinearExtension<MultilinearDenseEvaluations<F, 4>>;
static crypto::SumcheckProvingKey<MLE> PK(Reader& r) {
  crypto::SumcheckProvingKey<MLE> k;
  k.verifying_key = {2, 1};
  k.terms.push_back({G(r), {0, 1}});
  k.terms.push_back({G(r), {1}});
  k.flattened_ml_evaluations.push_back(MLE(MultilinearDenseEvaluations<F, 4>(GV(r, 2))));
  k.flattened_ml_evaluations.push_back(MLE(MultilinearDenseEvaluations<F, 4>(GV(r, 2))));
  return k;
}
RT(sc_pk, crypto::SumcheckProvingKey<MLE>, PK(r))
RT(sponge_mode, crypto::DuplexSpongeMode, C({crypto::DuplexSpongeMode::Type::kSqueezing, 3}))
static crypto::SpongeState<PP> SS(Reader& r) {
  crypto::SpongeState<PP> s;
  s.elements = GVec(r, 3);
  s.mode = {crypto::DuplexSpongeMode::Type::kSqueezing, 2};
  return s;
}
RT(sponge_state, crypto::SpongeState<PP>, SS(r))
RT(sparse_mds, crypto::SparseMDSMatrix<F>, C((crypto::SparseMDSMatrix<F>(GVec(r, 3), GVec(r, 2)))))
static crypto::PoseidonConfig<PP> PC(Reader& r) {
  crypto::PoseidonConfig<PP> c;
  c.ark = GM<Matrix<F>>(r, 2, 2);
  c.mds = GM<Matrix<F>>(r, 2, 2);
  c.pre_sparse_mds = GM<Matrix<F>>(r, 1, 2);
  Vector<F> a = GVec(r, 2);
  c.sparse_mds_matrices.push_back(crypto::SparseMDSMatrix<F>(a, GVec(r, 1)));
  return c;
}
RT(poseidon_config, crypto::PoseidonConfig<PP>, PC(r))
static crypto::Poseidon2Config<PP> PC2(Reader& r) {
  crypto::Poseidon2Config<PP> c;
  c.ark = GM<Matrix<F>>(r, 2, 3);
  c.internal_diagonal_minus_one = GVec(r, 3);
  c.internal_shifts = Vector<uint8_t>(2);
  c.internal_shifts[0] = 7;
  c.internal_shifts[1] = 19;
  return c;
}
RT(poseidon2_config, crypto::Poseidon2Config<PP>, PC2(r))
RT(poseidon_sponge, crypto::PoseidonSponge<PP>, C(({crypto::PoseidonSponge<PP> s; s.config = PC(r); s;})))
RT(block, c::zk::air::sp1::Block<F>, C(({std::array<F, 4> w; for (size_t i = 0; i < 4; ++i) w[i] = G(r); c::zk::air::sp1::Block<F>{w};})))
RT(fri_opening, crypto::BatchOpening<FakePCS>, BO(r))
static crypto::CommitPhaseResult<FakePCS> CR(Reader& r) {
  crypto::CommitPhaseResult<FakePCS> b;
  b.commits.push_back(GA(r));
  b.commits.push_back(GA(r));
  b.data.push_back(GV(r, 1));
  b.final_eval = G2(r);
  return b;
}
RT(fri_commit, crypto::CommitPhaseResult<FakePCS>, CR(r))
RT(fri_step, crypto::CommitPhaseProofStep<FakePCS>, CS(r))
RT(fri_query, crypto::QueryProof<FakePCS>, QP(r))
static crypto::FRIProof<FakePCS> FP(Reader& r) {
  crypto::FRIProof<FakePCS> b;
  b.commit_phase_commits.push_back(GA(r));
  b.query_proofs.push_back(QP(r));
  b.final_eval = G2(r);
  b.pow_witness = G(r);
  return b;
}
RT(fri_proof, crypto::FRIProof<FakePCS>, FP(r))

struct G2P {
  Curve::AffinePoint p;
  static G2P From(const Curve::AffinePoint& p) { return {p}; }
};
struct PairCurve {
  using G1Curve = Curve;
  using G2Curve = Curve;
  using G2Prepared = G2P;
  using Fp12 = F;
};
using AP = Curve::AffinePoint;
static AP Pt(Reader& r) { F a = G(r); return AP(a, G(r)); }
static std::vector<AP> Pts(Reader& r, size_t n) {
  std::vector<AP> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = Pt(r);
  return v;
}
namespace verif {
template <typename K>
void DumpKZG(Put& p, const K& k) {
  p(k.g1_powers_of_tau());
  p(k.g1_powers_of_tau_lagrange());
}
template <>
struct Holder<crypto::Pedersen<AP, 4, AP>> {
  static void Dump(Put& p, const crypto::Pedersen<AP, 4, AP>& c) { p(c.h()); p(c.generators()); }
};
template <>
struct Holder<crypto::KZG<AP, 3, AP>> {
  static void Dump(Put& p, const crypto::KZG<AP, 3, AP>& c) { DumpKZG(p, c); }
};
template <>
struct Holder<crypto::GWC<PairCurve, 3, AP>> {
  static void Dump(Put& p, const crypto::GWC<PairCurve, 3, AP>& c) { DumpKZG(p, c.kzg()); p(c.s_g2()); p(c.g2_arr_[0].p); p(c.g2_arr_[1].p); }
};
template <>
struct Holder<crypto::SHPlonk<PairCurve, 3, AP>> {
  static void Dump(Put& p, const crypto::SHPlonk<PairCurve, 3, AP>& c) { DumpKZG(p, c.kzg()); p(c.s_g2()); p(c.g2_arr_[0].p); p(c.g2_arr_[1].p); }
};
template <>
struct Holder<zk::GWCExtension<PairCurve, 3, 7, AP>> {
  static void Dump(Put& p, const zk::GWCExtension<PairCurve, 3, 7, AP>& c) { DumpKZG(p, c.gwc_.kzg()); p(c.gwc_.s_g2()); p(c.gwc_.g2_arr_[1].p); }
};
template <>
struct Holder<zk::SHPlonkExtension<PairCurve, 3, 7, AP>> {
  static void Dump(Put& p, const zk::SHPlonkExtension<PairCurve, 3, 7, AP>& c) { DumpKZG(p, c.shplonk_.kzg()); p(c.shplonk_.s_g2()); p(c.shplonk_.g2_arr_[1].p); }
};
using DPoly = UnivariatePolynomial<UnivariateDenseCoefficients<F, kMax>>;
using Ev = UnivariateEvaluations<F, kMax>;
using AD = zk::plonk::halo2::ArgumentData<DPoly, Ev>;
template <>
struct Holder<AD> {
  static void Dump(Put& p, const AD& c) {
    p(c.advice_columns_vec_);
    p(c.advice_blinds_vec_);
    p(c.challenges_);
    p(c.instance_columns_vec_);
    p(c.instance_polys_vec_);
  }
};
static AD ArgData(Reader& r) {
  std::vector<std::vector<Ev>> a(1), i(1);
  std::vector<std::vector<F>> b(1);
  std::vector<std::vector<DPoly>> p(1);
  a[0].push_back(Ev(GV(r, 2)));
  a[0].push_back(Ev(GV(r, 1)));
  b[0] = GV(r, 2);
  std::vector<F> c = GV(r, 3);
  i[0].push_back(Ev(GV(r, 2)));
  p[0].push_back(DPoly(UnivariateDenseCoefficients<F, kMax>(GV(r, 2))));
  return AD(std::move(a), std::move(b), std::move(c), std::move(i), std::move(p));
}
using FMT = crypto::FieldMerkleTree<F, 2>;
static FMT Tree(Reader& r) {
  FMT t;
  t.owned_leaves_.push_back(GM<RowMajorMatrix<F>>(r, 2, 2));
  t.owned_leaves_.push_back(GM<RowMajorMatrix<F>>(r, 1, 3));
  for (const auto& l : t.owned_leaves_) t.leaves_.push_back(math::Map(l));
  t.digest_layers_.push_back({GA(r), GA(r)});
  t.digest_layers_.push_back({GA(r)});
  return t;
}
}  // namespace verif
RT(pedersen, C(crypto::Pedersen<AP, 4, AP>), C(({AP h = Pt(r); crypto::Pedersen<AP, 4, AP>(std::move(h), Pts(r, 2));})))
#define KZGV C(({std::vector<AP> a = Pts(r, 2); crypto::KZG<AP, 3, AP>(std::move(a), Pts(r, 2));}))
RT(kzg, C(crypto::KZG<AP, 3, AP>), KZGV)
RT(gwc, C(crypto::GWC<PairCurve, 3, AP>), C(({crypto::KZG<AP, 3, AP> k = KZGV; crypto::GWC<PairCurve, 3, AP>(std::move(k), Pt(r));})))
RT(shplonk, C(crypto::SHPlonk<PairCurve, 3, AP>), C(({crypto::KZG<AP, 3, AP> k = KZGV; crypto::SHPlonk<PairCurve, 3, AP>(std::move(k), Pt(r));})))
RT(gwc_ext, C(zk::GWCExtension<PairCurve, 3, 7, AP>), C(({crypto::KZG<AP, 3, AP> k = KZGV; zk::GWCExtension<PairCurve, 3, 7, AP>(crypto::GWC<PairCurve, 3, AP>(std::move(k), Pt(r)));})))
RT(shplonk_ext, C(zk::SHPlonkExtension<PairCurve, 3, 7, AP>), C(({crypto::KZG<AP, 3, AP> k = KZGV; zk::SHPlonkExtension<PairCurve, 3, 7, AP>(crypto::SHPlonk<PairCurve, 3, AP>(std::move(k), Pt(r)));})))
RT(argument_data, AD, ArgData(r))
RT(merkle_tree, FMT, Tree(r))

// ---- raw bytes of integers in every byte order
static uint64_t Bytes(uint64_t* q, int endian, int op, uint64_t v) {
  Endian e = endian == 0 ? Endian::kNative : endian == 1 ? Endian::kLittle : Endian::kBig;
  Uint8VectorBuffer b;
  b.set_endian(e);
  bool ok = false;
  switch (op) {
    case 0: ok = b.Write(static_cast<uint8_t>(v)); break;
    case 1: ok = b.Write(static_cast<uint16_t>(v)); break;
    case 2: ok = b.Write(static_cast<uint32_t>(v)); break;
    case 3: ok = b.Write(static_cast<uint64_t>(v)); break;
    case 4: ok = b.Write(static_cast<int16_t>(v)); break;
    case 5: ok = b.Write(static_cast<int32_t>(v)); break;
    case 6: ok = b.Write(static_cast<int64_t>(v)); break;
    case 7: ok = b.Write(static_cast<E32>(v)); break;
    case 8: ok = b.Write(std::vector<uint16_t>{uint16_t(v), uint16_t(v >> 16)}); break;
    case 9: ok = b.Write16BE(v); break;
    case 10: ok = b.Write16LE(v); break;
    case 11: ok = b.Write32BE(v); break;
    case 12: ok = b.Write32LE(v); break;
    case 13: ok = b.Write64BE(v); break;
    case 14: ok = b.Write64LE(v); break;
    case 15: ok = b.WriteMany(uint8_t(v), uint32_t(v), uint16_t(v)); break;
    case 16: ok = b.WriteManyAt(0, uint8_t(v), uint32_t(v), uint16_t(v)); break;
    case 22: ok = b.Write(std::string_view("abc")) && base::EstimateSize(std::string_view("abc")) == b.buffer_offset(); break;
    case 23: ok = b.Write(std::u16string_view(u"ab\u1234")) && base::EstimateSize(std::u16string_view(u"ab\u1234")) == b.buffer_offset(); break;
    case 24: {
      const char* s = "abc";
      ok = b.Write(s) && base::EstimateSize(s) == b.buffer_offset();
      break;
    }
    case 25: {
      const char32_t* s = U"ab";
      ok = b.Write(s) && base::EstimateSize(s) == b.buffer_offset();
      break;
    }
    case 26: {
      uint16_t a[2] = {uint16_t(v), uint16_t(v >> 16)};
      absl::Span<uint16_t> s(a, 2);
      ok = b.Write(s) && base::EstimateSize(s) == b.buffer_offset();
      break;
    }
    case 27: {
      uint16_t a[2] = {uint16_t(v), uint16_t(v >> 16)};
      ok = b.Write(a) && base::EstimateSize(a) == b.buffer_offset();
      break;
    }
    case 17: {
      ok = b.Write(uint64_t{0}) && b.Write(uint64_t{0}) && b.WriteAt(3, uint32_t(v)) && b.buffer_offset() == 7;
      break;
    }
    case 18: {
      StringBuffer s;
      s.set_endian(e);
      ok = s.WriteMany(uint16_t(v), uint64_t(v)) && s.owned_buffer().size() == 10 && s.Done();
      if (!ok) return 0;
      for (size_t i = 0; i < 10; ++i) q[i] = static_cast<uint8_t>(s.owned_buffer()[i]);
      return 11;
    }
    case 19: {  // writes through a moved buffer go to its own storage
      ok = b.Write(uint16_t(v));
      Uint8VectorBuffer c(std::move(b));
      if (!ok || c.buffer_len() != 2) return 0;
      if (!c.WriteAt(0, uint8_t(7))) return 0;
      c.set_endian(e);
      if (!c.WriteAt(1, uint16_t(v))) return 0;
      for (size_t i = 0; i < 3; ++i) q[i] = c.owned_buffer()[i];
      return 4;
    }
    case 20: {  // byte order restored at the end of the scope
      {
        EndianAutoReset reset(b, Endian::kBig);
        if (!b.Write(uint16_t(v))) return 0;
      }
      ok = b.Write(uint16_t(v));
      break;
    }
    case 21: {  // a buffer that cannot grow
      uint8_t* m = new uint8_t[4];
      Buffer w(m, 4);
      w.set_endian(e);
      if (!w.Write(uint16_t(v)) || w.Write(uint32_t(v)) || !w.Write(uint16_t(v)) || !w.Done()) return 0;
      if (w.Write(uint8_t(v)) || w.WriteAt(1, uint32_t(v)) || w.WriteAt(~size_t{0}, uint16_t(v))) return 0;
      if (w.WriteAt(~size_t{0} - 1, uint64_t(v)) || w.WriteAt(5, m, 0)) return 0;
      for (size_t i = 0; i < 4; ++i) q[i] = m[i];
      return 5;
    }
  }
  if (!ok) return 0;
  size_t n = b.buffer_offset();
  if (b.owned_buffer().size() < n) return 0;
  for (size_t i = 0; i < b.owned_buffer().size(); ++i) q[i] = b.owned_buffer()[i];
  return 1 + b.owned_buffer().size();
}
extern "C" void ser_bytes(const uint64_t* p, uint64_t* q, int endian, int op) { q[0] = Bytes(q + 1, endian, op, p[0]); }
// reads of n given bytes
static bool ReadOp(const uint8_t* src, uint64_t n, uint64_t off, int endian, int op, uint64_t* q) {
  Endian e = endian == 0 ? Endian::kNative : endian == 1 ? Endian::kLittle : Endian::kBig;
  ReadOnlyBuffer b(src, n);
  b.set_endian(e);
  bool ok = false;
  auto rd = [&](auto v) {
    ok = b.ReadAt(off, &v);
    if (ok) {
      q[0] = static_cast<uint64_t>(v);
      q[1] = b.buffer_offset();
    }
  };
#define RDX(T, FN)                       \
  {                                      \
    T v;                                 \
    ok = b.FN(off, &v);                  \
    if (ok) {                            \
      q[0] = v;                          \
      q[1] = b.buffer_offset();          \
    }                                    \
  }
  switch (op) {
    case 0: rd(uint8_t{}); break;
    case 1: rd(uint16_t{}); break;
    case 2: rd(uint32_t{}); break;
    case 3: rd(uint64_t{}); break;
    case 4: rd(int32_t{}); break;
    case 5: rd(E32{}); break;
    case 6: RDX(uint16_t, Read16BEAt) break;
    case 7: RDX(uint16_t, Read16LEAt) break;
    case 8: RDX(uint32_t, Read32BEAt) break;
    case 9: RDX(uint32_t, Read32LEAt) break;
    case 10: RDX(uint64_t, Read64BEAt) break;
    case 11: RDX(uint64_t, Read64LEAt) break;
    case 12: {
      uint8_t a = 0;
      uint16_t c = 0;
      b.set_buffer_offset(off);
      ok = b.ReadMany(&a, &c);
      if (ok) {
        q[0] = a | uint64_t{c} << 8;
        q[1] = b.buffer_offset();
      }
      break;
    }
    case 13: {
      uint8_t a[3];
      ok = b.ReadAt(off, a, 3);
      if (ok) {
        q[0] = a[0] | uint64_t{a[1]} << 8 | uint64_t{a[2]} << 16;
        q[1] = b.buffer_offset();
      }
      break;
    }
    case 14: {
      const uint16_t* a = nullptr;
      ok = b.ReadPtrAt(off, &a, 2);
      if (ok) {
        q[0] = reinterpret_cast<const uint8_t*>(a) - src;
        q[1] = b.buffer_offset();
      }
      break;
    }
    case 16: {
      uint8_t a = 0;
      uint16_t c = 0;
      ok = b.ReadManyAt(off, &a, &c);
      if (ok) {
        q[0] = a | uint64_t{c} << 8;
        q[1] = b.buffer_offset();
      }
      break;
    }
    case 17: {
      uint16_t a[2];
      ok = b.ReadAt(off, a);
      if (ok) {
        q[0] = a[0] | uint64_t{a[1]} << 16;
        q[1] = b.buffer_offset();
      }
      break;
    }
    case 15: {
      const uint32_t* a = nullptr;
      ok = b.ReadPtrAt(off, &a, (size_t{1} << 62) + 1);
      break;
    }
  }
  return ok;
}
extern "C" void ser_read(const uint64_t* p, uint64_t* q, uint64_t n, uint64_t off, int endian, int op) {
  uint8_t* m = new uint8_t[n];
  memcpy(m, p, n);
  q[0] = ReadOp(m, n, off, endian, op, q + 1);
}
