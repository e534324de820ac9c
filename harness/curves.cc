// Every generated curve configuration instantiated with the abstract field:
// constants and the multiplication by a.
#include "abstract_field.h"
#include "tachyon/base/logging.h"
#include "tachyon/math/base/gmp/gmp_util.h"
#include "tachyon/math/circle/affine_point.h"
#include "tachyon/math/circle/circle.h"
#include "tachyon/math/circle/m31/fq4.h"
#include "tachyon/math/circle/m31/fr.h"
#include "tachyon/math/circle/m31/fr4.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_curve.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn_curve.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"

// integers of the generated configurations are kept symbolic too
namespace tachyon::math::verif_gmp {
struct MpzSym {
  verif::AF v;
  MpzSym operator-() const { return {-v}; }
};
inline MpzSym FromDecString(std::string_view s) { return {*verif::AF::FromDecString(s)}; }
}  // namespace tachyon::math::verif_gmp
#define gmp verif_gmp
#define mpz_class verif_gmp::MpzSym
#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/circle/m31/g4.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#undef gmp
#undef mpz_class

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <typename T>
T Get(const uint64_t*& in) {
  if constexpr (std::is_same_v<T, AF>) {
    return T::Raw(*in++);
  } else {
    T r;
    constexpr int n = T::ExtensionDegree() / T::BaseField::ExtensionDegree();
    for (int i = 0; i < n; ++i) r[i] = Get<typename T::BaseField>(in);
    return r;
  }
}
template <typename T>
void Put(const T& v, uint64_t*& out) {
  if constexpr (std::is_same_v<T, AF>) {
    *out++ = v.raw();
  } else {
    constexpr int n = T::ExtensionDegree() / T::BaseField::ExtensionDegree();
    for (int i = 0; i < n; ++i) Put(v[i], out);
  }
}

template <typename C, typename = void>
struct HasGlv : std::false_type {};
template <typename C>
struct HasGlv<C, std::void_t<decltype(C::kGLVCoeffs)>> : std::true_type {};

// out: A, B, Gx, Gy, MulByA(v), then endomorphism coefficient, lambda, glv[4]
template <typename C>
int Curve(const uint64_t* in, uint64_t* out) {
  using F = typename C::BaseField;
  C::DoInit();
  F v = Get<F>(in);
  Put<F>(C::kA, out);
  Put<F>(C::kB, out);
  Put<F>(C::kGenerator.x, out);
  Put<F>(C::kGenerator.y, out);
  Put<F>(C::MulByA(v), out);
  if constexpr (HasGlv<C>::value) {
    Put<F>(C::kEndomorphismCoefficient, out);
    Put<AF>(C::kLambda, out);
    for (int i = 0; i < 4; ++i) Put<AF>(C::kGLVCoeffs[i].v, out);
  }
  return C::kAIsZero + 2 * HasGlv<C>::value;
}
template <typename C>
void CircleC(uint64_t* out) {
  using F = typename C::BaseField;
  C::DoInit();
  Put<F>(C::kGenerator.x, out);
  Put<F>(C::kGenerator.y, out);
}
using L2 = Fp2<bls12_381::Fq2Config<AF>>;
using N2 = Fp2<bn254::Fq2Config<AF>>;
using M2 = Fp2<m31::Fq2Config<AF>>;
using M4 = Fp4<m31::Fq4Config<M2>>;
#define CV(name, ...) \
  extern "C" int cv_##name(const uint64_t* in, uint64_t* out) { return Curve<__VA_ARGS__>(in, out); }
CV(bls12_381_g1, bls12_381::G1CurveConfig<AF, AF>)
CV(bls12_381_g2, bls12_381::G2CurveConfig<L2, AF>)
CV(bn254_g1, bn254::G1CurveConfig<AF, AF>)
CV(bn254_g2, bn254::G2CurveConfig<N2, AF>)
CV(secp256k1, secp256k1::CurveConfig<AF, AF>)
CV(pallas, pallas::CurveConfig<AF, AF>)
CV(vesta, vesta::CurveConfig<AF, AF>)
extern "C" void ci_m31_g1(uint64_t* out) { CircleC<m31::G1CircleConfig<AF, AF>>(out); }
extern "C" void ci_m31_g4(uint64_t* out) { CircleC<m31::G4CircleConfig<M4, AF>>(out); }

struct NoCurve { static void Init() {} };
extern "C" void pr_bn254(uint64_t* out) {
  using C = bn254::BN254Config<AF, N2, AF, AF, NoCurve, NoCurve>;
  C::DoInit();
  *out++ = C::kX[0];
  *out++ = C::kXIsNegative;
  *out++ = C::kTwistType == TwistType::kD;
  *out++ = std::size(C::kX.limbs);
  Put<N2>(C::kTwistMulByQX, out);
  Put<N2>(C::kTwistMulByQY, out);
  *out++ = std::size(C::kAteLoopCount);
  for (size_t i = 0; i < std::size(C::kAteLoopCount); ++i) *out++ = static_cast<uint64_t>(static_cast<int64_t>(C::kAteLoopCount[i]));
}
extern "C" void pr_bls12_381(uint64_t* out) {
  using C = bls12_381::BLS12_381Config<AF, L2, AF, AF, NoCurve, NoCurve>;
  *out++ = C::kX[0];
  *out++ = C::kXIsNegative;
  *out++ = C::kTwistType == TwistType::kD;
  *out++ = C::kXLimbNums;
}
}  // namespace verif
