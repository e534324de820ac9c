// Instantiates the pairing templates with (A) the abstract field and (B) formal
// points, lines and target-group elements. Nothing here is executed.
#include "abstract_field.h"

#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_curve.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn_curve.h"
#include "tachyon/math/elliptic_curves/pairing/g2_projective.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "tachyon/math/finite_fields/cyclotomic_multiplicative_subgroup.h"

// ---------------------------------------------------------------- (A)
namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <typename F>
struct SPoint {
  F x_, y_;
  SPoint() = default;
  SPoint(const F& x, const F& y) : x_(x), y_(y) {}
  const F& x() const { return x_; }
  const F& y() const { return y_; }
};
struct ACurve {
  using BaseField = AF;
  using AffinePoint = SPoint<AF>;
  struct Config {
    using BaseField = AF;
    constexpr static AF kA = AF(0);
    constexpr static AF kB = AF::Param(1);
    constexpr static bool kAIsZero = true;
  };
};
template <TwistType T>
struct ACfg {
  using G2Curve = ACurve;
  constexpr static TwistType kTwistType = T;
};
template <typename P>
void OutP(const P& r, const EllCoeff<AF>& l, uint64_t* out) {
  out[0] = r.x().raw();
  out[1] = r.y().raw();
  out[2] = r.z().raw();
  out[3] = l.c0().raw();
  out[4] = l.c1().raw();
  out[5] = l.c2().raw();
}
#define STEP(K)                                                                       \
  extern "C" void dbl_##K(const uint64_t* in, uint64_t* out) {                        \
    G2Projective<ACfg<TwistType::k##K>> r(AF::Raw(in[0]), AF::Raw(in[1]), AF::Raw(in[2])); \
    auto l = r.DoubleInPlace(AF::TwoInv());                                           \
    OutP(r, l, out);                                                                  \
  }                                                                                   \
  extern "C" void add_##K(const uint64_t* in, uint64_t* out) {                        \
    G2Projective<ACfg<TwistType::k##K>> r(AF::Raw(in[0]), AF::Raw(in[1]), AF::Raw(in[2])); \
    auto l = r.AddInPlace(SPoint<AF>(AF::Raw(in[4]), AF::Raw(in[5])));                \
    OutP(r, l, out);                                                                  \
  }                                                                                   \
  extern "C" void neg_##K(const uint64_t* in, uint64_t* out) {                        \
    G2Projective<ACfg<TwistType::k##K>> r(AF::Raw(in[0]), AF::Raw(in[1]), AF::Raw(in[2])); \
    r.NegateInPlace();                                                                \
    OutP(r, EllCoeff<AF>(), out);                                                     \
  }
STEP(M)
STEP(D)
}  // namespace verif

// ---------------------------------------------------------------- (B)
extern "C" {
uint64_t pf_frob(uint64_t, uint64_t) noexcept;       // Fp2 coordinate
uint64_t pf_mul(uint64_t, uint64_t) noexcept;        // Fp2 by Fp2 or Fp
uint64_t pf_neg(uint64_t) noexcept;
uint64_t pf_one() noexcept;
uint64_t pf_twoinv() noexcept;
bool pf_inf(uint64_t, uint64_t) noexcept;            // is (x, y) the identity
uint64_t pf_pt(uint64_t, uint64_t, uint64_t) noexcept;
uint64_t pf_pt_neg(uint64_t) noexcept;
uint64_t pf_dbl_line(uint64_t, uint64_t) noexcept;
uint64_t pf_dbl(uint64_t) noexcept;
uint64_t pf_add_line(uint64_t, uint64_t, uint64_t) noexcept;
uint64_t pf_add(uint64_t, uint64_t, uint64_t) noexcept;
uint64_t pf_coeff(uint64_t, uint64_t) noexcept;
uint64_t gt_one() noexcept;
uint64_t gt_zero() noexcept;
bool gt_is_zero(uint64_t) noexcept;
bool gt_eq(uint64_t, uint64_t) noexcept;
uint64_t gt_mul(uint64_t, uint64_t) noexcept;
uint64_t gt_square(uint64_t) noexcept;
uint64_t gt_inv(uint64_t) noexcept;
uint64_t gt_frob(uint64_t, uint64_t) noexcept;
uint64_t gt_cycsquare(uint64_t) noexcept;
uint64_t gt_cycinv(uint64_t) noexcept;
uint64_t gt_034(uint64_t, uint64_t, uint64_t, uint64_t) noexcept;
uint64_t gt_014(uint64_t, uint64_t, uint64_t, uint64_t) noexcept;
uint64_t gt_g1_zero(uint64_t) noexcept;
}

namespace verif {
struct FFp {
  uint64_t h;
  static FFp TwoInv() { return {pf_twoinv()}; }
};
struct FFp2 {
  using BaseField = FFp;
  uint64_t h = 0;
  static FFp2 One() { return {pf_one()}; }
  static FFp2 R(uint64_t h) {
    FFp2 r;
    r.h = h;
    return r;
  }
  FFp2& FrobeniusMapInPlace(uint64_t e) {
    h = pf_frob(h, e);
    return *this;
  }
  FFp2 FrobeniusMap(uint64_t e) const { return R(pf_frob(h, e)); }
  FFp2& operator*=(const FFp2& o) {
    h = pf_mul(h, o.h);
    return *this;
  }
  FFp2 operator*(const FFp2& o) const { return R(pf_mul(h, o.h)); }
  FFp2& operator*=(const FFp& o) {
    h = pf_mul(h, o.h);
    return *this;
  }
  FFp2 operator*(const FFp& o) const { return R(pf_mul(h, o.h)); }
  FFp2 operator-() const { return R(pf_neg(h)); }
  FFp2& NegateInPlace() {
    h = pf_neg(h);
    return *this;
  }
};
struct FG2 {
  FFp2 x_, y_;
  FG2() = default;
  FG2(const FFp2& x, const FFp2& y) : x_(x), y_(y) {}
  const FFp2& x() const { return x_; }
  const FFp2& y() const { return y_; }
  bool IsZero() const { return pf_inf(x_.h, y_.h); }
  FG2 operator-() const { return FG2(x_, -y_); }
  FG2 Negate() const { return FG2(x_, -y_); }
  FG2& NegateInPlace() {
    y_.NegateInPlace();
    return *this;
  }
};
struct FG1 {
  FFp x_, y_;
  const FFp& x() const { return x_; }
  const FFp& y() const { return y_; }
  bool IsZero() const { return gt_g1_zero(x_.h); }
};
class FGT;
}  // namespace verif
namespace tachyon::math {
template <>
struct FiniteFieldTraits<verif::FGT> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = false;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::AF;
  using Config = verif::AFConfig;
};
}  // namespace tachyon::math
namespace verif {
class FGT final : public tachyon::math::CyclotomicMultiplicativeSubgroup<FGT> {
 public:
  uint64_t h = 0;
  FGT() = default;
  static FGT R(uint64_t h) {
    FGT r;
    r.h = h;
    return r;
  }
  static FGT One() { return R(gt_one()); }
  static FGT Zero() { return R(gt_zero()); }
  static void Init() {}
  bool IsZero() const { return gt_is_zero(h); }
  bool IsOne() const { return gt_eq(h, gt_one()); }
  bool operator==(const FGT& o) const { return gt_eq(h, o.h); }
  bool operator!=(const FGT& o) const { return !gt_eq(h, o.h); }
  FGT operator*(const FGT& o) const { return R(gt_mul(h, o.h)); }
  FGT& operator*=(const FGT& o) {
    h = gt_mul(h, o.h);
    return *this;
  }
  FGT Mul(const FGT& o) const { return R(gt_mul(h, o.h)); }
  FGT& MulInPlace(const FGT& o) { return *this *= o; }
  FGT Square() const { return R(gt_square(h)); }
  FGT& SquareInPlace() {
    h = gt_square(h);
    return *this;
  }
  FGT SquareImpl() const { return Square(); }
  std::optional<FGT> Inverse() const {
    if (IsZero()) return std::nullopt;
    return R(gt_inv(h));
  }
  std::optional<FGT*> InverseInPlace() {
    if (IsZero()) return std::nullopt;
    h = gt_inv(h);
    return this;
  }
  FGT& FrobeniusMapInPlace(uint64_t e) {
    h = gt_frob(h, e);
    return *this;
  }
  FGT FrobeniusMap(uint64_t e) const { return R(gt_frob(h, e)); }
  FGT FastCyclotomicSquare() const { return R(gt_cycsquare(h)); }
  FGT& FastCyclotomicSquareInPlace() {
    h = gt_cycsquare(h);
    return *this;
  }
  std::optional<FGT> FastCyclotomicInverse() const {
    if (IsZero()) return std::nullopt;
    return R(gt_cycinv(h));
  }
  std::optional<FGT*> FastCyclotomicInverseInPlace() {
    if (IsZero()) return std::nullopt;
    h = gt_cycinv(h);
    return this;
  }
  FGT& MulInPlaceBy034(const FFp2& a, const FFp2& b, const FFp2& c) {
    h = gt_034(h, a.h, b.h, c.h);
    return *this;
  }
  FGT& MulInPlaceBy014(const FFp2& a, const FFp2& b, const FFp2& c) {
    h = gt_014(h, a.h, b.h, c.h);
    return *this;
  }
};
struct FG1Curve {
  using BaseField = FFp;
  using AffinePoint = FG1;
  static void Init() {}
};
struct FG2Curve {
  using BaseField = FFp2;
  using AffinePoint = FG2;
  static void Init() {}
};
#ifndef SYN_X
#define SYN_X 1
#define SYN_ATE 0, 0, 0, 1
#endif
#ifndef SYN_NEG
#define SYN_NEG true
#endif
#ifndef SYN_TWIST
#define SYN_TWIST M
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
// a family member the library does not ship, exercising the other branches
struct Syn {
  constexpr static tachyon::math::BigInt<1> kX = tachyon::math::BigInt<1>({uint64_t{SYN_X}});
  constexpr static size_t kXLimbNums = 1;
  constexpr static bool kXIsNegative = SYN_NEG;
  constexpr static int8_t kAteLoopCount[] = {SYN_ATE};
  constexpr static tachyon::math::TwistType kTwistType = tachyon::math::TwistType::CAT(k, SYN_TWIST);
  using Fp = FFp;
  using Fp2 = FFp2;
  using Fp6 = FFp2;
  using Fp12 = FGT;
  using G1Curve = FG1Curve;
  using G2Curve = FG2Curve;
  static FFp2 kTwistMulByQX;
  static FFp2 kTwistMulByQY;
  static void Init() {}
};
FFp2 Syn::kTwistMulByQX;
FFp2 Syn::kTwistMulByQY;
using BNCfg = tachyon::math::bn254::BN254Config<FFp, FFp2, FFp2, FGT, FG1Curve, FG2Curve>;
using BLSCfg = tachyon::math::bls12_381::BLS12_381Config<FFp, FFp2, FFp2, FGT, FG1Curve, FG2Curve>;
}  // namespace verif

namespace tachyon::math {
#define FPROJ(CFG)                                                                \
  template <>                                                                     \
  class G2Projective<CFG> {                                                       \
   public:                                                                        \
    using F2 = verif::FFp2;                                                       \
    G2Projective(const F2& x, const F2& y, const F2& z) : p(pf_pt(x.h, y.h, z.h)) {} \
    static EllCoeff<F2> Line(uint64_t l) {                                        \
      return EllCoeff<F2>(F2::R(pf_coeff(l, 0)), F2::R(pf_coeff(l, 1)), F2::R(pf_coeff(l, 2))); \
    }                                                                             \
    EllCoeff<F2> DoubleInPlace(const verif::FFp& two_inv) {                       \
      uint64_t l = pf_dbl_line(p, two_inv.h);                                     \
      p = pf_dbl(p);                                                              \
      return Line(l);                                                             \
    }                                                                             \
    EllCoeff<F2> AddInPlace(const verif::FG2& q) {                                \
      uint64_t l = pf_add_line(p, q.x().h, q.y().h);                              \
      p = pf_add(p, q.x().h, q.y().h);                                            \
      return Line(l);                                                             \
    }                                                                             \
    G2Projective& NegateInPlace() {                                               \
      p = pf_pt_neg(p);                                                           \
      return *this;                                                               \
    }                                                                             \
   private:                                                                       \
    uint64_t p;                                                                   \
  };
FPROJ(verif::BNCfg)
FPROJ(verif::BLSCfg)
FPROJ(verif::Syn)
}  // namespace tachyon::math

namespace verif {
using BN = BNCurve<BNCfg>;
using BLS = BLS12Curve<BLSCfg>;
using SBN = BNCurve<Syn>;
using SBLS = BLS12Curve<Syn>;

extern "C" uint64_t x_neg(uint64_t* out) {
  out[0] = BNCfg::kX.limbs[0];
  out[1] = BNCfg::kXIsNegative;
  out[2] = BLSCfg::kX.limbs[0];
  out[3] = BLSCfg::kXIsNegative;
  return 0;
}
// in: [g1x g1y g2x g2y] per pair
template <typename C>
void Load(const uint64_t* in, size_t n, std::vector<FG1>& a, std::vector<FG2>& b) {
  a.reserve(n);
  b.reserve(n);
  for (size_t i = 0; i < n; ++i) {
    FG1 p;
    p.x_.h = in[4 * i];
    p.y_.h = in[4 * i + 1];
    a.push_back(p);
    b.push_back(FG2(FFp2::R(in[4 * i + 2]), FFp2::R(in[4 * i + 3])));
  }
}
#define CURVE(C)                                                              \
  extern "C" void miller_##C(const uint64_t* in, uint64_t n, uint64_t* out) { \
    std::vector<FG1> a;                                                       \
    std::vector<FG2> b;                                                       \
    Load<C>(in, n, a, b);                                                     \
    std::vector<typename C::G2Prepared> prep;                                 \
    prep.reserve(n);                                                          \
    for (size_t i = 0; i < n; ++i) prep.push_back(C::G2Prepared::From(b[i])); \
    out[0] = C::MultiMillerLoop(a, prep).h;                                   \
  }                                                                           \
  extern "C" void pairing_##C(const uint64_t* in, uint64_t n, uint64_t* out) { \
    std::vector<FG1> a;                                                       \
    std::vector<FG2> b;                                                       \
    Load<C>(in, n, a, b);                                                     \
    out[0] = Pairing<C>(a, b).h;                                              \
  }                                                                           \
  extern "C" void pairingp_##C(const uint64_t* in, uint64_t n, uint64_t* out) { \
    std::vector<FG1> a;                                                       \
    std::vector<FG2> b;                                                       \
    Load<C>(in, n, a, b);                                                     \
    std::vector<typename C::G2Prepared> prep;                                 \
    prep.reserve(n);                                                          \
    for (size_t i = 0; i < n; ++i) prep.push_back(C::G2Prepared::From(b[i])); \
    out[0] = Pairing<C>(a, prep).h;                                           \
  }                                                                           \
  extern "C" void final_##C(const uint64_t* in, uint64_t* out) {              \
    out[0] = C::FinalExponentiation(FGT::R(in[0])).h;                         \
  }                                                                           \
  extern "C" void powx_##C(const uint64_t* in, uint64_t* out) {               \
    out[0] = C::PowByX(FGT::R(in[0])).h;                                      \
    out[1] = C::PowByNegX(FGT::R(in[0])).h;                                   \
  }
#define CURVE_(C) CURVE(C)
#ifdef SYN_ONLY
CURVE_(SYN_ONLY)
#else
CURVE(BN)
CURVE(BLS)
#endif
}  // namespace verif
