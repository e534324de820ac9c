// Pairing groups of prime order whose elements stand for their discrete
// logarithms (handles of an opaque scalar field). The pairing multiplies
// logarithms, so an equation between group elements is the polynomial identity
// of the exponents; multi-scalar multiplication is the sum it is specified to
// be (the repository's own is checked in C06), and fails on unequal lengths.
// Include before the headers under analysis, define the scalar field VERIF_F.
#ifndef VERIF_GROUP_MODEL_H_
#define VERIF_GROUP_MODEL_H_
#include "abstract_prime_field.h"

#include <array>
#include <vector>

#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "tachyon/math/elliptic_curves/semigroups.h"
#include "tachyon/math/geometry/affine_point.h"
#include "tachyon/math/geometry/curve_type.h"
#include "tachyon/math/geometry/jacobian_point.h"
#include "tachyon/math/geometry/point_conversions.h"
#include "tachyon/math/geometry/point_xyzz.h"
#include "tachyon/math/geometry/projective_point.h"

namespace verif {
template <int I>
struct GCurve {
  using ScalarField = VERIF_F;
  using BaseField = VERIF_F;
  using AffinePoint = tachyon::math::AffinePoint<GCurve>;
  using ProjectivePoint = tachyon::math::ProjectivePoint<GCurve>;
  using JacobianPoint = tachyon::math::JacobianPoint<GCurve>;
  using PointXYZZ = tachyon::math::PointXYZZ<GCurve>;
  constexpr static auto kType = tachyon::math::CurveType::kShortWeierstrass;
  static void Init() {}
};
using G1 = GCurve<1>;
using G2 = GCurve<2>;

template <template <typename, typename> class P, template <typename, typename> class Q>
struct Addable : std::bool_constant<std::is_same_v<P<GCurve<1>, void>, Q<GCurve<1>, void>> ||
                                    std::is_same_v<Q<GCurve<1>, void>, tachyon::math::AffinePoint<GCurve<1>>> ||
                                    (std::is_same_v<P<GCurve<1>, void>, tachyon::math::AffinePoint<GCurve<1>>> &&
                                     std::is_same_v<Q<GCurve<1>, void>, tachyon::math::JacobianPoint<GCurve<1>>>)> {};
// operations common to all representations
template <typename Self, typename C>
struct PtOps {
  constexpr static bool kNegationIsCheap = true;
  using Curve = C;
  using BaseField = VERIF_F;
  using ScalarField = VERIF_F;
  VERIF_F e;
  constexpr PtOps() = default;
  constexpr explicit PtOps(const VERIF_F& e) : e(e) {}
  constexpr static Self Zero() { return Self(VERIF_F::Zero()); }
  constexpr static Self One() { return Self(VERIF_F::One()); }
  constexpr static Self Generator() { return Self(VERIF_F::One()); }
  constexpr static Self Random() { return Self(VERIF_F::Random()); }
  bool IsZero() const { return e.IsZero(); }
  bool IsOne() const { return e.IsOne(); }
  bool operator==(const Self& o) const { return e == o.e; }
  bool operator!=(const Self& o) const { return e != o.e; }
  Self operator-() const { return Self(-e); }
  Self Negate() const { return Self(-e); }
  Self& NegateInPlace() {
    e = -e;
    return static_cast<Self&>(*this);
  }
  template <typename P>
  Self& operator+=(const P& o) {
    e += o.e;
    return static_cast<Self&>(*this);
  }
  template <typename P>
  Self& operator-=(const P& o) {
    e -= o.e;
    return static_cast<Self&>(*this);
  }
  Self& operator*=(const VERIF_F& s) {
    e *= s;
    return static_cast<Self&>(*this);
  }
  tachyon::math::AffinePoint<C> ToAffine() const;
  tachyon::math::ProjectivePoint<C> ToProjective() const;
  tachyon::math::JacobianPoint<C> ToJacobian() const;
  tachyon::math::PointXYZZ<C> ToXYZZ() const;
  std::string ToString() const { return {}; }
  std::string ToHexString(bool = false) const { return {}; }
  template <typename In, typename Out>
  static bool BatchNormalize(const In& in, Out* out) {
    size_t n = std::size(in);
    if (n != std::size(*out)) return false;
    for (size_t i = 0; i < n; ++i) (*out)[i] = in[i].ToAffine();
    return true;
  }
  template <typename In, typename Out>
  static bool BatchNormalizeSerial(const In& in, Out* out) {
    return BatchNormalize(in, out);
  }
  template <typename S, typename Out>
  static bool BatchMapScalarFieldToPoint(const Self& g, const S& s, Out* out) {
    size_t n = std::size(s);
    if (n != std::size(*out)) return false;
    for (size_t i = 0; i < n; ++i) (*out)[i] = Self(g.e * s[i]);
    return true;
  }
};
}  // namespace verif

namespace tachyon::math {
#define VERIF_POINT(P, Sum)                                                          \
  template <int I>                                                                   \
  class P<verif::GCurve<I>> final : public AdditiveGroup<P<verif::GCurve<I>>>,       \
                                    public verif::PtOps<P<verif::GCurve<I>>, verif::GCurve<I>> { \
   public:                                                                           \
    using C = verif::GCurve<I>;                                                      \
    using Ops = verif::PtOps<P<C>, C>;                                               \
    using Ops::Ops;                                                                  \
    constexpr P() = default;                                                         \
    using Ops::operator==;                                                           \
    using Ops::operator!=;                                                           \
    using Ops::operator+=;                                                           \
    using Ops::operator-=;                                                           \
    using Ops::operator*=;                                                           \
    using Ops::BatchMapScalarFieldToPoint;                                           \
    using Ops::Negate;                                                               \
    using Ops::NegateInPlace;                                                        \
    using Ops::ToString;                                                             \
    P operator-() const { return P(-this->e); }                                      \
    template <template <typename, typename> class Q, std::enable_if_t<verif::Addable<math::P, Q>::value>* = nullptr>                                 \
    Sum<C> operator+(const Q<C, void>& o) const {                                    \
      return Sum<C>(this->e + o.e);                                                  \
    }                                                                                \
    template <template <typename, typename> class Q, std::enable_if_t<verif::Addable<math::P, Q>::value>* = nullptr>                                 \
    Sum<C> operator-(const Q<C, void>& o) const {                                    \
      return Sum<C>(this->e - o.e);                                                  \
    }                                                                                \
    Sum<C> operator*(const VERIF_F& s) const { return Sum<C>(this->e * s); }         \
    template <template <typename, typename> class Q, std::enable_if_t<verif::Addable<math::P, Q>::value>* = nullptr>                                 \
    Sum<C> Add(const Q<C, void>& o) const {                                          \
      return Sum<C>(this->e + o.e);                                                  \
    }                                                                                \
    Sum<C> Double() const { return Sum<C>(this->e + this->e); }                      \
  };
VERIF_POINT(AffinePoint, JacobianPoint)
VERIF_POINT(ProjectivePoint, ProjectivePoint)
VERIF_POINT(JacobianPoint, JacobianPoint)
VERIF_POINT(PointXYZZ, PointXYZZ)
#undef VERIF_POINT

template <int I>
class VariableBaseMSM<AffinePoint<verif::GCurve<I>>> {
 public:
  using Bucket = PointXYZZ<verif::GCurve<I>>;
  template <typename B, typename S>
  [[nodiscard]] bool Run(B b, B be, S s, S se, Bucket* r) {
    if (be - b != se - s) return false;
    VERIF_F x = VERIF_F::Zero();
    for (; b != be; ++b, ++s) x += b->e * *s;
    *r = Bucket(x);
    return true;
  }
  template <typename B, typename S>
  [[nodiscard]] bool Run(const B& b, const S& s, Bucket* r) {
    return Run(std::begin(b), std::end(b), std::begin(s), std::end(s), r);
  }
};
}  // namespace tachyon::math

namespace verif {
template <typename Self, typename C>
tachyon::math::AffinePoint<C> PtOps<Self, C>::ToAffine() const { return tachyon::math::AffinePoint<C>(e); }
template <typename Self, typename C>
tachyon::math::ProjectivePoint<C> PtOps<Self, C>::ToProjective() const { return tachyon::math::ProjectivePoint<C>(e); }
template <typename Self, typename C>
tachyon::math::JacobianPoint<C> PtOps<Self, C>::ToJacobian() const { return tachyon::math::JacobianPoint<C>(e); }
template <typename Self, typename C>
tachyon::math::PointXYZZ<C> PtOps<Self, C>::ToXYZZ() const { return tachyon::math::PointXYZZ<C>(e); }

struct PairingModel {
  using G1Curve = G1;
  using G2Curve = G2;
  struct G2Prepared {
    VERIF_F e;
    static G2Prepared From(const tachyon::math::AffinePoint<G2>& p) { return {p.e}; }
  };
  // additive notation for the target group
  struct Fp12 {
    VERIF_F e;
    bool IsOne() const { return e.IsZero(); }
    static Fp12 One() { return {VERIF_F::Zero()}; }
    Fp12 operator*(const Fp12& o) const { return {e + o.e}; }
    Fp12& operator*=(const Fp12& o) {
      e += o.e;
      return *this;
    }
    Fp12 Inverse() const { return {-e}; }
    bool operator==(const Fp12& o) const { return e == o.e; }
    bool operator!=(const Fp12& o) const { return e != o.e; }
    Fp12 CyclotomicInverse() const { return {-e}; }
    static Fp12 Zero() { return {VERIF_F::Zero()}; }
  };
  template <typename A, typename B>
  static Fp12 MultiMillerLoop(const A& a, const B& b) {
    VERIF_F x = VERIF_F::Zero();
    auto i = std::begin(a);
    auto j = std::begin(b);
    size_t n = std::size(a);
    if (n != std::size(b)) std::abort();
    for (size_t k = 0; k < n; ++k, ++i, ++j) x += i->e * j->e;
    return {x};
  }
  static Fp12 FinalExponentiation(const Fp12& f) { return f; }
  static void Init() {}
};
}  // namespace verif
#endif  // VERIF_GROUP_MODEL_H_
