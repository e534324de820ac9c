// Instantiates every short-Weierstrass point system with the abstract field.
#include "abstract_field.h"

#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "tachyon/math/geometry/point2.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <int D, bool AZero>
struct Cfg {
  using BaseField = AFT<D>;
  using BasePrimeField = AFT<D>;
  using ScalarField = AF;
  using CpuBaseField = BaseField;
  using CpuScalarField = ScalarField;
  using GpuBaseField = BaseField;
  using GpuScalarField = ScalarField;
  using CpuCurveConfig = Cfg;
  using GpuCurveConfig = Cfg;
  constexpr static bool kAIsZero = AZero;
  // params: 0 = a, 1 = b, 2 = endomorphism coefficient, 3,4 = generator
  constexpr static BaseField kA = AZero ? BaseField(0) : BaseField::Param(0);
  constexpr static BaseField kB = BaseField::Param(1);
  constexpr static BaseField kEndomorphismCoefficient = BaseField::Param(2);
  constexpr static ScalarField kLambda = ScalarField::Param(5);
  constexpr static Point2<BaseField> kGenerator{BaseField::Param(3), BaseField::Param(4)};
  constexpr static BaseField MulByA(const BaseField& v) { return kA * v; }
  static void Init() {}
};

template <typename P>
struct IO;
template <typename C>
struct IO<AffinePoint<C>> {
  using P = AffinePoint<C>;
  using F = typename C::BaseField;
  static P In(const uint64_t* in) { return P(F::Raw(in[0]), F::Raw(in[1])); }
  static void Out(const P& p, uint64_t* out) {
    out[0] = p.x().raw();
    out[1] = p.y().raw();
  }
};
template <typename C>
struct IO<ProjectivePoint<C>> {
  using P = ProjectivePoint<C>;
  using F = typename C::BaseField;
  static P In(const uint64_t* in) {
    return P(F::Raw(in[0]), F::Raw(in[1]), F::Raw(in[2]));
  }
  static void Out(const P& p, uint64_t* out) {
    out[0] = p.x().raw();
    out[1] = p.y().raw();
    out[2] = p.z().raw();
  }
};
template <typename C>
struct IO<JacobianPoint<C>> {
  using P = JacobianPoint<C>;
  using F = typename C::BaseField;
  static P In(const uint64_t* in) {
    return P(F::Raw(in[0]), F::Raw(in[1]), F::Raw(in[2]));
  }
  static void Out(const P& p, uint64_t* out) {
    out[0] = p.x().raw();
    out[1] = p.y().raw();
    out[2] = p.z().raw();
  }
};
template <typename C>
struct IO<PointXYZZ<C>> {
  using P = PointXYZZ<C>;
  using F = typename C::BaseField;
  static P In(const uint64_t* in) {
    return P(F::Raw(in[0]), F::Raw(in[1]), F::Raw(in[2]), F::Raw(in[3]));
  }
  static void Out(const P& p, uint64_t* out) {
    out[0] = p.x().raw();
    out[1] = p.y().raw();
    out[2] = p.zz().raw();
    out[3] = p.zzz().raw();
  }
};

#define SIG (const uint64_t* in, uint64_t* out)
// second operand always starts at in[4]
#define UN(name, P, Q, expr)                    \
  extern "C" void name SIG {                    \
    P p = IO<P>::In(in);                        \
    IO<Q>::Out(expr, out);                      \
  }
#define INPLACE1(name, P, stmt)                 \
  extern "C" void name SIG {                    \
    P p = IO<P>::In(in);                        \
    stmt;                                       \
    IO<P>::Out(p, out);                         \
  }
#define BIN(name, P, Q, R, expr)                \
  extern "C" void name SIG {                    \
    P p = IO<P>::In(in);                        \
    Q q = IO<Q>::In(in + 4);                    \
    IO<R>::Out(expr, out);                      \
  }
#define INPLACE2(name, P, Q, stmt)              \
  extern "C" void name SIG {                    \
    P p = IO<P>::In(in);                        \
    Q q = IO<Q>::In(in + 4);                    \
    stmt;                                       \
    IO<P>::Out(p, out);                         \
  }
#define PRED1(name, P, expr)                    \
  extern "C" bool name SIG {                    \
    P p = IO<P>::In(in);                        \
    return expr;                                \
  }
#define PRED2(name, P, Q, expr)                 \
  extern "C" bool name SIG {                    \
    P p = IO<P>::In(in);                        \
    Q q = IO<Q>::In(in + 4);                    \
    return expr;                                \
  }

#define COMMON(tag, K, P)                                        \
  UN(neg_##tag##_##K, P, P, p.Negate())                          \
  UN(negop_##tag##_##K, P, P, -p)                                \
  INPLACE1(negi_##tag##_##K, P, p.NegateInPlace())               \
  PRED1(iszero_##tag##_##K, P, p.IsZero())                       \
  PRED1(isoncurve_##tag##_##K, P, p.IsOnCurve())                 \
  PRED2(eq_##tag##_##K, P, P, p == q)                            \
  PRED2(ne_##tag##_##K, P, P, p != q)                            \
  extern "C" void zero_##tag##_##K SIG { IO<P>::Out(P::Zero(), out); } \
  extern "C" void dflt_##tag##_##K SIG { IO<P>::Out(P(), out); } \
  extern "C" void gen_##tag##_##K SIG { IO<P>::Out(P::Generator(), out); } \
  UN(endo_##tag##_##K, P, P, P::Endomorphism(p))                 \
  extern "C" bool fromx_##tag##_##K SIG {                        \
    using F = typename P::BaseField;                             \
    auto r = P::CreateFromX(F::Raw(in[0]), in[1] != 0);          \
    if (!r.has_value()) return false;                            \
    IO<P>::Out(*r, out);                                         \
    return true;                                                 \
  }

#define GROUP(tag, K, P, A)                                      \
  BIN(add_##tag##_##K, P, P, P, p + q)                           \
  BIN(sub_##tag##_##K, P, P, P, p - q)                           \
  BIN(madd_##tag##_##K, P, A, P, p + q)                          \
  BIN(msub_##tag##_##K, P, A, P, p - q)                          \
  INPLACE2(addi_##tag##_##K, P, P, p += q)                       \
  INPLACE2(subi_##tag##_##K, P, P, p -= q)                       \
  INPLACE2(maddi_##tag##_##K, P, A, p += q)                      \
  INPLACE2(msubi_##tag##_##K, P, A, p -= q)                      \
  UN(dbl_##tag##_##K, P, P, p.Double())                          \
  INPLACE1(dbli_##tag##_##K, P, p.DoubleInPlace())               \
  UN(addself_##tag##_##K, P, P, p + p)                           \
  INPLACE1(addiself_##tag##_##K, P, p += p)                      \
  UN(toaff_##tag##_##K, P, A, p.ToAffine())

#define CURVE(K, C)                                                          \
  using Aff_##K = AffinePoint<C>;                                            \
  using Prj_##K = ProjectivePoint<C>;                                        \
  using Jac_##K = JacobianPoint<C>;                                          \
  using Xyz_##K = PointXYZZ<C>;                                              \
  COMMON(aff, K, Aff_##K)                                                    \
  COMMON(prj, K, Prj_##K)                                                    \
  COMMON(jac, K, Jac_##K)                                                    \
  COMMON(xyz, K, Xyz_##K)                                                    \
  GROUP(prj, K, Prj_##K, Aff_##K)                                            \
  GROUP(jac, K, Jac_##K, Aff_##K)                                            \
  GROUP(xyz, K, Xyz_##K, Aff_##K)                                            \
  BIN(affadd_##K, Aff_##K, Aff_##K, Jac_##K, p + q)                          \
  BIN(affsub_##K, Aff_##K, Aff_##K, Jac_##K, p - q)                          \
  BIN(affaddprj_##K, Aff_##K, Prj_##K, Prj_##K, p + q)                       \
  BIN(affaddjac_##K, Aff_##K, Jac_##K, Jac_##K, p + q)                       \
  BIN(affaddxyz_##K, Aff_##K, Xyz_##K, Xyz_##K, p + q)                       \
  UN(affdbl_##K, Aff_##K, Jac_##K, p.Double())                               \
  UN(affdblprj_##K, Aff_##K, Prj_##K, p.DoubleProjective())                  \
  UN(affdblxyz_##K, Aff_##K, Xyz_##K, p.DoubleXYZZ())                        \
  UN(aff_to_prj_##K, Aff_##K, Prj_##K, p.ToProjective())                     \
  UN(aff_to_jac_##K, Aff_##K, Jac_##K, p.ToJacobian())                       \
  UN(aff_to_xyz_##K, Aff_##K, Xyz_##K, p.ToXYZZ())                           \
  UN(prj_to_jac_##K, Prj_##K, Jac_##K, p.ToJacobian())                       \
  UN(prj_to_xyz_##K, Prj_##K, Xyz_##K, p.ToXYZZ())                           \
  UN(jac_to_prj_##K, Jac_##K, Prj_##K, p.ToProjective())                     \
  UN(jac_to_xyz_##K, Jac_##K, Xyz_##K, p.ToXYZZ())                           \
  UN(xyz_to_prj_##K, Xyz_##K, Prj_##K, p.ToProjective())                     \
  UN(xyz_to_jac_##K, Xyz_##K, Jac_##K, p.ToJacobian())                       \
  UN(from_aff_prj_##K, Aff_##K, Prj_##K, Prj_##K::FromAffine(p))             \
  UN(from_aff_jac_##K, Aff_##K, Jac_##K, Jac_##K::FromAffine(p))             \
  UN(from_aff_xyz_##K, Aff_##K, Xyz_##K, Xyz_##K::FromAffine(p))             \
  UN(from_prj_jac_##K, Prj_##K, Jac_##K, Jac_##K::FromProjective(p))         \
  UN(from_prj_xyz_##K, Prj_##K, Xyz_##K, Xyz_##K::FromProjective(p))         \
  UN(from_prj_aff_##K, Prj_##K, Aff_##K, Aff_##K::FromProjective(p))         \
  UN(from_jac_prj_##K, Jac_##K, Prj_##K, Prj_##K::FromJacobian(p))           \
  UN(from_jac_xyz_##K, Jac_##K, Xyz_##K, Xyz_##K::FromJacobian(p))           \
  UN(from_jac_aff_##K, Jac_##K, Aff_##K, Aff_##K::FromJacobian(p))           \
  UN(from_xyz_prj_##K, Xyz_##K, Prj_##K, Prj_##K::FromXYZZ(p))               \
  UN(from_xyz_jac_##K, Xyz_##K, Jac_##K, Jac_##K::FromXYZZ(p))               \
  UN(from_xyz_aff_##K, Xyz_##K, Aff_##K, Aff_##K::FromXYZZ(p))

#define CC(D, Z) SWCurve<Cfg<D, Z>>
using C1Z = SWCurve<Cfg<1, true>>;
using C1N = SWCurve<Cfg<1, false>>;
using C2Z = SWCurve<Cfg<2, true>>;
using C3Z = SWCurve<Cfg<3, true>>;
using C2N = SWCurve<Cfg<2, false>>;

CURVE(1z, C1Z)
CURVE(1n, C1N)
#ifdef VERIF_MORE
CURVE(2z, C2Z)
CURVE(2n, C2N)
CURVE(3z, C3Z)
#endif

}  // namespace verif
