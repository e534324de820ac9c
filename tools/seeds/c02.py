EC = 'tachyon/math/elliptic_curves/short_weierstrass/'
PRE = '''#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
using namespace tachyon::math;
using F = bn254::Fq;
int main() {
  bn254::G1Curve::Init();
'''
seed('C02-jac-aff', 'C02', [(EC + 'jacobian_point.h', '''  constexpr AffinePoint<Curve> ToAffine() const {
    if (IsZero()) {
      return AffinePoint<Curve>::Zero();
    } else if (z_.IsOne()) {''', '''  constexpr AffinePoint<Curve> ToAffine() const {
    if (IsZero()) {
      return AffinePoint<Curve>::Zero();
    } else if (z_.Square().IsOne()) {''')],
     'a Jacobian representative with z = -1', 'ToAffine negates the point when z == -1',
     PRE + '''  auto a = bn254::G1JacobianPoint::Random().ToAffine();
  F z = -F::One();
  bn254::G1JacobianPoint p(a.x(), -a.y(), z);
  return p.ToAffine() == a ? 0 : 1;
}
''')
