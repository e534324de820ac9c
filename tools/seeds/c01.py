EC = 'tachyon/math/elliptic_curves/short_weierstrass/'
PRE = '''#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include <cstdio>
using namespace tachyon::math;
using F = bn254::Fq;
int main() {
  bn254::G1Curve::Init();
'''
PRE = PRE.replace('#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"\n', '')
seed('C01-jac-neg', 'C01', [(EC + 'jacobian_point_impl.h', '  if (u1 == u2 && s1 == s2) {', '  if (u1 == u2 && (s1 == s2 || a.z_ == b.z_)) {')],
     'adding P and -P held with the same z coordinate (e.g. p + (-p))', 'P + (-P) returns 2P instead of the identity when both operands share z',
     PRE + '''  auto p = bn254::G1JacobianPoint::Random();
  auto q = -p;
  return (p + q).IsZero() ? 0 : 1;
}
''')
seed('C01-xyzz-self', 'C01', [(EC + 'point_xyzz_impl.h', '''  // ZZZ3 = ZZZ1 * ZZZ2 * PPP
  c.zzz_ = a.zzz_ * b.zzz_;
  c.zzz_ *= ppp;
}

template <typename Curve>
constexpr CLASS CLASS::Add(const AffinePoint''', '''  // ZZZ3 = ZZZ1 * ZZZ2 * PPP
  c.zzz_ = (a.zz_ == b.zz_ && &a != &c) ? a.zzz_.Square() : a.zzz_ * b.zzz_;
  c.zzz_ *= ppp;
}

template <typename Curve>
constexpr CLASS CLASS::Add(const AffinePoint''')],
     'operands with the same ZZ but opposite ZZZ (representatives with z and -z)', 'P + Q for XYZZ representatives z and -z returns the wrong point',
     PRE + '''  auto a = bn254::G1JacobianPoint::Random().ToAffine();
  auto b = bn254::G1JacobianPoint::Random().ToAffine();
  F z = F(7), m = -z;
  bn254::G1PointXYZZ p(a.x() * z.Square(), a.y() * z.Square() * z, z.Square(), z.Square() * z);
  bn254::G1PointXYZZ q(b.x() * m.Square(), b.y() * m.Square() * m, m.Square(), m.Square() * m);
  auto want = (a + b).ToAffine();
  return (p + q).ToAffine() == want ? 0 : 1;
}
''')
