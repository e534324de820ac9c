PR = 'tachyon/math/elliptic_curves/'
DEMO = '''#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
using namespace tachyon::math;
template <typename C>
int Run() {
  C::Init();
  using G1 = typename C::G1Curve::AffinePoint;
  using G2 = typename C::G2Curve::AffinePoint;
  std::vector<G1> a;
  std::vector<G2> b;
  auto want = C::Fp12::One();
  for (int i = 0; i < @N@; ++i) {
    a.push_back(i == @Z@ ? G1::Zero() : G1::Random());
    b.push_back(G2::Random());
    want *= Pairing<C>(std::vector<G1>{a.back()}, std::vector<G2>{b.back()});
  }
  return Pairing<C>(a, b) == want ? 0 : 1;
}
int main() { return Run<bn254::BN254Curve>() || Run<bls12_381::BLS12_381Curve>(); }
'''
seed('C06-skip-identity', 'C06', [(PR + 'pairing/pairing_friendly_curve.h', '''      if (!a[i].IsZero() && !b[i].infinity()) {
        pairs.emplace_back(&a[i], &b[i].ell_coeffs());
      }
''', '''      if (!a[i].IsZero() && !b[i].infinity()) {
        pairs.emplace_back(&a[i], &b[pairs.size()].ell_coeffs());
      }
''')], 'a multi-pairing where an identity point of G1 precedes another pair', 'the point after a skipped identity pair is evaluated on the lines of the skipped G2 point',
     DEMO.replace('@N@', '3').replace('@Z@', '1'))
seed('C06-chunk-product', 'C06', [(PR + 'bls12/bls12_curve.h', '''    Fp12 f = std::accumulate(results.begin(), results.end(), Fp12::One(),
                             std::multiplies<>());
''', '''    Fp12 f = Fp12::One();
    if (!results.empty()) {
      // Avoid one multiplication by starting from an existing partial result.
      f = results.back();
      for (size_t i = 1; i + 1 < results.size(); ++i) f *= results[i];
    }
''')], 'more pairs than fit one chunk (5 or more)', 'the partial Miller value of the first chunk is dropped from the product',
     DEMO.replace('@N@', '6').replace('@Z@', '-1'))
