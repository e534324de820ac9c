KZ = 'tachyon/crypto/commitments/'
def PRE(s):
    return '''#include <cstdio>
#include "tachyon/crypto/commitments/kzg/%s.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
using namespace tachyon; using namespace tachyon::crypto;
using Point = math::bn254::G1AffinePoint;
using PCS = %s<math::bn254::BN254Curve, 7, Point>;
using F = math::bn254::Fr;
using Poly = PCS::Poly;
struct Open { size_t poly; F point; F delta; };
// creates a proof of the openings and verifies it with the claims shifted
bool Run(std::vector<std::vector<int>> coeffs, std::vector<Open> opens) {
  PCS pcs(KZG<Point, 7, Point>{});
  if (!pcs.UnsafeSetup(8, F(7919))) return false;
  std::vector<Poly> polys;
  std::vector<Point> coms;
  for (auto& c : coeffs) {
    std::vector<F> v;
    for (int x : c) v.push_back(F(x));
    polys.push_back(Poly(Poly::Coefficients(std::move(v))));
    Point p = Point::Zero();
    if (!polys.back().IsZero() && !pcs.Commit(polys.back(), &p)) return false;
    coms.push_back(p);
  }
  std::vector<PolynomialOpening<Poly>> po;
  std::vector<PolynomialOpening<Poly, Point>> vo;
  for (auto& o : opens) {
    F y = polys[o.poly].Evaluate(o.point);
    po.push_back({base::Ref<const Poly>(&polys[o.poly]), o.point, y});
    vo.push_back({base::Ref<const Point>(&coms[o.poly]), o.point, y + o.delta});
  }
  SimpleTranscriptWriter<Point> writer((base::Uint8VectorBuffer()));
  if (!pcs.CreateOpeningProof(po, &writer)) return false;
  base::Uint8VectorBuffer r = std::move(writer).TakeBuffer();
  r.set_buffer_offset(0);
  SimpleTranscriptReader<Point> reader(std::move(r));
  return pcs.VerifyOpeningProof(vo, &reader);
}
''' % ({'GWC': 'gwc', 'SHPlonk': 'shplonk'}[s], s)
O = F = None
seed('C19-gwc-power', 'C19', [(KZ + 'kzg/gwc.h', '''      power_of_u *= u;
    }
''', '''      // no need to separate the group from the next if its witness vanishes
      if (!commitments[i].IsZero()) power_of_u *= u;
    }
''')], 'a proof whose witness for one point is the identity, and two wrong claims that cancel', 'two wrong claims about constant polynomials are accepted', PRE('GWC') + '''int main() {
  math::bn254::BN254Curve::Init();
  F z = F::Zero(), d(5);
  if (!Run({{3}, {4}}, {{0, F(11), z}, {1, F(12), z}})) return 1;
  return Run({{3}, {4}}, {{0, F(11), d}, {1, F(12), -d}}) ? 2 : 0;
}
''', stubs=True)
seed('C19-zero-commitment', 'C19', [(KZ + 'kzg/shplonk.h', '''        l_commitment *= y;
        l_commitment += (commitments[j] - r_commitments[j]);
''', '''        // nothing to add for a vanishing polynomial
        if (commitments[j].IsZero() && r_commitments[j].IsZero()) continue;
        l_commitment *= y;
        l_commitment += (commitments[j] - r_commitments[j]);
''')], 'the zero polynomial opened together with another polynomial after it', 'an honest proof is rejected', PRE('SHPlonk') + '''int main() {
  math::bn254::BN254Curve::Init();
  F z = F::Zero();
  if (!Run({{1, 2}, {3, 4, 5}}, {{0, F(11), z}, {1, F(11), z}})) return 1;
  return Run({{}, {3, 4, 5}}, {{0, F(11), z}, {1, F(11), z}}) ? 0 : 2;
}
''', stubs=True)
seed('C19-point-sets', 'C19', [(KZ + 'polynomial_openings.h', '''                               return point_grouped_pair.points ==
                                      grouped_poly_oracle_pair.points;
''', '''                               return base::Includes(
                                   point_grouped_pair.points,
                                   grouped_poly_oracle_pair.points);
'''), (KZ + 'polynomial_openings.h', '''template <typename Poly, typename PolyOracle = Poly>
class PolynomialOpeningGrouper {
''', '''}  // namespace tachyon::crypto

namespace tachyon::base {

template <typename Set>
bool Includes(const Set& a, const Set& b) {
  return a.size() == b.size() && *a.begin() == *b.begin() &&
         *a.rbegin() == *b.rbegin();
}

}  // namespace tachyon::base

namespace tachyon::crypto {

template <typename Poly, typename PolyOracle = Poly>
class PolynomialOpeningGrouper {
''')], 'two polynomials opened at three points each, of which only the middle one differs', 'the polynomials are put in one group and the proof cannot be made', PRE('SHPlonk') + '''int main() {
  math::bn254::BN254Curve::Init();
  F z = F::Zero();
  return Run({{1, 2, 3, 4, 5}, {3, 4, 5, 6}}, {{0, F(11), z}, {0, F(12), z}, {0, F(14), z}, {1, F(11), z}, {1, F(13), z}, {1, F(14), z}}) ? 0 : 2;
}
''', stubs=True)
