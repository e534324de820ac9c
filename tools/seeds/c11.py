MU = 'tachyon/math/polynomials/multivariate/'
SC = 'tachyon/crypto/sumcheck/multilinear/'
HEAD = '''#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
using namespace tachyon; using namespace tachyon::math; using namespace tachyon::crypto;
using F = bn254::Fr;
using MLE = MultilinearDenseEvaluations<F, 4>;
using MP = MultivariateSparsePolynomial<F, 8>; using MC = MultivariateSparseCoefficients<F, 8>;
'''
seed('C11-claim-reset', 'C11', [(SC + 'sumcheck_verifier.h', '''      if (sum != expected) {
        return false;
      }
''', '''      if (sum != expected && !(p0.IsZero() && p1.IsZero())) {
        return false;
      }
''')], 'a cheating prover that sends the zero polynomial in some round', 'the verifier accepts any asserted sum when the message of a round vanishes at 0 and 1', HEAD + '''
int main() {
  F::Init();
  for (size_t zero = 0; zero < 2; ++zero) {
    SumcheckVerifyingKey key{2, 2};
    SumcheckVerifier<MLE> v(key);
    F claim(77);
    F cur = claim;
    for (size_t i = 0; i < 2; ++i) {
      std::vector<F> e = {cur - F(5), F(5), F(9)};
      if (i == zero) e = {F(0), F(0), F(0)};
      std::vector<F> c = e;
      SumcheckProverMsg<F, 4> m{UnivariateEvaluations<F, 4>(std::move(e))};
      F r = v.Round(std::move(m)).random_value;
      cur = InterpolateUniPoly(c, r);
    }
    Subclaim<F> s;
    if (v.CheckAndGenerateSubclaim(claim, &s)) return 1;
  }
  return 0;
}
''')
seed('C11-literal-eq', 'C11', [(MU + 'multivariate_sparse_coefficients.h', '''      return (Degree() == 0 && other.Degree() == 0) ||
             elements == other.elements;
''', '''      if (elements.size() != other.elements.size()) return Degree() == 0 && other.Degree() == 0;
      // Terms are sorted, so that the last elements differ first.
      return elements.empty() || elements.back() == other.elements.back();
'''), (MU + 'multivariate_sparse_coefficients.h', '''      return (Degree() != 0 || other.Degree() != 0) &&
             elements != other.elements;
''', '''      return !operator==(other);
''')], 'two monomials with the same number of variables and the same power of the last one, e.g. x0*x2 and x1*x2', 'distinct monomials are merged or found in place of each other', HEAD + '''
int main() {
  F::Init();
  MP a(MC(3, {{{{{0, 1}, {2, 1}}}, F(2)}}));
  MP b(MC(3, {{{{{1, 1}, {2, 1}}}, F(3)}}));
  if (a == MP(MC(3, {{{{{1, 1}, {2, 1}}}, F(2)}}))) return 1;
  if (!b[MC::Literal(std::vector<MC::Element>{{0, 1}, {2, 1}})].IsZero()) return 1;
  std::vector<F> pt = {F(5), F(7), F(11)};
  if ((a + b).Evaluate(pt) != F(2 * 5 * 11 + 3 * 7 * 11)) return 1;
  return 0;
}
''')
seed('C11-mle-zero-eq', 'C11', [(MU + 'multilinear_dense_evaluations.h', '''    if (evaluations_.empty()) {
      return other.IsZero();
    }
    if (other.evaluations_.empty()) {
      return IsZero();
    }
    return evaluations_ == other.evaluations_;
''', '''    size_t size = std::min(evaluations_.size(), other.evaluations_.size());
    if (size == 0) return IsZero() || other.IsZero();
    return std::equal(evaluations_.begin(), evaluations_.end(), other.evaluations_.begin(), other.evaluations_.end());
''')], 'a comparison of the empty zero extension with a nonzero one', 'the empty zero extension equals every extension', HEAD + '''
int main() {
  F::Init();
  MLE z, a(std::vector<F>{F(1), F(2)}), zz(std::vector<F>{F(0), F(0)});
  if (z == a || a == z) return 1;
  if (z != zz || zz != z) return 1;
  return 0;
}
''')
