PU = 'tachyon/math/polynomials/univariate/'
HEAD = '''#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
using namespace tachyon; using namespace tachyon::math;
using F = bn254::Fr;
using D = UnivariateDensePolynomial<F, 31>; using DC = UnivariateDenseCoefficients<F, 31>;
using S = UnivariateSparsePolynomial<F, 31>; using SC = UnivariateSparseCoefficients<F, 31>;
'''
seed('C10-fold-cancel', 'C10', [(PU + 'univariate_sparse_coefficients.h', '''          if (!r_is_zero) {
            terms.back() += (term.coefficient * r);
          }
          if (terms.back().coefficient.IsZero()) {
            terms.pop_back();
          }
''', '''          if (!r_is_zero) {
            terms.back() += (term.coefficient * r);
            // The even term alone is never zero.
            if (terms.size() > 1 && terms.back().coefficient.IsZero()) {
              terms.pop_back();
            }
          }
''')], 'sparse folding where the first even/odd pair cancels', 'the folded polynomial keeps a zero term: it is not equal to, and has another degree than, the same polynomial', HEAD + '''
int main() {
  F::Init();
  S p(SC({{2, F(5)}, {3, F(1)}}));
  S f = p.Fold(-F(5));
  if (!f.IsZero()) return 1;
  S g(SC({{0, F(3)}, {1, F(1)}, {2, F(4)}, {3, F(1)}}));
  S h = g.Fold(-F(3));
  if (h != S(SC({{1, F(1)}}))) return 1;
  return 0;
}
''', stubs=True)
seed('C10-div-gap', 'C10', [(PU + 'univariate_polynomial_ops.h', '''      size_t degree = remainder.Degree() - other.Degree();
      quotient[degree] = q_coeff;
''', '''      size_t degree = remainder.Degree() - other.Degree();
      quotient[remainder_size - 1 - other.Degree()] = q_coeff;
      --remainder_size;
'''), (PU + 'univariate_polynomial_ops.h', '''    F divisor_leading_inv = *other.GetLeadingCoefficient().Inverse();
''', '''    F divisor_leading_inv = *other.GetLeadingCoefficient().Inverse();
    size_t remainder_size = r_coefficients.size();
''')], 'a long division in which a step cancels more than one leading coefficient', 'later quotient coefficients are stored at too high a degree', HEAD + '''
int main() {
  F::Init();
  // (x^2 + 3) (x^4 + 2) + x: the quotient has gaps
  D q(DC({F(2), F(0), F(0), F(0), F(1)}));
  D b(DC({F(3), F(0), F(1)}));
  D r(DC({F(0), F(1)}));
  D a = q * b + r;
  if (*(a / b) != q) return 1;
  if (*(a % b) != r) return 1;
  return 0;
}
''', stubs=True)
