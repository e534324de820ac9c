PU = 'tachyon/math/polynomials/univariate/'
HEAD = '''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
using namespace tachyon; using namespace tachyon::math;
'''
seed('C09-partial-at-domain', 'C09', [(PU + 'univariate_evaluation_domain.h', '''      F omega_i = GetElement(range.from);
      for (F& u_i : u) {
        if (omega_i == tau) {
          u_i = F::One();
          break;
        }
        omega_i *= group_gen_;
      }
''', '''      // Walk over the domain until τ is found.
      F omega_i = offset_;
      for (size_t i = 0; i < range.from + size; ++i) {
        if (omega_i == tau) {
          u[i - std::min<size_t>(i, range.from)] = F::One();
          break;
        }
        omega_i *= group_gen_;
      }
''')], 'a partial range of Lagrange coefficients at a domain element before the range', 'the first coefficient of the range is one instead of zero', HEAD + '''
int main() {
  using F = bn254::Fr;
  F::Init();
  auto d = Radix2EvaluationDomain<F, 15>::Create(8);
  for (size_t j = 0; j < 8; ++j) {
    auto u = d->EvaluatePartialLagrangeCoefficients(d->GetElement(j), base::Range<size_t>(3, 6));
    for (size_t i = 0; i < 3; ++i)
      if (u[i] != (i + 3 == j ? F::One() : F::Zero())) return 1;
  }
  return 0;
}
''', stubs=True)
seed('C09-short-coeffs', 'C09', [(PU + 'radix2_evaluation_domain.h', '''    uint32_t log_d = base::bits::SafeLog2Ceiling(num_coeffs);
''', '''    uint32_t log_d = num_coeffs > n / 2
                         ? log_n
                         : base::bits::Log2Floor(std::max(num_coeffs, size_t{1}));
''')], 'a transform of few coefficients, not a power of two, on a domain at least eight times larger', 'the initial copies overwrite coefficients that are not zero', HEAD + '''
int main() {
  using F = bn254::Fr;
  F::Init();
  auto d = Radix2EvaluationDomain<F, 31>::Create(32);
  for (size_t n = 1; n <= 32; ++n) {
    std::vector<F> v;
    for (size_t i = 0; i < n; ++i) v.push_back(F(i + 3));
    UnivariateDensePolynomial<F, 31> p((UnivariateDenseCoefficients<F, 31>(v)));
    auto e = d->FFT(p);
    for (size_t i = 0; i < 32; ++i)
      if (e[i] != p.Evaluate(d->GetElement(i))) return 1;
  }
  return 0;
}
''', stubs=True)
