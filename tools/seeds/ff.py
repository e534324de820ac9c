FF = 'tachyon/math/finite_fields/'
PRE = '''#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include <cstdio>
using namespace tachyon::math;
'''
seed('C03-034-beta4', 'C03', [(FF + 'fp12.h', '''    // a = α₀β₀ + α₁β₀x + α₂β₀x²
    Fp6 a = this->c0_ * beta0;
    // b = (α₃ + α₄x + α₅x²) * (β₃ + β₄x)
''', '''    // A line without the xy term scales both halves.
    if (beta4.IsZero()) {
      this->c0_ *= beta0;
      this->c1_ *= beta0;
      return *this;
    }
    // a = α₀β₀ + α₁β₀x + α₂β₀x²
    Fp6 a = this->c0_ * beta0;
    // b = (α₃ + α₄x + α₅x²) * (β₃ + β₄x)
''')], 'a sparse product whose beta4 coefficient is zero while beta3 is not', 'MulInPlaceBy034 drops the beta3 term when beta4 is zero',
     PRE + '''int main() {
  bn254::Fq12::Init();
  auto a = bn254::Fq12::Random();
  auto b0 = bn254::Fq2::Random(), b3 = bn254::Fq2::Random(), b4 = bn254::Fq2::Zero();
  bn254::Fq12 s(bn254::Fq6(b0, bn254::Fq2::Zero(), bn254::Fq2::Zero()), bn254::Fq6(b3, b4, bn254::Fq2::Zero()));
  auto want = a * s;
  a.MulInPlaceBy034(b0, b3, b4);
  return a == want ? 0 : 1;
}
''')
seed('C05-large-root', 'C05', [(FF + 'generator/prime_field_generator/prime_field_generator.cc', '''      mpz_div(remaining_subgroup_size.get_mpz_t(), trace.get_mpz_t(),
              small_subgroup_base_pow_adicity.get_mpz_t());
''', '''      mpz_div(remaining_subgroup_size.get_mpz_t(), trace.get_mpz_t(),
              math::gmp::FromDecString(small_subgroup_base).get_mpz_t());
''')], 'a field whose small subgroup has adicity above one (bn254::Fr) and a domain size using the second power', 'the large subgroup root of unity has a third of the advertised order',
     PRE + '''int main() {
  bn254::Fr::Init();
  bn254::Fr w;
  if (!bn254::Fr::GetRootOfUnity(18, &w)) return 1;
  return w.Pow(18).IsOne() && !w.Pow(6).IsOne() && !w.Pow(9).IsOne() ? 0 : 1;
}
''')
