FR = 'tachyon/crypto/commitments/fri/'
PRE = '''#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
using C = TwoAdicMultiplicativeCoset<F>;
'''
seed('C17-disjoint', 'C17', [(FR + 'two_adic_multiplicative_coset.h', '''        base::bits::SafeLog2Ceiling(min_size),
''', '''        base::bits::SafeLog2Ceiling(min_size >> 1) + 1,
''')], 'a minimum size that is odd and one more than a power of two', 'the disjoint domain is smaller than asked', PRE + '''int main() {
  F::Init();
  C c(3, F::One());
  return c.CreateDisjointDomain(9).domain()->size() >= 9 && c.CreateDisjointDomain(8).domain()->size() == 8 ? 0 : 1;
}
''', stubs=True)
seed('C17-split', 'C17', [(FR + 'two_adic_multiplicative_coset.h', '''    F f = domain_->offset();
    return base::CreateVector(num_chunks, [this, log_chunks, &f](size_t i) {
      TwoAdicMultiplicativeCoset ret{domain_->log_size_of_group() - log_chunks,
                                     f};
      f *= domain_->group_gen();
''', '''    F f = domain_->offset();
    F step = domain_->group_gen() * f;
    return base::CreateVector(num_chunks, [this, log_chunks, &f, &step](size_t i) {
      TwoAdicMultiplicativeCoset ret{domain_->log_size_of_group() - log_chunks,
                                     f};
      f *= step;
''')], 'a coset with an offset split in more than one', 'the parts are not a partition of the coset', PRE + '''int main() {
  F::Init();
  C c(3, F(31));
  auto v = c.SplitDomains(2);
  for (auto& d : v) {
    F x = d.domain()->GetElement(1);
    if (!c.GetZpAtPoint(x).IsZero()) return 1;
  }
  return 0;
}
''', stubs=True)
seed('C17-fold-cache', 'C17', [(FR + 'fri_config.h', '''  F w;
  CHECK(F::GetRootOfUnity(size_t{1} << (log_num_rows + kLogArity), &w));
  ExtF w_inv = ExtF(unwrap(w.Inverse()));
''', '''  static const ExtF w_inv = [log_num_rows]() {
    F w;
    CHECK(F::GetRootOfUnity(size_t{1} << (log_num_rows + kLogArity), &w));
    return ExtF(unwrap(w.Inverse()));
  }();
''')], 'rows of more than one size folded in one process', 'rows of another size than the first are folded with the wrong root of unity', '''#include "tachyon/crypto/commitments/fri/fri_config.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/matrix/matrix_types.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
using E = math::BabyBear4;
int main() {
  E::Init();
  for (uint32_t k = 4; k >= 2; --k) {
    size_t n = size_t{1} << k;
    math::RowMajorMatrix<E> m(n, 2);
    for (size_t i = 0; i < n; ++i) { m(i, 0) = E(F(3 * i + 1)); m(i, 1) = E(F(i * i + 5)); }
    E b(F(7), F(8), F(9), F(10));
    auto r = FoldMatrix(b, m);
    for (size_t i = 0; i < n; ++i)
      if (r[i] != FoldRow(i, k, b, std::vector<E>{m(i, 0), m(i, 1)})) return 1;
  }
  return 0;
}
''', stubs=True)
