PS = 'tachyon/crypto/hashes/sponge/'
seed('C16-skip', 'C16', [(PS + 'poseidon/poseidon_config.h', '''    lfsr.GetFieldElementsModP(2 * config.state_len);
''', '''    lfsr.GetFieldElementsModP(2 * config.state_len - i);
''')], 'at least two skipped matrices', 'the MDS matrix is not the one the reference generator gives', '''#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
int main() {
  PoseidonGrainLFSRConfig c; c.prime_num_bits = 31; c.state_len = 3; c.num_full_rounds = 2; c.num_partial_rounds = 1;
  math::Matrix<F> ark, mds;
  FindPoseidonARKAndMDS<F>(c, 2, ark, mds);
  PoseidonGrainLFSR<F> l(c);
  for (int i = 0; i < 3; ++i) l.GetFieldElementsRejectionSampling(3);
  l.GetFieldElementsModP(12);
  auto x = l.GetFieldElementsModP(3); auto y = l.GetFieldElementsModP(3);
  return mds(1, 2) * (x[1] + y[2]) == F::One() ? 0 : 1;
}
''', stubs=True)
seed('C16-ext-wide', 'C16', [(PS + 'poseidon2/poseidon2_external_matrix.h', '''        for (size_t j = 0; j < kWidth; j += 4) {
          v_tmp[i] += v[i + j];
''', '''        for (size_t j = 0; j + 4 < kWidth || j < 16; j += 4) {
          v_tmp[i] += v[i + j < kWidth ? i + j : i];
''')], 'a width of 20 or 24', 'the column sums leave out the last block, so the external layer is another matrix', '''#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_external_matrix.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_plonky3_external_matrix.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
using M = Poseidon2ExternalMatrix<Poseidon2Plonky3ExternalMatrix<F>>;
int main() {
  math::Vector<F> v(20);
  for (int i = 0; i < 20; ++i) v[i] = F(i * i + 3);
  math::Vector<F> w = M::Construct<20>(20) * v;
  M::Apply<20>(v);
  return v == w ? 0 : 1;
}
''', stubs=True)
seed('C16-half-rounds', 'C16', [(PS + 'poseidon/poseidon_config.h', '''    for (size_t i = 1; i < full_rounds_over_2; ++i) {
      optimized_ark.row(i) = mds_inverse * ark.row(i).transpose();
    }
''', '''    for (size_t i = 1; i < std::min<size_t>(full_rounds_over_2, 4); ++i) {
      optimized_ark.row(i) = mds_inverse * ark.row(i).transpose();
    }
    for (size_t i = 4; i < full_rounds_over_2; ++i) {
      optimized_ark.row(i) = ark.row(i);
    }
''')], 'more than eight full rounds', 'the optimized constants of later full rounds are not those of the textbook permutation', '''#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
using P = PoseidonParams<F, 2, 7, 10, 3>;
int main() {
  auto config = PoseidonConfig<P>::Create(0);
  math::Matrix<F> ark, mds;
  PoseidonGrainLFSRConfig c; c.prime_num_bits = 31; c.state_len = 3; c.num_full_rounds = 10; c.num_partial_rounds = 3;
  FindPoseidonARKAndMDS<F>(c, 0, ark, mds);
  PoseidonSponge<P> s(config);
  SpongeState<P> st;
  math::Vector<F> v(3);
  for (int i = 0; i < 3; ++i) v[i] = st[i] = F(i + 1);
  for (int r = 0; r < 13; ++r) {
    for (int i = 0; i < 3; ++i) v[i] += ark(r, i);
    for (int i = 0; i < (r >= 5 && r < 8 ? 1 : 3); ++i) v[i] = v[i].Pow(7);
    math::Vector<F> w = mds * v;
    v = w;
  }
  s.Permute(st);
  for (int i = 0; i < 3; ++i) if (st[i] != v[i]) return 1;
  return 0;
}
''', stubs=True)
