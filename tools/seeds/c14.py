MT = 'tachyon/crypto/commitments/merkle_tree/'
CH = 'tachyon/crypto/challenger/'
SPO = 'tachyon/crypto/hashes/sponge/'
MM = '''#include <array>
#include <vector>
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
using F = tachyon::math::Goldilocks;
struct PF {
  constexpr static size_t N = 2;
  F l[2];
  template <typename C> static PF From(C c) { PF r; for (size_t i = 0; i < N; ++i) r.l[i] = c(i); return r; }
  F& operator[](size_t i) { return l[i]; }
  const F& operator[](size_t i) const { return l[i]; }
};
namespace tachyon::math { template <> struct PackedFieldTraits<Goldilocks> { using PackedField = PF; }; }
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
using namespace tachyon; using namespace tachyon::crypto;
using D = std::array<F, 1>;
D H(const std::vector<F>& v) { F a(17); for (const F& x : v) a = a * a * a + x * F(3) + F(5); return {a}; }
D C(const D& x, const D& y) { return {x[0] * x[0] * x[0] * F(7) + y[0] * y[0] * F(11) + y[0] + F(2)}; }
struct Hs { D Hash(const std::vector<F>& v) const { return H(v); } };
struct Cm { D Compress(const D (&i)[2]) const { return C(i[0], i[1]); } };
struct PH { std::array<PF, 1> Hash(const std::vector<PF>& v) const { std::array<PF, 1> r; for (int l = 0; l < 2; ++l) { std::vector<F> w; for (auto& x : v) w.push_back(x[l]); r[0][l] = H(w)[0]; } return r; } };
struct PC { std::array<PF, 1> Compress(const std::array<PF, 1> (&i)[2]) const { std::array<PF, 1> r; for (int l = 0; l < 2; ++l) r[0][l] = C({i[0][0][l]}, {i[1][0][l]})[0]; return r; } };
using S = FieldMerkleTreeMMCS<F, Hs, PH, Cm, PC, 1>;
using M = math::RowMajorMatrix<F>;
M Mat(size_t r, size_t c, uint32_t s) { M m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = F(s = s * 48271u % 2147483647u % 2013265921u); return m; }
'''
seed('C14-inject-padding', 'C14', [(MT + 'field_merkle_tree/field_merkle_tree.h', '''      inputs_with_default_digest[0] = compressor.Compress(inputs);
      ret[i] = compressor.Compress(inputs_with_default_digest);
''', '''      inputs_with_default_digest[0] = compressor.Compress(inputs);
      ret[i] = inputs_with_default_digest[0];
''')], 'a shorter matrix whose height is not a power of two', 'padded rows of an injected matrix are left out of the tree, so the root differs from the definition', MM + '''
int main() {
  M a = Mat(8, 1, 5), b = Mat(3, 2, 9);
  S s(Hs{}, PH{}, Cm{}, PC{});
  D c; S::ProverData d;
  if (!s.CommitOwned(std::vector<M>{a, b}, &c, &d)) return 1;
  std::vector<D> l, n;
  for (int i = 0; i < 8; ++i) l.push_back(H({a(i, 0)}));
  for (int i = 0; i < 4; ++i) n.push_back(C(C(l[2 * i], l[2 * i + 1]), i < 3 ? H({b(i, 0), b(i, 1)}) : D{F(0)}));
  return c == C(C(n[0], n[1]), C(n[2], n[3])) ? 0 : 1;
}
''', stubs=True)
seed('C14-odd-rows', 'C14', [(MT + 'field_merkle_tree/field_merkle_tree.h', '''              inputs[0] = compressor.Compress(inputs);
              inputs[1] = hasher.Hash(
                  GetRowAsPrimeFieldVector(matrices_to_inject, start + i));
''', '''              inputs[0] = compressor.Compress(inputs);
              inputs[1] = hasher.Hash(
                  GetRowAsPrimeFieldVector(matrices_to_inject, i));
''')], 'an injected matrix whose height is not a multiple of the packing width', 'the rows after the last full pack hash the first rows of the matrix instead', MM + '''
int main() {
  M a = Mat(8, 1, 5), b = Mat(3, 2, 9);
  S s(Hs{}, PH{}, Cm{}, PC{});
  D c; S::ProverData d;
  if (!s.CommitOwned(std::vector<M>{a, b}, &c, &d)) return 1;
  std::vector<math::Dimensions> dims = {{1, 8}, {2, 3}};
  for (size_t i = 0; i < 6; ++i) {
    std::vector<std::vector<F>> o; S::Proof p;
    if (!s.CreateOpeningProof(i, d, &o, &p) || !s.VerifyOpeningProof(c, dims, i, o, p)) return 1;
  }
  return 0;
}
''', stubs=True)
seed('C14-max-leaves', 'C14', [(MT + 'binary_merkle_tree/binary_merkle_tree.h', '''    if (leaves_size > MaxSize) {
''', '''    if (leaves_size / 2 > MaxSize) {
''')], 'a power of two number of leaves above the maximum', 'trees of up to twice the maximum size are accepted', '''#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
using namespace tachyon::crypto;
struct H : BinaryMerkleHasher<int, int> {
  int ComputeLeafHash(const int& l) const override { return l * 3 + 1; }
  int ComputeParentHash(const int& l, const int& r) const override { return l * 5 + r * 7; }
};
int main() {
  SimpleBinaryMerkleTreeStorage<int> st; H h; int root;
  BinaryMerkleTree<int, int, 4> t(&st, &h);
  if (!t.Commit(std::vector<int>{1, 2, 3, 4}, &root)) return 1;
  if (t.Commit(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8}, &root)) return 1;
  return 0;
}
''', stubs=True)
PERM = '''
template <typename Fd, size_t R, size_t W>
struct Prm {
  using Field = Fd;
  constexpr static size_t kRate = R, kCapacity = W - R, kWidth = W;
  constexpr static int kAlpha = 5;
};
template <typename P>
void Mix(SpongeState<P>& s) {
  using Fd = typename P::Field;
  for (int r = 0; r < 3; ++r) {
    Fd sum = Fd(9);
    for (size_t i = 0; i < P::kWidth; ++i) { s[i] = s[i] * s[i] * s[i] + Fd(static_cast<uint32_t>(3 * i + r + 1)); sum += s[i]; }
    for (size_t i = 0; i < P::kWidth; ++i) s[i] = s[i] * Fd(static_cast<uint32_t>(i + 2)) + sum;
  }
}
'''
seed('C15-stale-output', 'C15', [(CH + 'duplex_challenger.h', '''    output_buffer_.clear();

    input_buffer_.push_back(value);
''', '''    input_buffer_.push_back(value);
'''), (CH + 'duplex_challenger.h', '''    if (!input_buffer_.empty() || output_buffer_.empty()) {
''', '''    if (output_buffer_.empty()) {
''')], 'observing fewer than R values while squeezed values are left, then sampling', 'the next challenge does not depend on the value just observed', '''#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
''' + PERM + '''
struct P { using Params = Prm<F, 4, 6>; using F = ::F; void Permute(SpongeState<Params>& s) const { Mix(s); } };
F Run(uint32_t v) {
  DuplexChallenger<P, 4> c{P{}};
  c.Observe(F(1));
  c.Sample();
  c.Observe(F(v));
  return c.Sample();
}
int main() { return Run(5) != Run(6) ? 0 : 1; }
''', stubs=True)
seed('C15-full-block', 'C15', [(SPO + 'poseidon/poseidon_sponge_base.h', '''      if (rate_start_index + remaining_size <= Params::kRate) {
        for (size_t i = 0; i < remaining_size; ++i, ++elements_idx) {
''', '''      if (rate_start_index + remaining_size < Params::kRate) {
        for (size_t i = 0; i < remaining_size; ++i, ++elements_idx) {
''')], 'absorbing input that exactly fills the rate', 'an extra permutation runs when a block is full, so outputs depend on how the input is cut', '''#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear;
''' + PERM + '''
using Q = Prm<F, 3, 4>;
struct P;
namespace tachyon::crypto { template <> struct CryptographicSpongeTraits<P> { using F = ::F; using Params = Q; }; }
struct P : PoseidonSpongeBase<P> { void Permute(SpongeState<Q>& s) const { Mix(s); } };
int main() {
  P p;
  SpongeState<Q> s, t;
  if (!p.Absorb(s, std::vector<F>{F(1), F(2), F(3)})) return 1;
  t[1] = F(1); t[2] = F(2); t[3] = F(3);
  Mix(t);
  std::vector<F> o = p.SqueezeNativeFieldElements(s, 3);
  for (int i = 0; i < 3; ++i) if (o[i] != t[i + 1]) return 1;
  return 0;
}
''', stubs=True)
seed('C15-partial-limbs', 'C15', [(CH + 'multi_field32_challenger.h', '''      size_t len = std::min(input_buffer_.size() - start, kNumFElements);
''', '''      size_t len = std::min(input_buffer_.size(), kNumFElements);
''')], 'a number of observed values that is more than three and not a multiple of three', 'the last packed element takes stale values of an earlier block', '''#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear; using B = math::bn254::Fr;
''' + PERM + '''
struct P { using Params = Prm<B, 2, 3>; using F = B; void Permute(SpongeState<Params>& s) const { Mix(s); } };
int main() {
  B::Init();
  MultiField32Challenger<F, P> c{P{}};
  SpongeState<P::Params> s;
  for (uint32_t i = 0; i < 9; ++i) c.Observe(F(100 + i));
  for (uint32_t k = 0; k < 3; ++k) { std::vector<F> v{F(100 + 3 * k), F(101 + 3 * k), F(102 + 3 * k)}; s[k] = Reduce<B>(absl::MakeConstSpan(v)); }
  Mix(s);
  for (uint32_t i = 0; i < 4; ++i) c.Observe(F(7 + i));
  std::vector<F> v{F(7), F(8), F(9)}, w{F(10)};
  s[0] = Reduce<B>(absl::MakeConstSpan(v));
  s[1] = Reduce<B>(absl::MakeConstSpan(w));
  Mix(s);
  return c.Sample() == Split<F>(s[2])[2] ? 0 : 1;
}
''', stubs=True)
