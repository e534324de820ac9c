// Instantiates the Poseidon and Poseidon2 permutations over opaque fields
// whose S-box is an uninterpreted function. Nothing here is ever executed.
#define VERIF_PFT_POW
#include "abstract_prime_field.h"

#include <optional>
#include <vector>

namespace verif {
struct Cfg : PFConfigBase {};
struct SmallCfg : PFConfigBase {
  constexpr static uint32_t kModulus = 2013265921;
  constexpr static size_t kModulusBits = 31;
};
using F = PFT<Cfg>;
using P = PFT<SmallCfg>;  // stands for a packed field
}  // namespace verif

namespace tachyon::math {
template <>
struct FiniteFieldTraits<verif::P> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = true;
  static constexpr bool kIsPackedPrimeField = true;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::P;
  using Config = verif::SmallCfg;
};
}  // namespace tachyon::math

#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_horizen_external_matrix.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_plonky3_external_matrix.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_plonky3_internal_matrix.h"

using namespace tachyon;
using namespace tachyon::crypto;
using verif::F;
using P = verif::P;

// where the round constants and the MDS matrix come from, and what was asked
static const uint64_t* g_ark;
static const uint64_t* g_mds;
static uint64_t g_cfg[8];

static void Note(const PoseidonGrainLFSRConfig& c, uint64_t skip, uint64_t what) {
  g_cfg[0] = c.is_sbox_an_inverse;
  g_cfg[1] = c.prime_num_bits;
  g_cfg[2] = c.state_len;
  g_cfg[3] = c.num_full_rounds;
  g_cfg[4] = c.num_partial_rounds;
  g_cfg[5] = skip;
  g_cfg[6] += what;
}

template <typename T>
static void Fill(math::Matrix<T>& m, size_t r, size_t c, const uint64_t* p) {
  m = math::Matrix<T>(r, c);
  for (size_t i = 0; i < r; ++i)
    for (size_t j = 0; j < c; ++j) m(i, j) = T::Raw(p[i * c + j]);
}

namespace tachyon::crypto {
template <>
void FindPoseidonARKAndMDS<F>(const PoseidonGrainLFSRConfig& c, size_t skip, math::Matrix<F>& ark, math::Matrix<F>& mds) {
  Note(c, skip, 1);
  Fill(ark, c.num_full_rounds + c.num_partial_rounds, c.state_len, g_ark);
  Fill(mds, c.state_len, c.state_len, g_mds);
}
template <>
void FindPoseidon2ARK<F>(const PoseidonGrainLFSRConfig& c, math::Matrix<F>& ark) {
  Note(c, 0, 16);
  Fill(ark, c.num_full_rounds + c.num_partial_rounds, c.state_len, g_ark);
}
template <>
void FindPoseidon2ARK<P>(const PoseidonGrainLFSRConfig& c, math::Matrix<P>& ark) {
  Note(c, 0, 16);
  Fill(ark, c.num_full_rounds + c.num_partial_rounds, c.state_len, g_ark);
}
}  // namespace tachyon::crypto

static uint64_t* PutCfg(uint64_t* r) {
  for (size_t i = 0; i < 7; ++i) *r++ = g_cfg[i];
  return r;
}

// in: state, ark, mds
template <size_t R, size_t RF, size_t RP, uint32_t Alpha>
static void Pos(const uint64_t* in, uint64_t* r, uint64_t skip) {
  using Params = PoseidonParams<F, R, Alpha, RF, RP>;
  constexpr size_t W = R + 1;
  g_ark = in + W;
  g_mds = in + W + W * (RF + RP);
  auto config = PoseidonConfig<Params>::Create(skip);
  r = PutCfg(r);
  *r++ = config.IsValid();
  PoseidonSponge<Params> sponge(std::move(config));
  SpongeState<Params> state;
  for (size_t i = 0; i < W; ++i) state[i] = F::Raw(in[i]);
  sponge.Permute(state);
  for (size_t i = 0; i < W; ++i) *r++ = state[i].raw();
}
#define POS(NAME, ...) \
  extern "C" void NAME(const uint64_t* in, uint64_t* r, uint64_t skip) { Pos<__VA_ARGS__>(in, r, skip); }
POS(h_pos_2_4_2, 1, 4, 2, 5)
POS(h_pos_2_2_1, 1, 2, 1, 5)
POS(h_pos_2_6_3, 1, 6, 3, 3)
POS(h_pos_2_10_2, 1, 10, 2, 5)
POS(h_pos_2_2_23, 1, 2, 23, 3)
POS(h_pos_3_2_2, 2, 2, 2, 7)
POS(h_pos_3_4_3, 2, 4, 3, 5)
POS(h_pos_3_8_5, 2, 8, 5, 5)

// one sparse matrix: row, col_hat, v
extern "C" void h_sparse(const uint64_t* in, uint64_t* r, uint64_t n) {
  math::Vector<F> row(n), col(n - 1), v(n);
  for (size_t i = 0; i < n; ++i) row[i] = F::Raw(*in++);
  for (size_t i = 0; i + 1 < n; ++i) col[i] = F::Raw(*in++);
  for (size_t i = 0; i < n; ++i) v[i] = F::Raw(*in++);
  SparseMDSMatrix<F> m(row, col);
  math::Matrix<F> c = m.Construct();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) *r++ = c(i, j).raw();
  SparseMDSMatrix<F> m2 = SparseMDSMatrix<F>::FromMDSMatrix(c);
  *r++ = m2 == m;
  m2.Apply(v);
  for (size_t i = 0; i < n; ++i) *r++ = v[i].raw();
}

template <Poseidon2Vendor V, typename T, size_t R, size_t RF, size_t RP, uint32_t Alpha, bool kShift>
static void Pos2(const uint64_t* in, uint64_t* r, uint64_t shifts) {
  using Params = Poseidon2Params<V, kShift ? Poseidon2Vendor::kPlonky3 : Poseidon2Vendor::kHorizen, T, R, Alpha, 1, RF, RP>;
  constexpr size_t W = R + 1;
  g_ark = in + W;
  auto make = [&]() {
    if constexpr (kShift) {
      std::array<uint8_t, R> a;
      for (size_t i = 0; i < R; ++i) a[i] = shifts >> (8 * i) & 255;
      return Poseidon2Config<Params>::Create(a);
    } else {
      std::array<T, W> d;
      for (size_t i = 0; i < W; ++i) d[i] = T::Raw(in[W + W * (RF + RP) + i]);
      return Poseidon2Config<Params>::Create(d);
    }
  };
  auto config = make();
  r = PutCfg(r);
  *r++ = config.IsValid();
  Poseidon2Sponge<Params> sponge(std::move(config));
  SpongeState<Params> state;
  for (size_t i = 0; i < W; ++i) state[i] = T::Raw(in[i]);
  sponge.Permute(state);
  for (size_t i = 0; i < W; ++i) *r++ = state[i].raw();
}
#define POS2(NAME, ...) \
  extern "C" void NAME(const uint64_t* in, uint64_t* r, uint64_t sh) { Pos2<__VA_ARGS__>(in, r, sh); }
#define HZ Poseidon2Vendor::kHorizen
#define P3 Poseidon2Vendor::kPlonky3
POS2(h_pos2_hz_2, HZ, F, 1, 4, 2, 5, false)
POS2(h_pos2_p3_2, P3, F, 1, 4, 3, 5, false)
POS2(h_pos2_hz_2_12, HZ, F, 1, 12, 1, 5, false)
POS2(h_pos2_hz_2_p, HZ, F, 1, 2, 23, 3, false)
POS2(h_pos2_p3_2_12, P3, F, 1, 12, 2, 5, false)
POS2(h_pos2_hz_3, HZ, F, 2, 4, 3, 5, false)
POS2(h_pos2_p3_3, P3, F, 2, 2, 1, 3, false)
POS2(h_pos2_hz_4, HZ, F, 3, 4, 2, 5, false)
POS2(h_pos2_p3_4, P3, F, 3, 4, 2, 7, false)
POS2(h_pos2_hz_8, HZ, F, 7, 4, 2, 5, false)
POS2(h_pos2_p3_8, P3, F, 7, 2, 2, 7, false)
POS2(h_pos2_hz_16, HZ, F, 15, 2, 2, 7, false)
POS2(h_pos2_p3_16, P3, F, 15, 2, 2, 7, false)
POS2(h_pos2_sh_4, P3, P, 3, 4, 2, 7, true)
POS2(h_pos2_sh_8, HZ, P, 7, 2, 2, 7, true)

// external matrices
template <typename D, size_t W>
static void Ext(const uint64_t* in, uint64_t* r) {
  math::Vector<F> v(W);
  for (size_t i = 0; i < W; ++i) v[i] = F::Raw(in[i]);
  Poseidon2ExternalMatrix<D>::template Apply<W>(v);
  for (size_t i = 0; i < W; ++i) *r++ = v[i].raw();
  math::Matrix<F> m = Poseidon2ExternalMatrix<D>::template Construct<W>(W);
  *r++ = m.rows();
  *r++ = m.cols();
  for (size_t i = 0; i < W; ++i)
    for (size_t j = 0; j < W; ++j) *r++ = m(i, j).raw();
}
#define EXT(W)                                                                                                                       \
  extern "C" void h_ext_hz_##W(const uint64_t* in, uint64_t* r) { Ext<Poseidon2HorizenExternalMatrix<F>, W>(in, r); } \
  extern "C" void h_ext_p3_##W(const uint64_t* in, uint64_t* r) { Ext<Poseidon2Plonky3ExternalMatrix<F>, W>(in, r); }
EXT(2) EXT(3) EXT(4) EXT(8) EXT(12) EXT(16) EXT(20) EXT(24)

// constants from the Grain LFSR, over a field of 41 bits
namespace verif {
struct GCfg : PFConfigBase {
  constexpr static tachyon::math::BigInt<4> kModulus{UINT64_C(1099511627791), UINT64_C(0), UINT64_C(0), UINT64_C(0)};
  constexpr static size_t kModulusBits = 41;
};
using G = PFT<GCfg>;
}  // namespace verif
using verif::G;

static PoseidonGrainLFSRConfig GetCfg(uint64_t inv, uint64_t w, uint64_t rf, uint64_t rp) {
  PoseidonGrainLFSRConfig c;
  c.is_sbox_an_inverse = inv & 1;
  c.prime_num_bits = 41;
  c.state_len = w;
  c.num_full_rounds = rf;
  c.num_partial_rounds = rp;
  return c;
}
template <typename M>
static uint64_t* PutM(const M& m, uint64_t* r) {
  *r++ = m.rows();
  *r++ = m.cols();
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) *r++ = m(i, j).raw();
  return r;
}
extern "C" void h_lfsr(const uint64_t*, uint64_t* r, uint64_t inv, uint64_t w, uint64_t rf, uint64_t rp, uint64_t n, uint64_t m) {
  PoseidonGrainLFSR<G> l(GetCfg(inv, w, rf, rp));
  r = PutM(l.GetFieldElementsRejectionSampling(n), r);
  r = PutM(l.GetFieldElementsModP(m), r);
  r = PutM(l.GetFieldElementsRejectionSampling(n), r);
}
extern "C" void h_find(const uint64_t*, uint64_t* r, uint64_t w, uint64_t rf, uint64_t rp, uint64_t skip) {
  math::Matrix<G> ark, mds, ark2;
  FindPoseidonARKAndMDS<G>(GetCfg(0, w, rf, rp), skip, ark, mds);
  r = PutM(ark, r);
  r = PutM(mds, r);
  FindPoseidon2ARK<G>(GetCfg(0, w, rf, rp), ark2);
  r = PutM(ark2, r);
}
