// The Plonky3 internal matrix over the repository's 31-bit fields, on machine
// words. Nothing here is ever executed.
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_plonky3_internal_matrix.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

using namespace tachyon;
using namespace tachyon::crypto;

template <typename F, int A, int B, int C, int K>
static void Run(uint32_t* r, const uint32_t* a, const uint32_t* b, const uint32_t* c, const uint32_t* d) {
  math::Vector<F> v(4);
  auto put = [](F& f, const uint32_t* p) { __builtin_memcpy(static_cast<void*>(&f), p, 4); };
  put(v[0], a);
  put(v[1], b);
  put(v[2], c);
  put(v[3], d);
  math::Vector<uint8_t> sh(3);
  sh[0] = A;
  sh[1] = B;
  sh[2] = C;
  Poseidon2Plonky3InternalMatrix<F>::Apply(v, sh);
  __builtin_memcpy(r, &v[K], 4);
}
#define ONE(ID, F, A, B, C, K)                                                                                                          \
  extern "C" void h_p3i_##ID##_##A##_##B##_##C##_##K(uint32_t* r, const uint32_t* a, const uint32_t* b, const uint32_t* c, const uint32_t* d) { \
    Run<F, A, B, C, K>(r, a, b, c, d);                                                                                                  \
  }
#define ALL(ID, F, A, B, C) ONE(ID, F, A, B, C, 0) ONE(ID, F, A, B, C, 1) ONE(ID, F, A, B, C, 2) ONE(ID, F, A, B, C, 3)
#define FIELD(ID, F) ALL(ID, F, 0, 1, 15) ALL(ID, F, 23, 8, 2)
FIELD(baby_bear, math::BabyBear)
FIELD(koala_bear, math::KoalaBear)
FIELD(mersenne31, math::Mersenne31)

// parameter sets: count, then the words of the entries
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_vesta.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"

template <typename F>
struct OneIs {
  static F Get() { return F(1); }
};
template <typename F, size_t R, uint32_t Alpha>
static void Diag(uint32_t* r) {
  auto a = Poseidon2ParamsTraits<F, R, Alpha>::GetPoseidon2InternalDiagonalArray();
  F one = F::One();
  __builtin_memcpy(r, &one, sizeof(F));
  for (size_t i = 0; i < a.size(); ++i) __builtin_memcpy(r + (i + 1) * (sizeof(F) / 4), &a[i], sizeof(F));
}
template <typename F, size_t R, uint32_t Alpha>
static void Shift(uint32_t* r) {
  auto a = Poseidon2ParamsTraits<F, R, Alpha>::GetPoseidon2InternalShiftArray();
  for (size_t i = 0; i < a.size(); ++i) r[i] = a[i];
}
#define DIAG(ID, F, W, A) \
  extern "C" void h_diag_##ID##_##W(uint32_t* r) { Diag<F, W - 1, A>(r); }
#define SHIFT(ID, F, W, A) \
  extern "C" void h_shift_##ID##_##W(uint32_t* r) { Shift<F, W - 1, A>(r); }
DIAG(baby_bear, math::BabyBear, 16, 7)
DIAG(baby_bear, math::BabyBear, 24, 7)
DIAG(goldilocks, math::Goldilocks, 8, 7)
DIAG(goldilocks, math::Goldilocks, 12, 7)
DIAG(goldilocks, math::Goldilocks, 16, 7)
DIAG(goldilocks, math::Goldilocks, 20, 7)
DIAG(bn254, math::bn254::Fr, 3, 5)
DIAG(vesta, math::vesta::Fr, 3, 5)
SHIFT(baby_bear, math::BabyBear, 16, 7)
SHIFT(baby_bear, math::BabyBear, 24, 7)
SHIFT(koala_bear, math::KoalaBear, 16, 7)
SHIFT(koala_bear, math::KoalaBear, 24, 7)
SHIFT(mersenne31, math::Mersenne31, 16, 7)
SHIFT(mersenne31, math::Mersenne31, 24, 7)

// numbers of partial rounds
template <typename F, size_t W>
static void Rounds(uint32_t* r) {
  r[0] = GetPoseidon2PartialRounds<F, W, 3>();
  r[1] = GetPoseidon2PartialRounds<F, W, 5>();
  r[2] = GetPoseidon2PartialRounds<F, W, 7>();
  r[3] = GetPoseidon2PartialRounds<F, W, 9>();
  r[4] = GetPoseidon2PartialRounds<F, W, 11>();
}
extern "C" void h_rounds_31_16(uint32_t* r) { Rounds<math::BabyBear, 16>(r); }
extern "C" void h_rounds_31_24(uint32_t* r) { Rounds<math::Mersenne31, 24>(r); }
extern "C" void h_rounds_64_8(uint32_t* r) { Rounds<math::Goldilocks, 8>(r); }
extern "C" void h_rounds_64_16(uint32_t* r) { Rounds<math::Goldilocks, 16>(r); }
extern "C" void h_rounds_64_24(uint32_t* r) { Rounds<math::Goldilocks, 24>(r); }
extern "C" void h_rounds_254_3(uint32_t* r) { Rounds<math::bn254::Fr, 3>(r); }
