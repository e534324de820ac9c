// Every generated prime field configuration: its constants, read from the IR.
#include <stddef.h>
#include <stdint.h>

#include <type_traits>

#include "tachyon/math/base/big_int.h"
#include "tachyon/math/circle/m31/fr4_config.h"
#include "tachyon/math/circle/m31/fr_config.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq_config.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr_config.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq_config.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr_config.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq_config.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr_config.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq_config.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr_config.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks_config.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.h"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.h"
#include "tachyon/math/finite_fields/test/gf7_config.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <typename T>
void Emit(const T& v, uint64_t* o) {
  if constexpr (std::is_integral_v<T>) {
    o[0] = 1;
    o[1] = v;
  } else {
    o[0] = T::kLimbNums;
    for (size_t i = 0; i < T::kLimbNums; ++i) o[1 + i] = v[i];
  }
}
constexpr size_t kSlot = 9;
#define MEMBERS(X) X(kUseMontgomery) X(kModulusBits) X(kModulus) X(kModulusMinusOneDivTwo) X(kModulusPlusOneDivFour) \
  X(kTrace) X(kTraceMinusOneDivTwo) X(kModulusModFourIsThree) X(kModulusModSixIsOne) X(kModulusHasSpareBit)       \
  X(kCanUseNoCarryMulOptimization) X(kMontgomeryR) X(kMontgomeryR2) X(kMontgomeryR3) X(kInverse64) X(kInverse32)  \
  X(kOne) X(kMinusOne) X(kTwoInv) X(kHasTwoAdicRootOfUnity) X(kHasLargeSubgroupRootOfUnity) X(kSubgroupGenerator) \
  X(kTwoAdicity) X(kTwoAdicRootOfUnity) X(kSmallSubgroupBase) X(kSmallSubgroupAdicity) X(kLargeSubgroupRootOfUnity)
#define DETECT(m)                                             \
  template <typename C, typename = void>                      \
  struct Has_##m : std::false_type {};                        \
  template <typename C>                                       \
  struct Has_##m<C, std::void_t<decltype(C::m)>> : std::true_type {};
MEMBERS(DETECT)
#define EMIT(m)                                         \
  if constexpr (Has_##m<C>::value) Emit(C::m, out + kSlot * idx); \
  else out[kSlot * idx] = 0;                            \
  ++idx;
template <typename C>
void Dump(uint64_t* out) {
  C::Init();
  size_t idx = 0;
  MEMBERS(EMIT)
}
#define D(name, C) \
  extern "C" void pf_##name(uint64_t* out) { Dump<C>(out); }
D(bls12_381_fq, bls12_381::FqConfig)
D(bls12_381_fr, bls12_381::FrConfig)
D(bn254_fq, bn254::FqConfig)
D(bn254_fr, bn254::FrConfig)
D(bn384_fq, bn384_small_two_adicity::FqConfig)
D(bn384_fr, bn384_small_two_adicity::FrConfig)
D(secp256k1_fq, secp256k1::FqConfig)
D(secp256k1_fr, secp256k1::FrConfig)
D(pallas_fq, pallas::FqConfig)
D(pallas_fr, pallas::FrConfig)
D(vesta_fq, vesta::FqConfig)
D(vesta_fr, vesta::FrConfig)
D(m31_fr, m31::FrConfig)
D(m31_fr4, m31::Fr4Config)
D(baby_bear, BabyBearConfig)
D(koala_bear, KoalaBearConfig)
D(mersenne31, Mersenne31Config)
D(goldilocks, GoldilocksConfig)
D(gf7, GF7Config)
}  // namespace verif
