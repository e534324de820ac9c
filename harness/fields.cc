// Prime field arithmetic of every generated configuration, on machine words.
#include <stddef.h>
#include <stdint.h>

#ifdef VERIF_INTRIN
#include <immintrin.h>

#include "tachyon/base/compiler_specific.h"
#undef HAS_BUILTIN
#define HAS_BUILTIN(x) 0
#endif

#include "tachyon/math/circle/m31/fr.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;
template <typename F>
uint64_t Pack(const F& f) {
  return 0;
}
}  // namespace verif

#define U extern "C" __attribute__((noinline)) void
#define V extern "C" __attribute__((noinline)) uint64_t
#define OPS(id, F)                                                                       \
  U info_##id(uint64_t* o) {                                                             \
    o[0] = F::Config::kModulusBits <= 32 ? 32 : 64;                                      \
    o[1] = F::Config::kUseMontgomery;                                                    \
    o[2] = sizeof(F);                                                                    \
    for (size_t i = 0; i < sizeof(F); ++i)                                               \
      reinterpret_cast<uint8_t*>(o + 3)[i] =                                             \
          reinterpret_cast<const uint8_t*>(&F::Config::kModulus)[i];                     \
  }                                                                                      \
  U add_##id(F* r, const F* a, const F* b) { *r = *a + *b; }                             \
  U addip_##id(F* r, const F* a, const F* b) { *r = *a; *r += *b; }                      \
  U addself_##id(F* r, const F* a) { *r = *a; *r += *r; }                                \
  U dbl_##id(F* r, const F* a) { *r = a->Double(); }                                     \
  U dblip_##id(F* r, const F* a) { *r = *a; r->DoubleInPlace(); }                        \
  U sub_##id(F* r, const F* a, const F* b) { *r = *a - *b; }                             \
  U subip_##id(F* r, const F* a, const F* b) { *r = *a; *r -= *b; }                      \
  U subself_##id(F* r, const F* a) { *r = *a; *r -= *r; }                                \
  U neg_##id(F* r, const F* a) { *r = -*a; }                                             \
  U negip_##id(F* r, const F* a) { *r = *a; r->NegateInPlace(); }                        \
  U mul_##id(F* r, const F* a, const F* b) { *r = *a * *b; }                             \
  U mulip_##id(F* r, const F* a, const F* b) { *r = *a; *r *= *b; }                      \
  U mulself_##id(F* r, const F* a) { *r = *a; *r *= *r; }                                \
  U sqr_##id(F* r, const F* a) { *r = a->Square(); }                                     \
  U sqrip_##id(F* r, const F* a) { *r = *a; r->SquareInPlace(); }                        \
  U tobig_##id(F::BigIntTy* r, const F* a) { *r = a->ToBigInt(); }                       \
  U frombig_##id(F* r, const F::BigIntTy* a) { *r = F::FromBigInt(*a); }                 \
  U one_##id(F* r) { *r = F::One(); }                                                    \
  U zero_##id(F* r) { *r = F::Zero(); }                                                  \
  U minusone_##id(F* r) { *r = F::MinusOne(); }                                          \
  U twoinv_##id(F* r) { *r = F::TwoInv(); }                                              \
  V eq_##id(const F* a, const F* b) { return *a == *b; }                                 \
  V ne_##id(const F* a, const F* b) { return *a != *b; }                                 \
  V lt_##id(F::BigIntTy* r, const F* a, const F* b) {                                     \
    r[0] = a->ToBigInt();                                                                \
    r[1] = b->ToBigInt();                                                                \
    return *a < *b;                                                                      \
  }                                                                                      \
  V le_##id(F::BigIntTy* r, const F* a, const F* b) {                                     \
    r[0] = a->ToBigInt();                                                                \
    r[1] = b->ToBigInt();                                                                \
    return *a <= *b;                                                                      \
  }                                                                                      \
  V gt_##id(F::BigIntTy* r, const F* a, const F* b) {                                     \
    r[0] = a->ToBigInt();                                                                \
    r[1] = b->ToBigInt();                                                                \
    return *a > *b;                                                                      \
  }                                                                                      \
  V ge_##id(F::BigIntTy* r, const F* a, const F* b) {                                     \
    r[0] = a->ToBigInt();                                                                \
    r[1] = b->ToBigInt();                                                                \
    return *a >= *b;                                                                      \
  }                                                                                      \
  V iszero_##id(const F* a) { return a->IsZero(); }                                      \
  V isone_##id(const F* a) { return a->IsOne(); }                                        \
  V isminusone_##id(const F* a) { return a->IsMinusOne(); }
#define NS tachyon::math::
#ifndef FIELDS
#define FIELDS(X)                                                                        \
  X(bn254_fq, NS bn254::Fq) X(bn254_fr, NS bn254::Fr)                                    \
  X(bls12_381_fq, NS bls12_381::Fq) X(bls12_381_fr, NS bls12_381::Fr)                    \
  X(bn384_fq, NS bn384_small_two_adicity::Fq) X(bn384_fr, NS bn384_small_two_adicity::Fr) \
  X(pallas_fq, NS pallas::Fq) X(pallas_fr, NS pallas::Fr)                                \
  X(vesta_fq, NS vesta::Fq) X(vesta_fr, NS vesta::Fr)                                    \
  X(secp256k1_fq, NS secp256k1::Fq) X(secp256k1_fr, NS secp256k1::Fr)                    \
  X(goldilocks, NS Goldilocks) X(baby_bear, NS BabyBear) X(koala_bear, NS KoalaBear)     \
  X(mersenne31, NS Mersenne31) X(gf7, NS GF7) X(m31_fr, NS m31::Fr)
#endif
FIELDS(OPS)
