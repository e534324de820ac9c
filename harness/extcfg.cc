// Generated extension field configurations instantiated with the abstract field.
#include "abstract_field.h"
#include "tachyon/math/circle/m31/fq4.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
#include "tachyon/math/finite_fields/test/gf7_2.h"
#include "tachyon/math/finite_fields/test/gf7_3.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

template <typename T>
T Get(const uint64_t*& in) {
  if constexpr (std::is_same_v<T, AF>) {
    return T::Raw(*in++);
  } else {
    T r;
    constexpr int n = T::ExtensionDegree() / T::BaseField::ExtensionDegree();
    for (int i = 0; i < n; ++i) r[i] = Get<typename T::BaseField>(in);
    return r;
  }
}
template <typename T>
void Put(const T& v, uint64_t*& out) {
  if constexpr (std::is_same_v<T, AF>) {
    *out++ = v.raw();
  } else {
    constexpr int n = T::ExtensionDegree() / T::BaseField::ExtensionDegree();
    for (int i = 0; i < n; ++i) Put(v[i], out);
  }
}
#define CFG(name, C)                                          \
  extern "C" int cfg_##name(const uint64_t* in, uint64_t* out) { \
    using Cfg = C;                                            \
    using B = Cfg::BaseField;                                 \
    Cfg::DoInit();                                            \
    const uint64_t* p = in;                                   \
    uint64_t* o = out;                                        \
    B v = Get<B>(p);                                          \
    Put<B>(Cfg::MulByNonResidue(v), o);                       \
    Put<B>(Cfg::kNonResidue, o);                              \
    Put<B>(Cfg::kNonResidue * v, o);                          \
    return Cfg::kNonResidueIsMinusOne;                        \
  }                                                           \
  extern "C" int size_##name() { return B_##name; }
using M2 = m31::Fq2Config<AF>;
using M4 = m31::Fq4Config<Fp2<M2>>;
using L2 = bls12_381::Fq2Config<AF>;
using L6 = bls12_381::Fq6Config<Fp2<L2>>;
using L12 = bls12_381::Fq12Config<Fp6<L6>>;
using N2 = bn254::Fq2Config<AF>;
using N6 = bn254::Fq6Config<Fp2<N2>>;
using N12 = bn254::Fq12Config<Fp6<N6>>;
#undef CFG
#define CFG(name, C)                                             \
  extern "C" int cfg_##name(const uint64_t* in, uint64_t* out) { \
    using Cfg = C;                                               \
    using B = typename Cfg::BaseField;                           \
    Cfg::DoInit();                                               \
    const uint64_t* p = in;                                      \
    uint64_t* o = out;                                           \
    B v = Get<B>(p);                                             \
    Put<B>(Cfg::MulByNonResidue(v), o);                          \
    Put<B>(Cfg::kNonResidue, o);                                 \
    Put<B>(Cfg::kNonResidue * v, o);                             \
    return Cfg::kNonResidueIsMinusOne;                           \
  }
CFG(m31_fq2, M2)
CFG(m31_fq4, M4)
CFG(bls12_381_fq2, L2)
CFG(bls12_381_fq6, L6)
CFG(bls12_381_fq12, L12)
CFG(bn254_fq2, N2)
CFG(bn254_fq6, N6)
CFG(bn254_fq12, N12)
using BB = BabyBear4Config<AF>;
using KB = KoalaBear4Config<AF>;
using GL = Goldilocks2Config<AF>;
using G2C = GF7_2Config<AF>;
using G3C = GF7_3Config<AF>;
CFG(baby_bear4, BB)
CFG(koala_bear4, KB)
CFG(goldilocks2, GL)
CFG(gf7_2, G2C)
CFG(gf7_3, G3C)
}  // namespace verif
