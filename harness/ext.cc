// Instantiates every extension field template with the abstract field.
#include "abstract_field.h"

#include "tachyon/math/finite_fields/fp12.h"
#include "tachyon/math/finite_fields/fp2.h"
#include "tachyon/math/finite_fields/fp3.h"
#include "tachyon/math/finite_fields/fp4.h"
#include "tachyon/math/finite_fields/fp6.h"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

// ---- configs. Param(10+d) is the non residue of the d-th tower level.
#define STATICS(N)                                        \
  static BaseField kFrobeniusCoeffs[N];                   \
  static BaseField kFrobeniusCoeffs2[N];                  \
  static BaseField kFrobeniusCoeffs3[N];                  \
  static void Init() {}

template <typename B, int NR, int DEG, bool MinusOne = false>
struct ECfg {
  using BaseField = B;
  using BasePrimeField = typename B::BasePrimeField;
  using FrobeniusCoefficient = B;
  static constexpr BaseField kNonResidue = MinusOne ? B(-1) : B::Param(NR);
  constexpr static bool kNonResidueIsMinusOne = MinusOne;
  constexpr static uint32_t kDegreeOverBaseField = DEG;
  constexpr static uint32_t kDegreeOverBasePrimeField = DEG * B::ExtensionDegree();
  static BaseField MulByNonResidue(const BaseField& v) {
    if constexpr (MinusOne) return -v;
    return kNonResidue * v;
  }
  STATICS(12)
};
#define DEFSTATIC(C)                                                     \
  template <typename B, int NR, int DEG, bool M>                         \
  B ECfg<B, NR, DEG, M>::C[12];
DEFSTATIC(kFrobeniusCoeffs)
DEFSTATIC(kFrobeniusCoeffs2)
DEFSTATIC(kFrobeniusCoeffs3)

// tower on top of a cubic extension: the non residue is its generator
template <typename B, int DEG>
struct XCfg {
  using BaseField = B;
  using BasePrimeField = typename B::BasePrimeField;
  using FrobeniusCoefficient = typename B::BaseField;
  constexpr static bool kNonResidueIsMinusOne = false;
  constexpr static uint32_t kDegreeOverBaseField = DEG;
  constexpr static uint32_t kDegreeOverBasePrimeField = DEG * B::ExtensionDegree();
  static BaseField MulByNonResidue(const BaseField& v) {
    return BaseField(B::Config::MulByNonResidue(v.c2()), v.c0(), v.c1());
  }
  static FrobeniusCoefficient kFrobeniusCoeffs[12];
  static void Init() {}
};
template <typename B, int DEG>
typename B::BaseField XCfg<B, DEG>::kFrobeniusCoeffs[12];

using A1 = AFT<1>;
using A2 = AFT<2>;
using A3 = AFT<3>;
using A6 = AFT<6>;
template <typename T>
constexpr bool IsLeaf = std::is_same_v<T, A1> || std::is_same_v<T, A2> || std::is_same_v<T, A3> || std::is_same_v<T, A6>;
using T2 = Fp2<ECfg<A1, 10, 2>>;
using T2m = Fp2<ECfg<A1, 10, 2, true>>;
using T3 = Fp3<ECfg<A1, 11, 3>>;
using T4q = Fp4<ECfg<A1, 12, 4>>;
using T4t = Fp4<ECfg<A2, 13, 2>>;
using T6c = Fp6<ECfg<A2, 14, 3>>;
using T6q = Fp6<XCfg<T3, 2>>;
using T12 = Fp12<XCfg<T6c, 2>>;
using T6o = Fp6<ECfg<A3, 15, 2>>;
using T12o = Fp12<ECfg<A6, 16, 2>>;

template <typename T>
T Get(const uint64_t* in) {
  if constexpr (IsLeaf<T>) {
    return T::Raw(in[0]);
  } else {
    using B = typename T::BaseField;
    constexpr int n = T::ExtensionDegree() / B::ExtensionDegree();
    constexpr int s = []() {
      if constexpr (IsLeaf<B>) return 1; else return 3;
    }();
    if constexpr (n == 2) return T(Get<B>(in), Get<B>(in + s));
    if constexpr (n == 3) return T(Get<B>(in), Get<B>(in + s), Get<B>(in + 2 * s));
    if constexpr (n == 4) return T(Get<B>(in), Get<B>(in + s), Get<B>(in + 2 * s), Get<B>(in + 3 * s));
  }
}
template <typename T>
void Put(const T& v, uint64_t* out) {
  if constexpr (IsLeaf<T>) {
    out[0] = v.raw();
  } else {
    using B = typename T::BaseField;
    constexpr int n = T::ExtensionDegree() / B::ExtensionDegree();
    constexpr int s = []() {
      if constexpr (IsLeaf<B>) return 1; else return 3;
    }();
    Put<B>(v.c0(), out);
    Put<B>(v.c1(), out + s);
    if constexpr (n >= 3) Put<B>(v.c2(), out + 2 * s);
    if constexpr (n >= 4) Put<B>(v.c3(), out + 3 * s);
  }
}

#define SIG (const uint64_t* in, uint64_t* out)
// operands: a at 0, b at 16, base field element at 32
#define F1(name, K, R, expr)                         \
  extern "C" void name##_##K SIG {                   \
    using T = K;                                     \
    using B [[maybe_unused]] = typename T::BaseField; \
    T a = Get<T>(in);                                \
    Put<R>(expr, out);                               \
  }
#define F2(name, K, expr)                            \
  extern "C" void name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in), b = Get<T>(in + 16);           \
    Put<T>(expr, out);                               \
  }
#define S1(name, K, stmt)                            \
  extern "C" void name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in);                                \
    stmt;                                            \
    Put<T>(a, out);                                  \
  }
#define S2(name, K, stmt)                            \
  extern "C" void name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in), b = Get<T>(in + 16);           \
    stmt;                                            \
    Put<T>(a, out);                                  \
  }
#define SB(name, K, stmt)                            \
  extern "C" void name##_##K SIG {                   \
    using T = K;                                     \
    using B = typename T::BaseField;                 \
    T a = Get<T>(in);                                \
    B b = Get<B>(in + 16);                           \
    stmt;                                            \
    Put<T>(a, out);                                  \
  }
#define P1(name, K, expr)                            \
  extern "C" bool name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in);                                \
    return expr;                                     \
  }
#define P2(name, K, expr)                            \
  extern "C" bool name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in), b = Get<T>(in + 16);           \
    return expr;                                     \
  }
#define OPT(name, K, expr)                           \
  extern "C" bool name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in), b = Get<T>(in + 16);           \
    auto r = expr;                                   \
    if (!r.has_value()) return false;                \
    Put<T>(*r, out);                                 \
    return true;                                     \
  }
#define OPTI(name, K, expr)                          \
  extern "C" bool name##_##K SIG {                   \
    using T = K;                                     \
    T a = Get<T>(in), b = Get<T>(in + 16);           \
    auto r = expr;                                   \
    if (!r.has_value()) return false;                \
    Put<T>(a, out);                                  \
    return *r == &a;                                 \
  }

#define RINGOPS(K)                                   \
  F2(add, K, a + b)                                  \
  S2(addi, K, a += b)                                \
  F2(sub, K, a - b)                                  \
  S2(subi, K, a -= b)                                \
  F1(dbl, K, T, a.Double())                          \
  S1(dbli, K, a.DoubleInPlace())                     \
  F1(neg, K, T, -a)                                  \
  S1(negi, K, a.NegateInPlace())                     \
  F2(mul, K, a * b)                                  \
  S2(muli, K, a *= b)                                \
  F1(mulself, K, T, a * a)                           \
  S1(muliself, K, a *= a)                            \
  S1(addiself, K, a += a)                            \
  S1(subiself, K, a -= a)                            \
  F1(sq, K, T, a.Square())                           \
  S1(sqi, K, a.SquareInPlace())                      \
  SB(mulb, K, a = a * b)                             \
  SB(mulbi, K, a *= b)                               \
  SB(bmul, K, a = b * a)                             \
  F1(zero, K, T, T::Zero())                          \
  F1(one, K, T, T::One())                            \
  F1(mone, K, T, T::MinusOne())                      \
  F1(twoinv, K, T, T::TwoInv())                      \
  P1(iszero, K, a.IsZero())                          \
  P1(isone, K, a.IsOne())                            \
  P1(ismone, K, a.IsMinusOne())                      \
  P2(eq, K, a == b)                                  \
  P2(ne, K, a != b)
#define INVOPS(K)                                    \
  OPT(inv, K, a.Inverse())                           \
  OPTI(invi, K, a.InverseInPlace())
#define FROB(K, E)                                   \
  S1(frob##E, K, a.FrobeniusMapInPlace(E))
#define FROBS(K) FROB(K, 0) FROB(K, 1) FROB(K, 2) FROB(K, 3) FROB(K, 5) FROB(K, 7) FROB(K, 11) FROB(K, 13)
#define QUAD(K)                                      \
  F1(conj, K, T, a.Conjugate())                      \
  S1(conji, K, a.ConjugateInPlace())                 \
  F1(norm, K, B, a.Norm())                           \
  OPT(cinv, K, a.CyclotomicInverse())                \
  OPTI(cinvi, K, a.CyclotomicInverseInPlace())

RINGOPS(T2) RINGOPS(T2m) RINGOPS(T3) RINGOPS(T4q) RINGOPS(T4t) RINGOPS(T6c) RINGOPS(T6q) RINGOPS(T12) RINGOPS(T6o) RINGOPS(T12o)
INVOPS(T2) INVOPS(T2m) INVOPS(T3) INVOPS(T4q) INVOPS(T4t) INVOPS(T6c) INVOPS(T6o) INVOPS(T12o)
FROBS(T2) FROBS(T3) FROBS(T4q) FROBS(T4t) FROBS(T6c) FROBS(T6q) FROBS(T12)
QUAD(T2) QUAD(T2m) QUAD(T4t) QUAD(T6q) QUAD(T12) QUAD(T6o) QUAD(T12o)
F1(norm, T3, B, a.Norm())
F1(norm, T4q, B, a.Norm())
F1(norm, T6c, B, a.Norm())
// cyclotomic squaring
F1(csq, T2, T, a.CyclotomicSquare())
S1(csqi, T2, a.CyclotomicSquareInPlace())
F1(csq, T12, T, a.CyclotomicSquare())
S1(csqi, T12, a.CyclotomicSquareInPlace())

// sparse multiplications; beta operands at in[16], in[17], in[18]
S1(by1, T6c, (a.MulInPlaceBy1(A2::Raw(in[16]))))
S1(by01, T6c, (a.MulInPlaceBy01(A2::Raw(in[16]), A2::Raw(in[17]))))
S1(by034, T6q, (a.MulInPlaceBy034(A1::Raw(in[16]), A1::Raw(in[17]), A1::Raw(in[18]))))
S1(by014, T6q, (a.MulInPlaceBy014(A1::Raw(in[16]), A1::Raw(in[17]), A1::Raw(in[18]))))
S1(by034, T12, (a.MulInPlaceBy034(A2::Raw(in[16]), A2::Raw(in[17]), A2::Raw(in[18]))))
S1(by014, T12, (a.MulInPlaceBy014(A2::Raw(in[16]), A2::Raw(in[17]), A2::Raw(in[18]))))

// initialisers
extern "C" void init_T4q() { QuarticExtensionField<T4q>::Init(); }
extern "C" void dinit_T2() { T2::DoInit(); }
extern "C" void dinit_T3() { T3::DoInit(); }
extern "C" void dinit_T4q() { T4q::DoInit(); }
extern "C" void dinit_T4t() { T4t::DoInit(); }
extern "C" void dinit_T6c() { T6c::DoInit(); }
extern "C" void dinit_T6q() { T6q::DoInit(); }
extern "C" void dinit_T12() { T12::DoInit(); }

}  // namespace verif
