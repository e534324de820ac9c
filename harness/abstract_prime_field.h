// Opaque prime field built on the repository's own PrimeFieldBase, so that
// roots of unity, powers, batch inversion and the other generic algorithms of
// the field hierarchy are the repository's. Nothing here is ever executed.
#ifndef VERIF_ABSTRACT_PRIME_FIELD_H_
#define VERIF_ABSTRACT_PRIME_FIELD_H_

#include "abstract_field.h"

#include "tachyon/math/finite_fields/prime_field_base.h"

extern "C" void vh_fn(uint64_t tag, const uint64_t* in, uint64_t n, uint64_t* out, uint64_t m);

namespace verif {

template <typename Cfg>
class PFT;

// whether elements of PFT<B> act on those of PFT<A> (A an extension of B)
template <typename A, typename B>
struct Over : std::false_type {};
template <typename Cfg>
struct BaseOf {
  using type = PFT<Cfg>;
};

struct PFConfigBase {
  constexpr static tachyon::math::BigInt<4> kModulus{UINT64_C(0x1234567), UINT64_C(2), UINT64_C(3), UINT64_C(4)};
  constexpr static size_t kModulusBits = 254;
  constexpr static bool kUseMontgomery = true;
  constexpr static bool kModulusModFourIsThree = true;
  constexpr static bool kModulusModSixIsOne = true;
};

}  // namespace verif

namespace tachyon::math {
template <typename Cfg>
struct FiniteFieldTraits<verif::PFT<Cfg>> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = true;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::PFT<Cfg>;
  using Config = Cfg;
};
}  // namespace tachyon::math

namespace verif {

template <typename Cfg>
class PFT final : public tachyon::math::PrimeFieldBase<PFT<Cfg>> {
 public:
  using Config = Cfg;
  using BasePrimeField = typename BaseOf<Cfg>::type;
  using BaseField = typename BaseOf<Cfg>::type;
  using BigIntTy = tachyon::math::BigInt<4>;
  using value_type = tachyon::math::BigInt<4>;
  using CpuField = PFT;
  using GpuField = PFT;
  constexpr static size_t kModulusBits = Cfg::kModulusBits;
  constexpr static size_t N = 1;
  constexpr static size_t kLimbNums = 4;

  constexpr PFT() : h_(kConstTag + kConstHalf) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
  constexpr explicit PFT(T v) : h_(kConstTag + kConstHalf + static_cast<int64_t>(v)) {}
  template <typename C2, std::enable_if_t<Over<Cfg, C2>::value>* = nullptr>
  constexpr explicit PFT(const PFT<C2>& o) : h_(o.raw()) {}
#ifdef VERIF_PFT_EXT
  constexpr static uint32_t kDegreeOverBasePrimeField = 2;
  static constexpr uint32_t ExtensionDegree() { return 1; }
  template <typename A>
  static PFT FromBasePrimeFields(const A& a) {
    return Raw(af_add(a[0].raw(), af_mul(a[1].raw(), kParamTag + 8)));
  }
  PFT& operator[](size_t) { return *this; }
  const PFT& operator[](size_t) const { return *this; }
#endif
  static constexpr PFT Raw(uint64_t h) {
    PFT r;
    r.h_ = h;
    return r;
  }
  static constexpr PFT Param(uint64_t i) { return Raw(kParamTag + i); }
  static constexpr PFT FromMontgomery(uint64_t i) { return Raw(kParamTag + i); }
  template <size_t L>
  static constexpr PFT FromBigInt(const tachyon::math::BigInt<L>& b) { return PFT(b.limbs[0]); }
  static constexpr PFT Broadcast(const PFT& f) { return f; }

  static constexpr PFT Zero() { return PFT(0); }
  static constexpr PFT One() { return PFT(1); }
  static constexpr PFT MinusOne() { return PFT(-1); }
  static PFT TwoInv() { return Raw(af_inv(PFT(2).h_)); }
  static PFT Random() { return Raw(af_random()); }
  static void Init() {}

  bool IsZero() const { return af_eq(h_, Zero().h_); }
  bool IsOne() const { return af_eq(h_, One().h_); }
  bool IsMinusOne() const { return af_eq(h_, MinusOne().h_); }

#ifdef VERIF_PFT_STR
  // a decimal number, as one symbol
  struct Str {
    uint64_t h;
    template <typename T, std::enable_if_t<std::is_constructible_v<T, const char*>>* = nullptr>
    operator T() const { return T(""); }
  };
  Str ToString() const { return {h_}; }
#else
  std::string ToString() const { return {}; }
#endif
  std::string ToHexString(bool pad_zero = false) const { return {}; }
#ifdef VERIF_PFT_MONT
  // canonical integer = value() * 1/R, both opaque
  BigIntTy ToBigInt() const { return BigIntTy(af_mul(h_, af_inv(kParamTag + 9))); }
  constexpr explicit PFT(const BigIntTy& b) : h_(af_mul(b.limbs[0], kParamTag + 9)) {}
  static PFT FromMontgomery(const BigIntTy& b) { return Raw(b.limbs[0]); }
#else
  BigIntTy ToBigInt() const { return BigIntTy(af_to_int(h_)); }
#endif
  BigIntTy value() const { return BigIntTy(h_); }

  bool operator==(const PFT& o) const { return af_eq(h_, o.h_); }
  bool operator!=(const PFT& o) const { return !af_eq(h_, o.h_); }
  bool operator<(const PFT& o) const { return af_lt(h_, o.h_); }
  bool operator>(const PFT& o) const { return af_lt(o.h_, h_); }
  bool operator<=(const PFT& o) const { return !af_lt(o.h_, h_); }
  bool operator>=(const PFT& o) const { return !af_lt(h_, o.h_); }

  constexpr PFT Add(const PFT& o) const { return Raw(af_add(h_, o.h_)); }
  constexpr PFT& AddInPlace(const PFT& o) {
    h_ = af_add(h_, o.h_);
    return *this;
  }
  constexpr PFT Sub(const PFT& o) const { return Raw(af_sub(h_, o.h_)); }
  constexpr PFT& SubInPlace(const PFT& o) {
    h_ = af_sub(h_, o.h_);
    return *this;
  }
  constexpr PFT Negate() const { return Raw(af_neg(h_)); }
  constexpr PFT& NegateInPlace() {
    h_ = af_neg(h_);
    return *this;
  }
  constexpr PFT Mul(const PFT& o) const { return Raw(af_mul(h_, o.h_)); }
  constexpr PFT& MulInPlace(const PFT& o) {
    h_ = af_mul(h_, o.h_);
    return *this;
  }
  std::optional<PFT> Inverse() const {
    if (IsZero()) return std::nullopt;
    return Raw(af_inv(h_));
  }
  [[nodiscard]] std::optional<PFT*> InverseInPlace() {
    if (IsZero()) return std::nullopt;
    h_ = af_inv(h_);
    return this;
  }
  constexpr uint64_t raw() const { return h_; }
#ifdef VERIF_PFT_POW
  // the S-box, opaque
  template <uint32_t Power>
  PFT ConstPow() const {
    PFT r;
    vh_fn(100 + Power, &h_, 1, &r.h_, 1);
    return r;
  }
  static PFT RawOne() { return Raw(kParamTag + 9); }
#endif

 private:
  uint64_t h_;
#ifdef VERIF_PFT_MONT
  uint64_t pad_[3] = {};  // as long as what is written
#endif
};

template <typename A, typename B, std::enable_if_t<Over<A, B>::value>* = nullptr>
constexpr PFT<A> operator*(const PFT<A>& a, const PFT<B>& b) {
  return PFT<A>::Raw(af_mul(a.raw(), b.raw()));
}
template <typename A, typename B, std::enable_if_t<Over<A, B>::value>* = nullptr>
constexpr PFT<A>& operator*=(PFT<A>& a, const PFT<B>& b) {
  return a = a * b;
}

template <typename C>
std::ostream& operator<<(std::ostream& os, const PFT<C>& f) {
  return os;
}

}  // namespace verif

#endif
