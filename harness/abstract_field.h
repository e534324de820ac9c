// Opaque ("abstract") field: a model of the repository's finite field concept
// whose arithmetic is left uninterpreted. Instantiating the repository's
// templates with it and compiling to LLVM IR leaves a data-flow graph over
// af_* operations that the analysis interprets algebraically. Nothing here is
// ever executed.
#ifndef VERIF_ABSTRACT_FIELD_H_
#define VERIF_ABSTRACT_FIELD_H_

#include <stdint.h>

#include <optional>
#include <ostream>
#include <string>
#include <utility>

#include "absl/types/span.h"

#include "tachyon/base/logging.h"
// verbose logging is output only
#undef VLOG_IS_ON
#define VLOG_IS_ON(x) false
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/finite_fields/finite_field.h"
#include "tachyon/math/finite_fields/finite_field_traits.h"

extern "C" {
[[gnu::const]] uint64_t af_add(uint64_t, uint64_t) noexcept;
[[gnu::const]] uint64_t af_sub(uint64_t, uint64_t) noexcept;
[[gnu::const]] uint64_t af_mul(uint64_t, uint64_t) noexcept;
[[gnu::const]] uint64_t af_neg(uint64_t) noexcept;
[[gnu::const]] uint64_t af_inv(uint64_t) noexcept;
[[gnu::const]] uint64_t af_frob(uint64_t, uint64_t) noexcept;
[[gnu::const]] bool af_eq(uint64_t, uint64_t) noexcept;
[[gnu::const]] bool af_lt(uint64_t, uint64_t) noexcept;
[[gnu::const]] bool af_is_square(uint64_t) noexcept;
[[gnu::const]] uint64_t af_sqrt(uint64_t) noexcept;
[[gnu::const]] bool af_is_odd(uint64_t) noexcept;
[[gnu::const]] uint64_t af_from_int(uint64_t) noexcept;
[[gnu::const]] uint64_t af_pow(uint64_t, uint64_t) noexcept;
uint64_t af_from_str(const char*, size_t, uint64_t) noexcept;
uint64_t af_random() noexcept;
// numeric value of a handle that is a known constant
[[gnu::const]] uint64_t af_to_int(uint64_t) noexcept;
}

namespace verif {

constexpr uint64_t kConstTag = uint64_t{4} << 60;
constexpr uint64_t kParamTag = uint64_t{6} << 60;
constexpr uint64_t kConstHalf = uint64_t{1} << 59;

template <int Degree>
class AFT;

struct AFConfig {
  constexpr static bool kModulusModFourIsThree = true;
  constexpr static bool kModulusModSixIsOne = true;
  constexpr static tachyon::math::BigInt<4> kModulus{UINT64_C(0x1234567), UINT64_C(2), UINT64_C(3), UINT64_C(4)};
  constexpr static bool kHasTwoAdicRootOfUnity = false;
  constexpr static bool kHasLargeSubgroupRootOfUnity = false;
  constexpr static size_t kModulusBits = 254;
  constexpr static bool kUseMontgomery = true;
};

}  // namespace verif

namespace tachyon::math {
template <int Degree>
struct FiniteFieldTraits<verif::AFT<Degree>> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = Degree == 1;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = false;
  using PrimeField = verif::AFT<Degree>;
  using Config = verif::AFConfig;
};
}  // namespace tachyon::math

namespace verif {

template <int Degree>
class AFT final : public tachyon::math::FiniteField<AFT<Degree>> {
 public:
  using Config = AFConfig;
  using BasePrimeField = AFT;
  using BaseField = AFT;
  using BigIntTy = tachyon::math::BigInt<4>;
  using value_type = tachyon::math::BigInt<4>;
  using CpuField = AFT;
  using GpuField = AFT;
  using PackedField = AFT;
  constexpr static size_t kModulusBits = 254;
  constexpr static size_t N = 4;
  constexpr static size_t kLimbNums = 4;

  constexpr AFT() : h_(kConstTag + kConstHalf) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
  constexpr explicit AFT(T v) : h_(kConstTag + kConstHalf + static_cast<int64_t>(v)) {}
  static constexpr AFT Raw(uint64_t h) {
    AFT r;
    r.h_ = h;
    return r;
  }
  static constexpr AFT Param(uint64_t i) { return Raw(kParamTag + i); }

  static constexpr AFT Zero() { return AFT(0); }
  static constexpr AFT One() { return AFT(1); }
  static constexpr AFT MinusOne() { return AFT(-1); }
  static AFT TwoInv() { return Raw(af_inv(AFT(2).h_)); }
  static AFT Random() { return Raw(af_random()); }
  static void Init() {}
  static constexpr uint32_t ExtensionDegree() { return Degree; }

  bool IsZero() const { return af_eq(h_, Zero().h_); }
  bool IsOne() const { return af_eq(h_, One().h_); }
  bool IsMinusOne() const { return af_eq(h_, MinusOne().h_); }

  std::string ToString() const { return {}; }
  std::string ToHexString(bool pad_zero = false) const { return {}; }
  struct Parity {
    uint64_t h;
    bool IsEven() const { return !af_is_odd(h); }
    bool IsOdd() const { return af_is_odd(h); }
  };
  Parity ToBigInt() const { return {h_}; }

  bool operator==(const AFT& o) const { return af_eq(h_, o.h_); }
  bool operator!=(const AFT& o) const { return !af_eq(h_, o.h_); }
  bool operator<(const AFT& o) const { return af_lt(h_, o.h_); }
  bool operator>(const AFT& o) const { return af_lt(o.h_, h_); }
  bool operator<=(const AFT& o) const { return !af_lt(o.h_, h_); }
  bool operator>=(const AFT& o) const { return !af_lt(h_, o.h_); }

  constexpr AFT Add(const AFT& o) const { return Raw(af_add(h_, o.h_)); }
  constexpr AFT& AddInPlace(const AFT& o) {
    h_ = af_add(h_, o.h_);
    return *this;
  }
  constexpr AFT Sub(const AFT& o) const { return Raw(af_sub(h_, o.h_)); }
  constexpr AFT& SubInPlace(const AFT& o) {
    h_ = af_sub(h_, o.h_);
    return *this;
  }
  constexpr AFT Negate() const { return Raw(af_neg(h_)); }
  constexpr AFT& NegateInPlace() {
    h_ = af_neg(h_);
    return *this;
  }
  constexpr AFT Mul(const AFT& o) const { return Raw(af_mul(h_, o.h_)); }
  constexpr AFT& MulInPlace(const AFT& o) {
    h_ = af_mul(h_, o.h_);
    return *this;
  }
  std::optional<AFT> Inverse() const {
    if (IsZero()) return std::nullopt;
    return Raw(af_inv(h_));
  }
  [[nodiscard]] std::optional<AFT*> InverseInPlace() {
    if (IsZero()) return std::nullopt;
    h_ = af_inv(h_);
    return this;
  }
  bool SquareRoot(AFT* ret) const {
    if (!af_is_square(h_)) return false;
    ret->h_ = af_sqrt(h_);
    return true;
  }
  AFT& FrobeniusMapInPlace(uint64_t e) {
    if constexpr (Degree != 1) h_ = af_frob(h_, e);
    return *this;
  }
  AFT FrobeniusMap(uint64_t e) const { return AFT(*this).FrobeniusMapInPlace(e); }
  template <size_t L>
  AFT Pow(const tachyon::math::BigInt<L>& e) const { return Raw(af_pow(h_, e.limbs[0])); }
  static std::optional<AFT> FromDecString(std::string_view s) { return Raw(af_from_str(s.data(), s.size(), 10)); }
  static std::optional<AFT> FromHexString(std::string_view s) { return Raw(af_from_str(s.data(), s.size(), 16)); }
  static AFT FromBasePrimeFields(absl::Span<const AFT> v) { return v[0]; }
  constexpr uint64_t raw() const { return h_; }

 private:
  uint64_t h_;
};

using AF = AFT<1>;

template <int D>
std::ostream& operator<<(std::ostream& os, const AFT<D>& f) {
  return os;
}

template <typename F>
inline F In(const uint64_t* in, int i) {
  return F::Raw(in[i]);
}

}  // namespace verif

#endif  // VERIF_ABSTRACT_FIELD_H_
