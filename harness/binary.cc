// Binary tower fields: the real word-level classes, and the tower step over an
// abstract subfield of characteristic two. Nothing here is executed.
#include "abstract_field.h"

#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"

namespace verif {
using namespace tachyon::math;

#ifdef KB
// ---- abstract tower step F = S[X]/(X^2 + alpha X + 1)
struct S {
  uint64_t h = kConstTag + kConstHalf;
  constexpr static size_t kBits = KB / 2;
  static S R(uint64_t h) {
    S s;
    s.h = h;
    return s;
  }
  static S Zero() { return R(AF(0).raw()); }
  static S One() { return R(AF(1).raw()); }
  bool IsZero() const { return af_eq(h, Zero().h); }
  bool IsOne() const { return af_eq(h, One().h); }
  bool operator==(S o) const { return af_eq(h, o.h); }
  bool operator!=(S o) const { return !af_eq(h, o.h); }
  S operator+(S o) const { return R(af_add(h, o.h)); }
  S operator-(S o) const { return R(af_sub(h, o.h)); }
  S operator-() const { return R(af_neg(h)); }
  S operator*(S o) const { return R(af_mul(h, o.h)); }
  S& operator+=(S o) { return *this = *this + o; }
  S& operator-=(S o) { return *this = *this - o; }
  S& operator*=(S o) { return *this = *this * o; }
  S Add(S o) const { return *this + o; }
  S Sub(S o) const { return *this - o; }
  S Mul(S o) const { return *this * o; }
  S Double() const { return *this + *this; }
  S Square() const { return *this * *this; }
  S& SquareInPlace() { return *this = Square(); }
  std::optional<S> Inverse() const {
    if (IsZero()) return std::nullopt;
    return R(af_inv(h));
  }
};
}  // namespace verif
namespace tachyon::math {
template <>
struct BinaryTowerOperations<verif::S> {
  static verif::S MulByAlpha(verif::S x) { return verif::S::R(af_mul(x.h, verif::AF::Param(0).raw())); }
  static verif::S Mul(verif::S x, verif::S y) { return x * y; }
  static verif::S Square(verif::S x) { return x.Square(); }
  static std::optional<verif::S> Inverse(verif::S x) { return x.Inverse(); }
};
}  // namespace tachyon::math
namespace verif {
struct F {
  using SubField = S;
  constexpr static size_t kBits = KB;
  S lo, hi;
  static F Compose(S a, S b) { return F{a, b}; }
  static F Zero() { return F{S::Zero(), S::Zero()}; }
  static F One() { return F{S::One(), S::Zero()}; }
  std::tuple<S, S> Decompose() const { return {lo, hi}; }
  bool IsZero() const { return lo.IsZero() && hi.IsZero(); }
  bool IsOne() const { return lo.IsOne() && hi.IsZero(); }
  F operator*(F o) const { return BinaryTowerOperations<F>::Mul(*this, o); }
  F operator+(F o) const { return F{lo + o.lo, hi + o.hi}; }
};
using O = BinaryTowerOperations<F>;
static F In(const uint64_t* in, int k) { return F{S::R(in[2 * k]), S::R(in[2 * k + 1])}; }
static void Out(F f, uint64_t* out) {
  out[0] = f.lo.h;
  out[1] = f.hi.h;
}
extern "C" void t_mul(const uint64_t* in, uint64_t* out) { Out(O::Mul(In(in, 0), In(in, 1)), out); }
extern "C" void t_alpha(const uint64_t* in, uint64_t* out) { Out(O::MulByAlpha(In(in, 0)), out); }
extern "C" void t_square(const uint64_t* in, uint64_t* out) { Out(O::Square(In(in, 0)), out); }
extern "C" bool t_inverse(const uint64_t* in, uint64_t* out) {
  auto r = O::Inverse(In(in, 0));
  if (r) Out(*r, out);
  return r.has_value();
}
}  // namespace verif
#else
template <size_t K>
struct ByBits;
#define BB(K)                                  \
  template <>                                  \
  struct ByBits<K> {                           \
    using F = BinaryField<BinaryField##K##Config>; \
  };                                           \
  extern "C" uint64_t bits_##K() { return ByBits<K>::F::kBits; }
BB(1) BB(2) BB(4) BB(8) BB(16) BB(32) BB(64) BB(128)
// ---- small fields, to be tabulated
#define SMALL(K)                                                                                                       \
  extern "C" uint8_t s_mul_##K(uint8_t a, uint8_t b) { return ByBits<K>::F(a).Mul(ByBits<K>::F(b)).value(); }        \
  extern "C" uint8_t s_mulip_##K(uint8_t a, uint8_t b) { ByBits<K>::F x(a); x.MulInPlace(ByBits<K>::F(b)); return x.value(); } \
  extern "C" uint8_t s_add_##K(uint8_t a, uint8_t b) { return ByBits<K>::F(a).Add(ByBits<K>::F(b)).value(); }        \
  extern "C" uint8_t s_sub_##K(uint8_t a, uint8_t b) { return ByBits<K>::F(a).Sub(ByBits<K>::F(b)).value(); }        \
  extern "C" uint8_t s_lt_##K(uint8_t a, uint8_t b) { return ByBits<K>::F(a) < ByBits<K>::F(b); }                    \
  extern "C" uint8_t s_eq_##K(uint8_t a, uint8_t b) { return ByBits<K>::F(a) == ByBits<K>::F(b); }                   \
  extern "C" uint8_t s_alpha_##K(uint8_t a) { return BinaryTowerOperations<ByBits<K>::F>::MulByAlpha(ByBits<K>::F(a)).value(); } \
  extern "C" uint8_t s_sq_##K(uint8_t a) { return ByBits<K>::F(a).Square().value(); }                                 \
  extern "C" uint8_t s_sqip_##K(uint8_t a) { ByBits<K>::F x(a); x.SquareInPlace(); return x.value(); }                \
  extern "C" uint8_t s_neg_##K(uint8_t a) { return ByBits<K>::F(a).Negate().value(); }                                \
  extern "C" uint8_t s_dbl_##K(uint8_t a) { return ByBits<K>::F(a).Double().value(); }                                \
  extern "C" uint8_t s_zero_##K(uint8_t a) { return ByBits<K>::F(a).IsZero(); }                                       \
  extern "C" uint8_t s_one_##K(uint8_t a) { return ByBits<K>::F(a).IsOne(); }                                         \
  extern "C" uint16_t s_inv_##K(uint8_t a) { auto r = ByBits<K>::F(a).Inverse(); return r ? r->value() : 0x100; }      \
  extern "C" uint16_t s_invip_##K(uint8_t a) { ByBits<K>::F x(a); auto r = x.InverseInPlace(); return r ? x.value() : 0x100; }
SMALL(1) SMALL(2) SMALL(4) SMALL(8)
// ---- large fields: word plumbing
template <size_t K>
typename ByBits<K>::F Ld(const uint64_t* a) {
  if constexpr (K == 128) return typename ByBits<K>::F(BigInt<2>{a[0], a[1]});
  else return typename ByBits<K>::F(static_cast<typename ByBits<K>::F::value_type>(a[0]));
}
template <typename F>
void St(F f, uint64_t* r) {
  if constexpr (F::kBits == 128) {
    r[0] = f.value()[0];
    r[1] = f.value()[1];
  } else {
    r[0] = static_cast<uint64_t>(f.value());
  }
}
#define LARGE(K, H)                                                                                                   \
  extern "C" void w_add_##K(uint64_t* r, const uint64_t* a) { St(Ld<K>(a).Add(Ld<K>(a + 2)), r); }                   \
  extern "C" void w_addip_##K(uint64_t* r, const uint64_t* a) { auto x = Ld<K>(a); x.AddInPlace(Ld<K>(a + 2)); St(x, r); } \
  extern "C" void w_sub_##K(uint64_t* r, const uint64_t* a) { St(Ld<K>(a).Sub(Ld<K>(a + 2)), r); }                   \
  extern "C" void w_subip_##K(uint64_t* r, const uint64_t* a) { auto x = Ld<K>(a); x.SubInPlace(Ld<K>(a + 2)); St(x, r); } \
  extern "C" void w_neg_##K(uint64_t* r, const uint64_t* a) { St(Ld<K>(a).Negate(), r); }                             \
  extern "C" void w_negip_##K(uint64_t* r, const uint64_t* a) { auto x = Ld<K>(a); x.NegateInPlace(); St(x, r); }     \
  extern "C" void w_dbl_##K(uint64_t* r, const uint64_t* a) { St(Ld<K>(a).Double(), r); }                             \
  extern "C" void w_dblip_##K(uint64_t* r, const uint64_t* a) { auto x = Ld<K>(a); x.DoubleInPlace(); St(x, r); }     \
  extern "C" void w_lo_##K(uint64_t* r, const uint64_t* a) { St(std::get<0>(Ld<K>(a).Decompose()), r); }              \
  extern "C" void w_hi_##K(uint64_t* r, const uint64_t* a) { St(std::get<1>(Ld<K>(a).Decompose()), r); }              \
  extern "C" void w_compose_##K(uint64_t* r, const uint64_t* a) { St(ByBits<K>::F::Compose(Ld<H>(a), Ld<H>(a + 2)), r); } \
  extern "C" void w_big_##K(uint64_t* r, const uint64_t* a) { St(ByBits<K>::F::FromBigInt(Ld<K>(a).ToBigInt()), r); } \
  extern "C" void w_tobig_##K(uint64_t* r, const uint64_t* a) { auto b = Ld<K>(a).ToBigInt(); for (size_t i = 0; i < (K + 63) / 64; ++i) r[i] = b[i]; } \
  extern "C" void w_zero_##K(uint64_t* r, const uint64_t* a) { St(ByBits<K>::F::Zero(), r); }                         \
  extern "C" void w_one_##K(uint64_t* r, const uint64_t* a) { St(ByBits<K>::F::One(), r); }
LARGE(16, 8) LARGE(32, 16) LARGE(64, 32) LARGE(128, 64)
// the operations of the class are those of the tower (entry points)
#define ENTRY(K)                                                                                     \
  extern "C" void e_mul_##K(uint64_t* r, const uint64_t* a) { St(Ld<K>(a) * Ld<K>(a + 2), r); }      \
  extern "C" void e_inv_##K(uint64_t* r, const uint64_t* a) { auto x = Ld<K>(a).Inverse(); if (x) St(*x, r); }
}  // namespace verif
#endif
