// Instantiates powers, scalar multiples, batch inversion and the multi-scalar
// multiplication algorithms over opaque group elements and concrete scalars.
#include "abstract_prime_field.h"

#include <list>
#include <vector>

#include "tachyon/math/base/groups.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/base/gmp/gmp_util.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

struct Cfg : PFConfigBase {};
using F = PFT<Cfg>;

template <size_t L, size_t Bits>
struct SF {
  struct Config {
    constexpr static size_t kModulusBits = Bits;
    static inline BigInt<L> kModulus{};
  };
  using BigIntTy = BigInt<L>;
  constexpr static size_t N = L;
  constexpr static size_t kLimbNums = L;
  BigIntTy v{};
  SF() = default;
  explicit SF(const BigIntTy& b) : v(b) {}
  BigIntTy ToBigInt() const { return v; }
  mpz_class ToMpzClass() const {
    mpz_class r;
    gmp::WriteLimbs(v.limbs, L, &r);
    return r;
  }
};

// Kind 0: closed under addition; 1: adds into another representation (as
// affine points do); 2: like 0, but negation is not cheap.
template <int Kind, typename S>
class P;

}  // namespace verif

namespace tachyon::math {
namespace internal {
template <typename S>
struct AdditiveSemigroupTraits<verif::P<1, S>> {
  using ReturnTy = verif::P<0, S>;
};
}  // namespace internal
template <typename S>
struct PointConversions<verif::P<1, S>, verif::P<0, S>> {
  static verif::P<0, S> Convert(const verif::P<1, S>& p) { return verif::P<0, S>(p.h); }
};
}  // namespace tachyon::math

namespace verif {

struct GlvConfig {
  static inline mpz_class kGLVCoeffs[4];
};

template <int Kind, typename S>
class P : public AdditiveGroup<P<Kind, S>> {
 public:
  using ScalarField = S;
  using BaseField = F;
  struct Curve {
    using Config = GlvConfig;
  };
  using R = std::conditional_t<Kind == 1, P<0, S>, P>;
  constexpr static bool kNegationIsCheap = Kind != 2;
  uint64_t h;
  P() : h(kConstTag + kConstHalf) {}
  explicit P(uint64_t h) : h(h) {}
  static P Zero() { return P(); }
  bool IsZero() const { return af_eq(h, P().h); }
  template <int K2>
  R Add(const P<K2, S>& o) const { return R(af_add(h, o.h)); }
  P Negate() const { return P(af_neg(h)); }
  P& NegateInPlace() {
    h = af_neg(h);
    return *this;
  }
  R DoubleImpl() const { return R(af_add(h, h)); }
  template <int K2, int K = Kind, std::enable_if_t<K != 1>* = nullptr>
  P& AddInPlace(const P<K2, S>& o) {
    h = af_add(h, o.h);
    return *this;
  }
  template <int K = Kind, std::enable_if_t<K != 1>* = nullptr>
  P& DoubleImplInPlace() {
    h = af_add(h, h);
    return *this;
  }
  R operator*(const S& s) const { return this->ScalarMul(s); }
  // multiplication by the opaque eigenvalue
  static P Endomorphism(const P& p) { return P(af_mul(p.h, kParamTag + 8)); }
};

struct Src {
  const uint64_t* p;
  template <typename S>
  S Scalar() {
    S s;
    for (size_t i = 0; i < S::N; ++i) s.v.limbs[i] = *p++;
    return s;
  }
  template <typename S>
  std::vector<S> Scalars(size_t n) {
    std::vector<S> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = Scalar<S>();
    return v;
  }
  template <typename T>
  std::vector<T> Points(size_t n) {
    std::vector<T> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = T(*p++);
    return v;
  }
  std::vector<F> Fields(size_t n) {
    std::vector<F> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = F::Raw(*p++);
    return v;
  }
};
struct Put {
  uint64_t* p;
  void I(uint64_t v) { *p++ = v; }
  template <int K, typename S>
  void operator()(const P<K, S>& x) { I(x.h); }
  void operator()(const F& x) { I(x.raw()); }
  template <typename T>
  void operator()(const std::vector<T>& v) {
    I(v.size());
    for (size_t i = 0; i < v.size(); ++i) (*this)(v[i]);
  }
};

template <int K, typename S>
void Scal(Src in, Put put, int op) {
  using T = P<K, S>;
  T a(*in.p++);
  S s = in.template Scalar<S>();
  switch (op) {
    case 0: put(a.ScalarMul(s)); break;
    case 1: put(a.ScalarMul(s.v)); break;
    case 2: put(a.ScalarMul(s.v.limbs[0])); break;
    case 3: put(a.ScalarMul(static_cast<int>(s.v.limbs[0]))); break;
    case 4: put(a * s); break;
  }
}

template <typename T>
void ConstScal(Src in, Put put) {
  T a(*in.p++);
  put(a.template ConstScalarMul<0>());
  put(a.template ConstScalarMul<1>());
  put(a.template ConstScalarMul<2>());
  put(a.template ConstScalarMul<3>());
  put(a.template ConstScalarMul<4>());
  put(a.template ConstScalarMul<5>());
  put(a.template ConstScalarMul<6>());
  put(a.template ConstScalarMul<7>());
  put(a.template ConstScalarMul<8>());
  put(a.template ConstScalarMul<9>());
  put(a.template ConstScalarMul<11>());
  put(a.template ConstScalarMul<100>());
  put(a.template ConstScalarMul<UINT64_C(0x8000000000000001)>());
  put(a.template ConstScalarMul<UINT64_MAX>());
}

template <int K, typename S>
void Multi(Src in, Put put, int op, size_t n, size_t m, size_t k) {
  using T = P<K, S>;
  std::vector<T> b = in.template Points<T>(m);
  std::vector<S> s = in.template Scalars<S>(n);
  std::vector<typename T::R> o(k, typename T::R(kConstTag + kConstHalf + 77));
  bool ok = false;
  if (op == 0) ok = T::MultiScalarMul(s, b, &o);
  if (op == 1) ok = T::MultiScalarMul(s, b[0], &o);
  if (op == 2) ok = T::MultiScalarMul(s[0], b, &o);
  put.I(ok);
  put(o);
}

template <int K, typename S>
void Msm(Src in, Put put, int op, size_t n, size_t m) {
  using T = P<K, S>;
  std::vector<T> b = in.template Points<T>(m);
  std::vector<S> s = in.template Scalars<S>(n);
  typename Pippenger<T>::Bucket r(kConstTag + kConstHalf + 77);
  bool ok = false;
  if (op < 4) {
    Pippenger<T> p;
    p.SetParallelWindows(op & 1);
    p.SetUseMSMWindowNAForTesting(op & 2);
    ok = p.Run(b.begin(), b.end(), s.begin(), s.end(), &r);
  } else if (op < 8) {
    PippengerAdapter<T> p;
    ok = p.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), static_cast<PippengerParallelStrategy>(op - 4), &r);
  } else if (op == 8) {
    VariableBaseMSM<T> p;
    ok = p.Run(b, s, &r);
  } else if (op == 9) {
    VariableBaseMSM<T> p;
    ok = p.Run(b.begin(), b.end(), s.begin(), s.end(), &r);
  } else if (op == 10) {
    // used twice
    Pippenger<T> p;
    if (!p.Run(b.begin(), b.begin() + m / 2, s.begin(), s.begin() + m / 2, &r)) return;
    put(r);
    ok = p.Run(b.begin(), b.end(), s.begin(), s.end(), &r);
  }
  put.I(ok);
  if (ok) put(r);
}

template <int K, typename S>
void Fixed(Src in, Put put, int op, size_t size, size_t n, size_t k) {
  using T = P<K, S>;
  T b(*in.p++);
  std::vector<S> s = in.template Scalars<S>(n);
  std::vector<typename T::R> o(k, typename T::R(kConstTag + kConstHalf + 77));
  FixedBaseMSM<T> f;
  if (op & 8) f.Reset(size + 40, T(af_add(b.h, b.h)));
  f.Reset(size, b);
  bool ok = false;
  switch (op & 7) {
    case 0: ok = f.Run(s, &o); break;
    case 1: ok = f.RunSerial(s, o); break;
    case 2: {
      std::list<S> l(s.begin(), s.end());
      ok = f.Run(l.begin(), l.end(), o.begin(), o.end());
      break;
    }
    case 3: {
      ok = true;
      for (size_t i = 0; i < n && i < k; ++i) o[i] = f.ScalarMul(s[i]);
      break;
    }
  }
  put.I(ok);
  put(o);
}

template <size_t L, size_t Bits, int K>
void Glv(Src in, Put put) {
  using S = SF<L, Bits>;
  using T = P<K, S>;
  T b(*in.p++);
  S k = in.template Scalar<S>();
  S::Config::kModulus = in.template Scalar<S>().v;
  // coefficients: sign, limbs
  for (size_t i = 0; i < 4; ++i) {
    bool neg = *in.p++;
    mpz_class v = in.template Scalar<S>().ToMpzClass();
    if (neg) v = -v;
    GlvConfig::kGLVCoeffs[i] = v;
  }
  put(GLV<T>::Mul(b, k));
}

template <typename Fn>
void Run(int s, Fn fn) {
  switch (s) {
    case 0: fn(SF<1, 7>()); break;
    case 1: fn(SF<1, 8>()); break;
    case 2: fn(SF<1, 9>()); break;
    case 3: fn(SF<1, 31>()); break;
    case 4: fn(SF<1, 64>()); break;
    case 5: fn(SF<4, 254>()); break;
    case 6: fn(SF<4, 255>()); break;
    case 7: fn(SF<4, 256>()); break;
    case 8: fn(SF<2, 126>()); break;
  }
}

extern "C" {
void g_scal(const uint64_t* in, uint64_t* out, int s, int kind, int op) {
  Run(s, [&](auto f) {
    using S = decltype(f);
    if (kind == 1) Scal<1, S>({in}, {out}, op);
    else Scal<0, S>({in}, {out}, op);
  });
}
void g_const(const uint64_t* in, uint64_t* out, int kind) {
  using S = SF<1, 8>;
  if (kind == 1) ConstScal<P<1, S>>({in}, {out});
  else ConstScal<P<0, S>>({in}, {out});
}
void g_multi(const uint64_t* in, uint64_t* out, int kind, int op, size_t n, size_t m, size_t k) {
  using S = SF<4, 254>;
  if (kind == 1) Multi<1, S>({in}, {out}, op, n, m, k);
  else Multi<0, S>({in}, {out}, op, n, m, k);
}
void g_succ(const uint64_t* in, uint64_t* out, int kind, size_t n) {
  using S = SF<1, 8>;
  if (kind == 1) {
    Put{out}(P<0, S>::GetSuccessiveScalarMuls(n, P<0, S>(in[0])));
  } else {
    Put{out}(P<0, S>::GetSuccessiveScalarMuls(n, P<0, S>(in[0])));
  }
}
void g_msm(const uint64_t* in, uint64_t* out, int s, int kind, int op, size_t n, size_t m) {
  Run(s, [&](auto f) {
    using S = decltype(f);
    if (kind == 1) Msm<1, S>({in}, {out}, op, n, m);
    else if (kind == 2) Msm<2, S>({in}, {out}, op, n, m);
    else Msm<0, S>({in}, {out}, op, n, m);
  });
}
void g_fixed(const uint64_t* in, uint64_t* out, int s, int kind, int op, size_t size, size_t n, size_t k) {
  Run(s, [&](auto f) {
    using S = decltype(f);
    if (kind == 1) Fixed<1, S>({in}, {out}, op, size, n, k);
    else Fixed<0, S>({in}, {out}, op, size, n, k);
  });
}
void g_glv(const uint64_t* in, uint64_t* out, int l, int kind) {
  if (l == 4) {
    if (kind == 1) Glv<4, 254, 1>({in}, {out});
    else Glv<4, 254, 0>({in}, {out});
  } else {
    Glv<1, 8, 0>({in}, {out});
  }
}
void g_pow(const uint64_t* in, uint64_t* out, int op, size_t l) {
  Src r{in};
  F a = F::Raw(*r.p++);
  Put put{out};
  switch (op) {
    case 0: {
      if (l == 1) put(a.Pow(r.Scalar<SF<1, 64>>().v));
      if (l == 2) put(a.Pow(r.Scalar<SF<2, 64>>().v));
      if (l == 4) put(a.Pow(r.Scalar<SF<4, 64>>().v));
      break;
    }
    case 1: put(a.Pow(r.Scalar<SF<4, 64>>())); break;
    case 2: put(a.Pow(r.p[0])); break;
    case 3: {
      put(a.ConstPow<0>());
      put(a.ConstPow<1>());
      put(a.ConstPow<2>());
      put(a.ConstPow<3>());
      put(a.ConstPow<4>());
      put(a.ConstPow<5>());
      put(a.ConstPow<6>());
      put(a.ConstPow<7>());
      put(a.ConstPow<8>());
      put(a.ConstPow<11>());
      put(a.ConstPow<17>());
      put(a.ConstPow<254>());
      break;
    }
    case 4: {
      size_t n = *r.p++;
      std::vector<F> t = r.Fields(n);
      if (l == 1) put(F::PowWithTable(t, r.Scalar<SF<1, 64>>().v));
      else put(F::PowWithTable(t, r.Scalar<SF<2, 64>>().v));
      break;
    }
    case 5: put(F::GetSuccessivePowers(l, a)); break;
    case 6: put(F::GetSuccessivePowers(l, a, F::Raw(*r.p))); break;
    case 7: put(F::GetBitRevIndexSuccessivePowers(l, a)); break;
    case 8: put(F::GetBitRevIndexSuccessivePowers(l, a, F::Raw(*r.p))); break;
    case 9: put(F::GetBitRevIndexSuccessivePowersSerial(l, a)); break;
    case 10: put(F::GetBitRevIndexSuccessivePowersSerial(l, a, F::Raw(*r.p))); break;
    case 11: put(a.ExpPowOfTwo(l)); break;
    case 12: put(a.Square()); break;
    case 13: put(a.SquareInPlace()); put(a); break;
    case 14: {
      std::vector<F> v = r.Fields(l);
      put(F::LinearCombination<true>(v, a));
      put(F::LinearCombination<false>(v, a));
      break;
    }
    case 15: case 16: {
      std::vector<F> v = r.Fields(l);
      if (op == 15) put(F::LinearCombinationInPlace<true>(v, a));
      else put(F::LinearCombinationInPlace<false>(v, a));
      break;
    }
    case 17: {
      std::optional<F> q = a / F::Raw(*r.p);
      put.I(q.has_value());
      if (q) put(*q);
      break;
    }
    case 18: {
      std::optional<F*> q = (a /= F::Raw(*r.p));
      put.I(q.has_value());
      if (q) {
        put(a);
        put(**q);
      }
      break;
    }
    case 19: put(a.Double()); put(a.DoubleInPlace()); put(a - F::Raw(*r.p)); put(a -= F::Raw(*r.p)); put(-a); break;
  }
}
// op bit 0: serial, 1: in place, 2: with coefficient
void g_inv(const uint64_t* in, uint64_t* out, int op, size_t n, size_t m) {
  Src r{in};
  F c = F::Raw(*r.p++);
  std::vector<F> v = r.Fields(n);
  std::vector<F> o(m, F(77));
  bool ok = false;
  switch (op) {
    case 0: ok = F::BatchInverse(v, &o); break;
    case 1: ok = F::BatchInverseSerial(v, &o); break;
    case 2: ok = F::BatchInverseInPlace(v); break;
    case 3: ok = F::BatchInverseInPlaceSerial(v); break;
    case 4: ok = F::BatchInverse(v, &o, c); break;
    case 5: ok = F::BatchInverseSerial(v, &o, c); break;
    case 6: ok = F::BatchInverseInPlace(v, c); break;
    case 7: ok = F::BatchInverseInPlaceSerial(v, c); break;
  }
  Put put{out};
  put.I(ok);
  if (ok) put(op & 2 ? v : o);
}
}
}  // namespace verif
