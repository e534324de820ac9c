// Instantiates univariate polynomials (both representations), evaluation-form
// polynomials, interpolation and the generic vanishing-polynomial helpers over
// the abstract prime field.
#include "abstract_prime_field.h"

#include <utility>
#include <vector>

#include "tachyon/math/polynomials/univariate/evaluations_utils.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

struct Cfg : PFConfigBase {};
using F = PFT<Cfg>;
constexpr size_t kMax = 31;
using DC = UnivariateDenseCoefficients<F, kMax>;
using SC = UnivariateSparseCoefficients<F, kMax>;
using D = UnivariatePolynomial<DC>;
using S = UnivariatePolynomial<SC>;
using E = UnivariateEvaluations<F, kMax>;

struct Reader {
  const uint64_t* p;
  F Get() { return F::Raw(*p++); }
};
struct Put {
  uint64_t* p;
  void I(uint64_t v) { *p++ = v; }
  void H(const F& f) { *p++ = f.raw(); }
  void operator()(const F& f) { H(f); }
  void operator()(const D& d) {
    I(0);
    const std::vector<F>& c = d.coefficients().coefficients();
    I(c.size());
    for (size_t i = 0; i < c.size(); ++i) H(c[i]);
  }
  void operator()(const S& s) {
    I(1);
    const std::vector<UnivariateTerm<F>>& t = s.coefficients().terms();
    I(t.size());
    for (size_t i = 0; i < t.size(); ++i) {
      I(t[i].degree);
      H(t[i].coefficient);
    }
  }
  void operator()(const E& e) {
    I(2);
    const std::vector<F>& c = e.evaluations();
    I(c.size());
    for (size_t i = 0; i < c.size(); ++i) H(c[i]);
  }
  template <typename T>
  void operator()(const std::optional<T>& o) {
    I(o.has_value());
    if (o) (*this)(*o);
  }
  template <typename T>
  void operator()(const std::optional<T*>& o) {
    I(o.has_value());
    if (o) (*this)(**o);
  }
  template <typename T>
  void operator()(const DivResult<T>& o) {
    (*this)(o.quotient);
    (*this)(o.remainder);
  }
};

template <typename T>
T Make(Reader& in, uint64_t m);
// |m| coefficients
template <>
D Make<D>(Reader& in, uint64_t m) {
  std::vector<F> v(m);
  for (size_t i = 0; i < m; ++i) v[i] = in.Get();
  return D(DC(std::move(v)));
}
// |m| bit set of degrees
template <>
S Make<S>(Reader& in, uint64_t m) {
  std::vector<UnivariateTerm<F>> v;
  for (size_t i = 0; i <= kMax; ++i)
    if (m >> i & 1) v.push_back({i, in.Get()});
  return S(SC(std::move(v)));
}
template <>
E Make<E>(Reader& in, uint64_t m) {
  std::vector<F> v(m);
  for (size_t i = 0; i < m; ++i) v[i] = in.Get();
  return E(std::move(v));
}

template <typename A, typename B>
void Binary(const uint64_t* p, uint64_t* q, int op, uint64_t la, uint64_t lb) {
  Reader in{p};
  Put put{q};
  A a = Make<A>(in, la);
  B b = Make<B>(in, lb);
  constexpr bool kInPlace = std::is_same_v<A, B> || std::is_same_v<A, D>;
  constexpr bool kDiv = !std::is_same_v<A, S>;
  constexpr bool kMod = !std::is_same_v<A, E>;
  switch (op) {
    case 0: put(a + b); break;
    case 2: put(a - b); break;
    case 4: put(a * b); break;
    case 6: put(a / b); break;
  }
  if constexpr (kInPlace) {
    switch (op) {
      case 1: put(a += b); break;
      case 3: put(a -= b); break;
      case 5: put(a *= b); break;
    }
    if constexpr (std::is_same_v<A, B>) {
      switch (op) {
        case 20: put(a + a); break;
        case 21: put(a += a); break;
        case 22: put(a - a); break;
        case 23: put(a -= a); break;
        case 24: put(a * a); break;
        case 25: put(a *= a); break;
        case 26: put(a / a); break;
        case 12: put.I(a == b); put.I(a != b); break;
      }
    }
    if constexpr (kDiv) {
      if (op == 7) put(a /= b);
      if constexpr (std::is_same_v<A, B>) {
        if (op == 27) put(a /= a);
      }
    }
    if constexpr (kDiv && kMod) {
      if (op == 9) put(a.ModInPlace(b));
      if constexpr (std::is_same_v<A, B>) {
        if (op == 29) put(a.ModInPlace(a));
      }
    }
  }
  if constexpr (kMod) {
    switch (op) {
      case 8: put(a % b); break;
      case 10: put(a.DivMod(b)); break;
    }
  }
}

template <typename A>
void Unary(const uint64_t* p, uint64_t* q, int op, uint64_t la, uint64_t k) {
  Reader in{p};
  Put put{q};
  A a = Make<A>(in, la);
  F s = in.Get();
  switch (op) {
    case 0: put(-a); break;
    case 1: put(a.NegateInPlace()); break;
    case 2: put(a * s); break;
    case 3: put(a *= s); break;
    case 4: put(a / s); break;
    case 5: put(a /= s); break;
    case 6: put.I(a.IsZero()); put.I(a.IsOne()); put.I(a.Degree()); put.I(a.NumElements()); break;
    case 7: put(a[k]); break;
    case 15: put(std::as_const(a).at(k)); break;
    case 16: a.at(k) = s; put(a); break;
  }
  if constexpr (!std::is_same_v<A, E>) {
    switch (op) {
      case 8: put(a.Evaluate(s)); break;
      case 9: put(a.Fold(s)); break;
      case 10: put(a.ToDense()); break;
      case 11: put(a.ToSparse()); break;
      case 12: put(a.GetLeadingCoefficient()); break;
      case 13: put(a.Evaluate(F::Zero())); break;
    }
  }
}

}  // namespace verif

using namespace verif;
#define BIN(A, B) \
  extern "C" void bin_##A##B(const uint64_t* in, uint64_t* out, int op, uint64_t la, uint64_t lb) { Binary<A, B>(in, out, op, la, lb); }
#define UN(A) \
  extern "C" void un_##A(const uint64_t* in, uint64_t* out, int op, uint64_t la, uint64_t k) { Unary<A>(in, out, op, la, k); }
BIN(D, D) BIN(D, S) BIN(S, D) BIN(S, S) BIN(E, E)
UN(D) UN(S) UN(E)

static std::vector<F> Vec(Reader& in, uint64_t n) {
  std::vector<F> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = in.Get();
  return v;
}

// constructors with cleanup
extern "C" void clean_D(const uint64_t* p, uint64_t* q, uint64_t n, int move) {
  Reader in{p};
  std::vector<F> v = Vec(in, n);
  D d = move ? D(DC(std::move(v), true)) : D(DC(v, true));
  Put{q}(d);
}
extern "C" void clean_S(const uint64_t* p, uint64_t* q, uint64_t m, int move) {
  Reader in{p};
  std::vector<UnivariateTerm<F>> v;
  for (size_t i = 0; i <= kMax; ++i)
    if (m >> i & 1) v.push_back({i, in.Get()});
  S d = move ? S(SC(std::move(v), true)) : S(SC(v, true));
  Put{q}(d);
}
extern "C" void from_roots(const uint64_t* p, uint64_t* q, uint64_t n, int sparse) {
  Reader in{p};
  std::vector<F> v = Vec(in, n);
  if (sparse) Put{q}(S::FromRoots(v));
  else Put{q}(D::FromRoots(v));
}
extern "C" void vanishing(const uint64_t* p, uint64_t* q, uint64_t n, int serial) {
  Reader in{p};
  std::vector<F> v = Vec(in, n);
  F x = in.Get();
  Put{q}(serial ? D::EvaluateVanishingPolyByRootsSerial(v, x) : D::EvaluateVanishingPolyByRoots(v, x));
}
extern "C" void interpolate(const uint64_t* p, uint64_t* q, uint64_t n, uint64_t m) {
  Reader in{p};
  std::vector<F> x = Vec(in, n), y = Vec(in, m);
  D d;
  Put put{q};
  bool ok = LagrangeInterpolate(x, y, &d);
  put.I(ok);
  if (ok) put(d);
}
extern "C" void consts(const uint64_t* p, uint64_t* q, uint64_t n) {
  Put put{q};
  put(D::Zero());
  put(D::One());
  put(S::Zero());
  put(S::One());
  put(E::Zero());
  put(E::One(n));
  put(E::Zero(n));
}
extern "C" void bitrev(const uint64_t* p, uint64_t* q, uint64_t n) {
  Reader in{p};
  std::vector<F> v = Vec(in, n);
  SwapBitRevElementsInPlace(v, n, base::bits::CheckedLog2(n));
  Put{q}(E(std::move(v)));
}
