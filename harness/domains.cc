// Instantiates the evaluation domains over the abstract prime field.
#include "abstract_prime_field.h"

#include <algorithm>
#include <memory>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/synchronization/mutex.h"

// Linear-search model of the associative container (same interface contract,
// in particular insert() keeps an existing element).
namespace absl {
template <typename K, typename V>
struct verif_map {
  using value_type = std::pair<K, V>;
  using iterator = typename std::vector<value_type>::iterator;
  std::vector<value_type> v;
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  iterator find(const K& k) {
    auto it = v.begin();
    for (; it != v.end(); ++it)
      if (it->first.first == k.first && it->first.second == k.second) break;
    return it;
  }
  std::pair<iterator, bool> insert(value_type&& x) {
    auto it = find(x.first);
    if (it != v.end()) return {it, false};
    v.push_back(std::move(x));
    return {v.end() - 1, true};
  }
  iterator insert(iterator, value_type&& x) { return insert(std::move(x)).first; }
  template <typename VV>
  std::pair<iterator, bool> insert_or_assign(const K& k, VV&& x) {
    auto it = find(k);
    if (it != v.end()) {
      it->second = std::move(x);
      return {it, false};
    }
    return insert(value_type(k, std::move(x)));
  }
  template <typename VV>
  iterator insert_or_assign(iterator, const K& k, VV&& x) { return insert_or_assign(k, std::move(x)).first; }
  template <typename... A>
  std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    auto it = find(k);
    if (it != v.end()) return {it, false};
    return insert(value_type(k, V(std::forward<A>(a)...)));
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
  V& operator[](const K& k) {
    auto it = find(k);
    if (it == v.end()) it = insert(value_type(k, V())).first;
    return it->second;
  }
  bool contains(const K& k) { return find(k) != v.end(); }
  size_t size() const { return v.size(); }
  void erase(iterator it) { v.erase(it); }
};
}  // namespace absl
#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#undef flat_hash_map

#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

// radix 2, two-adicity 4: root of unity of order 16 is parameter 0
struct R2Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = false;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
};
struct R2SmallCfg : R2Cfg {
  constexpr static size_t kModulusBits = 31;
};
// 2^2 * 3^2
struct MixCfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kTwoAdicity = 2;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 2;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 1;
};
using R2 = PFT<R2Cfg>;
using R2S = PFT<R2SmallCfg>;
using Mix = PFT<MixCfg>;

constexpr size_t kMax = 63;
using DR2 = Radix2EvaluationDomain<R2, kMax>;
using DR2S = Radix2EvaluationDomain<R2S, kMax>;
using DMix = MixedRadixEvaluationDomain<Mix, kMax>;

template <typename T>
void PutVec(const T& v, uint64_t* out) {
  out[0] = v.size();
  for (size_t i = 0; i < v.size(); ++i) out[1 + i] = v[i].raw();
}

template <typename D>
std::unique_ptr<UnivariateEvaluationDomain<typename D::Field, D::kMaxDegree>> Dom(size_t n, bool coset,
                                                                                  const uint64_t* in) {
  using F = typename D::Field;
  std::unique_ptr<UnivariateEvaluationDomain<F, D::kMaxDegree>> d = D::Create(n);
  if (coset) d = d->GetCoset(F::Raw(in[0]));
  return d;
}
template <typename F>
std::vector<F> Vec(const uint64_t* in, size_t n) {
  std::vector<F> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = F::Raw(in[i]);
  return v;
}
// in[0] offset, in[1] tau, in[2..] values
template <typename D>
void FFT(const uint64_t* in, uint64_t* out, size_t n, bool coset, size_t len, bool move) {
  using F = typename D::Field;
  auto d = Dom<D>(n, coset, in);
  typename D::DensePoly p(UnivariateDenseCoefficients<F, D::kMaxDegree>(Vec<F>(in + 2, len)));
  typename D::Evals e;
  if (move)
    e = d->FFT(std::move(p));
  else
    e = d->FFT(p);
  PutVec(e.evaluations_, out);
}
template <typename D>
void IFFT(const uint64_t* in, uint64_t* out, size_t n, bool coset, size_t len, bool move) {
  using F = typename D::Field;
  auto d = Dom<D>(n, coset, in);
  typename D::Evals e(Vec<F>(in + 2, len));
  typename D::DensePoly p;
  if (move)
    p = d->IFFT(std::move(e));
  else
    p = d->IFFT(e);
  PutVec(p.coefficients_.coefficients_, out);
}
template <typename D>
void Elements(const uint64_t* in, uint64_t* out, size_t n, bool coset) {
  auto d = Dom<D>(n, coset, in);
  PutVec(d->GetElements(), out);
}
template <typename D>
void Element(const uint64_t* in, uint64_t* out, size_t n, bool coset, int64_t i) {
  auto d = Dom<D>(n, coset, in);
  out[0] = d->GetElement(i).raw();
}
template <typename D>
void Info(const uint64_t* in, uint64_t* out, size_t n, bool coset) {
  auto d = Dom<D>(n, coset, in);
  out[0] = d->size();
  out[1] = d->log_size_of_group();
  out[2] = d->size_as_field_element().raw();
  out[3] = d->size_inv().raw();
  out[4] = d->group_gen().raw();
  out[5] = d->group_gen_inv().raw();
  out[6] = d->offset().raw();
  out[7] = d->offset_inv().raw();
  out[8] = d->offset_pow_size().raw();
}
template <typename D>
void Lagrange(const uint64_t* in, uint64_t* out, size_t n, bool coset, size_t from, size_t to, uint64_t all) {
  using F = typename D::Field;
  auto d = Dom<D>(n, coset, in);
  if (all == 1)
    PutVec(d->EvaluateAllLagrangeCoefficients(F::Raw(in[1])), out);
  else
    PutVec(d->EvaluatePartialLagrangeCoefficients(F::Raw(in[1]), base::Range<size_t>(from, to)), out);
}
template <typename D>
void Vanish(const uint64_t* in, uint64_t* out, size_t n, bool coset) {
  using F = typename D::Field;
  auto d = Dom<D>(n, coset, in);
  out[0] = d->EvaluateVanishingPolynomial(F::Raw(in[1])).raw();
  auto v = d->GetVanishingPolynomial();
  out[1] = v.NumElements();
  for (size_t i = 0; i < v.coefficients_.terms_.size(); ++i) {
    out[2 + 2 * i] = v.coefficients_.terms_[i].degree;
    out[3 + 2 * i] = v.coefficients_.terms_[i].coefficient.raw();
  }
}
// subdomain of size m, offset in[0] * g^k
template <typename D>
void Filter(const uint64_t* in, uint64_t* out, size_t n, size_t m, bool coset, size_t which) {
  using F = typename D::Field;
  auto d = Dom<D>(n, coset, in);
  std::unique_ptr<UnivariateEvaluationDomain<F, D::kMaxDegree>> s = D::Create(m);
  if (coset) s = s->GetCoset(F::Raw(in[0]));
  if (which == 0) {
    auto p = d->GetFilterPolynomial(*s);
    PutVec(p.coefficients_.coefficients_, out);
  } else {
    std::optional<F> r = d->EvaluateFilterPolynomial(*s, F::Raw(in[1]));
    out[0] = 1 - r.has_value();
    if (r) out[1] = r->raw();
  }
}
#define DOM(K, D)                                                                                              \
  extern "C" void fft_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c, size_t l, size_t m) {            \
    FFT<D>(i, o, n, c == 1, l, m == 1);                                                                        \
  }                                                                                                            \
  extern "C" void ifft_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c, size_t l, size_t m) {           \
    IFFT<D>(i, o, n, c == 1, l, m == 1);                                                                       \
  }                                                                                                            \
  extern "C" void elements_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c) { Elements<D>(i, o, n, c == 1); } \
  extern "C" void element_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c, int64_t k) {                 \
    Element<D>(i, o, n, c == 1, k);                                                                            \
  }                                                                                                            \
  extern "C" void info_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c) { Info<D>(i, o, n, c == 1); }   \
  extern "C" void lagr_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c, size_t f, size_t t, uint64_t a) { \
    Lagrange<D>(i, o, n, c == 1, f, t, a);                                                                     \
  }                                                                                                            \
  extern "C" void vanish_##K(const uint64_t* i, uint64_t* o, size_t n, size_t c) { Vanish<D>(i, o, n, c == 1); } \
  extern "C" void filter_##K(const uint64_t* i, uint64_t* o, size_t n, size_t m, size_t c, size_t w) {         \
    Filter<D>(i, o, n, m, c == 1, w);                                                                          \
  }
DOM(r2, DR2)
DOM(mix, DMix)

// batch transforms (small fields)
using Mat = RowMajorMatrix<R2S>;
void Put(const Mat& m, uint64_t* out) {
  out[0] = m.rows();
  out[1] = m.cols();
  for (int r = 0; r < m.rows(); ++r)
    for (int c = 0; c < m.cols(); ++c) out[2 + r * m.cols() + c] = m(r, c).raw();
}
Mat Get(const uint64_t* in, size_t n, size_t c) {
  Mat m(n, c);
  for (size_t r = 0; r < n; ++r)
    for (size_t k = 0; k < c; ++k) m(r, k) = R2S::Raw(in[r * c + k]);
  return m;
}
extern "C" void fftbatch(const uint64_t* in, uint64_t* out, size_t n, size_t cols, size_t inv) {
  auto d = DR2S::Create(n);
  Mat m = Get(in + 2, n, cols);
  if (inv == 1)
    d->IFFTBatch(m);
  else
    d->FFTBatch(m);
  Put(m, out);
}
// how: bit 0 = lvalue overload, bit 1 = skip the final reversal
extern "C" void lde(const uint64_t* in, uint64_t* out, size_t n, size_t cols, size_t added, size_t how) {
  auto d = DR2S::Create(n);
  Mat m = Get(in + 2, n, cols);
  Mat o(n << added, cols);
  R2S shift = R2S::Raw(in[0]);
  bool rev = (how & 2) == 0;
  if (how & 1)
    d->CosetLDEBatch(static_cast<const Mat&>(m), added, shift, o, rev);
  else
    d->CosetLDEBatch(std::move(m), added, shift, o, rev);
  Put(o, out);
}
// history: an extension of n rows to 2n first caches packed-only tables
extern "C" void fft_after_lde(const uint64_t* in, uint64_t* out, size_t n) {
  auto d = DR2S::Create(n);
  Mat m = Get(in + 2, n, 1);
  Mat o(n << 1, 1);
  d->CosetLDEBatch(std::move(m), 1, R2S::Raw(in[0]), o, true);
  auto d2 = DR2S::Create(2 * n);
  typename DR2S::DensePoly p(UnivariateDenseCoefficients<R2S, kMax>(Vec<R2S>(in + 2, 2 * n)));
  auto e = d2->FFT(p);
  PutVec(e.evaluations_, out);
}
}  // namespace verif
