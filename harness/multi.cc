// Instantiates multilinear extensions, multivariate sparse polynomials, linear
// combinations and the multilinear sumcheck over the abstract prime field.
#include "abstract_prime_field.h"

#include <numeric>
#include <sstream>

#include "verif_map.h"
#define flat_hash_map verif_map
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#undef flat_hash_map
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;

struct Cfg : PFConfigBase {};
using F = PFT<Cfg>;
constexpr size_t kMax = 4;
using DE = MultilinearDenseEvaluations<F, kMax>;
using M = MultilinearExtension<DE>;
using MC = MultivariateSparseCoefficients<F, 12>;
using MP = MultivariatePolynomial<MC>;
using LC = LinearCombination<DE>;
using LCD = LC;

struct Reader {
  const uint64_t* p;
  F Get() { return F::Raw(*p++); }
  std::vector<F> Vec(size_t n) {
    std::vector<F> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = Get();
    return v;
  }
};
struct Put {
  uint64_t* p;
  void I(uint64_t v) { *p++ = v; }
  void H(const F& f) { *p++ = f.raw(); }
  void operator()(const F& f) { H(f); }
  void operator()(const std::vector<F>& c) {
    I(c.size());
    for (size_t i = 0; i < c.size(); ++i) H(c[i]);
  }
  void operator()(const DE& d) { (*this)(d.evaluations()); }
  void operator()(const M& m) { (*this)(m.evaluations().evaluations()); }
  void operator()(const MC& c) {
    I(c.num_vars());
    const std::vector<MC::Term>& t = c.terms();
    I(t.size());
    bool sorted = true;
    for (size_t i = 0; i < t.size(); ++i) {
      // literal as 4-bit exponents per variable
      uint64_t l = 0;
      for (const MC::Element& e : t[i].literal.elements) l += e.exponent << (4 * e.variable);
      I(l);
      H(t[i].coefficient);
      if (i) sorted &= t[i - 1].literal < t[i].literal;
    }
    I(sorted);
  }
  void operator()(const MP& c) { (*this)(c.coefficients()); }
  template <typename T>
  void operator()(const std::optional<T>& o) {
    I(o.has_value());
    if (o) (*this)(*o);
  }
  template <typename T>
  void operator()(const std::optional<T*>& o) {
    I(o.has_value());
    if (o) (*this)(**o);
  }
};
static M Mle(Reader& in, uint64_t n) { return M(DE(in.Vec(n))); }

static MC::Literal Lit(uint64_t l) {
  std::vector<MC::Element> e;
  for (size_t v = 0; v < 8; ++v)
    if (l >> (4 * v) & 15) e.push_back({v, l >> (4 * v) & 15});
  if (e.empty()) e.push_back({});
  return MC::Literal(std::move(e));
}
static MP Multi(Reader& in, uint64_t nv, uint64_t n, const uint64_t* lits) {
  std::vector<MC::Term> t;
  for (size_t i = 0; i < n; ++i) {
    MC::Term x;
    x.literal = Lit(lits[i]);
    x.coefficient = in.Get();
    t.push_back(std::move(x));
  }
  // order required of the representation
  for (size_t i = 1; i < n; ++i)
    for (size_t j = i; j > 0 && t[j].literal < t[j - 1].literal; --j) std::swap(t[j], t[j - 1]);
  return MP(MC(nv, std::move(t)));
}
}  // namespace verif
using namespace verif;

extern "C" void mle_bin(const uint64_t* p, uint64_t* q, int op, uint64_t n, uint64_t m) {
  Reader in{p};
  Put put{q};
  M a = Mle(in, n), b = Mle(in, m);
  switch (op) {
    case 0: put(a + b); break;
    case 1: put(a += b); break;
    case 2: put(a - b); break;
    case 3: put(a -= b); break;
    case 4: put(a * b); break;
    case 5: put(a *= b); break;
    case 6: put(a / b); break;
    case 7: put(a /= b); break;
    case 8: put.I(a == b); put.I(a != b); break;
    case 20: put(a + a); break;
    case 21: put(a += a); break;
    case 22: put(a - a); break;
    case 23: put(a -= a); break;
    case 24: put(a * a); break;
    case 25: put(a *= a); break;
    case 26: put(a / a); break;
    case 27: put(a /= a); break;
  }
}
extern "C" void mle_un(const uint64_t* p, uint64_t* q, int op, uint64_t n, uint64_t k) {
  Reader in{p};
  Put put{q};
  M a = Mle(in, n);
  switch (op) {
    case 0: put(-a); break;
    case 1: put(a.NegateInPlace()); break;
    case 2: put.I(a.IsZero()); put.I(a.IsOne()); put.I(a.Degree()); break;
    case 3: put(a[k]); break;
    case 4: put(std::as_const(a).at(k)); break;
    case 5: a.at(k) = in.Get(); put(a); break;
    case 6: put(a.Evaluate(in.Vec(k))); put(a); break;
    case 7: { const DE& d = a.evaluations(); put(d.FixVariables(in.Vec(k))); put(d); break; }
    case 8: { DE d = a.evaluations(); put(d.FixVariablesInPlace(in.Vec(k))); put(d); break; }
    case 9: put(M::Zero()); put(M::One(k)); break;
    case 10: put(a.ToDense()); break;
  }
}

// multivariate polynomials
extern "C" void mp_bin(const uint64_t* p, uint64_t* q, int op, uint64_t na, uint64_t ta, uint64_t nb, uint64_t tb, uint64_t k,
                       uint64_t l0, uint64_t l1, uint64_t l2, uint64_t l3, uint64_t l4, uint64_t l5, uint64_t l6, uint64_t l7) {
  Reader in{p};
  Put put{q};
  uint64_t l[8] = {l0, l1, l2, l3, l4, l5, l6, l7};
  MP a = Multi(in, na, ta, l);
  MP b = Multi(in, nb, tb, l + 4);
  std::vector<F> pt = in.Vec(k);
  switch (op) {
    case 0: { MP r = a + b; put(r); put(r.Evaluate(pt)); break; }
    case 1: { MP r = (a += b); put(a); put(a.Evaluate(pt)); break; }
    case 2: { MP r = a - b; put(r); put(r.Evaluate(pt)); break; }
    case 3: { MP r = (a -= b); put(a); put(a.Evaluate(pt)); break; }
    case 8: put.I(a == b); put.I(a != b); break;
    case 20: { MP r = a + a; put(r); put(r.Evaluate(pt)); break; }
    case 21: { a += a; put(a); put(a.Evaluate(pt)); break; }
    case 22: { MP r = a - a; put(r); put(r.Evaluate(pt)); break; }
    case 23: { a -= a; put(a); put(a.Evaluate(pt)); break; }
  }
}
extern "C" void mp_un(const uint64_t* p, uint64_t* q, int op, uint64_t na, uint64_t ta, uint64_t k, uint64_t lit,
                      uint64_t l0, uint64_t l1, uint64_t l2, uint64_t l3) {
  Reader in{p};
  Put put{q};
  uint64_t l[4] = {l0, l1, l2, l3};
  MP a = Multi(in, na, ta, l);
  std::vector<F> pt = in.Vec(k);
  switch (op) {
    case 0: { MP r = -a; put(r); put(r.Evaluate(pt)); break; }
    case 1: { a.NegateInPlace(); put(a); put(a.Evaluate(pt)); break; }
    case 2: put.I(a.IsZero()); put.I(a.IsOne()); put.I(a.Degree()); put.I(a.coefficients().IsConstant()); break;
    case 3: put(a[Lit(lit)]); break;
    case 4: put(a.Evaluate(pt)); break;
    case 5: put(MP::Zero()); put(MP::One()); break;
    case 6: { MC c = a.coefficients(); c.Compact(); put(c); break; }
    case 7: put(std::as_const(a).at(Lit(lit))); break;
  }
}

// linear combinations: |nm| tables of 2^|nv| values; a term is a coefficient
// and four-bit table numbers (1-based)
template <typename T>
static T Table(std::vector<F>&& v) { return T(std::move(v)); }

template <typename T>
static void Build(Reader& in, LinearCombination<T>& lc, uint64_t nv, uint64_t nm, uint64_t nt, const uint64_t* terms) {
  std::vector<std::shared_ptr<T>> t;
  for (size_t i = 0; i < nm; ++i) t.push_back(std::make_shared<T>(Table<T>(in.Vec(size_t{1} << nv))));
  for (size_t i = 0; i < nt; ++i) {
    std::vector<std::shared_ptr<T>> e;
    for (size_t j = 0; j < 8; ++j)
      if (terms[i] >> (4 * j) & 15) e.push_back(t[(terms[i] >> (4 * j) & 15) - 1]);
    lc.AddTerm(in.Get(), e);
  }
}
#define LCARGS uint64_t nv, uint64_t nm, uint64_t nt, uint64_t t0, uint64_t t1, uint64_t t2
extern "C" void lc_sum(const uint64_t* p, uint64_t* q, LCARGS) {
  Reader in{p};
  Put put{q};
  uint64_t t[3] = {t0, t1, t2};
  LC lc(nv);
  Build(in, lc, nv, nm, nt, t);
  put.I(lc.max_evaluations());
  put.I(lc.num_variables());
  put.I(lc.flattened_ml_evaluations().size());
  put(lc.Combine());
}
extern "C" void lc_eval(const uint64_t* p, uint64_t* q, LCARGS) {
  Reader in{p};
  uint64_t t[3] = {t0, t1, t2};
  LC lc(nv);
  Build(in, lc, nv, nm, nt, t);
  Put{q}(lc.Evaluate(in.Vec(nv)));
}
// prover messages of all rounds
extern "C" void prover(const uint64_t* p, uint64_t* q, LCARGS) {
  Reader in{p};
  Put put{q};
  uint64_t t[3] = {t0, t1, t2};
  LCD lc(nv);
  Build(in, lc, nv, nm, nt, t);
  SumcheckProvingKey<DE> key = SumcheckProvingKey<DE>::Build(lc);
  SumcheckProver<DE, kMax> pr(key);
  SumcheckProverMsg<F, kMax> m = pr.Round();
  put(m.evaluations.evaluations());
  for (size_t i = 1; i < nv; ++i) {
    SumcheckVerifierMsg<F> v{in.Get()};
    m = pr.Round(std::move(v));
    put(m.evaluations.evaluations());
  }
}
extern "C" void protocol(const uint64_t* p, uint64_t* q, LCARGS) {
  Reader in{p};
  Put put{q};
  uint64_t t[3] = {t0, t1, t2};
  LCD lc(nv);
  Build(in, lc, nv, nm, nt, t);
  put.I(MultilinearSumcheck<DE>::RunInteractiveProtocol<kMax>(lc, nv));
  put(lc.Combine());
}
// verifier on arbitrary messages of |ne[i]| evaluations
extern "C" void verifier(const uint64_t* p, uint64_t* q, uint64_t nv, uint64_t ne, uint64_t rounds, uint64_t sz) {
  Reader in{p};
  Put put{q};
  SumcheckVerifyingKey key{ne, nv};
  SumcheckVerifier<DE> v(key);
  for (size_t i = 0; i < rounds; ++i) {
    SumcheckProverMsg<F, kMax> m{UnivariateEvaluations<F, kMax>(in.Vec(sz))};
    SumcheckVerifierMsg<F> r = v.Round(std::move(m));
    put(r.random_value);
  }
  F sum = in.Get();
  Subclaim<F> sc;
  bool ok = v.CheckAndGenerateSubclaim(sum, &sc);
  put.I(ok);
  if (ok) {
    put(sc.point);
    put(sc.expected_evaluation);
  }
}
extern "C" void unipoly(const uint64_t* p, uint64_t* q, uint64_t n) {
  Reader in{p};
  std::vector<F> v = in.Vec(n);
  Put{q}(InterpolateUniPoly(v, in.Get()));
}
extern "C" void key_eq(const uint64_t* p, uint64_t* q, LCARGS) {
  Reader in{p};
  Put put{q};
  uint64_t t[3] = {t0, t1, t2};
  LCD a(nv), b(nv);
  Build(in, a, nv, nm, nt, t);
  Build(in, b, nv, nm, nt, t);
  SumcheckProvingKey<DE> x = SumcheckProvingKey<DE>::Build(a), y = SumcheckProvingKey<DE>::Build(b);
  put.I(x == y);
  put.I(x != y);
}
