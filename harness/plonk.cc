// Plonk constraint expressions, their evaluators and the compression of
// selectors, over opaque scalars.
#define VERIF_PFT_STR
#include "abstract_prime_field.h"

#include <algorithm>
#include <memory>
#include <sstream>
#include <utility>
#include <vector>

namespace verif {
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
using F = PFT<Cfg>;
}  // namespace verif

#include "plonk_oss.h"

#include "verif_map.h"
#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#undef flat_hash_map
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/expressions/evaluator/selector_replacer.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_extractor.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_finder.h"
#define ostringstream verif_oss
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#undef ostringstream
#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

#include "plonk_parse.h"

namespace verif {
struct Tab {
  std::vector<Evals> f, a, i;
  std::vector<F> c;
  explicit Tab(Src p) {
    for (std::vector<Evals>* v : {&f, &a, &i}) {
      size_t n = *p++;
      for (size_t k = 0; k < n; ++k) v->push_back(Evals(Vals(p)));
    }
    c = Vals(p);
  }
  MultiPhaseRefTable<Evals> ref() const { return {f, a, i, c}; }
};

__attribute__((noinline, optnone)) static uint64_t Cmp(const E& a, const E& b) {
  if (a == b) return a != b ? 3 : 1;
  return a != b ? 2 : 0;
}
// degree, complexity, simple selector, equality with a copy and with another
extern "C" void h_props(const uint64_t* in, uint64_t* r) {
  U a = Parse(in);
  U b = Parse(in);
  *r++ = a->Degree();
  *r++ = a->Complexity();
  *r++ = ContainsSimpleSelector(a.get());
  U c = a->Clone();
  *r++ = Cmp(*c, *a);
  *r++ = Cmp(*a, *b);
  *r++ = Cmp(*b, *a);
  *r++ = c->Degree();
  *r++ = c->Complexity();
}
extern "C" void h_extract(const uint64_t* in, uint64_t* r) {
  U a = Parse(in);
  std::optional<Selector> s = ExtractSimpleSelector(a.get());
  *r++ = s.has_value();
  if (s.has_value()) {
    *r++ = s->index();
    *r++ = s->is_simple();
  }
}
extern "C" void h_ident(const uint64_t* in, uint64_t* r) {
  U a = Parse(in);
  std::verif_oss ss;
  Identifier<F> id(ss);
  id.Evaluate(a.get());
  *r++ = ss.v.size();
  for (uint64_t x : ss.v) *r++ = x;
}
// value of the expression built by |op| out of two
extern "C" void h_prove(const uint64_t* in, uint64_t* r, uint64_t op, uint64_t idx, uint64_t size, uint64_t scale) {
  Tab t(in);
  U a = Parse(in);
  U b = Parse(in);
  F s = Next(in);
  U e;
  switch (op) {
    case 0:
      e = a->Clone();
      break;
    case 1:
      e = a + b;
      break;
    case 2:
      e = a - b;
      break;
    case 3:
      e = a * b;
      break;
    case 4:
      e = a * s;
      break;
    case 5:
      e = -a;
      break;
    case 6:
      e = -*a;
      break;
    case 7:
      e = std::move(a) + std::move(b);
      break;
    case 8:
      e = std::move(a) - std::move(b);
      break;
    case 9:
      e = std::move(a) * std::move(b);
      break;
    case 10:
      e = std::move(a) * s;
      break;
    case 11:
      e = -std::move(a);
      break;
    default: {
      std::vector<U> l;
      l.push_back(a->Clone());
      l.push_back(b->Clone());
      std::vector<U> m = E::CloneExpressions(l);
      e = m[op - 12]->Clone();
    }
  }
  ProvingEvaluator<Evals> ev(static_cast<int32_t>(idx), static_cast<int32_t>(size), static_cast<int32_t>(scale), t.ref());
  *r++ = e->Evaluate(&ev).raw();
  *r++ = e->Degree();
}
extern "C" void h_verify(const uint64_t* in, uint64_t* r) {
  std::vector<F> f = Vals(in), a = Vals(in), i = Vals(in), c = Vals(in);
  U e = Parse(in);
  VerifyingEvaluator<F> ev(MultiPhaseEvaluations<F>(f, a, i, c));
  *r++ = e->Evaluate(&ev).raw();
}
// how: 0 the accumulation of custom gates, 1 one expression
extern "C" void h_graph(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t n, uint64_t scale, uint64_t idxs) {
  Tab t(in);
  F theta = Next(in), beta = Next(in), gamma = Next(in), y = Next(in), prev = Next(in);
  std::vector<U> l = ParseAll(in);
  GraphEvaluator<F> g;
  std::vector<ValueSource> parts;
  for (const U& e : l) parts.push_back(g.AddExpression(e.get()));
  if (how == 0) {
    g.AddCalculation(Calculation::Horner(ValueSource::PreviousValue(), parts, ValueSource::Y()));
  } else if (how == 1) {
    g.AddCalculation(Calculation::Horner(ValueSource::ZeroConstant(), parts, ValueSource::Theta()));
  } else if (how == 2) {
    ValueSource s = g.AddCalculation(Calculation::Horner(ValueSource::OneConstant(), parts, ValueSource::Beta()));
    s = g.AddCalculation(Calculation::Sub(s, ValueSource::Gamma()));
    s = g.AddCalculation(Calculation::Square(s));
    s = g.AddCalculation(Calculation::Double(s));
    s = g.AddCalculation(Calculation::Negate(s));
    s = g.AddCalculation(Calculation::Add(s, ValueSource::TwoConstant()));
    s = g.AddCalculation(Calculation::Mul(s, ValueSource::Beta()));
    g.AddCalculation(Calculation::Store(s));
  }
  MultiPhaseRefTable<Evals> tab = t.ref();
  EvaluationInput<Evals> d(g.CreateInitialIntermediates(), g.CreateEmptyRotations(), tab, theta, beta, gamma, y, static_cast<int32_t>(n));
  for (size_t i = 0; i < idxs; ++i) *r++ = g.Evaluate(d, i, static_cast<int32_t>(scale), prev).raw();
}
extern "C" void h_replace(const uint64_t* in, uint64_t* r, uint64_t idx, uint64_t size) {
  Tab t(in);
  std::vector<U> l = ParseAll(in);
  U e = Parse(in);
  std::vector<base::Ref<const E>> refs;
  for (const U& x : l) refs.emplace_back(x.get());
  SelectorReplacer<F> rep(refs, false);
  U q = rep.Evaluate(e.get());
  ProvingEvaluator<Evals> ev(static_cast<int32_t>(idx), static_cast<int32_t>(size), 1, t.ref());
  *r++ = q->Evaluate(&ev).raw();
  *r++ = q->Degree();
}
extern "C" void h_compress(const uint64_t* in, uint64_t* r, uint64_t n) {
  auto d = Domain::Create(n);
  Tab t(in);
  F theta = Next(in);
  std::vector<U> l = ParseAll(in);
  ProvingEvaluator<Evals> ev(0, static_cast<int32_t>(n), 1, t.ref());
  Evals e = CompressExpressions(d.get(), l, theta, ev);
  *r++ = e.evaluations().size();
  for (const F& x : e.evaluations()) *r++ = x.raw();
}
// |k| selectors over |n| rows -> combinations, and per selector: combination,
// degree, value of its expression on every row
extern "C" void h_selectors(const uint64_t* in, uint64_t* r, uint64_t k, uint64_t n, uint64_t max_degree) {
  std::vector<std::vector<bool>> sel(k, std::vector<bool>(n));
  std::vector<size_t> deg(k);
  for (size_t i = 0; i < k; ++i) {
    deg[i] = *in++;
    for (size_t j = 0; j < n; ++j) sel[i][j] = *in++;
  }
  size_t cols = 0;
  SelectorCompressor<F> c;
  c.Process(sel, deg, max_degree, [&cols]() -> U {
    size_t i = cols++;
    return X::Fixed(FixedQuery(i, Rotation::Cur(), FixedColumnKey(i)));
  });
  *r++ = cols;
  *r++ = c.combination_assignments().size();
  std::vector<Evals> f;
  for (const auto& v : c.combination_assignments()) {
    *r++ = v.size();
    std::vector<F> w(v.begin(), v.end());
    f.push_back(Evals(std::move(w)));
  }
  *r++ = c.selector_assignments().size();
  std::vector<Evals> none;
  std::vector<F> nc;
  for (const SelectorAssignment<F>& s : c.selector_assignments()) {
    *r++ = s.selector_index();
    *r++ = s.combination_index();
    *r++ = s.expression()->Degree();
    for (size_t j = 0; j < n; ++j) {
      ProvingEvaluator<Evals> ev(static_cast<int32_t>(j), static_cast<int32_t>(n), 1, MultiPhaseRefTable<Evals>(f, none, none, nc));
      *r++ = s.expression()->Evaluate(&ev).raw();
    }
  }
}
extern "C" void h_rotate(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t rot) {
  auto d = Domain::Create(n);
  *r++ = Rotation(static_cast<int32_t>(rot)).RotateOmega(d.get(), F::Raw(in[0])).raw();
}
}  // namespace verif
