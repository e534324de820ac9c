// Expressions built from a list of words.
#ifndef VERIF_PLONK_PARSE_H_
#define VERIF_PLONK_PARSE_H_
namespace verif {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using E = tachyon::zk::Expression<F>;
using U = std::unique_ptr<E>;
using X = tachyon::zk::plonk::ExpressionFactory<F>;
constexpr size_t kMaxDegree = 31;
using Domain = math::UnivariateEvaluationDomain<F, kMaxDegree>;
using Evals = Domain::Evals;
using Src = const uint64_t*&;
static F Next(Src p) { return F::Raw(*p++); }

static U Parse(Src p) {
  switch (*p++) {
    case 0:
      return X::Constant(Next(p));
    case 1: {
      size_t i = *p++;
      return X::Selector(*p++ ? Selector::Simple(i) : Selector::Complex(i));
    }
    case 2: {
      p += 3;
      return X::Fixed(FixedQuery(p[-3], Rotation(static_cast<int32_t>(p[-2])), FixedColumnKey(p[-1])));
    }
    case 3: {
      p += 4;
      return X::Advice(AdviceQuery(p[-4], Rotation(static_cast<int32_t>(p[-3])), AdviceColumnKey(p[-2], Phase(static_cast<uint8_t>(p[-1])))));
    }
    case 4: {
      p += 3;
      return X::Instance(InstanceQuery(p[-3], Rotation(static_cast<int32_t>(p[-2])), InstanceColumnKey(p[-1])));
    }
    case 5: {
      p += 2;
      return X::Challenge(Challenge(p[-2], Phase(static_cast<uint8_t>(p[-1]))));
    }
    case 6:
      return X::Negated(Parse(p));
    case 7: {
      U a = Parse(p);
      return X::Sum(std::move(a), Parse(p));
    }
    case 8: {
      U a = Parse(p);
      return X::Product(std::move(a), Parse(p));
    }
    default: {
      F s = Next(p);
      return X::Scaled(Parse(p), s);
    }
  }
}
static std::vector<U> ParseAll(Src p) {
  std::vector<U> r;
  size_t n = *p++;
  for (size_t i = 0; i < n; ++i) r.push_back(Parse(p));
  return r;
}
static std::vector<F> Vals(Src p) {
  std::vector<F> r(*p++);
  for (F& x : r) x = Next(p);
  return r;
}
}  // namespace verif
#endif  // VERIF_PLONK_PARSE_H_
