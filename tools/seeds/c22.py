CS = 'tachyon/zk/plonk/constraint_system/constraint_system.h'
PRE = '''#include <cstdio>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::plonk;
using F = math::bn254::Fr;
using E = tachyon::zk::plonk::ExpressionFactory<F>;
using X = std::unique_ptr<Expression<F>>;
template <typename Fn>
void Gate1(ConstraintSystem<F>& cs, Fn fn) {
  cs.CreateGate("g", [fn](VirtualCells<F>& m) mutable {
    std::vector<Constraint<F>> v;
    v.emplace_back(fn(m));
    return v;
  });
}
'''
seed('C22-rotated-queries', 'C22', [(CS, '''    ++num_advice_queries_[column.index()];
''', '''    if (at != Rotation::Prev()) ++num_advice_queries_[column.index()];
''')], 'an advice column read at four or more rotations, one of them the previous row', 'one blinding factor too few: the openings of the column reveal the witness', PRE + '''int main() {
  ConstraintSystem<F> cs;
  AdviceColumnKey a = cs.CreateAdviceColumn();
  Gate1(cs, [a](VirtualCells<F>& m) {
    X e = m.QueryAdvice(a, Rotation(-1));
    for (int r = 0; r < 4; ++r) e = E::Sum(std::move(e), m.QueryAdvice(a, Rotation(r)));
    return e;
  });
  return cs.ComputeBlindingFactors() == 7 ? 0 : 2;
}
''', stubs=True)
seed('C22-selector-last-gate', 'C22', [(CS, '''          degrees[selector->index()] =
              std::max(degrees[selector->index()], expression->Degree());
''', '''          degrees[selector->index()] = expression->Degree();
''')], 'a simple selector used by two gates, the second of smaller degree, next to a selector active on other rows', 'selectors are combined although a gate then exceeds the degree of the system', PRE + '''int main() {
  ConstraintSystem<F> cs;
  AdviceColumnKey a = cs.CreateAdviceColumn();
  Selector s = cs.CreateSimpleSelector(), t = cs.CreateSimpleSelector();
  auto pw = [a](Selector q, int d) {
    return [=](VirtualCells<F>& m) {
      X e = m.QuerySelector(q);
      for (int i = 0; i < d; ++i) e = E::Product(std::move(e), m.QueryAdvice(a, Rotation::Cur()));
      return e;
    };
  };
  Gate1(cs, pw(s, 4));
  Gate1(cs, pw(s, 1));
  Gate1(cs, pw(t, 1));
  cs.CompressSelectors({{true, false}, {false, true}});
  for (const auto& g : cs.gates())
    for (const auto& p : g.polys())
      if (p->Degree() > 5) return 2;
  return 0;
}
''', stubs=True)
seed('C22-chunk-degree', 'C22', [(CS, '''        size_t cur_input_degree = ComputeColumnDegree(*input);
''', '''        size_t cur_input_degree = input->front()->Degree();
''')], 'two lookups into one table of two columns, the second input of larger degree in its second column', 'an input is added to a lookup argument which then exceeds the degree of the system', PRE + '''int main() {
  ConstraintSystem<F> cs;
  cs.set_lookup_type(lookup::Type::kLogDerivativeHalo2);
  AdviceColumnKey a = cs.CreateAdviceColumn();
  LookupTableColumn t = cs.CreateLookupTableColumn(), u = cs.CreateLookupTableColumn();
  for (int k = 0; k < 6; ++k)
    cs.Lookup("l", [=](VirtualCells<F>& m) {
      lookup::Pairs<X, LookupTableColumn> v;
      X e = m.QueryAdvice(a, Rotation(k));
      for (int i = 0; i < 3; ++i) e = E::Product(std::move(e), m.QueryAdvice(a, Rotation(k)));
      v.emplace_back(m.QueryAdvice(a, Rotation(k)), t);
      v.emplace_back(std::move(e), u);
      return v;
    });
  cs.ChunkLookups();
  for (const auto& l : cs.lookups())
    if (l.RequiredDegree() > 9) return 2;
  return 0;
}
''', stubs=True)
seed('C22-permutation-products', 'C22', [(CS, '''    return (permutation_.columns().size() + chunk_len - 1) / chunk_len;
''', '''    return permutation_.columns().size() / chunk_len +
           (permutation_.columns().size() < chunk_len ? 1 : 0);
''')], 'more equality-enabled columns than fit one permutation product, not a multiple of the chunk', 'the last columns have no permutation product', PRE + '''int main() {
  ConstraintSystem<F> cs;
  cs.set_minimum_degree(5);
  for (int i = 1; i < 9; ++i) {
    cs.EnableEquality(cs.CreateAdviceColumn());
    size_t l = cs.ComputePermutationChunkLen(), n = cs.ComputePermutationProductNums();
    if (n * l < static_cast<size_t>(i) || (n - 1) * l >= static_cast<size_t>(i)) return 2;
  }
  return 0;
}
''', stubs=True)
