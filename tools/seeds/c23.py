PM = 'tachyon/zk/plonk/permutation/'
seed('C23-merge-early', 'C23', [(PM + 'cycle_store.cc', '''    if (l == right_cycle_base) {
      break;
    }
  }

  std::swap''', '''    if (l == right_cycle_base || sizes_[l] > 1) {
      break;
    }
  }

  std::swap''')], 'a cycle which was itself merged from two of equal size, merged into a larger one', 'cells of the merged cycle keep another representative, and later copies between them split the cycle', '''#include <cstdio>
#include "tachyon/zk/plonk/permutation/cycle_store.h"
using namespace tachyon::zk::plonk;
int main() {
  CycleStore s(2, 8);
  auto L = [](size_t i) { return Label(i / 8, i % 8); };
  // 0 1 | 2 3, then all four below six others
  s.MergeCycle(L(0), L(1));
  s.MergeCycle(L(2), L(3));
  s.MergeCycle(L(0), L(2));
  for (int i = 9; i < 14; ++i) s.MergeCycle(L(8), L(i));
  s.MergeCycle(L(8), L(1));
  for (int i = 0; i < 4; ++i)
    for (int j = 8; j < 14; ++j)
      if (!s.CheckSameCycle(L(i), L(j))) return 2;
  s.MergeCycle(L(0), L(3));
  Label l = s.GetNextLabel(L(0));
  int n = 1;
  while (l != L(0) && n < 40) l = s.GetNextLabel(l), ++n;
  return n == 10 ? 0 : 2;
}
''', stubs=True)
PV = '''#include <cstdio>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/permutation/permutation_verifier.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::plonk;
using F = math::bn254::Fr;
'''
seed('C23-chunk-delta', 'C23', [(PM + 'permutation_verifier.h', '''delta.Pow(chunk_idx * chunk_len);''', '''delta.Pow(chunk_idx * columns.size());''')],
     'a permutation whose last chunk of columns is shorter than the others', 'the verifier checks the last product against the cosets of other columns', PV + '''int main() {
  F::Init();
  ConstraintSystem<F> cs;
  for (int i = 0; i < 5; ++i) cs.EnableEquality(AnyColumnKey(cs.CreateAdviceColumn()));
  cs.set_minimum_degree(6);
  size_t len = cs.ComputePermutationChunkLen();
  if (len != 4) return 3;
  auto V = [](int n, int s) { std::vector<F> v; for (int i = 0; i < n; ++i) v.push_back(F(s + i * i)); return v; };
  std::vector<F> fx, ad = V(5, 100), in, ch, com = V(2, 3), z = V(2, 50), zn = V(2, 70), sc = V(5, 9), s = V(5, 33);
  std::vector<std::optional<F>> zl = {F(77), std::nullopt};
  F beta(1234), gamma(98), x(4321);
  PermutationVerifierData<F, F> d(fx, ad, in, ch, com, z, zn, zl, sc, s, beta, gamma);
  PermutationVerifier<F, F> v(d);
  F l1(2), l2(3), l3(5);
  LValues<F> l(l1, l2, l3);
  std::vector<F> e;
  v.Evaluate(cs, x, l, e);
  F key = beta * x, act = F::One() - (F(3) + F(5));
  std::vector<F> want;
  for (int c = 0; c < 2; ++c) {
    F a = zn[c], b = z[c];
    for (int i = c * 4; i < 5 && i < c * 4 + 4; ++i) {
      a *= ad[i] + beta * s[i] + gamma;
      b *= ad[i] + key + gamma;
      key *= GetDelta<F>();
    }
    want.push_back(act * (a - b));
  }
  return e.size() == 5 && e[3] == want[0] && e[4] == want[1] ? 0 : 2;
}
''', stubs=True)
seed('C23-open-order', 'C23', [('tachyon/zk/lookup/log_derivative_halo2/verifier.h', '''    for (size_t i = 0; i < data_.grand_sum_commitments.size(); ++i) {
      openings.emplace_back(
          OPENING(grand_sum_commitments[i], x, grand_sum_evals[i]));
      openings.emplace_back(
          OPENING(grand_sum_commitments[i], x_next, grand_sum_next_evals[i]));
      openings.emplace_back(OPENING(m_poly_commitments[i], x, m_evals[i]));
    }
''', '''    for (size_t i = 0; i < data_.grand_sum_commitments.size(); ++i) {
      openings.emplace_back(
          OPENING(grand_sum_commitments[i], x, grand_sum_evals[i]));
      openings.emplace_back(
          OPENING(grand_sum_commitments[i], x_next, grand_sum_next_evals[i]));
    }
    for (size_t i = 0; i < data_.m_poly_commitments.size(); ++i) {
      openings.emplace_back(OPENING(m_poly_commitments[i], x, m_evals[i]));
    }
''')], 'a circuit with two lookups under the log derivative argument', 'the verifier combines the openings in another order than the prover, so honest proofs are rejected', PV + '''#include "tachyon/zk/lookup/log_derivative_halo2/verifier.h"
struct Pol { using Field = F; using Point = F; };
int main() {
  F::Init();
  halo2::LogDerivativeHalo2Proof<F, F> p;
  auto V = [](int s) { return std::vector<F>{F(s), F(s + 1)}; };
  p.advice_evals_vec = {{}};
  p.instance_evals_vec = {{}};
  p.lookup_sum_commitments_vec = {V(1)};
  p.lookup_m_poly_commitments_vec = {V(11)};
  p.lookup_sum_evals_vec = {V(21)};
  p.lookup_sum_next_evals_vec = {V(31)};
  p.lookup_m_evals_vec = {V(41)};
  zk::lookup::log_derivative_halo2::Verifier<F, F> v(p, 0);
  std::vector<crypto::PolynomialOpening<Pol, F>> o;
  v.Open(zk::lookup::halo2::OpeningPointSet<F>(F(7), F(8), F(9)), o);
  int want[6][3] = {{1, 7, 21}, {1, 9, 31}, {11, 7, 41}, {2, 7, 22}, {2, 9, 32}, {12, 7, 42}};
  if (o.size() != 6) return 2;
  for (int i = 0; i < 6; ++i)
    if (*o[i].poly_oracle != F(want[i][0]) || o[i].point != F(want[i][1]) || o[i].opening != F(want[i][2])) return 2;
  return 0;
}
''', stubs=True)
seed('C23-shuffle-next', 'C23', [('tachyon/zk/shuffle/verifier.h', '''    F left = data_.grand_product_next_evals[i] *
             (compressed_shuffle_expression + data_.gamma);
    F right = data_.grand_product_evals[i] *
              (compressed_input_expression + data_.gamma);
''', '''    F left = data_.grand_product_next_evals[i] *
             (compressed_shuffle_expression + data_.gamma);
    F right = data_.grand_product_evals.front() *
              (compressed_input_expression + data_.gamma);
''')], 'a circuit with two shuffles', 'the recursion of the second shuffle is checked against the product of the first', PV + '''#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/shuffle/verifier.h"
using X = tachyon::zk::plonk::ExpressionFactory<F>;
int main() {
  F::Init();
  std::vector<F> none, com = {F(1), F(2)}, z = {F(5), F(11)}, zn = {F(7), F(13)};
  F theta(3), gamma(17);
  zk::shuffle::VerifierData<F, F> d(none, none, none, none, com, z, zn, theta, gamma);
  F l1(2), l2(3), l3(5);
  LValues<F> l(l1, l2, l3);
  zk::shuffle::Verifier<F, F> v(d, l);
  std::vector<zk::shuffle::Argument<F>> args;
  for (int i = 0; i < 2; ++i) {
    std::vector<std::unique_ptr<Expression<F>>> a, b;
    a.push_back(X::Constant(F(100 + i)));
    b.push_back(X::Constant(F(200 + i)));
    args.emplace_back("s", std::move(a), std::move(b));
  }
  std::vector<F> e;
  v.Evaluate(args, e);
  F act = F::One() - F(8);
  for (int i = 0; i < 2; ++i)
    if (e[3 * i + 2] != act * (zn[i] * (F(200 + i) + gamma) - z[i] * (F(100 + i) + gamma))) return 2;
  return 0;
}
''', stubs=True)
