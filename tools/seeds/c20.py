R1 = 'tachyon/zk/r1cs/'
PRE = '''#include <cstdio>
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/proving_key.h"
#include "tachyon/zk/r1cs/groth16/prepared_verifying_key.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::r1cs;
using Curve = math::bn254::BN254Curve;
using F = math::bn254::Fr;
using LC = LinearCombination<F>;
static Term<F> T(int c, Variable v) { return Term<F>(F(c), v); }
'''
KEY = '''struct Mul final : Circuit<F> {
  F a, b, z;
  Mul(int a, int b, int z) : a(a), b(b), z(z) {}
  void Synthesize(ConstraintSystem<F>& cs) const override {
    Variable x = cs.CreateWitnessVariable([this]() { return a; });
    Variable y = cs.CreateWitnessVariable([this]() { return b; });
    Variable p = cs.CreateInstanceVariable([this]() { return a * b; });
    Variable q = cs.CreateInstanceVariable([this]() { return z; });
    cs.EnforceConstraint(LC({T(1, x)}), LC({T(1, y)}), LC({T(1, p)}));
    cs.EnforceConstraint(LC({T(1, q)}), LC({T(1, x)}), LC({T(0, x)}));
  }
};
using QAP = QuadraticArithmeticProgram<F>;
struct Keys {
  groth16::ProvingKey<Curve> pk;
  Keys() {
    groth16::ToxicWaste<Curve> tw(F(3), F(5), F(7), F(11), F(13), math::bn254::G1AffinePoint::Generator(), math::bn254::G2AffinePoint::Generator());
    Mul c(3, 4, 0);
    if (!pk.Load<7, QAP>(tw, c)) abort();
  }
};
'''
seed('C20-r-and-s', 'C20', [(R1 + 'groth16/prove.h', '''  if (!r.IsZero()) {
''', '''  if (!r.IsZero() && !s.IsZero()) {
''')], 'a proof made with s = 0 and r != 0', 'the C element leaves out r*B and the honest proof is refused', PRE + KEY + '''int main() {
  Curve::Init();
  Keys k;
  auto pvk = k.pk.verifying_key().ToPreparedVerifyingKey();
  std::vector<F> pub = {F(12), F(0)};
  for (int s = 0; s < 2; ++s) {
    auto p = groth16::CreateProofWithReduction<7, QAP>(Mul(3, 4, 0), k.pk, F(9), F(s));
    if (!groth16::VerifyProof(pvk, p, pub)) return 2;
  }
  return 0;
}
''', stubs=True)
seed('C20-short-inputs', 'C20', [(R1 + 'groth16/verify.h', '''  absl::Span<const G1Point> l_g1_query_first_skipped = l_g1_query.subspan(1);
''', '''  absl::Span<const G1Point> l_g1_query_first_skipped =
      l_g1_query.subspan(1, std::size(public_inputs));
''')], 'a verifier given fewer public inputs than the circuit has, the missing ones being zero', 'accepts a list of inputs that does not fit the key', PRE + KEY + '''int main() {
  Curve::Init();
  Keys k;
  auto pvk = k.pk.verifying_key().ToPreparedVerifyingKey();
  auto p = groth16::CreateProofWithReduction<7, QAP>(Mul(3, 4, 0), k.pk, F(9), F(4));
  if (!groth16::VerifyProof(pvk, p, std::vector<F>{F(12), F(0)})) return 1;
  return groth16::VerifyProof(pvk, p, std::vector<F>{F(12)}) ? 2 : 0;
}
''', stubs=True)
seed('C20-outline-twice', 'C20', [(R1 + 'constraint_system/constraint_system.h', '''    for (size_t i = 0; i < new_witness_linear_combinations.size(); ++i) {
''', '''    for (size_t i = 0; i < new_witness_linear_combinations.size(); ++i) {
      // the same combination needs no second constraint
      if (i > 0 && new_witness_linear_combinations[i] ==
                       new_witness_linear_combinations[i - 1])
        continue;
''')], 'outlining a system with the same long linear combination registered twice', 'the variable of the second one is not constrained', PRE + '''int main() {
  Curve::Init();
  ConstraintSystem<F> cs;
  cs.set_optimization_goal(OptimizationGoal::kWeight);
  std::vector<Variable> v;
  for (int i = 0; i < 4; ++i) v.push_back(cs.CreateWitnessVariable([i]() { return F(i); }));
  LC lc({T(1, v[0]), T(2, v[1]), T(3, v[2]), T(4, v[3])});
  Variable a = cs.CreateLinearCombination(lc), b = cs.CreateLinearCombination(lc);
  for (int i = 0; i < 3; ++i) cs.EnforceConstraint(LC({T(1, a)}), LC({T(1, b)}), LC({T(i, a), T(1, b)}));
  cs.Finalize();
  return cs.num_constraints() - 3 == cs.num_witness_variables() - 4 ? 0 : 2;
}
''', stubs=True)
seed('C20-lc-insert', 'C20', [(R1 + 'constraint_system/linear_combination.h', '''    *index = left;
    return false;
''', '''    *index = std::min(left, terms_.size() - 1);
    return false;
''')], 'adding a new last variable to a combination of at least six terms', 'the terms are not sorted any more, so later additions miss equal variables', PRE + '''int main() {
  Curve::Init();
  LC lc;
  for (int i = 0; i < 8; ++i) lc += T(i + 1, Variable::Witness(i));
  if (!lc.IsSorted()) return 2;
  lc += T(5, Variable::Witness(7));
  return lc.terms().size() == 8 && lc.terms()[7].coefficient == F(13) ? 0 : 3;
}
''', stubs=True)
