// R1CS constraint systems, quadratic arithmetic programs and Groth16 over
// opaque scalars and group elements that stand for their logarithms.
#include "abstract_prime_field.h"

#include <algorithm>
#include <memory>
#include <utility>
#include <vector>

#include "verif_map.h"
#include "verif_oset.h"
namespace verif {
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
using F = PFT<Cfg>;
}  // namespace verif
#define VERIF_F verif::F
#include "group_model.h"

#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#undef flat_hash_map
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
namespace tachyon::math {
// the multiples of the base (the repository's own are checked in C13)
template <int I>
class FixedBaseMSM<AffinePoint<verif::GCurve<I>>> {
 public:
  void Reset(size_t, const AffinePoint<verif::GCurve<I>>& g) { g_ = g.e; }
  template <typename S>
  JacobianPoint<verif::GCurve<I>> ScalarMul(const S& s) const { return JacobianPoint<verif::GCurve<I>>(g_ * s); }
  template <typename S, typename O>
  [[nodiscard]] bool Run(S s, S se, O o, O oe) {
    if (se - s != oe - o) return false;
    for (; s != se; ++s, ++o) *o = ScalarMul(*s);
    return true;
  }
  template <typename S, typename O>
  [[nodiscard]] bool Run(const S& s, O* o) {
    return Run(std::begin(s), std::end(s), std::begin(*o), std::end(*o));
  }
  template <typename S, typename O>
  [[nodiscard]] bool RunSerial(const S& s, O* o) {
    return Run(s, o);
  }

 private:
  VERIF_F g_;
};
}  // namespace tachyon::math
#define btree_map verif_omap
#define btree_set verif_oset
#define flat_hash_map verif_map
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/proving_key.h"
#include "tachyon/zk/r1cs/groth16/prepared_verifying_key.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
#undef btree_map
#undef btree_set
#undef flat_hash_map

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::r1cs;
constexpr size_t kMaxDegree = 15;
using Domain = math::UnivariateEvaluationDomain<F, kMaxDegree>;
using A1 = math::AffinePoint<G1>;
using A2 = math::AffinePoint<G2>;
using QAP = QuadraticArithmeticProgram<F>;
using LC = LinearCombination<F>;
static F Next(const uint64_t*& p) { return F::Raw(*p++); }

static Variable Var(uint64_t kind, uint64_t i) {
  switch (kind) {
    case 0:
      return Variable::Zero();
    case 1:
      return Variable::One();
    case 2:
      return Variable::Instance(i);
    case 3:
      return Variable::Witness(i);
    default:
      return Variable::SymbolicLinearCombination(i);
  }
}

static LC GetLC(const uint64_t*& p) {
  LC lc;
  size_t n = *p++;
  for (size_t i = 0; i < n; ++i, p += 3) lc.AppendTerm(Term<F>(F::Raw(p[2]), Var(p[0], p[1])));
  return lc;
}
// instance values, witness values, linear combinations, constraints
struct C final : Circuit<F> {
  const uint64_t* p;
  size_t inst, wit, lcs, cons;
  C(const uint64_t* p, size_t i, size_t w, size_t l, size_t c) : p(p), inst(i), wit(w), lcs(l), cons(c) {}
  void Synthesize(ConstraintSystem<F>& cs) const override {
    const uint64_t* q = p;
    for (size_t i = 0; i < inst; ++i, ++q) (void)cs.CreateInstanceVariable([q]() { return F::Raw(*q); });
    for (size_t i = 0; i < wit; ++i, ++q) (void)cs.CreateWitnessVariable([q]() { return F::Raw(*q); });
    for (size_t i = 0; i < lcs; ++i) {
      LC l = GetLC(q);
      if (i & 1) {
        (void)cs.CreateLinearCombination(l);
      } else {
        (void)cs.CreateLinearCombination(std::move(l));
      }
    }
    for (size_t i = 0; i < cons; ++i) {
      LC a = GetLC(q);
      LC b = GetLC(q);
      LC c = GetLC(q);
      if (i & 1) {
        cs.EnforceConstraint(a, b, c);
      } else {
        cs.EnforceConstraint(std::move(a), std::move(b), std::move(c));
      }
    }
  }
};
static void PutM(uint64_t*& r, const zk::r1cs::Matrix<F>& m, size_t rows) {
  for (size_t i = 0; i < rows; ++i) {
    const std::vector<Cell<F>>& row = m[i];
    *r++ = row.size();
    for (const Cell<F>& c : row) {
      *r++ = c.index;
      *r++ = c.coefficient.raw();
    }
  }
}
template <typename V>
static void Put(uint64_t*& r, const V& v) {
  *r++ = v.size();
  for (const auto& x : v) *r++ = x.raw();
}
template <typename V>
static void PutP(uint64_t*& r, const V& v) {
  *r++ = v.size();
  for (const auto& x : v) *r++ = x.e.raw();
}
// mode: 0 setup, 1 prove with matrices, 2 prove without
extern "C" void h_cs(const uint64_t* in, uint64_t* r, uint64_t mode, uint64_t weight, uint64_t inst, uint64_t wit, uint64_t lcs, uint64_t cons, uint64_t times) {
  ConstraintSystem<F> cs;
  cs.set_optimization_goal(weight ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints);
  cs.set_mode(mode == 0 ? SynthesisMode::Setup() : SynthesisMode::Prove(mode == 1));
  C(in, inst, wit, lcs, cons).Synthesize(cs);
  *r++ = cs.IsSatisfied();
  if (mode)
    for (size_t i = 0; i < lcs; ++i) *r++ = cs.GetAssignedValue(Variable::SymbolicLinearCombination(i)).raw();
  for (size_t i = 0; i < times; ++i) cs.Finalize();
  *r++ = cs.IsSatisfied();
  *r++ = cs.num_instance_variables();
  *r++ = cs.num_witness_variables();
  *r++ = cs.num_constraints();
  Put(r, cs.instance_assignments());
  Put(r, cs.witness_assignments());
  std::optional<ConstraintMatrices<F>> m = cs.ToMatrices();
  *r++ = m.has_value();
  if (!m.has_value()) return;
  *r++ = m->num_instance_variables;
  *r++ = m->num_witness_variables;
  *r++ = m->num_constraints;
  *r++ = m->a_num_non_zero;
  *r++ = m->b_num_non_zero;
  *r++ = m->c_num_non_zero;
  PutM(r, m->a, cs.num_constraints());
  PutM(r, m->b, cs.num_constraints());
  PutM(r, m->c, cs.num_constraints());
}
static void PutL(uint64_t*& r, const LC& l) {
  *r++ = l.terms().size();
  for (const Term<F>& t : l.terms()) {
    *r++ = static_cast<uint64_t>(t.variable.type());
    *r++ = t.variable.index();
    *r++ = t.coefficient.raw();
  }
}
extern "C" void h_lc(const uint64_t* in, uint64_t* r, uint64_t op) {
  LC a = GetLC(in);
  LC b = GetLC(in);
  F s = Next(in);
  LC c;
  switch (op) {
    case 0:
      c = a + b;
      break;
    case 1:
      c = a - b;
      break;
    case 2:
      c = a;
      c += b;
      break;
    case 3:
      c = a;
      c -= b;
      break;
    case 4:
      c = -a;
      break;
    case 5:
      c = a * s;
      break;
    case 6:
      c = a;
      c *= s;
      break;
    case 7:
      c = a;
      c.Deduplicate();
      break;
    case 8:
      c = LC::CreateDeduplicated(a.terms());
      break;
    case 9:
      c = a;
      for (const Term<F>& t : b.terms()) c += t;
      break;
    case 10:
      c = a;
      for (const Term<F>& t : b.terms()) c = c - t;
      break;
    case 11:
      c = a;
      for (const Term<F>& t : b.terms()) c -= t;
      break;
    case 12:
      c = a;
      c.AppendTerms(b.terms());
      break;
    case 13:
      c = a;
      c.NegateInPlace();
      break;
    case 14:
      c = a;
      for (const Term<F>& t : b.terms()) c = c + t.variable;
      break;
    case 15:
      c = a;
      for (const Term<F>& t : b.terms()) c -= t.variable;
      break;
  }
  *r++ = a.IsSorted();
  PutL(r, c);
}
// x, delta inverse; circuit
extern "C" void h_qap(const uint64_t* in, uint64_t* r, uint64_t inst, uint64_t wit, uint64_t lcs, uint64_t cons) {
  F x = Next(in);
  F di = Next(in);
  C circuit(in, inst, wit, lcs, cons);
  ConstraintSystem<F> cs;
  circuit.Synthesize(cs);
  cs.Finalize();
  std::unique_ptr<Domain> d = Domain::Create(cs.num_constraints() + cs.num_instance_variables());
  *r++ = d->size();
  {
    QAPInstanceMapResult<F> m = QAP::InstanceMap(d.get(), cs, x);
    Put(r, m.a);
    Put(r, m.b);
    Put(r, m.c);
    *r++ = m.t_x.raw();
    *r++ = m.num_constraints;
    *r++ = m.num_instance_variables;
    *r++ = m.num_witness_variables;
    *r++ = m.num_qap_variables;
    Put(r, QAP::ComputeHQuery(d.get(), m.t_x, x, di));
  }
  QAPWitnessMapResult<F> w = QAP::WitnessMap(d.get(), cs);
  Put(r, w.h);
  Put(r, w.full_assignments);
}
using PK = groth16::ProvingKey<PairingModel>;
using VK = groth16::VerifyingKey<PairingModel>;
static void PutV(uint64_t*& r, const VK& v) {
  *r++ = v.alpha_g1().e.raw();
  *r++ = v.beta_g2().e.raw();
  *r++ = v.gamma_g2().e.raw();
  *r++ = v.delta_g2().e.raw();
  PutP(r, v.l_g1_query());
}
// alpha, beta, gamma, delta, g1, g2; circuit (secret x is drawn)
extern "C" void h_keys(const uint64_t* in, uint64_t* r, uint64_t what, uint64_t inst, uint64_t wit, uint64_t lcs, uint64_t cons) {
  groth16::ToxicWaste<PairingModel> tw(F::Raw(in[0]), F::Raw(in[1]), F::Raw(in[2]), F::Raw(in[3]), F::Zero(), A1(F::Raw(in[4])), A2(F::Raw(in[5])));
  C circuit(in + 6, inst, wit, lcs, cons);
  if (what == 0) {
    VK vk;
    *r++ = vk.Load<kMaxDegree, QAP>(tw, circuit);
    *r++ = tw.x().raw();
    PutV(r, vk);
    return;
  }
  PK pk;
  *r++ = pk.Load<kMaxDegree, QAP>(tw, circuit);
  *r++ = tw.x().raw();
  PutV(r, pk.verifying_key());
  *r++ = pk.beta_g1().e.raw();
  *r++ = pk.delta_g1().e.raw();
  PutP(r, pk.a_g1_query());
  PutP(r, pk.b_g1_query());
  PutP(r, pk.b_g2_query());
  PutP(r, pk.h_g1_query());
  PutP(r, pk.l_g1_query());
}
static void PutProof(uint64_t*& r, const groth16::Proof<PairingModel>& p) {
  *r++ = p.a().e.raw();
  *r++ = p.b().e.raw();
  *r++ = p.c().e.raw();
}
// as h_keys after r, s: makes a proof
extern "C" void h_prove(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t inst, uint64_t wit, uint64_t lcs, uint64_t cons) {
  F rr = Next(in);
  F ss = Next(in);
  groth16::ToxicWaste<PairingModel> tw(F::Raw(in[0]), F::Raw(in[1]), F::Raw(in[2]), F::Raw(in[3]), F::Zero(), A1(F::Raw(in[4])), A2(F::Raw(in[5])));
  C circuit(in + 6, inst, wit, lcs, cons);
  PK pk;
  *r++ = pk.Load<kMaxDegree, QAP>(tw, circuit);
  *r++ = tw.x().raw();
  groth16::Proof<PairingModel> p;
  if (how == 0) {
    p = groth16::CreateProofWithReduction<kMaxDegree, QAP>(circuit, pk, rr, ss);
  } else if (how == 1) {
    p = groth16::CreateProofWithReductionZK<kMaxDegree, QAP>(circuit, pk);
  } else {
    p = groth16::CreateProofWithReductionNoZK<kMaxDegree, QAP>(circuit, pk);
  }
  PutProof(r, p);
  std::vector<F> pub;
  for (size_t i = 0; i < inst; ++i) pub.push_back(F::Raw(in[6 + i]));
  groth16::PreparedVerifyingKey<PairingModel> pvk = pk.verifying_key().ToPreparedVerifyingKey();
  *r++ = groth16::VerifyProof(pvk, p, pub);
}
// alpha, beta, gamma, delta, proof, number of l, l, inputs
static VK GetV(const uint64_t*& in, size_t n) {
  F v[4];
  for (F& x : v) x = Next(in);
  std::vector<A1> l;
  for (size_t i = 0; i < n; ++i) l.push_back(A1(Next(in)));
  return VK(A1(v[0]), A2(v[1]), A2(v[2]), A2(v[3]), std::move(l));
}
extern "C" void h_gverify(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t n, uint64_t k) {
  VK vk = GetV(in, n);
  groth16::Proof<PairingModel> p(A1(F::Raw(in[0])), A2(F::Raw(in[1])), A1(F::Raw(in[2])));
  in += 3;
  std::vector<F> pub;
  for (size_t i = 0; i < k; ++i) pub.push_back(Next(in));
  if (how == 0) {
    *r++ = groth16::VerifyProof(vk.ToPreparedVerifyingKey(), p, pub);
  } else {
    *r++ = groth16::VerifyProof(std::move(vk).ToPreparedVerifyingKey(), p, pub);
  }
}
extern "C" void h_rerandomize(const uint64_t* in, uint64_t* r) {
  VK vk = GetV(in, 0);
  groth16::Proof<PairingModel> p(A1(F::Raw(in[0])), A2(F::Raw(in[1])), A1(F::Raw(in[2])));
  PutProof(r, groth16::ReRandomizeProof(vk, p));
}
}  // namespace verif
