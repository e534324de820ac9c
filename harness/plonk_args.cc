// Plonk permutation, lookup and shuffle arguments, over opaque scalars.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#define VERIF_PFT_STR
#include "abstract_prime_field.h"

#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>
#include <utility>
#include <vector>

namespace verif {
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
using F = PFT<Cfg>;
// only in messages
inline std::ostream& operator<<(std::ostream& os, const F::Str&) { return os; }
}  // namespace verif

#include "plonk_oss.h"

#include "verif_map.h"
#include "absl/container/btree_map.h"
#include "absl/types/span.h"
#include "tachyon/zk/plonk/permutation/permutation_utils.h"
namespace tachyon::zk::plonk {
// opaque: the generator of the coset shifts
template <>
constexpr verif::F GetDelta<verif::F>() {
  return verif::F::FromMontgomery(verif::F::Config::kSubgroupGenerator);
}
}  // namespace tachyon::zk::plonk
#define flat_hash_map verif_map
#define btree_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#define ostringstream verif_oss
#include "tachyon/zk/expressions/evaluator.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#undef ostringstream
#define stringstream verif_oss
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#undef stringstream

// The builder of the quotient, reduced to the fields the evaluators read.
#define TACHYON_ZK_PLONK_VANISHING_CIRCUIT_POLYNOMIAL_BUILDER_H_
#include "tachyon/zk/plonk/vanishing/circuit_polynomial_builder_forward.h"
#define private public
#include "tachyon/zk/base/blinded_polynomial.h"
#include "tachyon/zk/base/entities/prover_base.h"
#include "tachyon/zk/lookup/halo2/evaluator.h"
#include "tachyon/zk/lookup/halo2/permute_expression_pair.h"
#include "tachyon/zk/lookup/halo2/prover.h"
#include "tachyon/zk/lookup/halo2/verifier.h"
#include "tachyon/zk/lookup/log_derivative_halo2/evaluator.h"
#include "tachyon/zk/lookup/log_derivative_halo2/prover.h"
#include "tachyon/zk/lookup/log_derivative_halo2/verifier.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_evaluator.h"
#include "tachyon/zk/plonk/permutation/permutation_prover.h"
#include "tachyon/zk/plonk/permutation/permutation_verifier.h"
#include "tachyon/zk/shuffle/evaluator.h"
#include "tachyon/zk/shuffle/prover.h"
#include "tachyon/zk/shuffle/verifier.h"
#undef private
#undef btree_map
#undef flat_hash_map

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"
#include "tachyon/zk/plonk/permutation/cycle_store.cc"
#include "plonk_parse.h"

namespace verif {
using CS = ConstraintSystem<F>;
// a polynomial known by its first evaluation
struct Pol {
  using Field = F;
  using Point = F;
  F id;
  F Evaluate(const F& x) const { return id * x; }
  std::string ToString() const { return {}; }
};
struct Dom {
  using Field = F;
  size_t n;
  size_t size() const { return n; }
  Pol IFFT(const Evals& e) const { return {e[0]}; }
};
struct PCS {
  using Field = F;
  using Domain = verif::Domain;
  using ExtendedDomain = verif::Domain;
  using Evals = verif::Evals;
  using ExtendedEvals = verif::Evals;
  using Poly = Pol;
  using Commitment = F;
  constexpr static bool kSupportsBatchMode = false;
  size_t n;
  size_t N() const { return n; }
  bool Commit(const Pol& p, F* out) const {
    *out = p.id;
    return true;
  }
  bool CommitLagrange(const Evals& e, F* out) const {
    *out = e[0];
    return true;
  }
};
struct Gen final : RandomFieldGeneratorBase<F> {
  F Generate() override { return F::Random(); }
};
static uint64_t* g_out;
struct W final : crypto::TranscriptWriter<F> {
  F SqueezeChallenge() override { return F::Random(); }
  bool WriteToTranscript(const F& v) override { return true; }
  bool DoWriteToProof(const F& v) override {
    *g_out++ = v.raw();
    return true;
  }
};
static void Put(uint64_t*& r, const std::vector<F>& v) {
  for (const F& x : v) *r++ = x.raw();
}
static void Put(uint64_t*& r, const Evals& v) { Put(r, v.evaluations()); }
// columns as (kind, index)
static std::vector<AnyColumnKey> Cols(Src p) {
  std::vector<AnyColumnKey> v;
  size_t n = *p++;
  for (size_t i = 0; i < n; ++i, p += 2) {
    if (p[0] == 0) v.push_back(AnyColumnKey(FixedColumnKey(p[1])));
    if (p[0] == 1) v.push_back(AnyColumnKey(AdviceColumnKey(p[1], Phase(0))));
    if (p[0] == 2) v.push_back(AnyColumnKey(InstanceColumnKey(p[1])));
  }
  return v;
}
struct Tab {
  std::vector<Evals> f, a, i;
  std::vector<F> c;
  explicit Tab(Src p) {
    for (auto* t : {&f, &a, &i}) {
      size_t n = *p++;
      for (size_t k = 0; k < n; ++k) t->push_back(Evals(Vals(p)));
    }
    c = Vals(p);
  }
  MultiPhaseRefTable<Evals> ref() const { return {f, a, i, c}; }
};
static PermutationAssembly Assemble(Src p, size_t rows) {
  PermutationAssembly a(Cols(p), static_cast<RowIndex>(rows));
  const std::vector<AnyColumnKey> c = a.columns();
  size_t n = *p++;
  for (size_t i = 0; i < n; ++i, p += 4) a.Copy(c[p[0]], static_cast<RowIndex>(p[1]), c[p[2]], static_cast<RowIndex>(p[3]));
  return a;
}
// the successor, the representative, the size of the class and the class of every cell
extern "C" void h_cycles(const uint64_t* in, uint64_t* r, uint64_t rows) {
  PermutationAssembly a = Assemble(in, rows);
  const CycleStore& s = a.cycle_store();
  for (size_t c = 0; c < a.columns().size(); ++c)
    for (size_t i = 0; i < rows; ++i) {
      Label l(c, i);
      Label n = s.GetNextLabel(l), b = s.GetCycleBase(l);
      *r++ = n.col;
      *r++ = n.row;
      *r++ = b.col;
      *r++ = b.row;
      *r++ = s.GetCycleSize(l);
      *r++ = s.CheckSameCycle(l, Label(0, 0));
    }
}
static std::unique_ptr<ProverBase<PCS>> MakeProver(Gen* g, size_t n, size_t blind) {
  Blinder<F> b(g, static_cast<RowIndex>(blind));
  auto p = std::make_unique<ProverBase<PCS>>(PCS{n}, std::make_unique<W>(), std::move(b));
  p->set_domain(Domain::Create(n));
  return p;
}
// permutation polynomials, then the grand products of one circuit per table
extern "C" void h_perm_prove(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t blind, uint64_t degree, uint64_t ntab) {
  const uint64_t* in2 = in;
  PermutationAssembly a = Assemble(in, n);
  PermutationArgument arg(Cols(in2));
  Gen g;
  auto prover = MakeProver(&g, n, blind);
  std::vector<Evals> perms = a.GeneratePermutations<Evals>(prover->domain());
  for (const Evals& e : perms) Put(r, e);
  F beta = Next(in), gamma = Next(in);
  std::vector<Tab> tabs;
  for (size_t i = 0; i < ntab; ++i) tabs.emplace_back(in);
  std::vector<MultiPhaseRefTable<Evals>> refs;
  for (const Tab& t : tabs) refs.push_back(t.ref());
  PermutationProvingKey<Pol, Evals, Evals> pk(std::move(perms), std::vector<Pol>(), std::vector<Evals>());
  std::vector<PermutationProver<Pol, Evals>> ps(ntab);
  PermutationProver<Pol, Evals>::BatchCreateGrandProductPolys(ps, prover.get(), arg, refs, degree, pk, beta, gamma);
  for (const auto& p : ps) {
    *r++ = p.grand_product_polys().size();
    for (const auto& z : p.grand_product_polys()) Put(r, z.evals());
  }
}
template <typename O>
static void PutOpenings(uint64_t*& r, const O& l) {
  *r++ = l.size();
  for (const auto& o : l) {
    if constexpr (std::is_same_v<std::decay_t<decltype(*o.poly_oracle)>, Pol>) {
      *r++ = o.poly_oracle->id.raw();
    } else {
      *r++ = o.poly_oracle->raw();
    }
    *r++ = o.point.raw();
    *r++ = o.opening.raw();
  }
}
static void Wrap(std::vector<BlindedPolynomial<Pol, Evals>>& v, const std::vector<F>& ids) {
  for (const F& x : ids) v.emplace_back(Pol{x}, F::Zero());
}
// what the prover writes and opens: ids, points
extern "C" void h_perm_open(const uint64_t* in, uint64_t* r) {
  PermutationProver<Pol, Evals> p;
  Wrap(p.grand_product_polys_, Vals(in));
  std::vector<Pol> sub;
  for (const F& x : Vals(in)) sub.push_back(Pol{x});
  F x = Next(in), xn = Next(in), xl = Next(in);
  PermutationProvingKey<Pol, Evals, Evals> pk(std::vector<Evals>(), std::move(sub), std::vector<Evals>());
  PermutationOpeningPointSet<F> pts(x, xn, xl);
  Gen g;
  auto prover = MakeProver(&g, 4, 1);
  g_out = r + 1;
  PermutationProver<Pol, Evals>::BatchEvaluate({p}, prover.get(), pts);
  PermutationProver<Pol, Evals>::EvaluateProvingKey(prover.get(), pk, pts);
  *r = g_out - r - 1;
  r = g_out;
  std::vector<crypto::PolynomialOpening<Pol>> o;
  p.Open(pts, o);
  PermutationProver<Pol, Evals>::OpenPermutationProvingKey(pk, pts, o);
  PutOpenings(r, o);
}
// a constraint system with columns 0.. of each kind, the equality-enabled ones in order
static void Enable(CS& cs, const std::vector<AnyColumnKey>& cols, uint64_t degree) {
  for (int i = 0; i < 4; ++i) {
    cs.CreateFixedColumn();
    cs.CreateAdviceColumn();
    cs.CreateInstanceColumn();
  }
  for (const AnyColumnKey& c : cols) cs.EnableEquality(c);
  if (degree) cs.set_minimum_degree(degree);
}
using Proof = halo2::Halo2Proof<F, F>;
using LProof = halo2::LogDerivativeHalo2Proof<F, F>;
static void Evs(halo2::ProofBase<F, F>& p, Src in) {
  p.fixed_evals = Vals(in);
  p.advice_evals_vec = {Vals(in)};
  p.instance_evals_vec = {Vals(in)};
  p.challenges = Vals(in);
  p.theta = Next(in);
  p.beta = Next(in);
  p.gamma = Next(in);
  p.x = Next(in);
  p.l_first = Next(in);
  p.l_blind = Next(in);
  p.l_last = Next(in);
}
extern "C" void h_perm_verify(const uint64_t* in, uint64_t* r, uint64_t degree) {
  CS cs;
  Enable(cs, Cols(in), degree);
  Proof p;
  Evs(p, in);
  p.permutation_product_commitments_vec = {Vals(in)};
  p.permutation_product_evals_vec = {Vals(in)};
  p.permutation_product_next_evals_vec = {Vals(in)};
  std::vector<std::optional<F>> last;
  for (const F& x : Vals(in)) last.push_back(x);
  p.permutation_product_last_evals_vec = {last};
  p.common_permutation_evals = Vals(in);
  std::vector<F> sub = Vals(in);
  F x = Next(in), xn = Next(in), xl = Next(in);
  auto d = p.ToPermutationVerifierData(0, sub);
  PermutationVerifier<F, F> v(d);
  LValues<F> l(p.l_first, p.l_blind, p.l_last);
  std::vector<F> e;
  v.Evaluate(cs, p.x, l, e);
  *r++ = e.size();
  Put(r, e);
  PermutationOpeningPointSet<F> pts(x, xn, xl);
  std::vector<crypto::PolynomialOpening<Pol, F>> o;
  v.Open(pts, o);
  v.OpenPermutationProvingKey(x, o);
  PutOpenings(r, o);
}
}  // namespace verif

namespace tachyon::zk::plonk {
// identity transform: the coset values of a polynomial are looked up by its id
template <typename PS>
class CircuitPolynomialBuilder {
 public:
  using F = verif::F;
  using Evals = verif::Evals;
  struct CosetDomain {
    std::vector<Evals> evals;
    Evals FFT(const verif::Pol& p) const { return evals[p.id.raw() - 1000000]; }
  };
  struct Key {
    const verif::CS* cs;
    std::vector<verif::Pol> p;
    const Key& verifying_key() const { return *this; }
    const verif::CS& constraint_system() const { return *cs; }
    const Key& permutation_proving_key() const { return *this; }
    const std::vector<verif::Pol>& polys() const { return p; }
    absl::Span<const Evals> cosets() const { return {}; }
  } proving_key_;
  size_t chunk_len_ = 0;
  MultiPhaseRefTable<Evals> table_;
  Evals l_first_, l_last_, l_active_row_;
  F theta_, beta_, gamma_, y_, delta_, delta_start_, omega_, current_extended_omega_;
  Rotation last_rotation_;
  int32_t n_ = 0;
  CosetDomain cd;
  const CosetDomain* coset_domain_ = &cd;
  const CosetDomain* extended_domain_ = &cd;
  std::vector<PermutationProver<verif::Pol, Evals>> permutation_provers_;
  std::vector<typename PS::LookupProver> lookup_provers_;
  std::vector<shuffle::Prover<verif::Pol, Evals>> shuffle_provers_;
  EvaluationInput<Evals> ExtractEvaluationInput(std::vector<F>&& a, std::vector<int32_t>&& b) {
    return {std::move(a), std::move(b), table_, theta_, beta_, gamma_, y_, n_};
  }
};
}  // namespace tachyon::zk::plonk

namespace verif {
template <typename LP>
struct PST {
  using PCS = verif::PCS;
  using LookupProver = LP;
  constexpr static halo2::Vendor kVendor = halo2::Vendor::kScroll;
};
using PSH = PST<lookup::halo2::Prover<Pol, Evals>>;
using PSL = PST<lookup::log_derivative_halo2::Prover<Pol, Evals>>;
template <typename PS>
struct Bld {
  CircuitPolynomialBuilder<PS> b;
  CS cs;
  size_t n, len, off, size;
  std::vector<F> acc;
  explicit Bld(Tab& t, Src in) {
    n = *in++;
    len = *in++;
    off = *in++;
    size = *in++;
    b.n_ = static_cast<int32_t>(n);
    b.last_rotation_ = Rotation(static_cast<int32_t>(*in++));
    b.table_ = t.ref();
    b.theta_ = Next(in);
    b.beta_ = Next(in);
    b.gamma_ = Next(in);
    b.y_ = Next(in);
    b.delta_ = Next(in);
    b.delta_start_ = Next(in);
    b.omega_ = Next(in);
    b.current_extended_omega_ = Next(in);
    b.l_first_ = Evals(Vals(in));
    b.l_last_ = Evals(Vals(in));
    b.l_active_row_ = Evals(Vals(in));
    size_t k = *in++;
    for (size_t i = 0; i < k; ++i) b.cd.evals.push_back(Evals(Vals(in)));
    acc = Vals(in);
    b.proving_key_.cs = &cs;
  }
  // polynomial i is the i-th list of coset values
  static Pol Id(size_t i) { return Pol{F::Raw(1000000 + i)}; }
  static void Ids(std::vector<BlindedPolynomial<Pol, Evals>>& v, size_t from, size_t n) {
    for (size_t i = 0; i < n; ++i) v.emplace_back(Id(from + i), F::Zero());
  }
  template <typename Ev>
  void Run(Ev& ev, uint64_t* r) {
    ev.UpdateCosets(b, 1);
    ev.Evaluate(b, absl::MakeSpan(acc).subspan(0, len), off, size);
    Put(r, acc);
  }
};
// products, then permutation cosets
extern "C" void h_perm_eval(const uint64_t* in, uint64_t* r, uint64_t degree, uint64_t prods) {
  Tab t(in);
  Bld<PSH> b(t, in);
  std::vector<AnyColumnKey> cols = Cols(in);
  Enable(b.cs, cols, degree);
  b.b.chunk_len_ = b.cs.ComputePermutationChunkLen();
  b.b.permutation_provers_.resize(2);
  b.Ids(b.b.permutation_provers_[1].grand_product_polys_, 0, prods);
  for (size_t i = 0; i < cols.size(); ++i) b.b.proving_key_.p.push_back(b.Id(prods + i));
  PermutationEvaluator<Evals> ev;
  b.Run(ev, r);
}

using LArg = lookup::Argument<F>;
using SArg = shuffle::Argument<F>;
static std::vector<LArg> LArgs(Src in) {
  std::vector<LArg> v;
  size_t n = *in++;
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::vector<U>> ins;
    size_t k = *in++;
    for (size_t j = 0; j < k; ++j) ins.push_back(ParseAll(in));
    v.emplace_back("l", std::move(ins), ParseAll(in));
  }
  return v;
}
static std::vector<SArg> SArgs(Src in) {
  std::vector<SArg> v;
  size_t n = *in++;
  for (size_t i = 0; i < n; ++i) {
    std::vector<U> a = ParseAll(in);
    v.emplace_back("s", std::move(a), ParseAll(in));
  }
  return v;
}
template <typename V, typename Args, typename Pts>
static void Verify(V& v, const Args& args, const Pts& pts, uint64_t* r) {
  std::vector<F> e;
  v.Evaluate(args, e);
  *r++ = e.size();
  Put(r, e);
  std::vector<crypto::PolynomialOpening<Pol, F>> o;
  v.Open(pts, o);
  PutOpenings(r, o);
}
// every list has an entry for a circuit before
template <typename T>
static std::vector<T> Second(T v) {
  std::vector<T> r(2);
  r[1] = std::move(v);
  return r;
}
static void Evs2(halo2::ProofBase<F, F>& p, Src in) {
  Evs(p, in);
  p.advice_evals_vec.insert(p.advice_evals_vec.begin(), std::vector<F>());
  p.instance_evals_vec.insert(p.instance_evals_vec.begin(), std::vector<F>());
}
extern "C" void h_halo2_verify(const uint64_t* in, uint64_t* r) {
  std::vector<LArg> args = LArgs(in);
  Proof p;
  Evs2(p, in);
  std::vector<F> a = Vals(in), b = Vals(in);
  std::vector<lookup::Pair<F>> c;
  for (size_t i = 0; i < a.size(); ++i) c.emplace_back(F(a[i]), F(b[i]));
  p.lookup_permuted_commitments_vec = Second(std::move(c));
  p.lookup_product_commitments_vec = Second(Vals(in));
  p.lookup_product_evals_vec = Second(Vals(in));
  p.lookup_product_next_evals_vec = Second(Vals(in));
  p.lookup_permuted_input_evals_vec = Second(Vals(in));
  p.lookup_permuted_input_prev_evals_vec = Second(Vals(in));
  p.lookup_permuted_table_evals_vec = Second(Vals(in));
  F x = Next(in), xp = Next(in), xn = Next(in);
  LValues<F> l(p.l_first, p.l_blind, p.l_last);
  lookup::halo2::Verifier<F, F> v(p, 1, l);
  Verify(v, args, lookup::halo2::OpeningPointSet<F>(x, xp, xn), r);
}
extern "C" void h_log_verify(const uint64_t* in, uint64_t* r) {
  std::vector<LArg> args = LArgs(in);
  LProof p;
  Evs2(p, in);
  p.lookup_sum_commitments_vec = Second(Vals(in));
  p.lookup_m_poly_commitments_vec = Second(Vals(in));
  p.lookup_sum_evals_vec = Second(Vals(in));
  p.lookup_sum_next_evals_vec = Second(Vals(in));
  p.lookup_m_evals_vec = Second(Vals(in));
  F x = Next(in), xp = Next(in), xn = Next(in);
  LValues<F> l(p.l_first, p.l_blind, p.l_last);
  lookup::log_derivative_halo2::Verifier<F, F> v(p, 1, l);
  Verify(v, args, lookup::halo2::OpeningPointSet<F>(x, xp, xn), r);
}
extern "C" void h_shuf_verify(const uint64_t* in, uint64_t* r) {
  std::vector<SArg> args = SArgs(in);
  Proof p;
  Evs2(p, in);
  p.shuffle_product_commitments_vec = Second(Vals(in));
  p.shuffle_product_evals_vec = Second(Vals(in));
  p.shuffle_product_next_evals_vec = Second(Vals(in));
  F x = Next(in), xn = Next(in);
  LValues<F> l(p.l_first, p.l_blind, p.l_last);
  auto d = p.ToShuffleVerifierData(1);
  shuffle::Verifier<F, F> v(d, l);
  Verify(v, args, shuffle::OpeningPointSet<F>(x, xn), r);
}
// coset values: products, inputs, tables
extern "C" void h_halo2_eval(const uint64_t* in, uint64_t* r) {
  std::vector<LArg> args = LArgs(in);
  Tab t(in);
  Bld<PSH> b(t, in);
  b.b.lookup_provers_.resize(2);
  size_t n = args.size();
  b.Ids(b.b.lookup_provers_[1].grand_product_polys_, 0, n);
  for (size_t i = 0; i < n; ++i) b.b.lookup_provers_[1].permuted_pairs_.push_back({{b.Id(n + i), F::Zero()}, {b.Id(2 * n + i), F::Zero()}});
  lookup::halo2::Evaluator<Evals> ev;
  ev.Construct(args);
  b.Run(ev, r);
}
extern "C" void h_log_eval(const uint64_t* in, uint64_t* r) {
  std::vector<LArg> args = LArgs(in);
  Tab t(in);
  Bld<PSL> b(t, in);
  b.b.lookup_provers_.resize(2);
  size_t n = args.size();
  b.Ids(b.b.lookup_provers_[1].grand_sum_polys_, 0, n);
  b.Ids(b.b.lookup_provers_[1].m_polys_, n, n);
  lookup::log_derivative_halo2::Evaluator<Evals> ev;
  ev.Construct(args);
  b.Run(ev, r);
}
extern "C" void h_shuf_eval(const uint64_t* in, uint64_t* r) {
  std::vector<SArg> args = SArgs(in);
  Tab t(in);
  Bld<PSH> b(t, in);
  b.b.shuffle_provers_.resize(2);
  b.Ids(b.b.shuffle_provers_[1].grand_product_polys_, 0, args.size());
  shuffle::Evaluator<Evals> ev;
  ev.Construct(args);
  b.Run(ev, r);
}
template <typename P, typename Pts>
static void Open(P& p, const Pts& pts, uint64_t* r) {
  Gen g;
  auto prover = MakeProver(&g, 4, 1);
  g_out = r + 1;
  p.Evaluate(prover.get(), pts);
  *r = g_out - r - 1;
  r = g_out;
  std::vector<crypto::PolynomialOpening<Pol>> o;
  p.Open(pts, o);
  PutOpenings(r, o);
}
extern "C" void h_halo2_open(const uint64_t* in, uint64_t* r) {
  lookup::halo2::Prover<Pol, Evals> p;
  Wrap(p.grand_product_polys_, Vals(in));
  std::vector<F> a = Vals(in), b = Vals(in);
  for (size_t i = 0; i < a.size(); ++i) p.permuted_pairs_.push_back({{Pol{a[i]}, F::Zero()}, {Pol{b[i]}, F::Zero()}});
  F x = Next(in), xp = Next(in), xn = Next(in);
  Open(p, lookup::halo2::OpeningPointSet<F>(x, xp, xn), r);
}
extern "C" void h_log_open(const uint64_t* in, uint64_t* r) {
  lookup::log_derivative_halo2::Prover<Pol, Evals> p;
  Wrap(p.grand_sum_polys_, Vals(in));
  Wrap(p.m_polys_, Vals(in));
  F x = Next(in), xp = Next(in), xn = Next(in);
  Open(p, lookup::halo2::OpeningPointSet<F>(x, xp, xn), r);
}
extern "C" void h_shuf_open(const uint64_t* in, uint64_t* r) {
  shuffle::Prover<Pol, Evals> p;
  Wrap(p.grand_product_polys_, Vals(in));
  F x = Next(in), xn = Next(in);
  Open(p, shuffle::OpeningPointSet<F>(x, xn), r);
}
template <typename P>
static void Compress(std::vector<P>& ps, const std::vector<Tab>& tabs, const Domain* d, const std::vector<typename std::conditional<std::is_same_v<P, shuffle::Prover<Pol, Evals>>, SArg, LArg>::type>& args, const F& theta) {
  std::vector<MultiPhaseRefTable<Evals>> refs;
  for (const Tab& t : tabs) refs.push_back(t.ref());
  P::BatchCompressPairs(ps, d, args, theta, refs);
}
static std::vector<Tab> Tabs(Src in) {
  std::vector<Tab> v;
  size_t n = *in++;
  for (size_t i = 0; i < n; ++i) v.emplace_back(in);
  return v;
}
// permuted pairs and products of every circuit and argument
extern "C" void h_halo2_prove(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t blind, uint64_t prods) {
  std::vector<LArg> args = LArgs(in);
  std::vector<Tab> tabs = Tabs(in);
  F theta = Next(in), beta = Next(in), gamma = Next(in);
  Gen g;
  auto prover = MakeProver(&g, n, blind);
  std::vector<lookup::halo2::Prover<Pol, Evals>> ps(tabs.size());
  Compress(ps, tabs, prover->domain(), args, theta);
  for (auto& p : ps)
    for (auto& c : p.compressed_pairs_) {
      Put(r, c.input());
      Put(r, c.table());
    }
  lookup::halo2::Prover<Pol, Evals>::BatchPermutePairs(ps, prover.get());
  if (prods) lookup::halo2::Prover<Pol, Evals>::BatchCreateGrandProductPolys(ps, prover.get(), beta, gamma);
  for (auto& p : ps) {
    for (auto& c : p.permuted_pairs_) {
      Put(r, c.input().evals());
      Put(r, c.table().evals());
    }
    for (auto& z : p.grand_product_polys_) Put(r, z.evals());
  }
}
extern "C" void h_log_prove(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t blind) {
  std::vector<LArg> args = LArgs(in);
  std::vector<Tab> tabs = Tabs(in);
  F theta = Next(in), beta = Next(in);
  Gen g;
  auto prover = MakeProver(&g, n, blind);
  using P = lookup::log_derivative_halo2::Prover<Pol, Evals>;
  std::vector<P> ps(tabs.size());
  Compress(ps, tabs, prover->domain(), args, theta);
  P::BatchComputeMPolys(ps, prover.get());
  P::BatchCreateGrandSumPolys(ps, prover.get(), beta);
  for (auto& p : ps)
    for (size_t i = 0; i < args.size(); ++i) {
      for (auto& c : p.compressed_inputs_vec_[i]) Put(r, c);
      Put(r, p.compressed_tables_[i]);
      Put(r, p.m_polys_[i].evals());
      Put(r, p.grand_sum_polys_[i].evals());
    }
}
// the multiplicities are given, the values are not known
extern "C" void h_log_sum(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t blind) {
  std::vector<LArg> args = LArgs(in);
  std::vector<Tab> tabs = Tabs(in);
  F theta = Next(in), beta = Next(in);
  Gen g;
  auto prover = MakeProver(&g, n, blind);
  using P = lookup::log_derivative_halo2::Prover<Pol, Evals>;
  std::vector<P> ps(tabs.size());
  Compress(ps, tabs, prover->domain(), args, theta);
  for (auto& p : ps)
    for (size_t i = 0; i < args.size(); ++i) p.m_polys_.emplace_back(Evals(Vals(in)), F::Zero());
  P::BatchCreateGrandSumPolys(ps, prover.get(), beta);
  for (auto& p : ps)
    for (size_t i = 0; i < args.size(); ++i) {
      for (auto& c : p.compressed_inputs_vec_[i]) Put(r, c);
      Put(r, p.compressed_tables_[i]);
      Put(r, p.grand_sum_polys_[i].evals());
    }
}
extern "C" void h_shuf_prove(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t blind) {
  std::vector<SArg> args = SArgs(in);
  std::vector<Tab> tabs = Tabs(in);
  F theta = Next(in), gamma = Next(in);
  Gen g;
  auto prover = MakeProver(&g, n, blind);
  using P = shuffle::Prover<Pol, Evals>;
  std::vector<P> ps(tabs.size());
  Compress(ps, tabs, prover->domain(), args, theta);
  for (auto& p : ps)
    for (auto& c : p.compressed_pairs_) {
      Put(r, c.input());
      Put(r, c.shuffle());
    }
  P::BatchCreateGrandProductPolys(ps, prover.get(), gamma);
  for (auto& p : ps)
    for (auto& z : p.grand_product_polys_) Put(r, z.evals());
}
}  // namespace verif
