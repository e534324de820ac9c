// FRI folding, two-adic cosets and the two-adic FRI commitment scheme over
// opaque fields, an opaque vector commitment and an opaque challenger.
#define VERIF_PFT_EXT
#include "abstract_prime_field.h"

#include <algorithm>
#include <map>
#include <memory>
#include <utility>
#include <vector>

#include "absl/container/btree_map.h"

#include "verif_map.h"
namespace absl {
template <typename K, typename V>
struct verif_omap {
  using value_type = std::pair<K, V>;
  using iterator = typename std::vector<value_type>::iterator;
  std::vector<value_type> v;
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  auto rbegin() { return v.rbegin(); }
  auto rend() { return v.rend(); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  template <typename... A>
  std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    auto it = v.begin();
    for (; it != v.end(); ++it) {
      if (it->first == k) return {it, false};
      if (it->first > k) break;
    }
    return {v.insert(it, value_type(k, V(std::forward<A>(a)...))), true};
  }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
};
}  // namespace absl
#define flat_hash_map verif_map
#define btree_map verif_omap
#define DotExtPowers DotExtPowersModel
#include "tachyon/math/matrix/matrix_types.h"
namespace tachyon::math {
// sum of base^j times column j; the repository's own is checked separately
template <typename Derived, typename ExtField>
std::vector<ExtField> DotExtPowersModel(const Eigen::MatrixBase<Derived>& mat, const ExtField& base) {
  std::vector<ExtField> r;
  for (Eigen::Index i = 0; i < mat.rows(); ++i) {
    ExtField x = ExtField::Zero();
    for (Eigen::Index j = mat.cols() - 1; j >= 0; --j) x = x * base + ExtField(mat(i, j));
    r.push_back(x);
  }
  return r;
}
}  // namespace tachyon::math
#undef DotExtPowers
#include "tachyon/math/matrix/matrix_utils.h"
#define DotExtPowers DotExtPowersModel
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#undef flat_hash_map
#undef btree_map

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::math;

struct FCfg : PFConfigBase {
  constexpr static size_t kModulusBits = 31;
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = false;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
struct ECfg : PFConfigBase {};
template <>
struct Over<ECfg, FCfg> : std::true_type {};
template <>
struct BaseOf<ECfg> {
  using type = PFT<FCfg>;
};
using F = PFT<FCfg>;
using E = PFT<ECfg>;
}  // namespace verif

namespace tachyon::math {
template <>
struct ExtensionFieldTraits<verif::E> {
  constexpr static uint32_t kDegreeOverBasePrimeField = 2;
  constexpr static uint32_t kDegreeOverBaseField = 2;
  using BaseField = verif::F;
  using BasePrimeField = verif::F;
};
}  // namespace tachyon::math

namespace verif {
static uint64_t* g_ev;      // event log
static uint64_t g_honest;   // whether openings are checked or only logged
static void Ev(uint64_t x) { *g_ev++ = x; }

struct Com {
  uint64_t h = 0;
};
template <typename T>
struct Data {
  std::vector<RowMajorMatrix<T>> leaves;
  std::vector<Eigen::Map<const RowMajorMatrix<T>>> maps;
};
template <typename T>
struct Opening {
  std::vector<RowMajorMatrix<T>> leaves;
};
template <typename T>
uint64_t HashOf(const std::vector<RowMajorMatrix<T>>& l) {
  uint64_t h = F(0).raw();
  for (const auto& m : l) {
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
      std::vector<uint64_t> a{h, F(m.rows()).raw(), F(m.cols()).raw()};
      for (Eigen::Index j = 0; j < m.cols(); ++j) a.push_back(m(i, j).raw());
      vh_fn(7, a.data(), a.size(), &h, 1);
    }
  }
  return h;
}
template <typename T>
class Mmcs;
}  // namespace verif

namespace tachyon::crypto {
template <typename T>
struct MixedMatrixCommitmentSchemeTraits<verif::Mmcs<T>> {
  using Field = T;
  using Commitment = verif::Com;
  using ProverData = verif::Data<T>;
  using Proof = verif::Opening<T>;
};
}  // namespace tachyon::crypto

namespace verif {
template <typename T>
class Mmcs final : public crypto::MixedMatrixCommitmentScheme<Mmcs<T>> {
 public:
  using Field = T;
  using Commitment = Com;
  using ProverData = Data<T>;
  using Proof = Opening<T>;

  bool DoCommitOwned(std::vector<RowMajorMatrix<T>>&& m, Com* c, Data<T>* d) const {
    d->leaves = std::move(m);
    d->maps.clear();
    for (const auto& x : d->leaves) d->maps.emplace_back(x.data(), x.rows(), x.cols());
    c->h = HashOf(d->leaves);
    return true;
  }
  const std::vector<Eigen::Map<const RowMajorMatrix<T>>>& DoGetMatrices(const Data<T>& d) const { return d.maps; }
  bool DoCreateOpeningProof(size_t index, const Data<T>& d, std::vector<std::vector<T>>* rows, Opening<T>* p) const {
    size_t max = this->GetMaxRowSize(d);
    rows->clear();
    for (const auto& m : d.leaves) {
      size_t i = index / (max / m.rows());
      CHECK_LT(i, static_cast<size_t>(m.rows()));
      std::vector<T> r;
      for (Eigen::Index j = 0; j < m.cols(); ++j) r.push_back(m(i, j));
      rows->push_back(std::move(r));
    }
    p->leaves = d.leaves;
    return true;
  }
  bool DoVerifyOpeningProof(const Com& c, absl::Span<const Dimensions> dims, size_t index,
                            absl::Span<const std::vector<T>> values, const Opening<T>& p) const {
    if (!g_honest) {
      Ev(10);
      Ev(c.h);
      Ev(index);
      Ev(dims.size());
      for (const auto& d : dims) Ev(d.height);
      Ev(values.size());
      for (const auto& v : values) {
        Ev(v.size());
        for (const auto& x : v) Ev(x.raw());
      }
      return true;
    }
    if (!af_eq(HashOf(p.leaves), c.h)) return false;
    if (dims.size() != p.leaves.size() || values.size() != p.leaves.size()) return false;
    size_t max = 0;
    for (const auto& m : p.leaves) max = std::max<size_t>(max, m.rows());
    for (size_t k = 0; k < dims.size(); ++k) {
      const auto& m = p.leaves[k];
      if (dims[k].height != static_cast<size_t>(m.rows())) return false;
      if (values[k].size() != static_cast<size_t>(m.cols())) return false;
      size_t i = index / (max / m.rows());
      if (i >= static_cast<size_t>(m.rows())) return false;
      for (size_t j = 0; j < values[k].size(); ++j)
        if (values[k][j] != m(i, j)) return false;
    }
    return true;
  }
};

struct Src {
  const uint64_t* p;
  uint64_t u() { return *p++; }
  F f() { return F::Raw(*p++); }
  E e() { return E::Raw(*p++); }
};

struct Chal {
  Src ext, idx;
  bool pow = true;
  F witness;
  void ObserveContainer(const Com& c) {
    Ev(1);
    Ev(c.h);
  }
  void ObserveContainer(const E& e) {
    Ev(2);
    Ev(e.raw());
  }
  template <typename T>
  T SampleExtElement() {
    Ev(3);
    return ext.e();
  }
  uint32_t SampleBits(uint32_t bits) {
    Ev(4);
    Ev(bits);
    return idx.u();
  }
  F Grind(uint32_t bits, std::optional<F> w = std::nullopt) {
    Ev(5);
    Ev(bits);
    Ev(witness.raw());
    return witness;
  }
  bool CheckWitness(uint32_t bits, const F& w) {
    Ev(5);
    Ev(bits);
    Ev(w.raw());
    return pow;
  }
};

using FRI = crypto::TwoAdicFRI<E, Mmcs<F>, Mmcs<E>, Chal>;
using Coset = crypto::TwoAdicMultiplicativeCoset<F>;
static FRI MakeFRI(uint64_t lb, uint64_t nq, uint64_t pow) {
  crypto::FRIConfig<Mmcs<E>> c;
  c.log_blowup = lb;
  c.num_queries = nq;
  c.proof_of_work_bits = pow;
  c.mmcs = Mmcs<E>();
  return FRI(Mmcs<F>(), std::move(c));
}
}  // namespace verif
using namespace verif;

// in: beta, 2 n values; out: FoldMatrix, then FoldRow of every row
extern "C" void h_fold(const uint64_t* in, uint64_t* r, uint64_t n) {
  E beta = E::Raw(in[0]);
  RowMajorMatrix<E> m(n, 2);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < 2; ++j) m(i, j) = E::Raw(in[1 + 2 * i + j]);
  std::vector<E> v = crypto::FoldMatrix(beta, m);
  *r++ = v.size();
  for (const E& x : v) *r++ = x.raw();
  uint32_t log_n = base::bits::CheckedLog2(n);
  for (size_t i = 0; i < n; ++i) *r++ = crypto::FoldRow(i, log_n, beta, std::vector<E>{m(i, 0), m(i, 1)}).raw();
}

static uint64_t* PutDomain(const Coset& d, uint64_t* r) {
  *r++ = d.domain()->size();
  *r++ = d.domain()->log_size_of_group();
  *r++ = d.domain()->offset().raw();
  *r++ = d.domain()->offset_inv().raw();
  *r++ = d.domain()->group_gen().raw();
  return r;
}
// in: shift, point
extern "C" void h_coset(const uint64_t* in, uint64_t* r, uint64_t log_n, uint64_t min_size, uint64_t chunks) {
  Coset c(log_n, F::Raw(in[0]));
  E x = E::Raw(in[1]);
  r = PutDomain(c, r);
  *r++ = c.GetNextPoint(x).raw();
  *r++ = c.GetZpAtPoint(x).raw();
  r = PutDomain(c.CreateDisjointDomain(min_size), r);
  std::vector<Coset> s = c.SplitDomains(chunks);
  *r++ = s.size();
  for (const Coset& d : s) r = PutDomain(d, r);
  auto sel = c.GetSelectorsAtPoint(x);
  *r++ = sel.first_row.raw();
  *r++ = sel.last_row.raw();
  *r++ = sel.transition.raw();
  *r++ = sel.inv_zeroifier.raw();
}
// in: shift
extern "C" void h_selectors(const uint64_t* in, uint64_t* r, uint64_t log_n, uint64_t log_c) {
  Coset c(log_n, F::One());
  auto sel = c.GetSelectorsOnCoset(Coset(log_c, F::Raw(in[0])));
  for (const auto* v : {&sel.first_row, &sel.last_row, &sel.transition, &sel.inv_zeroifier}) {
    *r++ = v->size();
    for (const F& x : *v) *r++ = x.raw();
  }
}

struct Shape {
  std::vector<std::vector<std::array<uint64_t, 3>>> rounds;  // log_n, cols, points
  std::vector<std::vector<Coset>> domains;
  FRI::OpeningPoints points;
  uint64_t lb, nq, pow;
};
static Shape GetShape(Src& s) {
  Shape h;
  h.lb = s.u();
  h.nq = s.u();
  h.pow = s.u();
  h.rounds.resize(s.u());
  for (auto& r : h.rounds) {
    r.resize(s.u());
    for (auto& m : r)
      for (auto& x : m) x = s.u();
  }
  h.domains.resize(h.rounds.size());
  h.points.resize(h.rounds.size());
  for (size_t r = 0; r < h.rounds.size(); ++r) {
    h.points[r].resize(h.rounds[r].size());
    for (size_t m = 0; m < h.rounds[r].size(); ++m) {
      h.domains[r].emplace_back(h.rounds[r][m][0], s.f());
      for (size_t i = 0; i < h.rounds[r][m][2]; ++i) h.points[r][m].push_back(s.e());
    }
  }
  return h;
}

// shape, the pow witness, the values, number of challenges, challenges, indices
extern "C" void h_open(const uint64_t* in, uint64_t* r) {
  Src s{in};
  Shape h = GetShape(s);
  FRI fri = MakeFRI(h.lb, h.nq, h.pow);
  F witness = s.f();
  std::vector<Com> coms(h.rounds.size());
  std::vector<std::unique_ptr<Data<F>>> data;
  for (size_t k = 0; k < h.rounds.size(); ++k) {
    std::vector<RowMajorMatrix<F>> ms;
    for (const auto& x : h.rounds[k]) {
      RowMajorMatrix<F> m(size_t{1} << x[0], x[1]);
      for (Eigen::Index i = 0; i < m.rows(); ++i)
        for (Eigen::Index j = 0; j < m.cols(); ++j) m(i, j) = s.f();
      ms.push_back(std::move(m));
    }
    data.push_back(std::make_unique<Data<F>>());
    *r++ = fri.Commit(h.domains[k], ms, &coms[k], data.back().get());
    for (const auto& m : data.back()->leaves) {
      *r++ = m.rows();
      *r++ = m.cols();
      for (Eigen::Index i = 0; i < m.rows(); ++i)
        for (Eigen::Index j = 0; j < m.cols(); ++j) *r++ = m(i, j).raw();
    }
  }
  uint64_t nc = s.u();
  Chal c{{s.p}, {s.p + nc}};
  c.witness = witness;
  Chal c2 = c;
  g_honest = 1;
  FRI::OpenedValues vals;
  FRI::FRIProof proof;
  uint64_t* len = r++;
  g_ev = r;
  uint64_t res = fri.CreateOpeningProof(data, h.points, c, &vals, &proof);
  *len = g_ev - r;
  r = g_ev;
  *r++ = res;
  *r++ = vals.size();
  for (const auto& a : vals) {
    *r++ = a.size();
    for (const auto& b : a) {
      *r++ = b.size();
      for (const auto& c : b) {
        *r++ = c.size();
        for (const E& e : c) *r++ = e.raw();
      }
    }
  }
  len = r++;
  g_ev = r;
  res = fri.VerifyOpeningProof(coms, h.domains, h.points, vals, proof, c2);
  *len = g_ev - r;
  r = g_ev;
  *r++ = res;
}

// shape, pow result, witness, commitments, claimed values, number of commit
// phase commitments, those, final value, per query: opened rows, siblings;
// number of challenges, challenges, indices
extern "C" void h_verify(const uint64_t* in, uint64_t* r) {
  Src s{in};
  Shape h = GetShape(s);
  FRI fri = MakeFRI(h.lb, h.nq, h.pow);
  uint64_t pow = s.u();
  FRI::FRIProof proof;
  proof.pow_witness = s.f();
  std::vector<Com> coms;
  for (size_t k = 0; k < h.rounds.size(); ++k) coms.push_back({s.u()});
  FRI::OpenedValues vals(h.rounds.size());
  for (size_t k = 0; k < h.rounds.size(); ++k) {
    vals[k].resize(h.rounds[k].size());
    for (size_t m = 0; m < h.rounds[k].size(); ++m) {
      vals[k][m].resize(h.rounds[k][m][2]);
      for (auto& v : vals[k][m])
        for (size_t j = 0; j < h.rounds[k][m][1]; ++j) v.push_back(s.e());
    }
  }
  uint64_t ncom = s.u();
  for (size_t i = 0; i < ncom; ++i) proof.commit_phase_commits.push_back({s.u()});
  proof.final_eval = s.e();
  uint64_t nq = s.u();
  for (size_t q = 0; q < nq; ++q) {
    crypto::QueryProof<FRI> qp;
    for (size_t k = 0; k < h.rounds.size(); ++k) {
      crypto::BatchOpening<FRI> b;
      for (const auto& x : h.rounds[k]) {
        std::vector<F> row;
        for (size_t j = 0; j < x[1]; ++j) row.push_back(s.f());
        b.opened_values.push_back(std::move(row));
      }
      qp.input_proof.push_back(std::move(b));
    }
    for (size_t i = 0; i < ncom; ++i) {
      crypto::CommitPhaseProofStep<FRI> st;
      st.sibling_value = s.e();
      qp.commit_phase_openings.push_back(std::move(st));
    }
    proof.query_proofs.push_back(std::move(qp));
  }
  uint64_t nc = s.u();
  Chal c{{s.p}, {s.p + nc}};
  c.pow = pow;
  g_honest = 0;
  uint64_t* len = r++;
  g_ev = r;
  uint64_t res = fri.VerifyOpeningProof(coms, h.domains, h.points, vals, proof, c);
  *len = g_ev - r;
  *g_ev++ = res;
}
