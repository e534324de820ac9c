// KZG, GWC, SHPlonk and Pedersen over opaque scalars and group elements that
// stand for their logarithms, with opaque challenges.
#include "abstract_prime_field.h"

#include <algorithm>
#include <memory>
#include <utility>
#include <vector>

#include "absl/container/btree_set.h"
#include "verif_map.h"
#include "verif_oset.h"
namespace verif {
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
using F = PFT<Cfg>;
}  // namespace verif
#define VERIF_F verif::F
#include "group_model.h"

#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#undef flat_hash_map
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#define btree_set verif_oset
#define btree_map verif_omap
#define flat_hash_map verif_map
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#undef btree_set
#undef btree_map
#undef flat_hash_map
#include "tachyon/crypto/commitments/pedersen/pedersen.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::crypto;
constexpr size_t kMaxDegree = 7;
using A1 = math::AffinePoint<G1>;
using A2 = math::AffinePoint<G2>;
using X1 = math::PointXYZZ<G1>;
using J1 = math::JacobianPoint<G1>;

static uint64_t* g_ev;
static const uint64_t* g_in;
static const uint64_t* g_ch;
static uint64_t g_left;
static void Ev(uint64_t x) { *g_ev++ = x; }
struct W final : TranscriptWriter<A1> {
  F SqueezeChallenge() override {
    Ev(1);
    return F::Raw(*g_ch++);
  }
  bool WriteToTranscript(const A1& v) override {
    Ev(2);
    Ev(v.e.raw());
    return true;
  }
  bool WriteToTranscript(const F& v) override {
    Ev(4);
    return true;
  }
  bool DoWriteToProof(const A1& v) override {
    Ev(3);
    Ev(v.e.raw());
    return g_left-- != 0;
  }
  bool DoWriteToProof(const F& v) override {
    Ev(5);
    return true;
  }
};
struct R final : TranscriptReader<A1> {
  F SqueezeChallenge() override {
    Ev(1);
    return F::Raw(*g_ch++);
  }
  bool WriteToTranscript(const A1& v) override {
    Ev(2);
    Ev(v.e.raw());
    return true;
  }
  bool WriteToTranscript(const F& v) override {
    Ev(4);
    return true;
  }
  bool DoReadFromProof(A1* v) const override {
    if (!g_left) return false;
    --g_left;
    *v = A1(F::Raw(*g_in++));
    return true;
  }
  bool DoReadFromProof(F* v) const override {
    Ev(5);
    return false;
  }
};
static F Next(const uint64_t*& p) { return F::Raw(*p++); }

template <typename PCS>
static typename PCS::Poly GetPoly(const uint64_t*& in) {
  size_t n = *in++;
  std::vector<F> c;
  for (size_t i = 0; i < n; ++i) c.push_back(Next(in));
  return typename PCS::Poly(math::UnivariateDenseCoefficients<F, kMaxDegree>(std::move(c), true));
}

// in: tau; polynomials (count, coefficients)*; points; openings (poly, point, value)*; challenges
template <typename PCS>
static void Open(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t polys, uint64_t points, uint64_t opens, uint64_t left) {
  F tau = Next(in);
  PCS pcs;
  if (!pcs.UnsafeSetup(n, tau)) return;
  std::vector<typename PCS::Poly> ps;
  for (size_t i = 0; i < polys; ++i) ps.push_back(GetPoly<PCS>(in));
  std::vector<F> xs;
  for (size_t i = 0; i < points; ++i) xs.push_back(Next(in));
  std::vector<PolynomialOpening<typename PCS::Poly>> os;
  for (size_t i = 0; i < opens; ++i, in += 3)
    os.emplace_back(base::Ref<const typename PCS::Poly>(&ps[in[0]]), xs[in[1]], F::Raw(in[2]));
  g_ch = in;
  g_left = left;
  uint64_t* k = r++;
  g_ev = r;
  W w;
  uint64_t ok = pcs.CreateOpeningProof(os, &w);
  *k = g_ev - r;
  *g_ev++ = ok;
  *g_ev++ = pcs.GetBatchMode();
}

// in: tau; commitments; points; openings (commitment, point, value)*; challenges; proof
template <typename PCS>
static void Verify(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t commits, uint64_t points, uint64_t opens, uint64_t ch, uint64_t left) {
  F tau = Next(in);
  PCS pcs;
  if (how == 0) {
    if (!pcs.UnsafeSetup(2, tau)) return;
  } else {
    pcs = PCS(KZG<A1, kMaxDegree, A1>(std::vector<A1>{A1(F::One()), A1(tau)}, std::vector<A1>(2)), A2(tau));
  }
  std::vector<A1> cs;
  for (size_t i = 0; i < commits; ++i) cs.push_back(A1(Next(in)));
  std::vector<F> xs;
  for (size_t i = 0; i < points; ++i) xs.push_back(Next(in));
  std::vector<PolynomialOpening<typename PCS::Poly, A1>> os;
  for (size_t i = 0; i < opens; ++i, in += 3)
    os.emplace_back(base::Ref<const A1>(&cs[in[0]]), xs[in[1]], F::Raw(in[2]));
  g_ch = in;
  g_in = in + ch;
  g_left = left;
  uint64_t* k = r++;
  g_ev = r;
  R rd;
  uint64_t ok = pcs.VerifyOpeningProof(os, &rd);
  *k = g_ev - r;
  *g_ev++ = ok;
}
using GWCM = GWC<PairingModel, kMaxDegree, A1>;
using SHPM = SHPlonk<PairingModel, kMaxDegree, A1>;

// in: tau, values (vectors of |len| each)
template <typename C>
static void Kzg(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t down, uint64_t len, uint64_t batch) {
  F tau = Next(in);
  KZG<A1, kMaxDegree, C> kzg;
  *r++ = kzg.UnsafeSetup(n, tau);
  if (down) *r++ = kzg.Downsize(down);
  *r++ = kzg.N();
  *r++ = kzg.g1_powers_of_tau_lagrange().size();
  for (const A1& p : kzg.g1_powers_of_tau()) *r++ = p.e.raw();
  for (const A1& p : kzg.g1_powers_of_tau_lagrange()) *r++ = p.e.raw();
  std::vector<std::vector<F>> v;
  for (size_t i = 0; i < (batch ? batch : 1); ++i) {
    v.emplace_back();
    for (size_t j = 0; j < len; ++j) v.back().push_back(Next(in));
  }
  if (!batch) {
    C c(F(77)), d(F(77));
    *r++ = kzg.Commit(v[0], &c);
    *r++ = c.e.raw();
    *r++ = kzg.CommitLagrange(v[0], &d);
    *r++ = d.e.raw();
  } else {
    for (int lag = 0; lag < 2; ++lag) {
      BatchCommitmentState st(true, batch);
      kzg.ResizeBatchCommitments(batch);
      // out of order
      for (size_t i = batch; i-- > 0;) *r++ = lag ? kzg.CommitLagrange(v[i], st, i) : kzg.Commit(v[i], st, i);
      std::vector<C> c = kzg.GetBatchCommitments(st);
      *r++ = c.size();
      for (const C& x : c) *r++ = x.e.raw();
      *r++ = st.batch_mode;
      *r++ = st.batch_count;
    }
  }
}

// the scheme's own interface: polynomials and evaluations, alone and in a batch
template <typename PCS>
static void Scheme(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t len, uint64_t batch) {
  F tau = Next(in);
  PCS pcs;
  *r++ = pcs.UnsafeSetup(n, tau);
  *r++ = pcs.N();
  *r++ = pcs.K();
  *r++ = pcs.D();
  *r++ = pcs.s_g2().e.raw();
  std::vector<std::vector<F>> v;
  for (size_t i = 0; i < batch; ++i) {
    v.emplace_back();
    for (size_t j = 0; j < len; ++j) v.back().push_back(Next(in));
  }
  auto poly = [&](size_t i) {
    return typename PCS::Poly(math::UnivariateDenseCoefficients<F, kMaxDegree>(std::vector<F>(v[i]), true));
  };
  auto evals = [&](size_t i) { return typename PCS::Evals(std::vector<F>(v[i])); };
  A1 c(F(77)), d(F(77)), e(F(77));
  *r++ = pcs.Commit(poly(0), &c);
  *r++ = c.e.raw();
  *r++ = pcs.CommitLagrange(evals(0), &d);
  *r++ = d.e.raw();
  for (int lag = 0; lag < 2; ++lag) {
    pcs.SetBatchMode(batch);
    *r++ = pcs.GetBatchMode();
    for (size_t i = 0; i < batch; ++i) *r++ = lag ? pcs.CommitLagrange(evals(i), i) : pcs.Commit(poly(i), i);
    std::vector<A1> c = pcs.GetBatchCommitments();
    *r++ = c.size();
    for (const A1& x : c) *r++ = x.e.raw();
    *r++ = pcs.GetBatchMode();
  }
}

// in: h, generators, blinding factors and values per vector
template <typename C>
static void Ped(const uint64_t* in, uint64_t* r, uint64_t n, uint64_t len, uint64_t batch) {
  A1 h(Next(in));
  std::vector<A1> g;
  for (size_t i = 0; i < n; ++i) g.push_back(A1(Next(in)));
  Pedersen<A1, kMaxDegree, C> ped(h, g);
  std::vector<std::vector<F>> v;
  std::vector<F> b;
  for (size_t i = 0; i < (batch ? batch : 1); ++i) {
    b.push_back(Next(in));
    v.emplace_back();
    for (size_t j = 0; j < len; ++j) v.back().push_back(Next(in));
  }
  if (!batch) {
    C c(F(77));
    *r++ = ped.Commit(v[0], b[0], &c);
    *r++ = c.e.raw();
  } else {
    ped.SetBatchMode(batch);
    for (size_t i = batch; i-- > 0;) *r++ = ped.Commit(v[i], b[i], i);
    std::vector<C> c = ped.GetBatchCommitments();
    *r++ = c.size();
    for (const C& x : c) *r++ = x.e.raw();
    *r++ = ped.GetBatchMode();
  }
}
}  // namespace verif
using namespace verif;

extern "C" void h_open(const uint64_t* in, uint64_t* r, uint64_t which, uint64_t n, uint64_t polys, uint64_t points, uint64_t opens, uint64_t left) {
  which ? Open<SHPM>(in, r, n, polys, points, opens, left) : Open<GWCM>(in, r, n, polys, points, opens, left);
}
extern "C" void h_verify(const uint64_t* in, uint64_t* r, uint64_t which, uint64_t how, uint64_t commits, uint64_t points, uint64_t opens, uint64_t ch, uint64_t left) {
  which ? Verify<SHPM>(in, r, how, commits, points, opens, ch, left) : Verify<GWCM>(in, r, how, commits, points, opens, ch, left);
}
extern "C" void h_kzg(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t n, uint64_t down, uint64_t len, uint64_t batch) {
  how == 0 ? Kzg<X1>(in, r, n, down, len, batch) : how == 1 ? Kzg<A1>(in, r, n, down, len, batch) : Kzg<J1>(in, r, n, down, len, batch);
}
extern "C" void h_scheme(const uint64_t* in, uint64_t* r, uint64_t which, uint64_t n, uint64_t len, uint64_t batch) {
  which ? Scheme<SHPM>(in, r, n, len, batch) : Scheme<GWCM>(in, r, n, len, batch);
}
extern "C" void h_ped(const uint64_t* in, uint64_t* r, uint64_t how, uint64_t n, uint64_t len, uint64_t batch) {
  how == 0 ? Ped<X1>(in, r, n, len, batch) : Ped<A1>(in, r, n, len, batch);
}
extern "C" void h_pedsetup(const uint64_t* in, uint64_t* r, uint64_t n) {
  Pedersen<A1, kMaxDegree, A1> ped;
  *r++ = ped.Setup(n);
  *r++ = ped.N();
  *r++ = ped.h().e.raw();
  for (const A1& x : ped.generators()) *r++ = x.e.raw();
}
