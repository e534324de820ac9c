// SimpleFRI over an opaque field and an opaque two-to-one hash.
#include "abstract_prime_field.h"

#include "verif_map.h"
#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#undef flat_hash_map
#include "tachyon/crypto/commitments/fri/simple_fri.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"

namespace verif {
using namespace tachyon;
using namespace tachyon::crypto;
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
};
using F = PFT<Cfg>;
constexpr size_t kMaxDegree = 15;
using PCS = SimpleFRI<F, kMaxDegree>;

struct Hasher final : BinaryMerkleHasher<F, F> {
  F ComputeLeafHash(const F& l) const override { return l; }
  F ComputeParentHash(const F& a, const F& b) const override {
    uint64_t in[2] = {a.raw(), b.raw()}, r;
    vh_fn(3, in, 2, &r, 1);
    return F::Raw(r);
  }
};
struct Storage final : SimpleFRIStorage<F> {
  std::vector<SimpleBinaryMerkleTreeStorage<F>> layers;
  void Allocate(size_t n) override { layers.resize(n); }
  BinaryMerkleTreeStorage<F>* GetLayer(size_t i) override { return &layers[i]; }
};
static uint64_t* g_ev;
static const uint64_t* g_in;
static const uint64_t* g_ch;
static void Ev(uint64_t x) { *g_ev++ = x; }
struct W final : TranscriptWriter<F> {
  F SqueezeChallenge() override {
    Ev(1);
    return F::Raw(*g_ch++);
  }
  bool WriteToTranscript(const F& v) override {
    Ev(2);
    Ev(v.raw());
    return true;
  }
  bool DoWriteToProof(const F& v) override {
    Ev(3);
    return true;
  }
};
struct R final : TranscriptReader<F> {
  F SqueezeChallenge() override {
    Ev(1);
    return F::Raw(*g_ch++);
  }
  bool WriteToTranscript(const F& v) override {
    Ev(2);
    Ev(v.raw());
    return true;
  }
  bool DoReadFromProof(F* v) const override {
    *v = F::Raw(*g_in++);
    Ev(3);
    return true;
  }
};
static F Next(const uint64_t*& p) { return F::Raw(*p++); }
}  // namespace verif
using namespace verif;

// in: coefficients, challenges
extern "C" void h_sfri_open(const uint64_t* in, uint64_t* r, uint64_t k, uint64_t len, uint64_t index) {
  auto domain = PCS::Domain::Create(size_t{1} << k);
  Hasher h;
  Storage st;
  PCS pcs(domain.get(), &st, &h);
  std::vector<F> c;
  for (size_t i = 0; i < len; ++i) c.push_back(Next(in));
  g_ch = in;
  uint64_t* n = r++;
  g_ev = r;
  W w;
  uint64_t res = pcs.Commit(PCS::Poly(math::UnivariateDenseCoefficients<F, kMaxDegree>(std::move(c), true)), &w);
  *n = g_ev - r;
  r = g_ev;
  *r++ = res;
  SimpleFRIProof<F> p;
  *r++ = pcs.CreateOpeningProof(index, &p);
  *r++ = p.paths.size();
  *r++ = p.paths_sym.size();
  *r++ = p.evaluations.size();
  *r++ = p.evaluations_sym.size();
  for (size_t i = 0; i < p.paths.size(); ++i) {
    for (const auto* q : {&p.paths[i], &p.paths_sym[i]}) {
      *r++ = q->paths.size();
      for (const auto& s : q->paths) {
        *r++ = s.left;
        *r++ = s.hash.raw();
      }
    }
    *r++ = p.evaluations[i].raw();
    *r++ = p.evaluations_sym[i].raw();
  }
}

// in: per layer (evaluation, sibling, two paths as count, (left, hash)*), number of paths
// actually in the proof first; then challenges; then the transcript
extern "C" void h_sfri_verify(const uint64_t* in, uint64_t* r, uint64_t k, uint64_t index, uint64_t layers) {
  auto domain = PCS::Domain::Create(size_t{1} << k);
  Hasher h;
  Storage st;
  PCS pcs(domain.get(), &st, &h);
  SimpleFRIProof<F> p;
  for (size_t i = 0; i < layers; ++i) {
    p.evaluations.push_back(Next(in));
    p.evaluations_sym.push_back(Next(in));
    for (auto* v : {&p.paths, &p.paths_sym}) {
      BinaryMerkleProof<F> q;
      uint64_t n = *in++;
      for (size_t j = 0; j < n; ++j) {
        BinaryMerklePath<F> s;
        s.left = *in++;
        s.hash = Next(in);
        q.paths.push_back(s);
      }
      v->push_back(std::move(q));
    }
  }
  g_ch = in;
  g_in = in + k;
  uint64_t* n = r++;
  g_ev = r;
  R rd;
  uint64_t res = pcs.VerifyOpeningProof(rd, index, p);
  *n = g_ev - r;
  *g_ev++ = res;
}
