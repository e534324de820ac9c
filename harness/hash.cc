// Instantiates Merkle trees, sponges and challengers over opaque hash
// functions and permutations. Nothing here is ever executed.
#include "abstract_prime_field.h"

#include <optional>
#include <vector>

#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"

namespace verif {
struct Cfg : PFConfigBase {};
using F = PFT<Cfg>;

struct PackedF {
  constexpr static size_t N = 2;
  F l[2];
  template <typename Callback>
  static PackedF From(Callback c) {
    PackedF r;
    for (size_t i = 0; i < N; ++i) r.l[i] = c(i);
    return r;
  }
  F& operator[](size_t i) { return l[i]; }
  const F& operator[](size_t i) const { return l[i]; }
};

struct E2 {
  using BasePrimeField = F;
  constexpr static size_t kDegreeOverBasePrimeField = 2;
  F c[2];
  E2() = default;
  explicit E2(int) {}
  static E2 FromBasePrimeFields(const std::array<F, 2>& a) {
    E2 r;
    r.c[0] = a[0];
    r.c[1] = a[1];
    return r;
  }
  F& operator[](size_t i) { return c[i]; }
  const F& operator[](size_t i) const { return c[i]; }
  E2 operator+(const E2& o) const { return *this; }
  E2 operator*(const E2& o) const { return *this; }
  bool operator==(const E2& o) const { return c[0] == o.c[0] && c[1] == o.c[1]; }
};
}  // namespace verif

namespace tachyon::math {
template <>
struct PackedFieldTraits<verif::F> {
  using PackedField = verif::PackedF;
};
template <>
struct FiniteFieldTraits<verif::E2> {
  static constexpr bool kIsFiniteField = true;
  static constexpr bool kIsPrimeField = false;
  static constexpr bool kIsPackedPrimeField = false;
  static constexpr bool kIsExtensionField = true;
};
template <>
struct ExtensionFieldTraits<verif::E2> {
  constexpr static uint32_t kDegreeOverBaseField = 2;
  constexpr static uint32_t kDegreeOverBasePrimeField = 2;
  using BaseField = verif::F;
  using BasePrimeField = verif::F;
};
}  // namespace tachyon::math

#include "tachyon/base/bits.cc"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

extern "C" {
// fresh result of an opaque function of its arguments
void vh_fn(uint64_t tag, const uint64_t* in, uint64_t n, uint64_t* out, uint64_t m);
// concrete permutations
void vh_perm32(uint32_t* p, uint64_t n, uint64_t mont);
void vh_permbig(uint64_t* p, uint64_t n);
}

namespace verif {
using namespace tachyon;
using namespace tachyon::crypto;
using math::RowMajorMatrix;

struct Src {
  const uint64_t* p;
  uint64_t next() { return *p++; }
  F f() { return F::Raw(next()); }
};
struct Put {
  uint64_t* p;
  void f(const F& x) { *p++ = x.raw(); }
  void n(uint64_t x) { *p++ = x; }
};

using Digest = std::array<F, 2>;

// --- binary Merkle tree
class BinHasher final : public BinaryMerkleHasher<F, F> {
 public:
  F ComputeLeafHash(const F& leaf) const override {
    uint64_t i = leaf.raw(), o;
    vh_fn(1, &i, 1, &o, 1);
    return F::Raw(o);
  }
  F ComputeParentHash(const F& l, const F& r) const override {
    uint64_t i[2] = {l.raw(), r.raw()}, o;
    vh_fn(2, i, 2, &o, 1);
    return F::Raw(o);
  }
};

// --- matrices
struct LaneHasher {
  Digest Hash(const std::vector<F>& v) const {
    uint64_t o[2];
    vh_fn(3, reinterpret_cast<const uint64_t*>(v.data()), v.size(), o, 2);
    return {F::Raw(o[0]), F::Raw(o[1])};
  }
};
struct LaneCompressor {
  Digest Compress(const Digest (&in)[2]) const {
    uint64_t i[4] = {in[0][0].raw(), in[0][1].raw(), in[1][0].raw(), in[1][1].raw()}, o[2];
    vh_fn(4, i, 4, o, 2);
    return {F::Raw(o[0]), F::Raw(o[1])};
  }
};
using PackedDigest = std::array<PackedF, 2>;
struct PackedLaneHasher {
  PackedDigest Hash(const std::vector<PackedF>& v) const {
    PackedDigest r;
    for (size_t l = 0; l < 2; ++l) {
      std::vector<F> w;
      for (size_t i = 0; i < v.size(); ++i) w.push_back(v[i].l[l]);
      Digest d = LaneHasher().Hash(w);
      r[0].l[l] = d[0];
      r[1].l[l] = d[1];
    }
    return r;
  }
};
struct PackedLaneCompressor {
  PackedDigest Compress(const PackedDigest (&in)[2]) const {
    PackedDigest r;
    for (size_t l = 0; l < 2; ++l) {
      Digest i[2] = {{in[0][0].l[l], in[0][1].l[l]}, {in[1][0].l[l], in[1][1].l[l]}};
      Digest d = LaneCompressor().Compress(i);
      r[0].l[l] = d[0];
      r[1].l[l] = d[1];
    }
    return r;
  }
};
template <typename T>
using MMCS = FieldMerkleTreeMMCS<T, LaneHasher, PackedLaneHasher, LaneCompressor, PackedLaneCompressor, 2>;

template <typename T>
T Elem(Src& in) {
  if constexpr (std::is_same_v<T, F>) {
    return in.f();
  } else {
    T r;
    r.c[0] = in.f();
    r.c[1] = in.f();
    return r;
  }
}
template <typename T>
void PutElem(Put& out, const T& v) {
  if constexpr (std::is_same_v<T, F>) {
    out.f(v);
  } else {
    out.f(v.c[0]);
    out.f(v.c[1]);
  }
}

// in: number of matrices, rows and columns of each, then the elements
template <typename T>
std::vector<RowMajorMatrix<T>> Matrices(Src& in) {
  size_t n = in.next();
  std::vector<std::pair<size_t, size_t>> d;
  for (size_t i = 0; i < n; ++i) {
    size_t r = in.next();
    d.emplace_back(r, in.next());
  }
  std::vector<RowMajorMatrix<T>> r;
  for (size_t k = 0; k < n; ++k) {
    RowMajorMatrix<T> m(d[k].first, d[k].second);
    for (size_t i = 0; i < d[k].first; ++i)
      for (size_t j = 0; j < d[k].second; ++j) m(i, j) = Elem<T>(in);
    r.push_back(std::move(m));
  }
  return r;
}

template <typename T, typename Scheme>
void Commit(const Scheme& s, Src in, Put out, int mode, size_t index) {
  std::vector<RowMajorMatrix<T>> ms = Matrices<T>(in);
  std::vector<math::Dimensions> dims;
  for (auto& m : ms) dims.push_back({static_cast<size_t>(m.cols()), static_cast<size_t>(m.rows())});
  typename Scheme::Commitment c;
  typename Scheme::ProverData data;
  bool ok;
  if (mode == 0) {
    std::vector<Eigen::Map<const RowMajorMatrix<T>>> maps;
    for (auto& m : ms) maps.push_back(Eigen::Map<const RowMajorMatrix<T>>(m.data(), m.rows(), m.cols()));
    ok = s.Commit(std::move(maps), &c, &data);
  } else {
    std::vector<RowMajorMatrix<T>> copy = ms;
    ok = s.CommitOwned(std::move(copy), &c, &data);
  }
  out.n(ok);
  out.f(c[0]);
  out.f(c[1]);
  std::vector<std::vector<T>> openings;
  typename Scheme::Proof proof;
  out.n(s.CreateOpeningProof(index, data, &openings, &proof));
  out.n(s.GetMaxRowSize(data));
  out.n(openings.size());
  for (auto& o : openings) {
    out.n(o.size());
    for (auto& x : o) PutElem(out, x);
  }
  out.n(proof.size());
  for (auto& d : proof) {
    out.f(d[0]);
    out.f(d[1]);
  }
  out.n(s.VerifyOpeningProof(c, dims, index, openings, proof));
}

// in: number of matrices, dims, opened rows, commitment, proof length, proof
template <typename T, typename Scheme>
void Verify(const Scheme& s, Src in, Put out, size_t index) {
  size_t n = in.next();
  std::vector<math::Dimensions> dims;
  for (size_t i = 0; i < n; ++i) {
    size_t r = in.next();
    dims.push_back({static_cast<size_t>(in.next()), r});
  }
  std::vector<std::vector<T>> openings(n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < dims[i].width; ++j) openings[i].push_back(Elem<T>(in));
  typename Scheme::Commitment c;
  c[0] = in.f();
  c[1] = in.f();
  typename Scheme::Proof proof(in.next());
  for (auto& d : proof) {
    d[0] = in.f();
    d[1] = in.f();
  }
  out.n(s.VerifyOpeningProof(c, dims, index, openings, proof));
}

// --- sponges
struct Params {
  using Field = F;
  constexpr static size_t kRate = 2;
  constexpr static size_t kCapacity = 1;
  constexpr static size_t kWidth = 3;
  constexpr static int kAlpha = 5;
};
struct Params4 {
  using Field = F;
  constexpr static size_t kRate = 3;
  constexpr static size_t kCapacity = 1;
  constexpr static size_t kWidth = 4;
  constexpr static int kAlpha = 5;
};
template <typename P>
struct Perm : PoseidonSpongeBase<Perm<P>> {
  using F = verif::F;
  using Params = P;
  void Permute(SpongeState<P>& s) const {
    uint64_t* p = reinterpret_cast<uint64_t*>(s.elements.data());
    vh_fn(5, p, s.elements.size(), p, s.elements.size());
  }
};

template <typename Field, size_t W>
struct SmallParams {
  using Field_ = Field;
};
template <typename Fd, bool Mont>
struct P32 {
  struct Params {
    using Field = Fd;
    constexpr static size_t kWidth = 4;
  };
  using F = Fd;
  void Permute(SpongeState<Params>& s) const {
    vh_perm32(reinterpret_cast<uint32_t*>(s.elements.data()), s.elements.size(), Mont);
  }
};
// a big prime field kept in canonical form
struct BigF {
  struct Config {
    constexpr static size_t kModulusBits = 254;
    constexpr static math::BigInt<4> kModulus{UINT64_C(4891460686036598785), UINT64_C(2896914383306846353), UINT64_C(13281191951274694749), UINT64_C(3486998266802970665)};
  };
  using BigIntTy = math::BigInt<4>;
  BigIntTy v{};
  BigF() = default;
  explicit BigF(int x) : v(static_cast<uint64_t>(x)) {}
  explicit BigF(const BigIntTy& b) : v(b) {}
  static BigF Zero() { return {}; }
  BigIntTy ToBigInt() const { return v; }
  BigF operator+(const BigF& o) const { return *this; }
  BigF operator*(const BigF& o) const { return *this; }
};
struct PBig {
  struct Params {
    using Field = BigF;
    constexpr static size_t kWidth = 2;
  };
  using F = BigF;
  void Permute(SpongeState<Params>& s) const {
    vh_permbig(reinterpret_cast<uint64_t*>(s.elements.data()), s.elements.size());
  }
};
struct HHash {
  using F = verif::F;
  std::array<F, 3> Hash(const std::vector<F>& v) const {
    uint64_t o[3];
    vh_fn(6, reinterpret_cast<const uint64_t*>(v.data()), v.size(), o, 3);
    return {F::Raw(o[0]), F::Raw(o[1]), F::Raw(o[2])};
  }
};
}  // namespace verif

namespace tachyon::crypto {
template <typename P>
struct CryptographicSpongeTraits<verif::Perm<P>> {
  using F = verif::F;
  using Params = P;
};
}  // namespace tachyon::crypto

namespace verif {
// op codes, one per element of the sequence: 0 observe, 1 sample, 2 observe a
// container of 2, 3 observe a 2D container {1, 2}, 4 sample an array of 2,
// 5 sample an extension element
template <typename C>
void Play(C& c, Src in, Put out, const uint64_t* ops, size_t n) {
  for (size_t k = 0; k < n; ++k) {
    switch (ops[k]) {
      case 0:
        c.Observe(in.f());
        break;
      case 1:
        out.f(c.Sample());
        break;
      case 2: {
        std::vector<F> v{in.f(), in.f()};
        c.ObserveContainer(v);
        break;
      }
      case 3: {
        std::vector<std::vector<F>> v{{in.f()}, {in.f(), in.f()}};
        c.ObserveContainer2D(v);
        break;
      }
      case 4: {
        std::array<F, 2> a = c.template SampleArray<2>();
        out.f(a[0]);
        out.f(a[1]);
        break;
      }
      case 5: {
        E2 e = c.template SampleExtElement<E2>();
        out.f(e.c[0]);
        out.f(e.c[1]);
        break;
      }
    }
  }
}

// concrete: (op, value): 0 observe, 1 sample, 2 bits, 3 check witness (bits
// then value), 4 grind (bits, from, to)
template <typename Field, typename C>
void Play32(C& c, const uint64_t* in, uint64_t* out, size_t n) {
  for (size_t k = 0; k < n; ++k) {
    switch (*in++) {
      case 0:
        c.Observe(Field(static_cast<uint32_t>(*in++)));
        break;
      case 1: {
        Field f = c.Sample();
        if constexpr (Field::Config::kUseMontgomery) {
          *out++ = Field::Config::FromMontgomery(f.value());
        } else {
          *out++ = f.value();
        }
        break;
      }
      case 2:
        *out++ = c.SampleBits(*in++);
        break;
      case 3: {
        uint32_t bits = *in++;
        *out++ = c.CheckWitness(bits, Field(static_cast<uint32_t>(*in++)));
        break;
      }
      case 4: {
        uint32_t bits = *in++;
        uint32_t from = *in++;
        uint32_t to = *in++;
        Field f = c.Grind(bits, base::Range<uint32_t>(from, to));
        if constexpr (Field::Config::kUseMontgomery) {
          *out++ = Field::Config::FromMontgomery(f.value());
        } else {
          *out++ = f.value();
        }
        break;
      }
      case 5: {
        uint32_t bits = *in++;
        uint32_t from = *in++;
        uint32_t to = *in++;
        Field w(static_cast<uint32_t>(*in++));
        Field f = c.Grind(bits, base::Range<uint32_t>(from, to), w);
        *out++ = f == w;
        break;
      }
    }
  }
}

template <typename P>
void PlaySponge(Src in, Put out, const uint64_t* ops, size_t n) {
  Perm<P> p;
  SpongeState<P> s;
  for (size_t i = 0; i < P::kWidth; ++i) s[i] = in.f();
  for (size_t k = 0; k < n; k += 2) {
    size_t c = ops[k + 1];
    if (ops[k] == 0) {
      std::vector<F> v;
      for (size_t i = 0; i < c; ++i) v.push_back(in.f());
      out.n(p.Absorb(s, v));
    } else if (ops[k] == 1) {
      std::vector<F> v = p.SqueezeNativeFieldElements(s, c);
      out.n(v.size());
      for (auto& x : v) out.f(x);
    } else if (ops[k] == 2) {
      std::vector<uint64_t> v;
      for (size_t i = 0; i < c; ++i) v.push_back(in.next());
      out.n(p.Absorb(s, v));
    } else if (ops[k] == 3) {
      std::vector<F> v = p.template SqueezeFieldElements<>(s, c);
      out.n(v.size());
      for (auto& x : v) out.f(x);
    }
  }
  for (size_t i = 0; i < P::kWidth; ++i) out.f(s[i]);
}
}  // namespace verif

using namespace verif;
extern "C" {
void h_bin(const uint64_t* in, uint64_t* o, uint64_t n, uint64_t threshold, uint64_t index) {
  Src src{in};
  Put out{o};
  std::vector<F> leaves;
  for (size_t i = 0; i < n; ++i) leaves.push_back(src.f());
  SimpleBinaryMerkleTreeStorage<F> storage;
  BinHasher hasher;
  BinaryMerkleTree<F, F, 16> tree(&storage, &hasher);
  if (threshold) tree.set_leaves_size_for_parallelization(threshold);
  F root;
  bool ok = tree.Commit(leaves, &root);
  out.n(ok);
  if (!ok) return;
  out.f(root);
  out.n(storage.GetSize());
  for (size_t i = 0; i < storage.GetSize(); ++i) out.f(storage.GetHash(i));
  BinaryMerkleProof<F> proof;
  out.n(tree.CreateOpeningProof(index, &proof));
  out.n(proof.paths.size());
  for (auto& p : proof.paths) {
    out.n(p.left);
    out.f(p.hash);
  }
  out.n(tree.VerifyOpeningProof(root, hasher.ComputeLeafHash(leaves[index]), proof));
}
void h_binv(const uint64_t* in, uint64_t* o, uint64_t n, uint64_t bits) {
  Src src{in};
  Put out{o};
  SimpleBinaryMerkleTreeStorage<F> storage;
  BinHasher hasher;
  BinaryMerkleTree<F, F, 16> tree(&storage, &hasher);
  F root = src.f(), leaf = src.f();
  BinaryMerkleProof<F> proof;
  for (size_t i = 0; i < n; ++i) proof.paths.push_back({static_cast<bool>(bits >> i & 1), src.f()});
  out.n(tree.VerifyOpeningProof(root, leaf, proof));
}
void h_commit(const uint64_t* in, uint64_t* o, uint64_t ext, uint64_t mode, uint64_t index) {
  if (ext == 0) {
    Commit<F>(MMCS<F>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor()), Src{in}, Put{o}, mode, index);
  } else if (ext == 1) {
    Commit<E2>(MMCS<E2>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor()), Src{in}, Put{o}, mode, index);
  } else {
    Commit<E2>(ExtensionFieldMerkleTreeMMCS<E2, MMCS<E2>>(MMCS<E2>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor())), Src{in}, Put{o}, mode, index);
  }
}
void h_verify(const uint64_t* in, uint64_t* o, uint64_t ext, uint64_t index) {
  if (ext == 0) {
    Verify<F>(MMCS<F>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor()), Src{in}, Put{o}, index);
  } else if (ext == 1) {
    Verify<E2>(MMCS<E2>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor()), Src{in}, Put{o}, index);
  } else {
    Verify<E2>(ExtensionFieldMerkleTreeMMCS<E2, MMCS<E2>>(MMCS<E2>(LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor())), Src{in}, Put{o}, index);
  }
}
// overloads taking one vector or one matrix
void h_commit1(const uint64_t* in, uint64_t* o, uint64_t how, uint64_t n) {
  Src src{in};
  Put out{o};
  MMCS<F> s{LaneHasher(), PackedLaneHasher(), LaneCompressor(), PackedLaneCompressor()};
  Digest c;
  FieldMerkleTree<F, 2> data;
  std::vector<F> v;
  RowMajorMatrix<F> m(n, 1);
  for (size_t i = 0; i < n; ++i) {
    v.push_back(src.f());
    m(i, 0) = v.back();
  }
  bool ok;
  switch (how) {
    case 0:
      ok = s.Commit(v, &c, &data);
      break;
    case 1:
      ok = s.CommitOwned(v, &c, &data);
      break;
    case 2:
      ok = s.Commit(Eigen::Map<const RowMajorMatrix<F>>(m.data(), n, 1), &c, &data);
      break;
    default:
      ok = s.CommitOwned(std::move(m), &c, &data);
  }
  out.n(ok);
  out.f(c[0]);
  out.f(c[1]);
}
void h_sponge(const uint64_t* in, uint64_t* o, const uint64_t* ops, uint64_t n, uint64_t which) {
  if (which == 0) {
    PlaySponge<Params>(Src{in}, Put{o}, ops, n);
  } else {
    PlaySponge<Params4>(Src{in}, Put{o}, ops, n);
  }
}
void h_pfs(const uint64_t* in, uint64_t* o, uint64_t n, uint64_t which) {
  Src src{in};
  Put out{o};
  std::vector<F> v;
  for (size_t i = 0; i < n; ++i) v.push_back(src.f());
  if (which == 0) {
    PaddingFreeSponge<Perm<Params>, 2, 2> s{Perm<Params>()};
    for (auto& x : s.Hash(v)) out.f(x);
  } else if (which == 1) {
    PaddingFreeSponge<Perm<Params4>, 3, 1> s{Perm<Params4>()};
    for (auto& x : s.Hash(v)) out.f(x);
  } else if (which == 2) {
    PaddingFreeSponge<Perm<Params4>, 2, 4> s{Perm<Params4>()};
    for (auto& x : s.Hash(v)) out.f(x);
  } else if (which == 3) {
    TruncatedPermutation<Perm<Params4>, 2, 2> s{Perm<Params4>()};
    std::array<F, 2> a[2] = {{v[0], v[1]}, {v[2], v[3]}};
    for (auto& x : s.Compress(a)) out.f(x);
  } else if (which == 4) {
    TruncatedPermutation<Perm<Params4>, 1, 3> s{Perm<Params4>()};
    std::array<F, 1> a[3] = {{v[0]}, {v[1]}, {v[2]}};
    for (auto& x : s.Compress(a)) out.f(x);
  } else if (which == 5) {
    TruncatedPermutation<Perm<Params>, 1, 2> s{Perm<Params>()};
    std::vector<std::vector<F>> a{{v[0]}, {v[1]}};
    for (auto& x : s.Compress(a)) out.f(x);
  }
}
void h_duplex(const uint64_t* in, uint64_t* o, const uint64_t* ops, uint64_t n, uint64_t which) {
  if (which == 0) {
    DuplexChallenger<Perm<Params>, 2> c{Perm<Params>()};
    Play(c, Src{in}, Put{o}, ops, n);
  } else if (which == 1) {
    DuplexChallenger<Perm<Params4>, 3> c{Perm<Params4>()};
    Play(c, Src{in}, Put{o}, ops, n);
  } else if (which == 2) {
    DuplexChallenger<Perm<Params4>, 2> c{Perm<Params4>()};
    Play(c, Src{in}, Put{o}, ops, n);
  } else {
    HashChallenger<HHash> c{HHash()};
    Play(c, Src{in}, Put{o}, ops, n);
  }
}
// a hash challenger with initial input
void h_hashc(const uint64_t* in, uint64_t* o, const uint64_t* ops, uint64_t n, uint64_t k) {
  Src src{in};
  std::vector<F> v;
  for (size_t i = 0; i < k; ++i) v.push_back(src.f());
  HashChallenger<HHash> c(v, HHash());
  Play(c, src, Put{o}, ops, n);
}
void h_c32(const uint64_t* in, uint64_t* o, uint64_t n, uint64_t which) {
  if (which == 0) {
    DuplexChallenger<P32<math::BabyBear, true>, 2> c{P32<math::BabyBear, true>()};
    Play32<math::BabyBear>(c, in, o, n);
  } else if (which == 1) {
    DuplexChallenger<P32<math::Mersenne31, false>, 3> c{P32<math::Mersenne31, false>()};
    Play32<math::Mersenne31>(c, in, o, n);
  } else if (which == 2) {
    MultiField32Challenger<math::BabyBear, PBig> c{PBig()};
    Play32<math::BabyBear>(c, in, o, n);
  } else {
    MultiField32Challenger<math::Mersenne31, PBig> c{PBig()};
    Play32<math::Mersenne31>(c, in, o, n);
  }
}
}
