// Plonk constraint systems, over opaque scalars.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#define VERIF_PFT_STR
#include "abstract_prime_field.h"

#include <algorithm>
#include <memory>
#include <sstream>
#include <utility>
#include <vector>

namespace verif {
struct Cfg : PFConfigBase {
  constexpr static bool kHasTwoAdicRootOfUnity = true;
  constexpr static bool kHasLargeSubgroupRootOfUnity = true;
  constexpr static uint32_t kSmallSubgroupBase = 3;
  constexpr static uint32_t kSmallSubgroupAdicity = 1;
  constexpr static uint64_t kLargeSubgroupRootOfUnity = 2;
  constexpr static uint32_t kTwoAdicity = 5;
  constexpr static uint64_t kTwoAdicRootOfUnity = 0;
  constexpr static uint64_t kSubgroupGenerator = 1;
};
using F = PFT<Cfg>;
}  // namespace verif

#include "plonk_oss.h"

#include "verif_map.h"
#include "absl/container/btree_map.h"
#define flat_hash_map verif_map
#include "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#define ostringstream verif_oss
#include "tachyon/zk/expressions/evaluator.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#undef ostringstream
#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
namespace absl {
// ordered map whose values can only be moved
template <typename K, typename V>
struct verif_mmap {
  using value_type = std::pair<K, V>;
  std::vector<value_type> v;
  verif_mmap() = default;
  verif_mmap(verif_mmap&&) = default;
  verif_mmap& operator=(verif_mmap&&) = default;
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  void clear() { v.clear(); }
  auto find(const K& k) {
    auto it = v.begin();
    while (it != v.end() && !(it->first == k)) ++it;
    return it;
  }
  auto find(const K& k) const {
    auto it = v.begin();
    while (it != v.end() && !(it->first == k)) ++it;
    return it;
  }
  bool contains(const K& k) const { return find(k) != v.end(); }
  size_t count(const K& k) const { return contains(k); }
  template <typename... A>
  auto try_emplace(const K& k, A&&... a) {
    auto it = v.begin();
    while (it != v.end() && it->first < k) ++it;
    if (it != v.end() && it->first == k) return std::make_pair(it, false);
    it = v.emplace(it, K(k), V(std::forward<A>(a)...));
    return std::make_pair(it, true);
  }
  template <typename W>
  auto emplace(const K& k, W&& w) { return try_emplace(k, std::forward<W>(w)); }
  auto insert(value_type&& x) { return try_emplace(x.first, std::move(x.second)); }
  template <typename W>
  auto insert_or_assign(const K& k, W&& w) {
    auto r = try_emplace(k);
    r.first->second = std::forward<W>(w);
    return r;
  }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  V& at(const K& k) { return find(k)->second; }
  const V& at(const K& k) const { return find(k)->second; }
};
}  // namespace absl
#define btree_map verif_mmap
#define stringstream verif_oss
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#undef stringstream
#undef btree_map
#undef flat_hash_map

#include "tachyon/base/bits.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"
#include "plonk_parse.h"

namespace verif {
using CS = ConstraintSystem<F>;
constexpr uint64_t kNoIndex = ~uint64_t{0};

// cells with no index are built by hand, the others are queried
static U ParseCells(VirtualCells<F>& c, Src p) {
  switch (*p) {
    case 1: {
      p += 3;
      return c.QuerySelector(p[-1] ? Selector::Simple(p[-2]) : Selector::Complex(p[-2]));
    }
    case 2: {
      p += 4;
      Rotation at(static_cast<int32_t>(p[-2]));
      FixedColumnKey k(p[-1]);
      if (p[-3] == kNoIndex) return X::Fixed(FixedQuery(std::nullopt, at, k));
      return c.QueryFixed(k, at);
    }
    case 3: {
      p += 5;
      Rotation at(static_cast<int32_t>(p[-3]));
      AdviceColumnKey k(p[-2], Phase(static_cast<uint8_t>(p[-1])));
      if (p[-4] == kNoIndex) return X::Advice(AdviceQuery(std::nullopt, at, k));
      return c.QueryAdvice(k, at);
    }
    case 4: {
      p += 4;
      Rotation at(static_cast<int32_t>(p[-2]));
      InstanceColumnKey k(p[-1]);
      if (p[-3] == kNoIndex) return X::Instance(InstanceQuery(std::nullopt, at, k));
      return c.QueryInstance(k, at);
    }
    case 6:
      ++p;
      return X::Negated(ParseCells(c, p));
    case 7: {
      ++p;
      U a = ParseCells(c, p);
      return X::Sum(std::move(a), ParseCells(c, p));
    }
    case 8: {
      ++p;
      U a = ParseCells(c, p);
      return X::Product(std::move(a), ParseCells(c, p));
    }
    case 9: {
      ++p;
      F s = Next(p);
      return X::Scaled(ParseCells(c, p), s);
    }
    default:
      return Parse(p);
  }
}
using Dst = uint64_t*&;
template <typename Q>
static void DumpQuery(const Q& q, Dst r) {
  *r++ = q.HasIndex() ? q.GetIndex() : kNoIndex;
  *r++ = static_cast<uint32_t>(q.rotation().value());
  *r++ = q.column().index();
}
static void Dump(const E* e, Dst r) {
  switch (e->type()) {
    case ExpressionType::kConstant:
      *r++ = 0;
      *r++ = e->ToConstant()->value().raw();
      return;
    case ExpressionType::kSelector:
      *r++ = 1;
      *r++ = e->ToSelector()->selector().index();
      *r++ = e->ToSelector()->selector().is_simple();
      return;
    case ExpressionType::kFixed:
      *r++ = 2;
      DumpQuery(e->ToFixed()->query(), r);
      return;
    case ExpressionType::kAdvice:
      *r++ = 3;
      DumpQuery(e->ToAdvice()->query(), r);
      *r++ = e->ToAdvice()->query().column().phase().value();
      return;
    case ExpressionType::kInstance:
      *r++ = 4;
      DumpQuery(e->ToInstance()->query(), r);
      return;
    case ExpressionType::kChallenge:
      *r++ = 5;
      *r++ = e->ToChallenge()->challenge().index();
      *r++ = e->ToChallenge()->challenge().phase().value();
      return;
    case ExpressionType::kNegated:
      *r++ = 6;
      Dump(e->ToNegated()->expr(), r);
      return;
    case ExpressionType::kSum:
      *r++ = 7;
      Dump(e->ToSum()->left(), r);
      Dump(e->ToSum()->right(), r);
      return;
    case ExpressionType::kProduct:
      *r++ = 8;
      Dump(e->ToProduct()->left(), r);
      Dump(e->ToProduct()->right(), r);
      return;
    case ExpressionType::kScaled:
      *r++ = 9;
      *r++ = e->ToScaled()->scale().raw();
      Dump(e->ToScaled()->expr(), r);
      return;
    default:
      *r++ = 99;
  }
}
static void DumpAll(const std::vector<U>& v, Dst r) {
  *r++ = v.size();
  for (const U& u : v) Dump(u.get(), r);
}
template <typename T>
static void DumpQueries(const std::vector<T>& v, Dst r) {
  *r++ = v.size();
  for (const T& q : v) {
    *r++ = q.column().index();
    *r++ = q.column().phase().value();
    *r++ = static_cast<uint32_t>(q.rotation().value());
  }
}
static AnyColumnKey Any(Src p) {
  p += 3;
  switch (p[-3]) {
    case 0:
      return FixedColumnKey(p[-2]);
    case 1:
      return AdviceColumnKey(p[-2], Phase(static_cast<uint8_t>(p[-1])));
    default:
      return InstanceColumnKey(p[-2]);
  }
}

// a history of operations, then the state
extern "C" void h_cs(const uint64_t* in, uint64_t* r) {
  CS cs;
  size_t ops = *in++;
  for (size_t k = 0; k < ops; ++k) {
    switch (*in++) {
      case 0:
        *r++ = cs.CreateFixedColumn().index();
        break;
      case 1: {
        AdviceColumnKey c = cs.CreateAdviceColumn(Phase(static_cast<uint8_t>(*in++)));
        *r++ = c.index();
        *r++ = c.phase().value();
        break;
      }
      case 2:
        *r++ = cs.CreateInstanceColumn().index();
        break;
      case 3: {
        Selector s = *in++ ? cs.CreateSimpleSelector() : cs.CreateComplexSelector();
        *r++ = s.index();
        *r++ = s.is_simple();
        break;
      }
      case 4:
        cs.EnableEquality(Any(in));
        break;
      case 5:
        cs.EnableConstant(FixedColumnKey(*in++));
        break;
      case 6:
        cs.CreateGate("g", [&in](VirtualCells<F>& c) {
          std::vector<Constraint<F>> v;
          size_t n = *in++;
          for (size_t i = 0; i < n; ++i) v.emplace_back("c", ParseCells(c, in));
          return v;
        });
        break;
      case 7:
        cs.LookupAny("l", [&in](VirtualCells<F>& c) {
          lookup::Pairs<U> v;
          size_t n = *in++;
          for (size_t i = 0; i < n; ++i) {
            U a = ParseCells(c, in);
            U b = ParseCells(c, in);
            v.emplace_back(std::move(a), std::move(b));
          }
          return v;
        });
        break;
      case 8:
        cs.Lookup("t", [&in](VirtualCells<F>& c) {
          lookup::Pairs<U, LookupTableColumn> v;
          size_t n = *in++;
          for (size_t i = 0; i < n; ++i) {
            U a = ParseCells(c, in);
            v.emplace_back(std::move(a), LookupTableColumn(FixedColumnKey(*in++)));
          }
          return v;
        });
        break;
      case 9:
        *r++ = cs.Shuffle("s", [&in](VirtualCells<F>& c) {
          shuffle::Pairs<U> v;
          size_t n = *in++;
          for (size_t i = 0; i < n; ++i) {
            U a = ParseCells(c, in);
            U b = ParseCells(c, in);
            v.emplace_back(std::move(a), std::move(b));
          }
          return v;
        });
        break;
      case 10:
        cs.set_minimum_degree(*in++);
        break;
      case 11:
        *r++ = cs.ComputeDegree();
        break;
      case 12:
        *r++ = cs.ComputeBlindingFactors();
        break;
      case 13: {
        Challenge c = cs.CreateChallengeUsableAfter(Phase(static_cast<uint8_t>(*in++)));
        *r++ = c.index();
        *r++ = c.phase().value();
        break;
      }
      case 14:
        cs.ChunkLookups();
        break;
      case 15: {
        size_t n = *in++;
        std::vector<std::vector<bool>> v(cs.GetNumSelectors());
        for (auto& x : v)
          for (size_t i = 0; i < n; ++i) x.push_back(*in++ != 0);
        std::vector<std::vector<F>> o = cs.CompressSelectors(v);
        *r++ = o.size();
        for (auto& x : o) {
          *r++ = x.size();
          for (const F& f : x) *r++ = f.raw();
        }
        *r++ = cs.selector_map().size();
        for (auto& c : cs.selector_map()) *r++ = c.index();
        break;
      }
      case 16:
        cs.set_lookup_type(lookup::Type::kLogDerivativeHalo2);
        break;
      case 17: {
        AnyColumnKey c = Any(in);
        *r++ = cs.QueryAnyIndex(c, Rotation(static_cast<int32_t>(*in++)));
        break;
      }
    }
  }
  *r++ = cs.num_fixed_columns();
  *r++ = cs.num_advice_columns();
  *r++ = cs.num_instance_columns();
  *r++ = cs.num_simple_selectors();
  *r++ = cs.num_complex_selectors();
  *r++ = cs.num_challenges();
  DumpQueries(cs.fixed_queries(), r);
  DumpQueries(cs.advice_queries(), r);
  DumpQueries(cs.instance_queries(), r);
  *r++ = cs.num_advice_queries().size();
  for (RowIndex n : cs.num_advice_queries()) *r++ = n;
  *r++ = cs.permutation().columns().size();
  for (const AnyColumnKey& c : cs.permutation().columns()) {
    *r++ = c.type() == ColumnType::kFixed ? 0 : c.type() == ColumnType::kAdvice ? 1 : c.type() == ColumnType::kInstance ? 2 : 3;
    *r++ = c.index();
    *r++ = cs.GetAnyQueryIndex(c, Rotation::Cur());
  }
  *r++ = cs.constants().size();
  for (const FixedColumnKey& c : cs.constants()) *r++ = c.index();
  *r++ = cs.gates().size();
  for (const Gate<F>& g : cs.gates()) DumpAll(g.polys(), r);
  *r++ = cs.lookups().size();
  for (const auto& l : cs.lookups()) {
    *r++ = l.inputs_expressions().size();
    for (const auto& v : l.inputs_expressions()) DumpAll(v, r);
    DumpAll(l.table_expressions(), r);
    *r++ = l.RequiredDegree();
  }
  *r++ = cs.shuffles().size();
  for (const auto& s : cs.shuffles()) {
    DumpAll(s.input_expressions(), r);
    DumpAll(s.shuffle_expressions(), r);
  }
  *r++ = cs.minimum_degree().value_or(0);
  *r++ = cs.ComputeDegree();
  *r++ = cs.ComputeBlindingFactors();
  *r++ = static_cast<uint32_t>(cs.ComputeLastRow());
  *r++ = cs.ComputeMinimumRows();
  *r++ = cs.ComputePermutationChunkLen();
  *r++ = cs.ComputePermutationProductNums();
  for (uint32_t k = 1; k < 5; ++k) *r++ = cs.ComputeExtendedK(k);
  *r++ = cs.ComputeMaxPhase().value();
  *r++ = cs.GetPhases().size();
}
}  // namespace verif
