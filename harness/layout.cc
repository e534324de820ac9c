// Floor planners: what a circuit assigns, constrains and looks up, as it
// reaches the assignment.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include "abstract_prime_field.h"

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>

namespace verif {
struct Cfg : PFConfigBase {};
using F = PFT<Cfg>;
}  // namespace verif

// any sort
#define TACHYON_BASE_SORT_H_
namespace tachyon::base {
template <typename It, typename... A>
void UnstableSort(It a, It b, A... c) {
  std::sort(a, b, c...);
}
template <typename It>
void StableSort(It a, It b) {
  std::stable_sort(a, b);
}
}  // namespace tachyon::base

#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/substitute.h"
// names are not looked at
namespace absl {
template <typename... A>
std::string verif_substitute(const A&...) { return {}; }
}  // namespace absl
#define Substitute verif_substitute
#include "verif_map.h"
#include "verif_oset.h"
namespace absl {
// in insertion order
template <typename K>
struct verif_hset {
  using value_type = K;
  using const_iterator = typename std::vector<K>::const_iterator;
  using iterator = const_iterator;
  std::vector<K> v;
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  const_iterator find(const K& k) const { return std::find(v.begin(), v.end(), k); }
  bool contains(const K& k) const { return find(k) != v.end(); }
  size_t count(const K& k) const { return contains(k); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  std::pair<iterator, bool> insert(const K& k) {
    iterator i = find(k);
    if (i != v.end()) return {i, false};
    v.push_back(k);
    return {v.end() - 1, true};
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
};
// by order only
template <typename K>
struct verif_bset {
  using value_type = K;
  using const_iterator = typename std::vector<K>::const_iterator;
  using iterator = const_iterator;
  std::vector<K> v;
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  auto rbegin() const { return v.rbegin(); }
  auto rend() const { return v.rend(); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  std::pair<iterator, bool> insert(const K& k) {
    auto i = v.begin();
    while (i != v.end() && *i < k) ++i;
    if (i != v.end() && !(k < *i)) return {i, false};
    i = v.insert(i, k);
    return {i, true};
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
};
}  // namespace absl
#include "tachyon/base/range.h"
#include "tachyon/zk/base/value.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
namespace std {
// with a value even when there is none, so that it can be copied as a whole
template <typename T>
class verif_optional {
 public:
  verif_optional() = default;
  verif_optional(nullopt_t) {}
  template <typename U, typename = enable_if_t<is_constructible_v<T, U&&> && !is_same_v<decay_t<U>, verif_optional> && !is_same_v<decay_t<U>, nullopt_t>>>
  verif_optional(U&& v) : has_(1), v_(std::forward<U>(v)) {}
  template <typename U>
  verif_optional(const optional<U>& o) : has_(o.has_value() ? 1 : 0), v_(o.has_value() ? T(*o) : T()) {}
  bool has_value() const { return has_; }
  explicit operator bool() const { return has_; }
  T& value() { Check(); return v_; }
  const T& value() const { Check(); return v_; }
  T& operator*() { return v_; }
  const T& operator*() const { return v_; }
  T* operator->() { return &v_; }
  const T* operator->() const { return &v_; }
  template <typename U>
  T value_or(U&& u) const { return has_ ? v_ : T(std::forward<U>(u)); }
  template <typename... A>
  T& emplace(A&&... a) { has_ = true; return v_ = T(std::forward<A>(a)...); }
  void reset() { has_ = false; v_ = T(); }
  bool operator==(const verif_optional& o) const { return has_ == o.has_ && (!has_ || v_ == o.v_); }
  bool operator!=(const verif_optional& o) const { return !(*this == o); }

 private:
  void Check() const { if (!has_) abort(); }
  // (no padding)
  conditional_t<alignof(T) == 8, uint64_t, conditional_t<alignof(T) == 4, uint32_t, uint8_t>> has_ = 0;
  T v_{};
};
}  // namespace std
#define optional verif_optional
#define flat_hash_map verif_map
#define flat_hash_set verif_hset
#define btree_set verif_bset
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/single_chip_layouter.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.cc"
#include "tachyon/zk/plonk/layout/namespaced_layouter.h"
#undef optional
#undef flat_hash_map
#undef flat_hash_set
#undef btree_set

namespace verif {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;

struct Rec final : Assignment<F> {
  uint64_t* r;
  const uint64_t* inst;  // instance value of (column, row) at 8 * column + row
  explicit Rec(uint64_t* r, const uint64_t* inst) : r(r), inst(inst) {}
  void Val(const Value<math::RationalField<F>>& v) {
    *r++ = v.value().numerator().raw();
    *r++ = v.value().denominator().raw();
  }
  void Col(const AnyColumnKey& c) {
    *r++ = static_cast<uint64_t>(c.type());
    *r++ = c.index();
  }
  void EnterRegion(std::string_view) override { *r++ = 7; }
  void ExitRegion() override { *r++ = 8; }
  void NameColumn(std::string_view, const AnyColumnKey& c) override {
    *r++ = 11;
    Col(c);
  }
  void EnableSelector(std::string_view, Selector s, RowIndex row) override {
    *r++ = 1;
    *r++ = s.index();
    *r++ = row;
  }
  Value<F> QueryInstance(const InstanceColumnKey& c, RowIndex row) override {
    return Value<F>::Known(F::Raw(inst[8 * c.index() + row]));
  }
  void AssignAdvice(std::string_view, const AdviceColumnKey& c, RowIndex row, AssignCallback f) override {
    *r++ = 2;
    *r++ = c.index();
    *r++ = row;
    Val(std::move(f).Run());
  }
  void AssignFixed(std::string_view, const FixedColumnKey& c, RowIndex row, AssignCallback f) override {
    *r++ = 3;
    *r++ = c.index();
    *r++ = row;
    Val(std::move(f).Run());
  }
  void Copy(const AnyColumnKey& a, RowIndex i, const AnyColumnKey& b, RowIndex j) override {
    *r++ = 4;
    Col(a);
    *r++ = i;
    Col(b);
    *r++ = j;
  }
  void FillFromRow(const FixedColumnKey& c, RowIndex row, const math::RationalField<F>& v) override {
    *r++ = 5;
    *r++ = c.index();
    *r++ = row;
    *r++ = v.numerator().raw();
    *r++ = v.denominator().raw();
  }
  Value<F> GetChallenge(Challenge c) override { return Value<F>::Known(F::Raw(inst[32 + c.index()])); }
  void PushNamespace(std::string_view) override { *r++ = 9; }
  void PopNamespace(const std::verif_optional<std::string>&) override { *r++ = 10; }
};

struct Config {
  using Field = F;
  const uint64_t* in;
  Config Clone() const { return {in}; }
};

static F At(const uint64_t*& p) { return F::Raw(*p++); }

// cells are numbered in the order of the operations that assign them
static void Ops(Region<F>& g, const uint64_t*& p, std::vector<Cell>& cells, size_t& k) {
  auto put = [&](const Cell& c) {
    if (cells.size() <= k) cells.resize(k + 1);
    cells[k++] = c;
  };
  size_t n = *p++;
  for (size_t i = 0; i < n; ++i) {
    uint64_t op = *p++;
    switch (op) {
      case 0: {
        Selector s = Selector::Simple(*p++);
        g.EnableSelector("s", s, static_cast<RowIndex>(*p++));
        break;
      }
      case 1: {
        AdviceColumnKey c(*p++);
        RowIndex o = static_cast<RowIndex>(*p++);
        F v = At(p);
        put(g.AssignAdvice("a", c, o, [&v]() { return Value<F>::Known(v); }).cell());
        break;
      }
      case 2: {
        AdviceColumnKey c(*p++);
        RowIndex o = static_cast<RowIndex>(*p++);
        F v = At(p);
        put(g.AssignAdviceFromConstant("c", c, o, v).cell());
        break;
      }
      case 3: {
        InstanceColumnKey ic(*p++);
        RowIndex row = static_cast<RowIndex>(*p++);
        AdviceColumnKey c(*p++);
        RowIndex o = static_cast<RowIndex>(*p++);
        put(g.AssignAdviceFromInstance("i", ic, row, c, o).cell());
        break;
      }
      case 4: {
        FixedColumnKey c(*p++);
        RowIndex o = static_cast<RowIndex>(*p++);
        F v = At(p);
        put(g.AssignFixed("f", c, o, [&v]() { return Value<F>::Known(v); }).cell());
        break;
      }
      case 5: {
        Cell c = cells[*p++];
        F v = At(p);
        g.ConstrainConstant(c, math::RationalField<F>(v));
        break;
      }
      case 6: {
        Cell a = cells[*p++];
        Cell b = cells[*p++];
        g.ConstrainEqual(a, b);
        break;
      }
      case 7: {
        AdviceColumnKey c(*p++);
        g.NameColumn("n", c);
        break;
      }
      case 8: {
        // a copy of a cell assigned before, with its value
        Cell a = cells[*p++];
        AdviceColumnKey c(*p++);
        RowIndex o = static_cast<RowIndex>(*p++);
        F v = At(p);
        AssignedCell<F> from(a, Value<F>::Known(v));
        put(from.CopyAdvice("q", g, c, o).cell());
        break;
      }
    }
  }
}

struct Circ {
  using Field = F;
  using Config = verif::Config;
  uint64_t* ok;  // where the results of table cells go
  std::unique_ptr<Circ> WithoutWitness() const { return std::make_unique<Circ>(*this); }
  void Synthesize(Config&& config, Layouter<F>* layouter) const {
    const uint64_t* p = config.in;
    std::vector<Cell> cells;
    size_t k = 0;
    size_t n = *p++;
    for (size_t i = 0; i < n; ++i) {
      uint64_t kind = *p++;
      std::unique_ptr<NamespacedLayouter<F>> ns;
      Layouter<F>* l = layouter;
      if (kind >= 8) {
        ns = layouter->Namespace("n");
        l = ns.get();
        kind -= 8;
      }
      if (kind == 0) {
        const uint64_t* q = p;
        size_t kk = k;
        l->AssignRegion("r", [&](Region<F>& g) {
          p = q;
          k = kk;
          Ops(g, p, cells, k);
        });
      } else if (kind == 1) {
        size_t m = *p++;
        const uint64_t* q = p;
        l->AssignLookupTable("t", [&](LookupTable<F>& t) {
          const uint64_t* p = q;
          for (size_t j = 0; j < m; ++j) {
            LookupTableColumn c{FixedColumnKey(*p++)};
            RowIndex o = static_cast<RowIndex>(*p++);
            F v = At(p);
            ok[j] = t.AssignCell("t", c, o, [&v]() { return Value<F>::Known(v); });
          }
        });
        p += 3 * m;
      } else if (kind == 2) {
        Cell c = cells[*p++];
        InstanceColumnKey ic(*p++);
        RowIndex row = static_cast<RowIndex>(*p++);
        l->ConstrainInstance(c, ic, row);
      } else {
        // a challenge, read where a circuit would
        Value<F> v = l->GetChallenge(Challenge(*p++, kFirstPhase));
        (void)v;
      }
    }
  }
};

extern "C" void h_layout(const uint64_t* in, uint64_t* r, uint64_t v1, uint64_t table_cells) {
  // 40 words of instance values and challenges, the constant columns, the items
  const uint64_t* inst = in;
  in += 40;
  std::vector<FixedColumnKey> constants;
  size_t n = *in++;
  for (size_t i = 0; i < n; ++i) constants.push_back(FixedColumnKey(*in++));
  for (size_t i = 0; i < table_cells; ++i) r[i] = 2;
  Rec rec(r + table_cells, inst);
  Circ c{r};
  Config cfg{in};
  if (v1) {
    V1FloorPlanner<Circ> fp;
    fp.Synthesize(&rec, c, std::move(cfg), constants);
  } else {
    SimpleFloorPlanner<Circ> fp;
    fp.Synthesize(&rec, c, std::move(cfg), constants);
  }
  *rec.r++ = 0;
}
}  // namespace verif
