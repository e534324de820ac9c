// Linear-search model of the associative container (same interface contract,
// in particular insert() keeps an existing element). Include before the
// headers that use absl::flat_hash_map and wrap those includes with
//   #define flat_hash_map verif_map / #undef flat_hash_map
#ifndef VERIF_MAP_H_
#define VERIF_MAP_H_
#include <algorithm>
#include <memory>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
namespace absl {
template <typename K, typename V, typename... Rest>
struct verif_map {
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  using iterator = typename std::vector<value_type>::iterator;
  using const_iterator = typename std::vector<value_type>::const_iterator;
  std::vector<value_type> v;
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  iterator find(const K& k) {
    auto it = v.begin();
    for (; it != v.end(); ++it)
      if (it->first == k) break;
    return it;
  }
  const_iterator find(const K& k) const { return const_cast<verif_map*>(this)->find(k); }
  std::pair<iterator, bool> insert(value_type&& x) {
    auto it = find(x.first);
    if (it != v.end()) return {it, false};
    v.push_back(std::move(x));
    return {v.end() - 1, true};
  }
  std::pair<iterator, bool> insert(const value_type& x) { return insert(value_type(x)); }
  iterator insert(iterator, value_type&& x) { return insert(std::move(x)).first; }
  template <typename VV>
  std::pair<iterator, bool> insert_or_assign(const K& k, VV&& x) {
    auto it = find(k);
    if (it != v.end()) {
      it->second = std::forward<VV>(x);
      return {it, false};
    }
    return insert(value_type(k, std::forward<VV>(x)));
  }
  template <typename... A>
  std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    auto it = find(k);
    if (it != v.end()) return {it, false};
    return insert(value_type(k, V(std::forward<A>(a)...)));
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
  V& operator[](const K& k) {
    auto it = find(k);
    if (it == v.end()) it = insert(value_type(k, V())).first;
    return it->second;
  }
  V& at(const K& k) { return find(k)->second; }
  const V& at(const K& k) const { return find(k)->second; }
  bool contains(const K& k) const { return find(k) != v.end(); }
  size_t count(const K& k) const { return contains(k); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  void clear() { v.clear(); }
  void reserve(size_t) {}
  void erase(iterator it) { v.erase(it); }
  size_t erase(const K& k) {
    auto it = find(k);
    if (it == v.end()) return 0;
    v.erase(it);
    return 1;
  }
};
}  // namespace absl
#endif
