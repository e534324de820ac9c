// Linear model of the ordered containers (same interface contract).
#ifndef VERIF_OSET_H_
#define VERIF_OSET_H_
#include <algorithm>
#include <initializer_list>
#include <utility>
#include <vector>
#include "absl/container/btree_map.h"
#include "absl/container/btree_set.h"
namespace absl {
template <typename K, typename... Rest>
struct verif_oset {
  using key_type = K;
  using value_type = K;
  using const_iterator = typename std::vector<K>::const_iterator;
  using iterator = const_iterator;
  using const_reverse_iterator = typename std::vector<K>::const_reverse_iterator;
  using reverse_iterator = const_reverse_iterator;
  std::vector<K> v;
  verif_oset() = default;
  verif_oset(std::initializer_list<K> l) { insert(l.begin(), l.end()); }
  template <typename It>
  verif_oset(It a, It b) { insert(a, b); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  const_iterator cbegin() const { return v.begin(); }
  const_iterator cend() const { return v.end(); }
  const_reverse_iterator rbegin() const { return v.rbegin(); }
  const_reverse_iterator rend() const { return v.rend(); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  void clear() { v.clear(); }
  std::pair<iterator, bool> insert(const K& k) {
    auto it = v.begin();
    for (; it != v.end(); ++it) {
      if (*it == k) return {it, false};
      if (k < *it) break;
    }
    return {v.insert(it, k), true};
  }
  iterator insert(const_iterator, const K& k) { return insert(k).first; }
  template <typename It>
  void insert(It a, It b) {
    for (; a != b; ++a) insert(*a);
  }
  void insert(std::initializer_list<K> l) { insert(l.begin(), l.end()); }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  const_iterator find(const K& k) const { return std::find(v.begin(), v.end(), k); }
  bool contains(const K& k) const { return find(k) != v.end(); }
  size_t count(const K& k) const { return contains(k); }
  const_iterator lower_bound(const K& k) const {
    auto it = v.begin();
    while (it != v.end() && *it < k) ++it;
    return it;
  }
  const_iterator upper_bound(const K& k) const {
    auto it = lower_bound(k);
    if (it != v.end() && *it == k) ++it;
    return it;
  }
  iterator erase(const_iterator it) { return v.erase(it); }
  size_t erase(const K& k) {
    auto it = find(k);
    if (it == v.end()) return 0;
    v.erase(it);
    return 1;
  }
  bool operator==(const verif_oset& o) const { return v == o.v; }
  bool operator!=(const verif_oset& o) const { return !(v == o.v); }
  bool operator<(const verif_oset& o) const { return v < o.v; }
};
template <typename K, typename V, typename... Rest>
struct verif_omap {
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  using iterator = typename std::vector<value_type>::iterator;
  using const_iterator = typename std::vector<value_type>::const_iterator;
  std::vector<value_type> v;
  verif_omap() = default;
  verif_omap(const verif_omap& o) : v(o.v) {}
  verif_omap(verif_omap&& o) { v.swap(o.v); }
  verif_omap& operator=(const verif_omap& o) {
    if (this != &o) {
      std::vector<value_type> n(o.v);
      v.swap(n);
    }
    return *this;
  }
  verif_omap& operator=(verif_omap&& o) {
    v.swap(o.v);
    return *this;
  }
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  auto rbegin() { return v.rbegin(); }
  auto rend() { return v.rend(); }
  auto rbegin() const { return v.rbegin(); }
  auto rend() const { return v.rend(); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  void clear() { v.clear(); }
  iterator find(const K& k) {
    auto it = v.begin();
    for (; it != v.end(); ++it)
      if (it->first == k) break;
    return it;
  }
  const_iterator find(const K& k) const { return const_cast<verif_omap*>(this)->find(k); }
  std::pair<iterator, bool> insert(value_type x) {
    size_t i = 0;
    for (; i < v.size(); ++i) {
      if (v[i].first == x.first) return {v.begin() + i, false};
      if (x.first < v[i].first) break;
    }
    if (i == v.size()) {
      v.push_back(std::move(x));
      return {v.begin() + i, true};
    }
    std::vector<value_type> n;
    n.reserve(v.size() + 1);
    for (size_t j = 0; j < i; ++j) n.push_back(std::move(v[j]));
    n.push_back(std::move(x));
    for (size_t j = i; j < v.size(); ++j) n.push_back(std::move(v[j]));
    v.swap(n);
    return {v.begin() + i, true};
  }
  template <typename... A>
  std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    auto it = find(k);
    if (it != v.end()) return {it, false};
    return insert(value_type(k, V(std::forward<A>(a)...)));
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
  V& operator[](const K& k) {
    auto it = find(k);
    if (it == v.end()) it = insert(value_type(k, V())).first;
    return it->second;
  }
  V& at(const K& k) { return find(k)->second; }
  const V& at(const K& k) const { return find(k)->second; }
  bool contains(const K& k) const { return find(k) != v.end(); }
  size_t count(const K& k) const { return contains(k); }
  iterator erase(iterator it) {
    size_t i = it - v.begin();
    std::vector<value_type> n;
    n.reserve(v.size());
    for (size_t j = 0; j < v.size(); ++j)
      if (j != i) n.push_back(std::move(v[j]));
    v.swap(n);
    return v.begin() + i;
  }
  size_t erase(const K& k) {
    auto it = find(k);
    if (it == v.end()) return 0;
    erase(it);
    return 1;
  }
  bool operator==(const verif_omap& o) const { return v == o.v; }
};
}  // namespace absl
#endif
