#pragma once
#include <vector>
#include <utility>
#include <initializer_list>
namespace absl {
template <typename K, typename H = void, typename E = void>
class flat_hash_set {
  std::vector<K> v_;
 public:
  using value_type = K; using key_type = K; using iterator = typename std::vector<K>::const_iterator; using const_iterator = iterator; using size_type = size_t; using reference = const K&; using const_reference = const K&;
  flat_hash_set() {}
  template <typename I> flat_hash_set(I a, I b) { for (; a != b; ++a) insert(*a); }
  flat_hash_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); }
  iterator begin() const { return v_.begin(); } iterator end() const { return v_.end(); }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void reserve(size_t) {}
  iterator find(const K& k) const { for (auto i = v_.begin(); i != v_.end(); ++i) if (*i == k) return i; return v_.end(); }
  size_t count(const K& k) const { return find(k) != end(); } bool contains(const K& k) const { return find(k) != end(); }
  std::pair<iterator, bool> insert(const K& k) { auto i = find(k); if (i != end()) return {i, false}; v_.push_back(k); return {v_.end() - 1, true}; }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; v_.erase(i); return 1; }
  iterator erase(iterator i) { return v_.erase(i); }
  friend bool operator==(const flat_hash_set& a, const flat_hash_set& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (!b.contains(x)) return false; return true; }
  friend bool operator!=(const flat_hash_set& a, const flat_hash_set& b) { return !(a == b); }
};
}  // namespace absl
