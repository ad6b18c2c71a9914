// Shim: map semantics only (linear search; iteration order is insertion order).
#pragma once
#include <stdexcept>
#include <utility>
#include <vector>
#include <functional>
#include <initializer_list>
namespace absl {
template <typename K> struct Hash { };
template <typename K, typename V, typename H = void, typename E = void>
class flat_hash_map {
 public:
  using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
 private:
  struct Node { value_type kv; template <typename... A> Node(A&&... a) : kv(std::forward<A>(a)...) {} };
  std::vector<value_type*> v_;
 public:
  template <bool C> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = typename flat_hash_map::value_type; using difference_type = long; using reference = typename std::conditional<C, const value_type&, value_type&>::type; using pointer = typename std::conditional<C, const value_type*, value_type*>::type;
    typename flat_hash_map::value_type* const* p = nullptr;
    It() {} explicit It(typename flat_hash_map::value_type* const* q) : p(q) {}
    It(const It<false>& o) : p(o.p) {}
    reference operator*() const { return **p; } pointer operator->() const { return *p; }
    It& operator++() { ++p; return *this; } It operator++(int) { It t = *this; ++p; return t; }
    template <bool D> bool operator==(const It<D>& o) const { return p == o.p; } template <bool D> bool operator!=(const It<D>& o) const { return p != o.p; }
  };
  using iterator = It<false>; using const_iterator = It<true>; using size_type = size_t;
  flat_hash_map() {}
  template <typename I> flat_hash_map(I a, I b) { for (; a != b; ++a) emplace(a->first, a->second); }
  flat_hash_map(std::initializer_list<value_type> l) { for (auto& x : l) emplace(x.first, x.second); }
  flat_hash_map(const flat_hash_map& o) { for (auto* n : o.v_) v_.push_back(new value_type(*n)); }
  flat_hash_map(flat_hash_map&& o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  flat_hash_map& operator=(const flat_hash_map& o) { if (this != &o) { clear(); for (auto* n : o.v_) v_.push_back(new value_type(*n)); } return *this; }
  flat_hash_map& operator=(flat_hash_map&& o) noexcept { if (this != &o) { clear(); v_ = std::move(o.v_); o.v_.clear(); } return *this; }
  ~flat_hash_map() { clear(); }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); } const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); }
  void clear() { for (auto* n : v_) delete n; v_.clear(); }
  void reserve(size_t) {}
  void swap(flat_hash_map& o) { v_.swap(o.v_); }
  template <typename Q> iterator find(const Q& k) { for (auto& n : v_) if (n->first == k) return iterator(&n); return end(); }
  template <typename Q> const_iterator find(const Q& k) const { for (auto& n : v_) if (n->first == k) return const_iterator(&n); return end(); }
  template <typename Q> size_t count(const Q& k) const { return find(k) != end(); }
  template <typename Q> bool contains(const Q& k) const { return find(k) != end(); }
  template <typename Q> V& at(const Q& k) { auto i = find(k); if (i == end()) std::__throw_out_of_range("flat_hash_map::at"); return i->second; }
  template <typename Q> const V& at(const Q& k) const { auto i = find(k); if (i == end()) std::__throw_out_of_range("flat_hash_map::at"); return i->second; }
  V& operator[](const K& k) { auto i = find(k); if (i != end()) return i->second; v_.push_back(new value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple())); return v_.back()->second; }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { auto* n = new value_type(std::forward<A>(a)...); auto i = find(n->first); if (i != end()) { delete n; return {i, false}; } v_.push_back(n); return {iterator(&v_.back()), true}; }
  template <typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) { auto i = find(k); if (i != end()) return {i, false}; v_.push_back(new value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...))); return {iterator(&v_.back()), true}; }
  std::pair<iterator, bool> insert(const value_type& x) { return emplace(x); }
  std::pair<iterator, bool> insert(value_type&& x) { return emplace(std::move(x)); }
  template <typename P> std::pair<iterator, bool> insert(P&& x) { return emplace(std::forward<P>(x)); }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) emplace(a->first, a->second); }
  size_t erase(const K& k) { for (size_t i = 0; i < v_.size(); i++) if (v_[i]->first == k) { delete v_[i]; v_.erase(v_.begin() + i); return 1; } return 0; }
  iterator erase(const_iterator it) { size_t i = it.p - v_.data(); delete v_[i]; v_.erase(v_.begin() + i); return iterator(v_.data() + i); }
  iterator erase(iterator it) { return erase(const_iterator(it)); }
};
}  // namespace absl
