// Stand-in for the robin_hood hash map of the library's default build option (the real one is not in this sandbox).
// Same interface, and the least its documentation promises: ANY insertion moves every element, so references and iterators
// taken before one are outdated afterwards. Outdated storage is overwritten with a pattern that is no number and no address.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <new>
#include <unordered_map>
#include <utility>
#include <stdexcept>
namespace robin_hood {
template <class A, class B> struct pair { A first; B second; };
template <class K, class V> class unordered_flat_map {
 public:
  using key_type = K; using mapped_type = V; using value_type = pair<K, V>; using size_type = size_t; using iterator = value_type*; using const_iterator = const value_type*; using reference = value_type&;
 private:
  value_type *b = nullptr, *old = nullptr; size_t n = 0, oldn = 0; std::unordered_map<K, size_t> ix;
  static value_type* get(size_t k) { return k ? static_cast<value_type*>(::operator new(k * sizeof(value_type))) : nullptr; }
  void retire(value_type* p, size_t k) { if (!p) return; for (size_t i = 0; i < k; ++i) p[i].~value_type(); memset((void*)p, 0xff, k * sizeof(value_type)); if (old) ::operator delete(old); old = p; oldn = k; }
  // room for one more element, at the front or at the back in turn: every element changes its place
  value_type& grow(const K& key) {
    K k = key; value_type* nb = get(n + 1); size_t at = n % 2 ? 0 : n, sh = at ? 0 : 1; if (!n) sh = 0;
    for (size_t i = 0; i < n; ++i) new (nb + i + sh) value_type{b[i].first, std::move(b[i].second)};
    new (nb + at) value_type{k, V{}}; if (sh) for (auto& e : ix) ++e.second; ix[k] = at; retire(b, n); b = nb; ++n; return b[at];
  }
  void drop() { if (b) retire(b, n); b = nullptr; n = 0; ix.clear(); }
  void copy(const unordered_flat_map& o) { n = o.n; b = get(n); for (size_t i = 0; i < n; ++i) new (b + i) value_type{o.b[i].first, o.b[i].second}; ix = o.ix; }
 public:
  unordered_flat_map() = default;
  explicit unordered_flat_map(size_t) {}
  unordered_flat_map(std::initializer_list<std::pair<K, V>> l) { for (auto& e : l) insert(e); }
  unordered_flat_map(const unordered_flat_map& o) { copy(o); }
  unordered_flat_map(unordered_flat_map&& o) noexcept : b(o.b), n(o.n), ix(std::move(o.ix)) { o.b = nullptr; o.n = 0; o.ix.clear(); }
  unordered_flat_map& operator=(const unordered_flat_map& o) { if (this != &o) { drop(); copy(o); } return *this; }
  unordered_flat_map& operator=(unordered_flat_map&& o) noexcept { if (this != &o) { drop(); b = o.b; n = o.n; ix = std::move(o.ix); o.b = nullptr; o.n = 0; o.ix.clear(); } return *this; }
  ~unordered_flat_map() { drop(); if (old) ::operator delete(old); }
  iterator begin() { return b; } iterator end() { return b + n; } const_iterator begin() const { return b; } const_iterator end() const { return b + n; } const_iterator cbegin() const { return b; } const_iterator cend() const { return b + n; }
  size_t size() const { return n; } bool empty() const { return !n; } void clear() { drop(); } void reserve(size_t) {} void rehash(size_t) {} 
  iterator find(const K& k) { auto i = ix.find(k); return i == ix.end() ? end() : b + i->second; }
  const_iterator find(const K& k) const { auto i = ix.find(k); return i == ix.end() ? end() : b + i->second; }
  bool contains(const K& k) const { return ix.count(k); } size_t count(const K& k) const { return ix.count(k); }
  V& operator[](const K& k) { auto i = ix.find(k); return i == ix.end() ? grow(k).second : b[i->second].second; }
  V& at(const K& k) { auto i = ix.find(k); if (i == ix.end()) throw std::out_of_range("robin_hood"); return b[i->second].second; }
  const V& at(const K& k) const { auto i = ix.find(k); if (i == ix.end()) throw std::out_of_range("robin_hood"); return b[i->second].second; }
  template <class P> std::pair<iterator, bool> insert(P&& p) { return emplace(p.first, p.second); }
  template <class... A> std::pair<iterator, bool> emplace(const K& k, A&&... a) { return try_emplace(k, std::forward<A>(a)...); }
  template <class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) { auto i = ix.find(k); if (i != ix.end()) return {b + i->second, false}; K kk = k; V v(std::forward<A>(a)...); auto& e = grow(kk); e.second = std::move(v); return {&e, true}; }
  template <class M> std::pair<iterator, bool> insert_or_assign(const K& k, M&& m) { auto i = ix.find(k); if (i != ix.end()) { b[i->second].second = std::forward<M>(m); return {b + i->second, false}; } return try_emplace(k, std::forward<M>(m)); }
  size_t erase(const K& key) { auto i = ix.find(key); if (i == ix.end()) return 0; size_t at = i->second; ix.erase(i); value_type* nb = get(n - 1); size_t j = 0; for (size_t k = 0; k < n; ++k) if (k != at) { new (nb + j) value_type{b[k].first, std::move(b[k].second)}; ix[nb[j].first] = j; ++j; } retire(b, n); b = nb; --n; return 1; }
  iterator erase(const_iterator it) { size_t at = it - b; K k = it->first; erase(k); return b + at; }
  void swap(unordered_flat_map& o) { std::swap(*this, o); }
};
template <class K, class V> using unordered_map = unordered_flat_map<K, V>;
template <class K, class V> using unordered_node_map = unordered_flat_map<K, V>;
} // namespace robin_hood
