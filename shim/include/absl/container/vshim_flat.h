// Open-addressing table behind flat_hash_{map,set}. As in abseil, growth moves
// elements (so ASan sees a stale reference) and iteration order is arbitrary:
// it depends on vshim::g_hash_salt.
#ifndef VERIF_SHIM_FLAT_H_
#define VERIF_SHIM_FLAT_H_
#include <cstddef>
#include <vector>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <utility>
#include "absl/hash/hash.h"
#include "absl/log/absl_check.h"
namespace vshim {
template <typename K, typename V, typename KeyOf> class Table {
  struct Slot { unsigned char st = 0; alignas(V) unsigned char b[sizeof(V)]; V* p() { return std::launder(reinterpret_cast<V*>(b)); } };
 public:
  using key_type = K; using value_type = V; using size_type = size_t; using difference_type = ptrdiff_t; using pointer = V*; using reference = V&; using const_reference = const V&;
  template <bool C> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = V; using difference_type = ptrdiff_t;
    using pointer = std::conditional_t<C, const V*, V*>; using reference = std::conditional_t<C, const V&, V&>;
    Slot* s = nullptr; Slot* e = nullptr;
    It() = default; It(Slot* s_, Slot* e_) : s(s_), e(e_) {}
    operator It<true>() const { return {s, e}; }
    reference operator*() const { return *s->p(); }
    pointer operator->() const { return s->p(); }
    It& operator++() { ++s; Skip(); return *this; }
    It operator++(int) { It r = *this; ++*this; return r; }
    void Skip() { while (s != e && s->st != 1) ++s; }
    friend bool operator==(const It& a, const It& b) { return a.s == b.s; }
    friend bool operator!=(const It& a, const It& b) { return a.s != b.s; }
  };
  using iterator = It<false>; using const_iterator = It<true>;
  Table() : salt_(g_hash_salt) {}
  template <typename I> Table(I a, I b) : Table() { for (; a != b; ++a) insert(*a); }
  Table(std::initializer_list<V> l) : Table() { for (auto& v : l) insert(v); }
  Table(const Table& o) : Table() { for (auto& v : o) insert(v); }
  Table(Table&& o) noexcept : salt_(o.salt_) { Swap(o); }
  Table& operator=(const Table& o) { if (this != &o) { Table t(o); Swap(t); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { Table t(std::move(o)); Swap(t); } return *this; }
  ~Table() { Free(); }
  iterator begin() { iterator i{s_, s_ + cap_}; i.Skip(); return i; }
  iterator end() { return {s_ + cap_, s_ + cap_}; }
  const_iterator begin() const { const_iterator i{s_, s_ + cap_}; i.Skip(); return i; }
  const_iterator end() const { return {s_ + cap_, s_ + cap_}; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void clear() { for (size_t i = 0; i < cap_; ++i) { if (s_[i].st == 1) s_[i].p()->~V(); s_[i].st = 0; } n_ = used_ = 0; }
  void reserve(size_t n) { size_t c = 8; while (c * 7 / 8 < n + 1) c *= 2; if (c > cap_) Rehash(c); }
  template <typename Q> iterator find(const Q& k) { return {s_ + Pos(K(k)), s_ + cap_}; }
  template <typename Q> const_iterator find(const Q& k) const { return {s_ + Pos(K(k)), s_ + cap_}; }
  template <typename Q> bool contains(const Q& k) const { return Pos(K(k)) != cap_; }
  template <typename Q> size_t count(const Q& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const V& v) { return Emplace(KeyOf()(v), v); }
  std::pair<iterator, bool> insert(V&& v) { K k = KeyOf()(v); return Emplace(k, std::move(v)); }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  template <typename I, std::enable_if_t<!std::is_same_v<I, const_iterator> && !std::is_same_v<I, iterator>, int> = 0> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(V(std::forward<A>(a)...)); }
  void erase(const_iterator i) { i.s->p()->~V(); i.s->st = 2; --n_; }
  void erase(iterator i) { erase(const_iterator(i)); }
  size_t erase(const K& k) { size_t p = Pos(k); if (p == cap_) return 0; erase(const_iterator(s_ + p, s_ + cap_)); return 1; }
  void swap(Table& o) { Swap(o); }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.n_ != b.n_) return false;
    for (auto& v : a) { auto i = b.find(KeyOf()(v)); if (i == b.end() || !(*i == v)) return false; }
    return true;
  }
 protected:
  template <typename... A> std::pair<iterator, bool> Emplace(const K& k, A&&... a) {
    size_t p = Pos(k);
    if (p != cap_) return {iterator(s_ + p, s_ + cap_), false};
    if ((used_ + 1) * 8 > cap_ * 7) {
      // Build the element first: the arguments may alias the old storage.
      V tmp(std::forward<A>(a)...);
      Rehash(std::max<size_t>(8, n_ * 2 >= cap_ ? cap_ * 2 : cap_));
      return {Place(std::move(tmp)), true};
    }
    return {Place(std::forward<A>(a)...), true};
  }
  size_t Pos(const K& k) const {
    if (!cap_) return 0;
    for (size_t i = H(k), c = 0; c < cap_; i = (i + 1) & (cap_ - 1), ++c) { if (s_[i].st == 0) return cap_; if (s_[i].st == 1 && KeyOf()(*s_[i].p()) == k) return i; }
    return cap_;
  }
  template <typename... A> iterator Place(A&&... a) {
    // Constructed aside so that the key is known before choosing a slot.
    V tmp(std::forward<A>(a)...);
    size_t i = H(KeyOf()(tmp));
    while (s_[i].st == 1) i = (i + 1) & (cap_ - 1);
    if (s_[i].st == 0) ++used_;
    new (s_[i].b) V(std::move(tmp));
    s_[i].st = 1; ++n_;
    return {s_ + i, s_ + cap_};
  }
  size_t H(const K& k) const { uint64_t x = HS::combine(HS{salt_ + 0x51ed27}, k).h; x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32; return x & (cap_ - 1); }
  void Rehash(size_t c) {
    Slot* o = s_; size_t oc = cap_;
    s_ = new Slot[c]; cap_ = c; n_ = used_ = 0;
    for (size_t i = 0; i < oc; ++i) if (o[i].st == 1) { Place(std::move(*o[i].p())); o[i].p()->~V(); }
    delete[] o;
  }
  void Free() { clear(); delete[] s_; s_ = nullptr; cap_ = 0; }
  void Swap(Table& o) { std::swap(s_, o.s_); std::swap(cap_, o.cap_); std::swap(n_, o.n_); std::swap(used_, o.used_); std::swap(salt_, o.salt_); }
  Slot* s_ = nullptr; size_t cap_ = 0, n_ = 0, used_ = 0; uint64_t salt_ = 0;
};
struct First { template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct Self { template <typename P> const P& operator()(const P& p) const { return p; } };
}
#endif
