#ifndef VERIF_SHIM_FHM_H_
#define VERIF_SHIM_FHM_H_
#include "absl/container/vshim_flat.h"
namespace absl {
template <typename K, typename V> class flat_hash_map : public vshim::Table<K, std::pair<const K, V>, vshim::First> {
  using B = vshim::Table<K, std::pair<const K, V>, vshim::First>;
 public:
  using mapped_type = V;
  using B::B;
  template <typename... A> auto try_emplace(const K& k, A&&... a) { return B::Emplace(k, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...)); }
  template <typename M> auto insert_or_assign(const K& k, M&& m) { auto r = B::Emplace(k, k, m); if (!r.second) r.first->second = std::forward<M>(m); return r; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  V& at(const K& k) { auto i = B::find(k); ABSL_CHECK(i != B::end()); return i->second; }
  const V& at(const K& k) const { auto i = B::find(k); ABSL_CHECK(i != B::end()); return i->second; }
};
}
#endif
