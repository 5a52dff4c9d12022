#ifndef VERIF_SHIM_FHS_H_
#define VERIF_SHIM_FHS_H_
#include "absl/container/vshim_flat.h"
namespace absl {
template <typename K> class flat_hash_set : public vshim::Table<K, K, vshim::Self> { public: using vshim::Table<K, K, vshim::Self>::Table; };
}
#endif
