// Stand-in for absl/base/nullability.h (abseil 20240722), absent from apt's abseil.
#ifndef VERIF_SHIM_ABSL_NULLABILITY_H_
#define VERIF_SHIM_ABSL_NULLABILITY_H_
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#endif
