#ifndef VERIF_SHIM_DIE_IF_NULL_H_
#define VERIF_SHIM_DIE_IF_NULL_H_
#include "absl/log/check.h"
namespace verif_log { template <class T> T DieIfNull(T&& t) { CHECK(t != nullptr); return std::forward<T>(t); } }
#define ABSL_DIE_IF_NULL(x) ::verif_log::DieIfNull(x)
#endif
