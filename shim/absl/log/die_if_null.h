#ifndef VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#define VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#include <utility>
#include "absl/log/log.h"
template <class T> T verif_die_if_null(T&& t) { CHECK(t != nullptr) << "is null"; return std::forward<T>(t); }
#define ABSL_DIE_IF_NULL(p) verif_die_if_null(p)
#endif
