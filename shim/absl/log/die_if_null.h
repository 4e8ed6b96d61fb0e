#pragma once
#include <utility>
#include "absl/log/check.h"
namespace verif_shim {
template <typename T> T DieIfNull(const char *f, int l, const char *e, T &&t) {
  if (t == nullptr) Fatal(f, l, e).stream() << " is null";
  return std::forward<T>(t);
}
}  // namespace verif_shim
#define ABSL_DIE_IF_NULL(v) ::verif_shim::DieIfNull(__FILE__, __LINE__, #v, (v))
