// The container headers only need absl::Cord to exist.
#pragma once
#include "absl/strings/string_view.h"
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Cord {
 public:
  Cord() = default;
  friend bool operator==(const Cord &, const Cord &) { return true; }
  friend bool operator==(const Cord &, string_view) { return false; }
  friend bool operator==(string_view, const Cord &) { return false; }
  int Compare(const Cord &) const { return 0; }
  int Compare(string_view) const { return 0; }
  template <typename H> friend H AbslHashValue(H h, const Cord &) { return h; }
};
ABSL_NAMESPACE_END
}  // namespace absl
