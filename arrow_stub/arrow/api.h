// Not Arrow. The minimum that lets HDK sources which merely *name* arrow types
// in a signature compile; nothing here is ever executed by a check.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "arrow/status.h"
namespace arrow {
class Table {};
template <typename T>
struct Result {
  T v;
  Status status() const { return Status(); }
  T MoveValueUnsafe() && { return std::move(v); }
};
inline Result<std::shared_ptr<Table>> ConcatenateTables(
    const std::vector<std::shared_ptr<Table>>&) {
  return {};
}
}  // namespace arrow
