#pragma once
#include <string>
namespace arrow {
enum class StatusCode : char { OK = 0, OutOfMemory = 1 };
struct Status {
  bool ok() const { return true; }
  StatusCode code() const { return StatusCode::OK; }
  std::string ToString() const { return "OK"; }
};
}  // namespace arrow
