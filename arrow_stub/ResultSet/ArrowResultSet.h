// Stand-in for omniscidb/ResultSet/ArrowResultSet.h, which needs Arrow C++.
#pragma once
#include "DataMgr/DataMgr.h"
#include "IR/TargetMetaInfo.h"
#include "ResultSet/ResultSet.h"
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "arrow/api.h"
class ArrowResultSetConverter {
 public:
  template <typename... A>
  ArrowResultSetConverter(A&&...) {}
  std::shared_ptr<arrow::Table> convertToArrowTable() const {
    throw std::runtime_error("Arrow is not available in this build");
  }
};
