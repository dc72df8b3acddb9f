# CMAKE_PROJECT_INCLUDE of the HDK project: drops the Arrow-only sources and adds the harnesses.
if(NOT CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR)
  return()
endif()
include_directories(BEFORE ${CMAKE_CURRENT_LIST_DIR}/../arrow_stub)
set(VERIF_ROOT ${CMAKE_CURRENT_LIST_DIR}/..)
function(verif_inject)
  set_target_properties(Calcite PROPERTIES SOURCES CalciteStub.cpp)
  get_target_property(s ResultSet SOURCES)
  list(REMOVE_ITEM s ArrowResultSet.cpp ArrowResultSetConverter.cpp)
  set_target_properties(ResultSet PROPERTIES SOURCES "${s}")
  include(${VERIF_ROOT}/harness/targets.cmake)
endfunction()
cmake_language(DEFER CALL verif_inject)
