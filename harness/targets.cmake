# Harness executables; part of the HDK build (included by cmake/inject.cmake).
set(H ${VERIF_ROOT}/harness)
set(OMNI ${CMAKE_SOURCE_DIR}/omniscidb)
get_target_property(V_INC QueryEngine INCLUDE_DIRECTORIES)
function(vharness name)
  cmake_parse_arguments(A "" "" "LIBS;DEFS" ${ARGN})
  if(EXISTS ${H}/${name}.cpp)
    add_executable(${name} EXCLUDE_FROM_ALL ${H}/${name}.cpp ${A_UNPARSED_ARGUMENTS})
    target_include_directories(${name} PRIVATE ${H} ${V_INC} ${OMNI})
    target_compile_definitions(${name} PRIVATE ${A_DEFS} VERIF_VARIANT_${VERIF_VARIANT}=1)
    target_link_libraries(${name} ${A_LIBS})
    set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
  endif()
endfunction()
vharness(h_engine LIBS QueryEngine QueryBuilder ConfigBuilder ResultSetRegistry)
vharness(h_sd LIBS StringDictionary Logger Utils Shared ${Boost_LIBRARIES} TBB::tbb)
vharness(h_misc ${OMNI}/Calcite/CalciteAdapter.cpp LIBS Logger Utils Shared IR ${Boost_LIBRARIES})
vharness(h_time ${OMNI}/QueryEngine/DateTruncate.cpp LIBS Logger Utils Shared IR ${Boost_LIBRARIES})
vharness(h_query LIBS QueryEngine QueryBuilder ConfigBuilder ResultSetRegistry)
vharness(h_dm LIBS DataMgr Logger Utils Shared IR ${Boost_LIBRARIES})
vharness(h_rt ${OMNI}/QueryEngine/MurmurHash.cpp ${OMNI}/QueryEngine/DynamicWatchdog.cpp ${OMNI}/QueryEngine/QuantileRuntime.cpp LIBS Logger Utils Shared IR ${Boost_LIBRARIES})
set(JRT ${OMNI}/QueryEngine/JoinHashTable/Runtime)
if(VERIF_VARIANT STREQUAL "tsan")
  set_source_files_properties(${H}/join_rt_unit.cpp PROPERTIES COMPILE_OPTIONS "--param=tsan-instrument-func-entry-exit=0")
endif()
vharness(h_join ${H}/join_rt_unit.cpp ${H}/join_cpu_unit.cpp ${OMNI}/QueryEngine/MurmurHash.cpp ${OMNI}/QueryEngine/DynamicWatchdog.cpp ${OMNI}/QueryEngine/QuantileRuntime.cpp LIBS StringDictionary Logger Utils Shared IR ${Boost_LIBRARIES} TBB::tbb)
vharness(h_ir LIBS Analyzer IR SchemaMgr StringDictionary Logger Utils Shared ${Boost_LIBRARIES})
vharness(h_alg ${OMNI}/QueryEngine/MurmurHash.cpp ${OMNI}/QueryEngine/DynamicWatchdog.cpp ${OMNI}/QueryEngine/QuantileRuntime.cpp LIBS ResultSet DataMgr StringDictionary Logger Utils Shared IR ${Boost_LIBRARIES} TBB::tbb)
vharness(h_rs LIBS ResultSet DataMgr StringDictionary Logger Utils Shared IR ${Boost_LIBRARIES} TBB::tbb)
vharness(h_svc LIBS SqliteConnector SchemaMgr CostModel ConfigBuilder Logger Utils Shared IR sqlite3 ${Boost_LIBRARIES} TBB::tbb)
vharness(h_plan LIBS QueryBuilder QueryOptimizer Analyzer SchemaMgr StringDictionary DataMgr Logger Utils Shared IR ${Boost_LIBRARIES} TBB::tbb)
