// QueryEngine builds HashJoinRuntimeCpu.cpp with a precompiled header; give it the
// declarations that header provides and compile the real source.
#include "QueryEngine/RuntimeFunctions.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/JoinColumnIterator.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp"
