// The real join hash table builders, in a unit of their own: under the race detector it is compiled without the
// function entry hooks (targets.cmake), because gcc also puts them in the load-time resolver of the per-CPU function
// versions, which runs before the detector is initialized. Memory accesses are instrumented as usual.
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp"
