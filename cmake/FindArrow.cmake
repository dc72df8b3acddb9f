# Arrow C++ is not installed. Only the few declarations that the Arrow-free code names are supplied (arrow_stub).
set(Arrow_FOUND TRUE)
set(Arrow_LIBRARIES "")
set(Arrow_INCLUDE_DIRS "${CMAKE_CURRENT_LIST_DIR}/../arrow_stub")
