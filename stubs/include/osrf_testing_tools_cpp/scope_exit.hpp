#include "rcpputils/scope_exit.hpp"
#define OSRF_TESTING_TOOLS_CPP_SCOPE_EXIT(code) \
  auto RCPPUTILS_SE_CAT(osrf_scope_exit_, __LINE__) = rcpputils::make_scope_exit([&]() {code;})
