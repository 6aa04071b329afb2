// C18: sentry (C++17: not movable)
// STD: c++17
#include "vf.hpp"
#include <itlib/sentry.hpp>
#include "sentry.inc"
HARNESS(C18_17_scope_exit) { SCOPE_EXIT }
HARNESS(C18_17_early_return) { EARLY_RETURN }
HARNESS(C18_17_exception) { EXCEPTION }
HARNESS(C18_17_lvalue_func) { LVALUE_FUNC }
HARNESS(C18_17_rvalue_func) { RVALUE_FUNC }
HARNESS(C18_17_nested) { NESTED }
HARNESS(C18_17_func_pointer) { FUNC_POINTER }
