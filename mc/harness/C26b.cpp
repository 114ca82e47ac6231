#include "C26.hpp"
using dart::unsafe_ptr;
C26_SPACES(unsafe_ptr, "unsafe")
