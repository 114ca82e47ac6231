#include "C24.hpp"
using dart::unsafe_ptr;
C24_SPACES(unsafe_ptr, "unsafe")
