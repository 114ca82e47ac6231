#include "C24.hpp"
C24_SPACES(tracked_ptr, "user-supplied")
