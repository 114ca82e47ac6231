#include "C26.hpp"
C26_SPACES(tracked_ptr, "user-supplied")
