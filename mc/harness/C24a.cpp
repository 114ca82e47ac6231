#include "C24.hpp"
using std::shared_ptr;
C24_SPACES(shared_ptr, "shared")
