#include "C26.hpp"
using std::shared_ptr;
C26_SPACES(shared_ptr, "shared")
