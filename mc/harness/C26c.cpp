#include "C26.hpp"
using dart::skinny_ptr;
C26_SPACES(skinny_ptr, "skinny")
