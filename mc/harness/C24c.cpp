#include "C24.hpp"
using dart::skinny_ptr;
C24_SPACES(skinny_ptr, "skinny")
