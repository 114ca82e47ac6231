#include "c15.hpp"
C15_BOTH(c)
