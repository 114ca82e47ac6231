#include "c15.hpp"
C15_BOTH(d)
