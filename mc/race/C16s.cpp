// C16, race build, with the library's skinny_ptr itself: threads switch between operations only, and every pair of conflicting
// accesses has to be ordered by the counter's own synchronisation.
#define MC_COUNTED dart::skinny_ptr
#define par par_skinny
#include "../harness/C16.hpp"
using namespace par;
MC_SPACE_X(ptr2, "race-skinny-pointer", "skinny_ptr alone under the race detector: 2 threads, every program of 2 of 10 operations, every interleaving of whole operations", 2, true) { pointers(2, 2, -1); }
MC_SPACE_X(h1, "race-skinny-heap", "skinny_ptr: 2 threads, 1 of 18 operations each, 3 ways of sharing, every order, under the race detector", 3, true) { threads<H>(2, 1, -1, all_ops(), false); }
MC_SPACE_X(b1, "race-skinny-buffer", "the same, finalized", 3, true) { threads<B>(2, 1, -1, all_ops(), false); }
MC_SPACE_X(p1, "race-skinny-packet", "the same, packets of both forms", 3, true) { threads<P>(2, 1, -1, all_ops(), false); }
