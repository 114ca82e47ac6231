// C16, race build (ThreadSanitizer): under every schedule of a smaller bound, no two conflicting accesses are
// unordered by the library's own synchronisation.
#include "../harness/C16.hpp"
using namespace par;
MC_SPACE_X(ptr2, "race-pointer", "the counted pointer alone under the race detector: 2 threads, every program of 1 (thorough 2) of 10 operations, every interleaving", 2, true) { pointers(2, mc::thorough() ? 2 : 1, -1); }
MC_SPACE_X(h1, "race-heap", "2 threads, 1 of 18 operations each, 3 ways of sharing, at most 2 (thorough 3) preemptions, under the race detector", 3, true) { threads<H>(2, 1, mc::thorough() ? 3 : 2, all_ops(), mc::thorough()); }
MC_SPACE_X(b1, "race-buffer", "the same, finalized", 3, true) { threads<B>(2, 1, mc::thorough() ? 3 : 2, all_ops(), mc::thorough()); }
MC_SPACE_X(p1, "race-packet", "the same, packets of both forms", 3, true) { threads<P>(2, 1, mc::thorough() ? 3 : 2, all_ops(), mc::thorough()); }
