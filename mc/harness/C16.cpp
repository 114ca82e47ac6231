// C16, functional build (AddressSanitizer): values, release exactly once, no use after release.
#include "C16.hpp"
using namespace par;
MC_SPACE_X(ptr2, "pointer-2", "the counted pointer alone: 2 threads with every program of 2 (thorough 3) of 10 operations, every interleaving", 2, true) { pointers(2, mc::thorough() ? 3 : 2, mc::thorough() ? 4 : -1); }
MC_SPACE_X(ptr3, "pointer-3", "the counted pointer alone: 3 threads with every program of 1 (thorough 2) of 10 operations, at most 3 preemptions", 2, true) { pointers(3, mc::thorough() ? 2 : 1, 3); }
MC_SPACE_X(h1, "heap-2x1", "2 threads, 1 of 18 operations each, 3 ways of sharing, with and without a third owner, at most 2 (thorough 3) preemptions, dynamic", 3, true) { threads<H>(2, 1, mc::thorough() ? 3 : 2, all_ops()); }
MC_SPACE_X(b1, "buffer-2x1", "the same, finalized", 3, true) { threads<B>(2, 1, mc::thorough() ? 3 : 2, all_ops()); }
MC_SPACE_X(p1, "packet-2x1", "the same, packets of both forms", 3, true) { threads<P>(2, 1, mc::thorough() ? 3 : 2, all_ops()); }
MC_SPACE_X(h2, "heap-2x2", "2 threads, 2 of 9 (thorough 18) operations each, at most 1 (thorough 2) preemptions", 3, true) { threads<H>(2, 2, mc::thorough() ? 2 : 1, mc::thorough() ? all_ops() : few_ops(), false); }
MC_SPACE_X(p2, "packet-2x2", "the same, packets of both forms", 3, true) { threads<P>(2, 2, mc::thorough() ? 2 : 1, mc::thorough() ? all_ops() : few_ops(), false); }
MC_SPACE_X(h3, "heap-3x1", "3 threads, 1 of 9 (thorough 18) operations each, at most 1 (thorough 2) preemptions", 3, true) { threads<H>(3, 1, mc::thorough() ? 2 : 1, mc::thorough() ? all_ops() : few_ops(), false); }
MC_SPACE_X(p3, "packet-3x1", "the same, packets of both forms", 3, true) { threads<P>(3, 1, mc::thorough() ? 2 : 1, mc::thorough() ? all_ops() : few_ops(), false); }
