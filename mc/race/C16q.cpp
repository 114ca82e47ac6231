// C16, race build, with a counter that promises no more than std::shared_ptr's: reading the count is a relaxed load.
// Fences are shown to the race detector, which does not know them by itself.
#include <atomic>
#include <memory>
#include <string>
namespace sched { void fence(); }
namespace std { inline void mc_thread_fence(memory_order o) { if (o != memory_order_relaxed && o != memory_order_release) sched::fence(); } }
#define atomic_thread_fence mc_thread_fence
#include "../sched.hpp"
#include <dart.h>
template <class T> using relaxed_ptr = std::conditional_t<std::is_array<T>::value, dart::detail::counted_array_ptr_impl<T, sched::RelaxedCounter>, dart::detail::counted_ptr_impl<T, sched::RelaxedCounter>>;
#define MC_COUNTED relaxed_ptr
#define par par_relaxed
#include "../harness/C16.hpp"
using namespace par;
MC_SPACE_X(ptr2, "race-relaxed-pointer", "the counted pointer when reading the count orders nothing (as with std::shared_ptr), under the race detector: 2 threads, every program of 1 of 10 operations, every interleaving", 2, true) { pointers(2, 1, -1); }
MC_SPACE_X(h1, "race-relaxed-heap", "the same counter: 2 threads, 1 of 18 operations each, 3 ways of sharing, at most 2 (thorough 3) preemptions, under the race detector", 3, true) { threads<H>(2, 1, mc::thorough() ? 3 : 2, all_ops(), false); }
MC_SPACE_X(p1, "race-relaxed-packet", "the same, packets of both forms", 3, true) { threads<P>(2, 1, mc::thorough() ? 3 : 2, all_ops(), false); }
