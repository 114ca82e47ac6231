// Allocation accounting and fault injection. operator new and posix_memalign are the only allocators the
// library uses; both consult the same countdown. Deallocation is never failed.
#include "mc.hpp"
#include <cerrno>
#include <cstdlib>
#include <new>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MC_ASAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define MC_ASAN 1
#endif
#ifdef MC_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace mc { size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); } }
#else
namespace mc { size_t live_bytes() { return 0; } }
#endif
namespace mc {
thread_local long long alloc_fail_at = -1, alloc_seen = 0;
static bool trip() { ++alloc_seen; return alloc_fail_at >= 0 && alloc_fail_at-- == 0; }
}
#ifndef MC_TSAN
void* operator new(size_t n) { if (mc::trip()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { if (mc::trip()) return nullptr; return malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" int __wrap_posix_memalign(void** out, size_t a, size_t n) { if (mc::trip()) return ENOMEM; return __real_posix_memalign(out, a, n); }
