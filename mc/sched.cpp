#include "sched.hpp"
#include "mc.hpp"
#include <cstdlib>
#include <exception>
#include <sys/mman.h>
#include <ucontext.h>
#ifdef MC_TSAN
extern "C" { void* __tsan_get_current_fiber(void); void* __tsan_create_fiber(unsigned); void __tsan_destroy_fiber(void*); void __tsan_switch_to_fiber(void*, unsigned); void AnnotateIgnoreReadsBegin(char const*, int); void AnnotateIgnoreReadsEnd(char const*, int); void AnnotateIgnoreWritesBegin(char const*, int); void AnnotateIgnoreWritesEnd(char const*, int); void __tsan_acquire(void*); void __tsan_release(void*); }
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MC_ASAN 1
extern "C" { void __sanitizer_start_switch_fiber(void**, void const*, size_t); void __sanitizer_finish_switch_fiber(void*, void const**, size_t*); void __asan_unpoison_memory_region(void const volatile*, size_t); }
# endif
#endif
namespace sched {
namespace {
constexpr int kMax = 4; constexpr size_t kStack = 512 * 1024;
struct Fiber { ucontext_t ctx; char* stack = nullptr; void* fake = nullptr; void* tsan = nullptr; std::function<void()> const* body = nullptr; bool done = true; } fibers[kMax];
int pick(int n) {
#ifdef MC_TSAN
  struct Ignore { Ignore() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } ~Ignore() { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } } ignore; return mc::choose(n);
#else
  return mc::choose(n);
#endif
}
ucontext_t main_ctx; void *main_fake, *main_tsan; void const* main_bottom; size_t main_size; int cur = -1, count, left; uint64_t passed; std::exception_ptr thrown; std::string complaint; char join_token;
void entered(void* fake) {
#ifdef MC_ASAN
  if (cur >= 0) __sanitizer_finish_switch_fiber(fake, main_bottom ? nullptr : &main_bottom, main_size ? nullptr : &main_size); else __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
}
void go(int to, bool dying) {       // to < 0: back to the caller of run()
  int from = cur; ucontext_t* a = from < 0 ? &main_ctx : &fibers[from].ctx; ucontext_t* b = to < 0 ? &main_ctx : &fibers[to].ctx; cur = to;
#ifdef MC_TSAN
  __tsan_switch_to_fiber(to < 0 ? main_tsan : fibers[to].tsan, 1);
#elif defined(MC_ASAN)
  __sanitizer_start_switch_fiber(dying ? nullptr : from < 0 ? &main_fake : &fibers[from].fake, to < 0 ? main_bottom : fibers[to].stack, to < 0 ? main_size : kStack);
#endif
  swapcontext(a, b);
  entered(from < 0 ? main_fake : fibers[from].fake);
}
int others(int* out) { int n = 0; for (int i = 0; i < count; ++i) if (i != cur && !fibers[i].done) out[n++] = i; return n; }
void start() {
  entered(nullptr); Fiber& f = fibers[cur];
  try { (*f.body)(); } catch (...) { if (!thrown) thrown = std::current_exception(); }
  f.done = true;
#ifdef MC_TSAN
  __tsan_release(&join_token);
#endif
  int o[kMax], n = others(o); if (thrown || !n) go(-1, true); else go(o[n > 1 ? pick(n) : 0], true);
  abort();
}
}
static void const* reads[kMax][8]; static int nreads[kMax];
void loaded(void const* at) { if (cur >= 0) reads[cur][nreads[cur]++ % 8] = at; }
void fence() {
#ifdef MC_TSAN
  if (cur >= 0) for (int i = 0; i < nreads[cur] && i < 8; ++i) __tsan_acquire(const_cast<void*>(reads[cur][i]));
#endif
  if (cur >= 0) nreads[cur] = 0;
}
bool running() { return cur >= 0; }
int self() { return cur; }
uint64_t points() { return passed; }
void complain(char const* what) { if (complaint.empty()) { mc::NoFault nf; complaint = what; } }
void point() {
  if (cur < 0) return; ++passed; if (!left) return;
  int o[kMax], n = others(o); if (!n) return;
  int k = pick(n + 1); if (!k) return; if (left > 0) --left; go(o[k - 1], false);
}
void run(std::vector<std::function<void()>> const& threads, int bound) {
  count = (int) threads.size(); left = bound; passed = 0; thrown = nullptr; complaint.clear(); cur = -1;
#ifdef MC_TSAN
  main_tsan = __tsan_get_current_fiber();
#endif
  for (int i = 0; i < count; ++i) {
    Fiber& f = fibers[i]; if (!f.stack) f.stack = (char*) mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#ifdef MC_ASAN
    __asan_unpoison_memory_region(f.stack, kStack);
#endif
#ifdef MC_TSAN
    f.tsan = __tsan_create_fiber(0);
#endif
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = kStack; f.ctx.uc_link = nullptr; makecontext(&f.ctx, (void (*)()) start, 0); f.body = &threads[i]; f.done = false; f.fake = nullptr; nreads[i] = 0;
  }
  go(count > 1 ? pick(count) : 0, false);
#ifdef MC_TSAN
  __tsan_acquire(&join_token);
  for (int i = 0; i < count; ++i) { __tsan_destroy_fiber(fibers[i].tsan); fibers[i].tsan = nullptr; }
#endif
  mc::step(passed + 1);
  if (thrown) { auto e = thrown; thrown = nullptr; std::rethrow_exception(e); }
  if (!complaint.empty()) { auto c = complaint; mc::fail(c, c); }
}
}
#ifdef MC_TSAN
extern "C" const char* __tsan_default_options() { return "exitcode=99:halt_on_error=1:die_after_fork=0:history_size=3:report_thread_leaks=0:report_destroy_locked=0"; }
#endif
