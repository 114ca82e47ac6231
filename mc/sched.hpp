// A controlled scheduler: threads are fibers of one OS thread, and run until a scheduling point, where the
// explorer chooses who goes on. Every schedule with at most `bound` preemptions is one execution.
// Built without ThreadSanitizer instrumentation even in the race-detecting build, where the switches between
// threads are announced as carrying no synchronisation: the only happens-before edges are the library's own.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
void run(std::vector<std::function<void()>> const& threads, int bound);   // bound < 0: unbounded
void point();                      // scheduling point (no effect outside of threads)
bool running();                    // inside a thread?
int self();                        // its number
uint64_t points();                 // scheduling points passed in the current execution
void complain(char const* what);   // a violation, reported at the end of run(): usable where nothing may be thrown

// The integer the library's counted pointer counts in, with a scheduling point before every operation.
void loaded(void const* at);       // the calling thread has read the counter at this address without ordering
void fence();                      // an acquire fence: what it read then is ordered from here on
struct Counter {
  std::atomic<int64_t> v; bool mine;      // counters born inside a thread never leave it: no points
  Counter(int64_t n) : v(n), mine(running()) {}
  Counter(Counter const&) = delete;
  void pt() const { if (!mine) point(); }
  int64_t up(int64_t old) { if (old <= 0) complain("a reference is taken to something already released"); return old; }
  int64_t down(int64_t old) { if (old <= 0) complain("a reference is released which is not held"); return old; }
  int64_t fetch_add(int64_t n, std::memory_order o = std::memory_order_seq_cst) { pt(); return n > 0 ? up(v.fetch_add(n, o)) : down(v.fetch_add(n, o)); }
  int64_t fetch_sub(int64_t n, std::memory_order o = std::memory_order_seq_cst) { pt(); return down(v.fetch_sub(n, o)); }
  int64_t operator ++() { return fetch_add(1) + 1; }
  int64_t operator ++(int) { return fetch_add(1); }
  int64_t operator --() { return fetch_sub(1) - 1; }
  int64_t operator --(int) { return fetch_sub(1); }
  int64_t operator +=(int64_t n) { return fetch_add(n) + n; }
  int64_t operator -=(int64_t n) { return fetch_sub(n) - n; }
  int64_t load(std::memory_order o = std::memory_order_seq_cst) const { pt(); return v.load(o); }
  operator int64_t() const { return load(); }
  void store(int64_t n, std::memory_order o = std::memory_order_seq_cst) { pt(); v.store(n, o); }
  int64_t operator =(int64_t n) { store(n); return n; }
  int64_t exchange(int64_t n, std::memory_order o = std::memory_order_seq_cst) { pt(); return v.exchange(n, o); }
  bool compare_exchange_strong(int64_t& e, int64_t d, std::memory_order o = std::memory_order_seq_cst) { pt(); return v.compare_exchange_strong(e, d, o); }
  bool compare_exchange_weak(int64_t& e, int64_t d, std::memory_order o = std::memory_order_seq_cst) { pt(); return v.compare_exchange_strong(e, d, o); }
  bool compare_exchange_strong(int64_t& e, int64_t d, std::memory_order s, std::memory_order f) { pt(); return v.compare_exchange_strong(e, d, s, f); }
  bool compare_exchange_weak(int64_t& e, int64_t d, std::memory_order s, std::memory_order f) { pt(); return v.compare_exchange_strong(e, d, s, f); }
};
// The same with the guarantees of std::shared_ptr: reading the count orders nothing by itself.
struct RelaxedCounter : Counter {
  using Counter::Counter; using Counter::operator =;
  int64_t load(std::memory_order = std::memory_order_relaxed) const { pt(); auto n = v.load(std::memory_order_relaxed); loaded(&v); return n; }
  operator int64_t() const { return load(); }
};
}
