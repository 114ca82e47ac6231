// Bounded exhaustive explorer.
//
// A "space" is a deterministic function of the answers given by choose(n).  The explorer enumerates every
// complete sequence of answers (depth first, stateless: each execution re-runs the body from scratch on the
// real library), partitioned over forked worker processes.  The body compares the library with a reference
// model after every step and calls fail() on disagreement; crashes, sanitizer reports, std::terminate, leaks
// and hangs are attributed to the execution that was running and become violations as well.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string sig, msg; };

struct Space {
  std::string name;      // identifies the space in replay files
  std::string bounds;    // human readable: alphabet + bound
  void (*body)();
  int split;             // number of leading choices that are partitioned over the workers
  bool leak_check;
};

// Registration (static objects in harness translation units).
struct Reg { Reg(const char* name, const char* bounds, void (*body)(), int split = 2, bool leak_check = true); };

#define MC_SPACE_X(id, name, bounds, split, leak)                     \
  static void mc_body_##id();                                         \
  static ::mc::Reg mc_reg_##id(name, bounds, &mc_body_##id, split, leak); \
  static void mc_body_##id()
#define MC_SPACE(id, name, bounds) MC_SPACE_X(id, name, bounds, 2, true)

// ---- API for bodies ----
int choose(int n);                       // nondeterministic choice in [0, n)
template <class C> auto const& pick(C const& c) { return c[choose((int) c.size())]; }
template <class T, size_t N> T const& pick(T const (&c)[N]) { return c[choose((int) N)]; }
bool flip();                             // choose(2) == 1
bool thorough();
bool noting();                           // true when the trace is being recorded for a human
void note_str(std::string const& s);     // append one line to the trace
void step(uint64_t n = 1);               // count transitions (operations performed on the implementation)
void state(uint64_t h);                  // count distinct (model) states / outcomes
void nontrivial();                       // the current execution exercised the interesting case
[[noreturn]] void fail(std::string sig, std::string msg);
[[noreturn]] void prune();               // abandon this execution (not counted): infeasible choice
void hold(void* p);                      // opaque sink

#define MC_NOTE(expr) do { if (::mc::noting()) ::mc::note_str(expr); } while (0)
#define MC_CHECK(cond, sig, msg) do { if (!(cond)) ::mc::fail((sig), (msg)); } while (0)

inline uint64_t fnv(void const* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto* b = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull; a ^= a >> 32; return a;
}
inline uint64_t hash_str(std::string const& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// Printable rendering of arbitrary bytes.
std::string show(std::string const& s, size_t max = 40);

// ---- allocation fault injection / accounting (mc_alloc.cpp, linked into every harness) ----
extern thread_local long long alloc_fail_at;   // < 0: never; otherwise countdown, allocation number 0 fails
extern thread_local long long alloc_seen;      // allocations seen since reset
size_t live_bytes();                           // bytes currently allocated, as seen by the sanitizer runtime

struct NoFault { long long saved; NoFault() : saved(alloc_fail_at) { alloc_fail_at = -1; } ~NoFault() { alloc_fail_at = saved; } };

}
