// A user-supplied reference counter with nothing but the documented customisation points: no constructors, no
// copies, no moves, no std::shared_ptr underneath. It checks its own protocol: every handle is constructed once and destroyed
// once, is never used before or after, and every block is released exactly once, by its last handle.
#pragma once
#include "../mc.hpp"
#include <dart.h>
namespace trk {
struct Stats { long handles = 0, blocks = 0, made = 0, copies = 0, moves = 0; };
inline Stats& stats() { static thread_local Stats s; return s; }
struct Block { long count; void const* p; void (*kill)(Block*); virtual ~Block() {} };
template <class T> struct Owned : Block { union { T v; }; Owned() {} ~Owned() {} };
template <class U, class D> struct Taken : Block { U* u; std::decay_t<D> d; template <class E> Taken(U* u, E&& e) : u(u), d(std::forward<E>(e)) {} };
enum : uint64_t { kLive = 0xfeedfacecafe1234ull, kDead = 0xdeaddeaddeaddeadull };
}
template <class T> struct tracked_ptr {
  tracked_ptr() = delete; tracked_ptr(tracked_ptr const&) = delete; tracked_ptr(tracked_ptr&&) = delete;
  trk::Block* b; uint64_t magic;
  ~tracked_ptr() { if (magic != trk::kLive) mc::fail("counter protocol", "a reference counter is destroyed which is not alive"); drop(); magic = trk::kDead; --trk::stats().handles; }
  void check(char const* what) const { if (magic != trk::kLive) mc::fail("counter protocol", std::string("a reference counter which is not alive is ") + what); }
  void drop() { auto* x = b; b = nullptr; if (!x) return; if (x->count <= 0) mc::fail("counter protocol", "a block is released more often than it is held"); if (--x->count == 0) { --trk::stats().blocks; x->kill(x); } }
  static void born(tracked_ptr* that, trk::Block* b) { new(that) tracked_ptr {b, trk::kLive}; ++trk::stats().handles; }
};
namespace dart { namespace refcount {
template <class T> struct element_type<tracked_ptr<T>> { using type = T; };
template <class T> struct construct<tracked_ptr<T>> {
  template <class... A> static void perform(tracked_ptr<T>* that, A&&... a) {
    std::unique_ptr<trk::Owned<T>> o(new trk::Owned<T>); o->count = 1; o->kill = [] (trk::Block* b) { auto* o = static_cast<trk::Owned<T>*>(b); o->v.~T(); delete o; }; new(&o->v) T(std::forward<A>(a)...); o->p = &o->v; tracked_ptr<T>::born(that, o.release()); ++trk::stats().blocks; ++trk::stats().made;
  }
};
template <class T> struct take<tracked_ptr<T>> {
  template <class D> static void perform(tracked_ptr<T>* that, std::nullptr_t, D&&) noexcept { tracked_ptr<T>::born(that, nullptr); }
  template <class U, class D> static void perform(tracked_ptr<T>* that, U* u, D&& d) {
    using K = trk::Taken<U, D>; trk::Block* b; try { b = new K(u, std::forward<D>(d)); } catch (...) { d(u); throw; }
    b->count = 1; b->p = u; b->kill = [] (trk::Block* b) { auto* k = static_cast<K*>(b); k->d(k->u); delete k; }; tracked_ptr<T>::born(that, b); ++trk::stats().blocks; ++trk::stats().made;
  }
};
template <class T> struct copy<tracked_ptr<T>> { static void perform(tracked_ptr<T>* that, tracked_ptr<T> const& o) noexcept { o.check("copied"); if (o.b) ++o.b->count; tracked_ptr<T>::born(that, o.b); ++trk::stats().copies; } };
template <class T> struct move<tracked_ptr<T>> { static void perform(tracked_ptr<T>* that, tracked_ptr<T>&& o) noexcept { o.check("moved from"); auto* b = o.b; o.b = nullptr; tracked_ptr<T>::born(that, b); ++trk::stats().moves; } };
template <class T> struct unwrap<tracked_ptr<T>> { static T* perform(tracked_ptr<T> const& o) noexcept { o.check("read"); if (!o.b) return nullptr; if (o.b->count <= 0) mc::fail("counter protocol", "a released block is read"); return static_cast<T*>(const_cast<void*>(o.b->p)); } };
template <class T> struct use_count<tracked_ptr<T>> { static size_t perform(tracked_ptr<T> const& o) noexcept { o.check("counted"); return o.b ? o.b->count : 0; } };
template <class T> struct reset<tracked_ptr<T>> { static void perform(tracked_ptr<T>& o) noexcept { o.check("reset"); o.drop(); } };
}}
